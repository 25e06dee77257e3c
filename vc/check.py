"""Check of one property: python3-vt -m vc.check PROP [quick|thorough]

1. obligations generated from /repo's current source are discharged (proof stage);
2. the real library runs on generated inputs and on the solver's candidate counterexamples (replay / bounded stage).
Exit 0: held.  Exit 1: VIOLATION line(s)."""
import json
import multiprocessing as mp
import os
import subprocess
import sys
import time

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
REPO = os.environ.get("VC_REPO", "/repo")
REAL = "/opt/venv/bin/python"


def child(task, conn):
    import resource
    try:
        resource.setrlimit(resource.RLIMIT_STACK, (resource.RLIM_INFINITY, resource.RLIM_INFINITY))
    except Exception:
        pass
    import threading
    threading.stack_size(512 * 1024 * 1024)
    res = []

    def go():
        from vc import tasks
        res.append(tasks.run(task))
    th = threading.Thread(target=go)
    th.start()
    th.join()
    conn.send(res[0] if res else None)
    conn.close()


def prove_all(plan, limit, deadline, jobs):
    """every task in its own process, with a time limit"""
    ctx = mp.get_context("fork")
    todo = list(enumerate(plan))
    running, out = {}, {}
    while todo or running:
        while todo and len(running) < jobs and time.time() < deadline:
            i, t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=child, args=(t, b), daemon=True)
            p.start()
            b.close()
            running[i] = (p, a, time.time(), t)
        if time.time() >= deadline:
            for i, t in todo:
                out[i] = dict(task=list(t), obligations=[], error=("timeout", "not started before the deadline"), secs=0, queries=0, unknown=0, solver_s=0)
            todo = []
        for i, (p, a, t0, t) in list(running.items()):
            r = False
            if a.poll(0.02):
                try:
                    r = a.recv()
                except EOFError:
                    r = None
            elif not p.is_alive():
                r = None
            if r is False and (time.time() - t0 > limit or time.time() > deadline + 20):
                p.kill()
                r = "late"
            if r is not False:
                p.join(5)
                if r is None or r == "late":
                    err = ("timeout", f"stopped after {time.time() - t0:.0f} s") if r == "late" else ("unsupported", "the prover process ended")
                    r = dict(task=list(t), obligations=[], error=err, secs=round(time.time() - t0, 1), queries=0, unknown=0, solver_s=0)
                out[i] = r
                del running[i]
    return [out[i] for i in sorted(out)]


def concrete(prop, tier, seed, secs, extra=None, only=()):
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, f".{prop}.concrete.json")
    if os.path.exists(out):
        os.unlink(out)
    args = [REAL, "-m", "concrete.main", prop, tier, str(seed), out, str(secs)]
    if extra:
        f = os.path.join(d, f".{prop}.extra.json")
        json.dump(extra, open(f, "w"))
        args = [REAL, "-m", "concrete.replay", "--cases", prop, f, out]
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VC_REPO=REPO, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
               CONCRETE_ONLY=",".join(only))
    p = subprocess.run(args, cwd=HERE, env=env, capture_output=True, text=True, timeout=secs + 120)
    if not os.path.exists(out):
        return dict(results=[], crash=(p.stderr or p.stdout)[-600:])
    r = json.load(open(out))
    os.unlink(out)
    return r


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    t0 = time.time()
    jobs = os.cpu_count() or 4
    from vc import tasks
    from spec import meta
    if tier not in ("quick", "thorough"):
        tier = "quick"
    budget = 760 if tier == "quick" else 3000
    conc = concrete(prop, tier, seed, 150 if tier == "quick" else 900)
    fails = [f for r in conc["results"] for f in r["failures"]]
    plan = tasks.plan(prop)
    plan.sort(key=lambda t: (0 if any(h in t for h in tasks.HEAVY) else 1))
    limit = 420 if tier == "quick" else 1500
    if fails:
        budget, limit = 240, 150      # already decided: the proof stage only documents the obligation that fails
    res = prove_all(plan, limit, t0 + budget, jobs)
    obs = [dict(o, task=r["task"]) for r in res for o in r["obligations"]]
    undone = [r for r in res if r["error"]]
    bounded = meta.bounded()
    failed = [o for o in obs if o["status"] != "proved"]
    open_known = [o for o in failed if o["status"] == "timeout" or meta.is_bounded(o["name"], bounded)]
    newly = [o for o in failed if o not in open_known]
    # replay of the solver's candidate inputs
    replayed = 0
    cands = [o["case"] for o in newly if o.get("case")]
    if cands and not fails:
        r2 = concrete(prop, tier, seed, 120, cands)
        fails += [f for r in r2["results"] for f in r["failures"]]
        replayed = sum(r["cases"] for r in r2["results"])
    if newly and not fails:
        # a deeper search for a failing input, with other seeds
        import re
        only = sorted({w for o in newly for w in re.findall(r"\w+", o["name"])})
        for k in (1, 2, 3):
            r2 = concrete(prop, tier, seed + 1000 * k, 100, only=only)
            fails += [f for r in r2["results"] for f in r["failures"]]
            conc["results"] += r2["results"]
            if fails or time.time() - t0 > 700:
                break
    conform = None
    if tier == "thorough":
        try:
            p = subprocess.run([sys.executable, "-m", "conformance.run"], cwd=HERE, capture_output=True, text=True, timeout=300)
            conform = (p.stdout or p.stderr).splitlines()[:12]
        except subprocess.TimeoutExpired:
            conform = ["not finished in 300 s"]
    rc = report(prop, tier, seed, t0, res, obs, undone, newly, open_known, conc, fails, replayed, conform)
    sys.exit(rc)


def report(prop, tier, seed, t0, res, obs, undone, newly, open_known, conc, fails, replayed, conform=None):
    from spec import meta
    rdir = os.path.join(HERE, "replay")
    os.makedirs(rdir, exist_ok=True)
    lines, rc = [], 0
    seen = set()
    for f in fails:
        key = (f["case"].get("fn") or f["case"].get("cls"), f["accessor"])
        if key in seen:
            continue
        seen.add(key)
        path = os.path.join(rdir, f"{prop}-{len(seen)}.json")
        named = [o["name"] for o in newly if key[0] in o["name"]][:5]
        json.dump(dict(f, failed_obligations=named, how="/opt/venv/bin/python -m concrete.replay FILE   (run in /verif)"), open(path, "w"), indent=1)
        print(f"  {key[0]}.{f['accessor']}: {f['what']}; row {f['row']}: got {f['got']}, expected {f['want']}; params {f['case'].get('params')}; obligations failed: {named[:2]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
        rc = 1
        if len(seen) >= 4:
            break
    if newly and not fails:
        path = os.path.join(rdir, f"{prop}-obligations.json")
        json.dump([dict(name=o["name"], verifier_output=o["detail"], candidate=o["case"]) for o in newly], open(path, "w"), indent=1)
        for o in newly[:8]:
            print("  not discharged:", o["name"])
        lines.append(f"VIOLATION property={prop} replay={path} no-failing-input-found")
        rc = 1
    for l in lines:
        print(l)
    by = {}
    for o in obs:
        if o["status"] == "proved":
            by[o["by"] or "solver"] = by.get(o["by"] or "solver", 0) + 1
    cases = sum(r["cases"] for r in conc["results"])
    judged = sum(r["judged"] for r in conc["results"])
    errs = [dict(group=r["group"], error=r["error"]) for r in conc["results"] if r["error"]]
    if conc.get("crash"):
        errs.append(dict(group="*", error=conc["crash"]))
    discharged = sum(1 for o in obs if o["status"] == "proved")
    ev = dict(
        property=prop, tier=tier, seed=seed, level=meta.LEVEL.get(prop, "proof"),
        coverage=dict(
            obligations=len(obs) - len(open_known), discharged=discharged,
            checker_cmd=f"python3-vt -m vc.check {prop} {tier}",
            trusted_base=meta.TRUSTED,
            back_ends=by, solver_queries=sum(r["queries"] for r in res), solver_unknown=sum(r["unknown"] for r in res),
            solver_seconds=round(sum(r["solver_s"] for r in res), 1),
            functions_under_contract=sorted({o["name"].split("[")[0].split(":")[0] for o in obs}),
            open_obligations=[o["name"] for o in newly],
            bounded_stand_ins=dict(
                what="functions or obligations outside the verifier's reach on this tree; decided only by the runs counted here, never counted as discharged",
                obligations=[o["name"] for o in open_known],
                not_verified=[dict(task=r["task"], why=r["error"]) for r in undone]),
            evaluations=cases, distinct_nontrivial=judged,
            rule="generated series (walks, ties, flats, trends, swings, integer columns, ...) x parameters around the window sizes and the constants found in the code; non-trivial: a row or call actually compared with the oracle (rows decided by rounding are skipped)",
            contracts_compared_with_pandas=conform or "thorough tier only",
            solver_candidates_replayed=replayed, concrete_errors=errs,
            samples=[o["name"] + " -> " + o["status"] + (f" by {o['by']}" if o["by"] else "") for o in obs[:6]]),
        assumptions=meta.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(lines))
    d = os.path.join(HERE, "evidence")
    os.makedirs(d, exist_ok=True)
    json.dump(ev, open(os.path.join(d, f"{prop}.json"), "w"), indent=1)
    for k in meta.findings(prop):
        print(f"KNOWN-FINDING: property={prop} {k}")
    print(f"{prop} {tier}: {discharged}/{len(obs) + len(undone)} obligations discharged, {len(newly)} failed, {len(open_known)} bounded, "
          f"{len(undone)} tasks outside reach; {cases} cases, {judged} judgements; {time.time() - t0:.0f} s")
    for r in undone:
        print("  bounded only:", r["task"], r["error"][0], r["error"][1][:160])
    for e in errs[:3]:
        print("  concrete stage error:", e["group"], str(e["error"])[:300])
    return rc


if __name__ == "__main__":
    main()
