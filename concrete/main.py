"""Concrete stage: runs the real library (under /opt/venv) on the cases of a property.

usage: python -m concrete.main PROP TIER SEED OUT.json [SECONDS [JOBS]]"""
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def work(a):
    prop, g, tier, seed, deadline, hints, deep = a
    t0 = time.time()
    res = dict(group=g, cases=0, judged=0, failures=[], error=None, complete=True)
    try:
        from concrete import monitors, cases
        cases.HINTS, cases.DEEP = hints, deep
        for c in cases.cases(prop, g, tier, seed):
            if time.time() > deadline:
                res["complete"] = False
                break
            n, f = monitors.check(prop, c)
            res["cases"] += 1
            res["judged"] += n
            if f:
                res["failures"].extend(f)
                if len(res["failures"]) >= 3:
                    break
    except BaseException as e:
        res["error"] = "".join(traceback.format_exception_only(type(e), e))[:400] + " @ " + \
            "; ".join(f"{os.path.basename(x.filename)}:{x.lineno}" for x in traceback.extract_tb(e.__traceback__)[-4:])
    res["secs"] = round(time.time() - t0, 2)
    return res


def main():
    prop, tier, seed, out = sys.argv[1], sys.argv[2], int(sys.argv[3]), sys.argv[4]
    secs = float(sys.argv[5]) if len(sys.argv) > 5 else 120
    jobs = int(sys.argv[6]) if len(sys.argv) > 6 else os.cpu_count()
    from concrete import cases, mine, real
    hints = mine.mine(real.REPO)
    gs = cases.groups(prop)
    # CONCRETE_ONLY: the groups to search for a failing input, each with several seeds
    only = [g for g in os.environ.get("CONCRETE_ONLY", "").split(",") if g in gs]
    todo = [(g, seed + 100 * k) for g in only for k in range(max(1, 8 // len(only)))] if only else [(g, seed) for g in gs]
    dl = time.time() + secs
    with mp.get_context("fork").Pool(min(jobs, len(todo))) as pool:
        rs = pool.map(work, [(prop, g, tier, sd, dl, hints, bool(only)) for g, sd in todo], chunksize=1)
    json.dump(dict(results=rs), open(out, "w"))


if __name__ == "__main__":
    main()
