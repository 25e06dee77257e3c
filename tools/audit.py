"""Soundness audit of the prover (a development tool; not part of any check).

Every step the prover accepts while it runs the tasks of a property - an entailment, a normalisation, a proved goal -
is evaluated on random small inputs that satisfy its hypotheses.  A step that is false on one of them is reported.

    python3-vt tools/audit.py PROP [seconds per task]"""
import os
import random
import sys
import time
from concurrent.futures import ProcessPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(100000)


def audit(task, secs=120):
    from vc import prove, tasks, order
    from vc.terms import bounds, subterms, TRUE, mk
    from vc.sample import Samples, local
    from vc.evalt import Env
    t_end = time.time() + secs
    rnd = random.Random(5)
    state = dict(n=0, bad=[], S=None, world=None, busy=False, hit=0)
    INEXACT = ("sqrt", "exp", "floor", "log")

    def exact(ts):
        return not any(subterms(t, lambda u: u.op in INEXACT) for t in ts)

    def envs(P, ts):
        key = tuple(h.id for h in P.world)
        if state["world"] != key:
            state["world"], state["S"] = key, None
        S = state["S"]
        from vc.sample import variables
        need = set()
        for t in ts:
            need |= {v for v in variables(t) if not local(v)}
        if S is None or not need <= set(S.params):
            S = state["S"] = Samples(P.world, list(ts) + (S.terms if S is not None else []), count=5, seed=rnd.randint(0, 10 ** 6),
                                     envelope=None)
            S.terms = list(ts)
        return S.envs

    def holds(P, hyps, claims, what):
        """claims: functions (env, loc) -> bool"""
        if state["busy"] or time.time() > t_end or P.envelope:
            return
        state["busy"] = True
        try:
            hs = list(hyps) + list(P.world)
            ts = hs + [t for t in claims]
            if not exact(ts):
                return
            loc = sorted({v for t in ts for v in t.fv}, key=lambda v: v.data[0])
            if any(v.sort != "I" for v in loc):
                return
            ok = 0
            for e in envs(P, ts):
                for _ in range(6 if loc else 1):
                    l = {}
                    for v in loc:
                        b = bounds(v)[0]
                        l[v] = rnd.randint(b if b is not None else -4, e.n)
                    l["$memo"] = {}
                    try:
                        if not all(e.ev(h, l) for h in hs):
                            continue
                        ok += 1
                        vals = [e.ev(c, l) for c in claims]
                    except (KeyError, NotImplementedError, ArithmeticError, TypeError, RecursionError, OverflowError, ValueError):
                        continue
                    if any(isinstance(v, float) for v in vals):
                        continue
                    good = vals[0] if len(vals) == 1 else vals[0] == vals[1]
                    if not good and len(state["bad"]) < 6:
                        state["bad"].append((what, [str(c)[:300] for c in claims], [str(h)[:150] for h in hs][:8],
                                             {str(k): str(v) for k, v in e.env.items()}, {str(k): v for k, v in l.items() if k != "$memo"}, vals))
                        return
            state["n"] += 1
            state["hit"] += ok > 0
        finally:
            state["busy"] = False

    E, NM, PV = prove.Prover.entails, prove.Prover._norm, prove.Prover.prove

    def entails(self, ctx, cond, *a, **k):
        known = ctx.ent.get(cond.id, 0)
        r = E(self, ctx, cond, *a, **k)
        if r is True and known != True and cond is not TRUE:
            holds(self, ctx.hyps, [cond], "entails")
        return r

    def norm(self, t, ctx):
        r = NM(self, t, ctx)
        if r is not t and rnd.random() < 0.5:
            holds(self, ctx.hyps, [t, r], "norm")
        return r

    def prv(self, goal, hyps, *a, **k):
        r = PV(self, goal, hyps, *a, **k)
        if r is True:
            holds(self, hyps, [goal], "prove")
        return r
    prove.Prover.entails, prove.Prover._norm, prove.Prover.prove = entails, norm, prv
    LE = order.Order.le

    def ole(self, p, ctx, *a, **k):
        r = LE(self, p, ctx, *a, **k)
        if r and p.op != "c" and rnd.random() < 0.3:
            holds(self.P, ctx.hyps, [mk("le0", (p,), "B")], "order")
        return r
    order.Order.le = ole
    try:
        r = tasks.run(task)
    except BaseException as ex:
        return task, state["n"], state["hit"], state["bad"], repr(ex)[:200]
    return task, state["n"], state["hit"], state["bad"], r["error"]


def job(a):
    task, secs = a
    # a fresh process per task: the tables of the prover are global
    import multiprocessing as mp
    q = mp.Queue()

    def run():
        q.put(audit(task, secs))
    p = mp.Process(target=run)
    p.start()
    try:
        r = q.get(timeout=secs * 4 + 300)
    except Exception:
        r = task, 0, 0, [], "no answer"
    p.terminate()
    return r


def main():
    from vc import tasks
    secs = int(sys.argv[2]) if len(sys.argv) > 2 else 120
    tot = hit = 0
    for prop in sys.argv[1].split(","):
        plan = tasks.plan(prop)
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(int(os.environ.get("AUDIT_JOBS", "7"))) as ex:
            for task, n, h, bad, err in ex.map(job, [(t, secs) for t in plan]):
                tot, hit = tot + n, hit + h
                if err or bad:
                    print(task, n, h, "ERR" if err else "", str(err)[:200] if err else "")
                for b in bad:
                    print("  FALSE", b[0], b[1], "| hyps", b[2], "| env", b[3], b[4], "| values", [str(v)[:60] for v in b[5]])
        print(prop, "steps", tot, "evaluated on some input", hit, flush=True)


if __name__ == "__main__":
    main()
