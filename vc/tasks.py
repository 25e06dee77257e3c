"""Proof obligations, property by property.  A task is (kind, arguments); run(task) returns a list of obligation records:
{"name", "status": proved | failed | unsupported | timeout, "by", "detail", "case"}"""
import sys
import time
import traceback

sys.setrecursionlimit(20000)

from .model import *
from .prove import Prover, Ctx
from .smt import Oracle
from .evalt import Env
from spec.ind import ENTRIES
from spec.dsl import fill_policy
from spec import laws, api

FORMULA = ("C01", "C02", "C03", "C04", "C05", "C06", "C07")


class Run:
    """state shared by the obligations of one task"""

    def __init__(self):
        self.loader, self.oracle, self.S, self.P = Loader(), Oracle(), spec_inputs(), Prover()
        self.obs = []
        self.functions = set()
        self.done = set()

    def world(self, hyps):
        """from here on every goal has these hypotheses; those over parameters and the length also hold inside definitions"""
        w = [h for x in hyps for h in (x.args if x.op == "and" else [x]) if not h.fv and not h.fs and h is not TRUE]
        if {h.id for h in w} != {h.id for h in self.P.world}:
            self.P = Prover(w)
            Ctx.tab.clear()

    def add(self, name, ok, t0, detail=None, case=None, by=None):
        self.obs.append(dict(name=name, status="proved" if ok else "failed", secs=round(time.time() - t0, 3),
                             by=by or (self.P.why if ok and isinstance(self.P.why, str) else None), detail=detail, case=case))

    def goal(self, name, goal, hyps, entry=None, cfg=None, fill=False, **kw):
        t0 = time.time()
        self.P.why = "normalisation"
        ok = self.P.prove(goal, hyps, **kw) is True
        detail = case = None
        if not ok and isinstance(self.P.why, tuple):
            g, ctx = self.P.why
            detail = ("residual: " + str(g)[:600] + " | under: " + str(ctx.hyps)[:400])
            if entry is not None:
                case = counterexample(self.P, g, ctx, entry, cfg, fill)
        self.add(name, ok, t0, detail, case)
        return ok

    def equal(self, name, u, v, hyps, **kw):
        t0 = time.time()
        if u is v:
            self.add(name, True, t0, by="identical terms")
            return True
        hyps = self.P.assume(hyps)
        ctx = Ctx.of(hyps)
        nu, nv = self.P.norm(u, ctx), self.P.norm(v, ctx)
        if nu is nv:
            self.add(name, True, t0, by="normalisation")
            return True
        return self.goal(name, eq(nu, nv), hyps, **kw)


def counterexample(P, g, ctx, entry, cfg, fill):
    """a candidate input from the solver's model of the residual goal (to be replayed on the real code)"""
    import z3
    try:
        s = z3.Solver()
        s.set("rlimit", 20000000)
        s.set("timeout", 5000)
        z = P.zn
        hs = list(ctx.hyps) + [not_(g)]
        facts = P.gather(hs, 2)
        for h in hs + facts:
            s.add(z(h))
        s.add(z(N) <= 40, z(N) >= 1)
        for nm, sp in entry.params.items():
            if sp.kind == "I":
                s.add(z(var(nm, "I")) <= 8)
        if s.check() != z3.sat:
            return None
        m = s.model()

        def val(t):
            r = m.eval(z(t), model_completion=True)
            if z3.is_int_value(r):
                return r.as_long()
            if z3.is_rational_value(r):
                return float(r.as_fraction())
            if z3.is_algebraic_value(r):
                return float(r.approx(12).as_fraction())
            return None
        n = val(N)
        data = {k: {} for k in PRICE}
        for u in subterms_many(hs + facts, lambda u: u.op == "app" and u.data.kind == "input" and not (u.fv & set())):
            i, v = val(u.args[0]), val(u)
            if i is not None and v is not None and 0 <= i < n:
                data[u.data.name][i] = v
        params = {}
        for nm, sp in entry.params.items():
            if sp.kind == "flag":
                x = cfg[1][nm]
                params[nm] = val(x) if hasattr(x, "op") else x
            else:
                params[nm] = val(var(nm, sp.kind))
        return dict(n=n, data={k: {str(i): v for i, v in d.items()} for k, d in data.items()}, params=params, cls=entry.cls, fill=fill)
    except Exception:
        return None


def subterms_many(ts, pred):
    seen, out = set(), []
    for t in ts:
        out.extend(subterms(t, pred, seen))
    return out


def spec_values(R, entry, cfg, fill):
    out = {}
    for a, q in entry.fn(R.S, cfg[1], fill).items():
        if fill and entry.out[a] is not None:
            q = fill_policy(q, R.S.close if entry.out[a] == "close" else entry.out[a])
        out[a] = q(TV)
    return out


def cname(entry, cfg, fill, a=None):
    s = f"ta.{entry.module}.{entry.cls}" + (f".{a}" if a else "") + f"[fillna={fill}"
    return s + ("," + cfg[0].strip().replace(" ", ",") if cfg[0] else "") + "]"


def t_formula(R, cls, ci, fill):
    """every output equals its specification, for every row, series length and parameter"""
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    ls = list(leaves(run_class(R.loader, e, cfg, fill, R.oracle)))
    spec = spec_values(R, e, cfg, fill)
    for j, (pc, l) in enumerate(ls):
        path = f" path {j + 1}" if len(ls) > 1 else ""
        if l.kind == "raise":
            R.goal(cname(e, cfg, fill) + f": no exception ({type(l.val).__name__}: {str(l.val)[:80]}){path}", FALSE,
                   list(pc) + e.pre(N, cfg[1]), entry=e, cfg=cfg, fill=fill)
            continue
        R.world(list(pc) + e.pre(N, cfg[1]))
        for a, r in l.val.items():
            base = [lt(TV, N)] + list(pc) + e.pre(N, cfg[1])
            x, y = r.val, spec[a]
            nm = cname(e, cfg, fill, a)
            kw = dict(entry=e, cfg=cfg, fill=fill)
            R.goal(f"{nm}: number of rows{path}", eq(r.n, N), list(pc) + e.pre(N, cfg[1]), **kw) if r.n is not N else R.add(f"{nm}: number of rows{path}", True, time.time(), by="identical terms")
            R.equal(f"{nm}: missing exactly where specified{path}", x.nan, y.nan, base, **kw)
            R.equal(f"{nm}: +inf exactly where specified{path}", x.pi, y.pi, base, **kw)
            R.equal(f"{nm}: -inf exactly where specified{path}", x.ni, y.ni, base, **kw)
            R.equal(f"{nm}: value as specified{path}", x.v, y.v, base + [and_(x.fin, y.fin)], **kw)


def plan(prop):
    if prop in FORMULA or prop == "C14":
        return [("formula", cls, ci, prop == "C14") for cls, e in ENTRIES.items() if prop == "C14" or e.prop == prop
                for ci in range(len(configs(e)))]
    from . import props
    return props.plan(prop)


HEAVY = ["ADXIndicator", "PSARIndicator", "KeltnerChannel", "MFIIndicator", "StochRSIIndicator"]


def run(task):
    """one task in a fresh state"""
    t0 = time.time()
    R = Run()
    err = None
    try:
        from . import props
        (globals().get("t_" + task[0]) or getattr(props, "t_" + task[0]))(R, *task[1:])
    except Unsupported as ex:
        err = ("unsupported", f"{ex}"[:300])
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-3:]
        err = ("unsupported", f"{type(ex).__name__}: {str(ex)[:200]} @ " + "; ".join(f"{x.filename.rsplit('/', 1)[-1]}:{x.lineno}" for x in tb))
    except RecursionError:
        err = ("unsupported", "recursion limit")
    return dict(task=list(task), obligations=R.obs, error=err, secs=round(time.time() - t0, 2),
                queries=R.P.stats.queries, unknown=R.P.stats.unknown, solver_s=round(R.P.stats.time + R.oracle.time, 2))
