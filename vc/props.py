"""Obligations of the properties that are not formula properties (C08 - C13, C15 - C20)."""
import inspect
import itertools
import math
import time

from .tasks import *
from .tasks import cname
from . import sym, pd_stub
from .pd_stub import DataFrame, Rows
from .order import Order, OutOfTime
from .units import Units, Mismatch


def entry_leaves(R, e, cfg, fill, kind="f"):
    """(path label, path condition, leaf) of every feasible path; exceptions are obligations of their own"""
    ls = list(leaves(run_class(R.loader, e, cfg, fill, R.oracle, kind)))
    for j, (pc, l) in enumerate(ls):
        path = f" path {j + 1}" if len(ls) > 1 else ""
        if l.kind == "raise":
            R.goal(cname(e, cfg, fill) + f": no exception ({type(l.val).__name__}: {str(l.val)[:80]}){path}", FALSE,
                   list(pc) + e.pre(N, cfg[1]), entry=e, cfg=cfg, fill=fill)
            continue
        R.world(list(pc) + e.pre(N, cfg[1]))
        yield path, list(pc), l


def events(R, name, l, kinds):
    t0 = time.time()
    bad = sorted({f"{ev.kind}: {ev.msg}" for ev in l.events if ev.kind in kinds})
    R.add(name, not bad, t0, detail="; ".join(bad)[:400] or None, by="symbolic execution")


# ------------------------------------------------------------------ C11
def t_index(R, cls, ci, fill):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    sym.LABELS.clear()
    it = entry_leaves(R, e, cfg, fill)
    try:
        head = next(it, None)
    except Unsupported:
        if not sym.LABELS:
            raise
        R.add(cname(e, cfg, fill) + ": no operation depends on index labels", False, time.time(), detail="label: " + "; ".join(sorted(set(sym.LABELS)))[:300])
        return
    for path, pc, l in itertools.chain([head] if head else [], it):
        events(R, cname(e, cfg, fill) + f": no operation depends on index labels{path}", l, ("label",))
        for a, r in l.val.items():
            t0 = time.time()
            nm = cname(e, cfg, fill, a)
            R.add(f"{nm}: carries the input's index{path}", r.index.aligned(IDX), t0, detail=repr(r.index), by="symbolic execution")
            if r.n is N:
                R.add(f"{nm}: one value per input row{path}", True, t0, by="identical terms")
            else:
                R.goal(f"{nm}: one value per input row{path}", eq(r.n, N), pc + e.pre(N, cfg[1]), entry=e, cfg=cfg, fill=fill)


# ------------------------------------------------------------------ C12
def t_pure(R, cls, ci, fill):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    C = getattr(R.loader.module("ta." + e.module), e.cls)
    outs = list(e.out)

    def make():
        kw = {nm: series(nm) for nm in e.inputs}
        kw.update(cfg[2])
        return C(**kw, fillna=fill)

    def run():
        o = make()
        first = {a: freeze(getattr(o, a)()) for a in outs}
        second = {a: freeze(getattr(o, a)()) for a in reversed(outs)}
        alone = {}
        for a in outs:
            alone[a] = freeze(getattr(make(), a)()) if len(outs) > 1 else first[a]
        return first, second, alone
    try:
        ls = list(leaves(explore(run, hyps=e.pre(N, cfg[1]), oracle=R.oracle)))
    except sym.StateWritten as ex:
        R.add(cname(e, cfg, fill) + ": writes no module or class state", False, time.time(), detail=str(ex))
        return
    for j, (pc, l) in enumerate(ls):
        path = f" path {j + 1}" if len(ls) > 1 else ""
        if l.kind == "raise":
            R.goal(cname(e, cfg, fill) + f": no exception ({type(l.val).__name__}: {str(l.val)[:80]}){path}", FALSE,
                   list(pc) + e.pre(N, cfg[1]), entry=e, cfg=cfg, fill=fill)
            continue
        events(R, cname(e, cfg, fill) + f": writes nothing into the caller's data{path}", l, ("mutation",))
        # Loader._frame compares the state before and after every path and refuses the function when it differs
        R.add(cname(e, cfg, fill) + f": writes no module or class state{path}", True, time.time(), by="state before and after the path")
        first, second, alone = l.val
        base = [lt(TV, N)] + list(pc) + e.pre(N, cfg[1])
        for a in outs:
            for what, o in (("a second call in reverse order", second), ("an instance on which only it is called", alone)):
                same_result(R, f"{cname(e, cfg, fill, a)}: same result from {what}{path}", first[a], o[a], base, entry=e, cfg=cfg, fill=fill)


def same_result(R, nm, r, s, base, **kw):
    x, y = r.val, s.val
    if x.parts() == y.parts():
        R.add(nm, True, time.time(), by="identical terms")
        return True
    ok = R.equal(nm + " (missing)", x.nan, y.nan, base, **kw)
    ok &= R.equal(nm + " (+inf)", x.pi, y.pi, base, **kw)
    ok &= R.equal(nm + " (-inf)", x.ni, y.ni, base, **kw)
    ok &= R.equal(nm + " (value)", x.v, y.v, base + [and_(x.fin, y.fin)], **kw)
    return ok


# ------------------------------------------------------------------ C13
def t_nogap(R, cls, ci):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    for path, pc, l in entry_leaves(R, e, cfg, True):
        base = [lt(TV, N)] + pc + e.pre(N, cfg[1])
        for a, r in l.val.items():
            x = r.val
            kw = dict(entry=e, cfg=cfg, fill=True)
            nm = cname(e, cfg, True, a)
            R.goal(f"{nm}: never missing{path}", not_(x.nan), base, **kw)
            R.goal(f"{nm}: never infinite{path}", not_(or_(x.pi, x.ni)), base, **kw)


# ------------------------------------------------------------------ C10
class Causal:
    """every input row a term reads is at or before the current one, and the term does not mention the length"""

    def __init__(self, P):
        self.P, self.recs, self.memo, self.offs = P, {}, set(), {}
        self.why = None
        self.path = []

    def fail(self, why):
        if self.why is None:
            self.why = why + " in " + " < ".join(str(t)[:60] for t in self.path[-3:])
        return False

    def term(self, t, ctx, now):
        if not t.args and t.op != "v":
            return True
        key = (t.id, ctx.key, now.id)
        if key in self.memo:
            return True
        self.path.append(t)
        if not self._term(t, ctx, now):
            return False
        self.path.pop()
        self.memo.add(key)
        return True

    def _term(self, t, ctx, now):
        P = self.P
        if t is N:
            return self.fail("mentions the number of rows")
        o = t.op
        if o == "ite":
            return self.term(t.args[0], ctx, now) and self.term(t.args[1], ctx.plus(t.args[0]), now) and \
                self.term(t.args[2], ctx.plus(not_(t.args[0])), now)
        if o in ("and", "or"):
            c = ctx
            # the rest of a conjunction only matters while the parts before it hold
            for a in sorted(t.args, key=lambda a: (len(a.fs), a.id)):
                if c.false:
                    break
                if not self.term(a, c, now):
                    return False
                c = c.plus(a if o == "and" else not_(a))
            return True
        if o == "app":
            f = t.data
            if f.kind == "input":
                if f.name not in PRICE:
                    return self.fail(f"reads a cell of unspecified content ({f.name})")
                if not P.entails(ctx, le(t.args[0], now)) is True and P.check(list(ctx.hyps) + [lt(now, t.args[0])], P.zl, 1500, 3) != z3unsat:
                    return self.fail(f"reads {f.name} of row {t.args[0]} which may lie after {now}")
                return self.term(t.args[0], ctx, now)
            if f.kind == "rec":
                p = t.args[0]
                if not self.term(p, ctx, now):
                    return False
                for d in self.offsets(f.rec):
                    q = add(p, d)
                    if P.entails(ctx, le(q, now)) is not True and P.check(list(ctx.hyps) + [lt(now, q)], P.zl, 1500, 3) != z3unsat:
                        continue
                    if self.rec(f.rec, d):
                        return True
                return self.fail(f"uses the recurrence at {str(p)[:80]} which may lie after {now}")
            if f.kind == "fold":
                if not all(self.term(a, ctx, now) for a in t.args):
                    return False
                k = kvar_of(f)
                g, b = f.at(t.args, k)
                inner = ctx.plus(le(t.args[0], k), le(k, t.args[1]))
                return self.term(g, inner, now) and (b is None or self.term(b, inner.plus(g), now))
        return all(self.term(a, ctx, now) for a in t.args)

    def offsets(self, rec):
        """rows the steps read, relative to the position of the recurrence"""
        if rec not in self.offs:
            self.offs[rec] = self._offsets(rec)
        return self.offs[rec]

    def _offsets(self, rec):
        i = rec.iv
        out = {ZERO: 0}
        for c in rec.comps:
            for u in subterms(rec.steps[c], lambda u: u.op == "app" and u.data.kind in ("input", "fold")):
                for p in (u.args[:1] if u.data.kind == "input" else u.args[:2]):
                    d = sub(p, i)
                    if not d.fv and p.sort == "I":
                        out[d] = 1
            for u in subterms(rec.steps[c], lambda u: u.op == "app" and u.data.kind == "rec" and u.data.rec is not rec):
                d = sub(u.args[0], i)
                if not d.fv:
                    out.update((add(d, x), 1) for x in self.offsets(u.data.rec))
        return list(out)[:12]

    def rec(self, rec, d=ZERO):
        key = (rec, d)
        if key in self.recs:
            return self.recs[key]
        self.recs[key] = True
        i = rec.iv
        ctx = Ctx.of(self.P.world + [le(rec.lo, i)] + ([lt(i, rec.hi)] if rec.hi is not None else []))
        ok = not subterms(rec.lo, lambda u: u is N) or self.fail("a recurrence starts at a row that depends on the length")
        ok = ok and all(self.term(rec.steps[c], ctx, add(i, d)) for c in rec.comps)
        self.recs[key] = bool(ok)
        return self.recs[key]


import z3 as _z3
z3unsat = _z3.unsat


def kvar_of(f):
    from .prove import kvar
    return kvar(f.depth + 70)


def code_gaps(R, e, cfg, a, q):
    """the unfilled result as the code computes it, when its gaps are provably those of the specification q"""
    try:
        lv = list(leaves(run_class(R.loader, e, cfg, False, R.oracle, accessors=[a])))
    except sym.Unsupported:
        return q
    if len(lv) == 1 and not lv[0][0] and lv[0][1].kind == "return":
        r = lv[0][1].val[a]
        if R.P.prove(iff(r.val.fin, q(TV).fin), R.P.world + [lt(TV, N)]) is True:
            return r.seq
    return q


def t_causal(R, cls, ci, fill):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    for path, pc, l in entry_leaves(R, e, cfg, fill):
        for a, r in l.val.items():
            base = [lt(TV, N)] + pc + e.pre(N, cfg[1])
            x = r.val
            nm = cname(e, cfg, fill, a)
            if fill and e.out[a] == -1:
                # leading gaps are filled from later rows by documentation
                q = e.fn(R.S, cfg[1], True)[a]
                if any(f.kind == "rec" for f in q(TV).nan.fs):
                    q = code_gaps(R, e, cfg, a, q)
                L = gfold("lastidx", ZERO, TV, lambda k: q(k).fin)
                base.append(R.P.norm(ge(L, ZERO), Ctx.of(base)))
            C = Causal(R.P)
            for what, p in (("gaps depend", x.nan), ("+inf depends", x.pi), ("-inf depends", x.ni), ("value depends", x.v)):
                t0 = time.time()
                hy = base if what != "value depends" else base + [x.fin]
                ctx = Ctx.of(hy)
                C.why, C.path = None, []
                q = R.P.norm(p, ctx)
                ok = C.term(q, ctx, TV)
                R.add(f"{nm}: {what} on rows up to the current one only{path}", ok, t0, detail=C.why, by="read positions (linear arithmetic)")


# ------------------------------------------------------------------ C15
def t_function(R, fn, fill):
    spec = api.FUNCTIONS[fn]
    mod, cls, acc, defaults = spec[:4]
    fixed = spec[4] if len(spec) > 4 else {}
    e = ENTRIES[cls]
    M = R.loader.module("ta." + mod)
    f = getattr(M, fn, None)
    nm = f"ta.{mod}.{fn}[fillna={fill}]"
    if f is None:
        R.add(f"{nm}: exists", False, time.time(), detail="missing from the module")
        return
    C = getattr(M, cls)
    if not fill:
        t0 = time.time()
        ps = {k: p.default for k, p in inspect.signature(f).parameters.items()}
        want = {**{k: inspect.Parameter.empty for k in e.inputs}, **defaults, "fillna": False}
        have = {k: unwrap(v) for k, v in ps.items() if k in want}
        bad = [f"{k}: {have.get(k, 'absent')} instead of {w}" for k, w in want.items() if k not in have or have[k] is not w and not (type(w) is not type and have[k] == w)]
        R.add(f"{nm}: published parameters and defaults", not bad, t0, detail="; ".join(bad)[:300] or None, by="signature")
        if not any(o in R.done for o in [cls]):
            R.done.add(cls)
            t0 = time.time()
            ps = {k: unwrap(p.default) for k, p in inspect.signature(C).parameters.items()}
            want = {k: s.default for k, s in e.params.items() if s.default is not None}
            bad = [f"{k}: {ps.get(k, 'absent')} instead of {w}" for k, w in want.items() if k not in ps or not ps[k] == w]
            if unwrap(ps.get("fillna")) is not False:
                bad.append("fillna")
            R.add(f"ta.{mod}.{cls}: published defaults of the constructor", not bad, t0, detail="; ".join(bad)[:300] or None, by="signature")
    for cfg in configs(e):
        spp = {k: v for k, v in cfg[1].items()}
        code = dict(cfg[2])
        # parameters the function does not take keep the fixed value
        given = {k: v for k, v in code.items() if k in defaults}
        full = {**code, **fixed}
        pre = e.pre(N, {**spp, **fixed})

        def run():
            a = freeze(f(**{k: series(k) for k in e.inputs}, **given, fillna=fill))
            b = freeze(getattr(C(**{k: series(k) for k in e.inputs}, **{k: v for k, v in full.items() if k in given or k in fixed}, fillna=fill), acc)())
            return a, b
        ls = list(leaves(explore(run, hyps=pre, oracle=R.oracle)))
        for j, (pc, l) in enumerate(ls):
            path = f" path {j + 1}" if len(ls) > 1 else ""
            lab = cfg[0].strip()
            lab = f" ({lab})" if lab else ""
            if l.kind == "raise":
                R.goal(f"{nm}: no exception{lab}{path}", FALSE, list(pc) + pre, entry=e, cfg=cfg, fill=fill)
                continue
            same_result(R, f"{nm}: equals {cls}.{acc}{lab}{path}", l.val[0], l.val[1], [lt(TV, N)] + list(pc) + pre)


def unwrap(v):
    if isinstance(v, (sym.SF,)) and isc(v.e.v):
        x = v.e.v.data
        return int(x) if x.denominator == 1 else float(x)
    if isinstance(v, sym.SI) and isc(v.t):
        return v.t.data
    return v


# ------------------------------------------------------------------ C16
GROUPS = {
    "add_volume_ta": (api.VOLUME, ("high", "low", "close", "volume")),
    "add_volatility_ta": (api.VOLATILITY, ("high", "low", "close")),
    "add_trend_ta": (api.TREND, ("high", "low", "close")),
    "add_momentum_ta": (api.MOMENTUM, ("high", "low", "close", "volume")),
    "add_others_ta": (api.OTHERS, ("close",)),
    "add_all_ta_features": ({**api.VOLUME, **api.VOLATILITY, **api.TREND, **api.MOMENTUM, **api.OTHERS},
                            ("open", "high", "low", "close", "volume")),
}
COLS = {"open": "O p", "high": "H p", "low": "L p", "close": "C p", "volume": "V p"}


def t_wrapper(R, fn, fill, vec):
    table, ins = GROUPS[fn]
    M = R.loader.module("ta")
    W = R.loader.module("ta.wrapper")
    f = getattr(W, fn, None)
    nm = f"ta.wrapper.{fn}[fillna={fill},vectorized={vec}]"
    if f is None or getattr(M, fn, None) is not f:
        R.add(f"{nm}: exported by the package", False, time.time(), detail="missing from the package")
        return
    pre = [ge(N, I(28))]
    kw = dict(fillna=fill, colprefix="pre_")
    if fn != "add_others_ta":
        kw["vectorized"] = vec
    t0 = time.time()
    ps = {k: unwrap(p.default) for k, p in inspect.signature(f).parameters.items()}
    want_d = {k: inspect.Parameter.empty for k in ins}
    want_d.update(fillna=False, colprefix="")
    if fn != "add_others_ta":
        want_d["vectorized"] = False
    bad = [k for k, v in want_d.items() if k not in ps or ps[k] is not v and ps[k] != v]
    R.add(f"{nm}: published parameters and defaults", not bad, t0, detail=", ".join(bad) or None, by="signature")
    frame_cols = [COLS[k] for k in COLS] + ["extra"]

    def run():
        df = DataFrame({COLS[k]: series(k) for k in COLS})
        df.more = True
        df.cols["extra"] = pd_stub.Series.of(series("open").a, IDX, "extra")
        for k in COLS:
            df.cols[COLS[k]].a.buf.origin = k
        r = f(df, **{k: COLS[k] for k in ins}, **kw)
        if not isinstance(r, DataFrame):
            raise Unsupported(f"returns {type(r).__name__}")
        got = {c: freeze(s) for c, s in r.cols.items()}
        ref = {}
        objs = {}
        for col, (cls, acc, p, _) in want.items():
            e = ENTRIES[cls]
            key = (cls, str(p))
            if key not in objs:
                C = getattr(R.loader.module("ta." + e.module), cls)
                objs[key] = C(**{k: series(k) for k in e.inputs}, **{k: const_of(v) for k, v in p.items()}, fillna=fill)
            ref[col] = freeze(getattr(objs[key], acc)())
        return got, ref, r.index
    want = {"pre_" + c: v for c, v in table.items() if v[3] or not vec}
    ls = list(leaves(explore(run, hyps=pre, oracle=R.oracle)))
    for j, (pc, l) in enumerate(ls):
        path = f" path {j + 1}" if len(ls) > 1 else ""
        if l.kind == "raise":
            R.goal(f"{nm}: no exception ({type(l.val).__name__}: {str(l.val)[:80]}){path}", FALSE, list(pc) + pre)
            continue
        got, ref, index = l.val
        t0 = time.time()
        names = [c for c in got if c not in frame_cols]
        R.add(f"{nm}: exactly the documented columns are added{path}", sorted(names) == sorted(want), t0,
              detail=str((sorted(set(want) - set(names))[:3], sorted(set(names) - set(want))[:3])), by="symbolic execution")
        R.add(f"{nm}: the caller's columns come first, in order{path}", list(got)[:len(frame_cols)] == frame_cols, t0,
              detail=str(list(got)[:7]), by="symbolic execution")
        R.add(f"{nm}: rows are those of the frame{path}", index.aligned(IDX), t0, detail=repr(index), by="symbolic execution")
        events(R, f"{nm}: columns are matched by position, nothing is written into the caller's columns{path}", l, ("mutation", "label"))
        for k, c in list(COLS.items()) + [("open", "extra")]:
            if c in got:
                same = got[c].val.parts() == series(k).nseq()(TV).parts()
                R.add(f"{nm}: column {c!r} is unchanged{path}", same, t0, by="identical terms")
        for c in want:
            if c in got:
                same_result(R, f"{nm}: {c[4:]} is {want[c][0]}.{want[c][1]}{path}", got[c], ref[c], [lt(TV, N)] + list(pc) + pre)


def const_of(v):
    return sym.SF(num(v)) if isinstance(v, float) else v


# ------------------------------------------------------------------ C17
def t_dropna(R):
    U = R.loader.module("ta.utils")
    f = U.dropna
    cols = {}
    flags = {}

    def mkcol(nm, kind):
        v = InputFn("col_" + nm, ["I"], "R")
        fl = {}
        if kind in ("f", "o"):
            fl = {x: InputFn(f"col_{nm}_{x}", ["I"], "B") for x in ("nan", "pi", "ni")}
        if kind == "o":
            fl.pop("pi"), fl.pop("ni")

        def at(t):
            if not fl:
                return EF(toR(floor(v(t)))) if kind == "i" else EF(v(t))
            nan = fl["nan"](t)
            pi = and_(not_(nan), fl["pi"](t)) if "pi" in fl else FALSE
            ni = and_(not_(nan), not_(pi), fl["ni"](t)) if "ni" in fl else FALSE
            return EF(v(t), nan, pi, ni)
        return pd_stub.Arr(pd_stub.Buf(pd_stub.Seq(N, at), "f" if kind == "o" else kind, nm))
    kinds = {"a": "f", "b": "f", "n": "i", "text": "o"}
    arrs = {k: mkcol(k, kd) for k, kd in kinds.items()}
    spec = {k: arrs[k].nseq() for k in kinds}
    LIM = EF(const(Fraction(math.exp(709)), "R"))

    def run():
        df = DataFrame()
        df.index = IDX
        for k in kinds:
            df.cols[k] = pd_stub.Series.of(arrs[k], IDX, k)
        df._objcols = ("text",)
        before = dict(df.cols)
        r = f(df)
        if isinstance(r, DataFrame):
            keep, fr = (lambda t: TRUE), r
        elif isinstance(r, Rows):
            keep, fr = r.keep, r.df
        else:
            raise Unsupported(f"returns {type(r).__name__}")
        return keep(TV), {c: fr.cols[c].nseq()(TV) for c in fr.cols}, list(df.cols) == list(before) and all(df.cols[c] is before[c] for c in before)
    nm = "ta.utils.dropna"
    ls = list(leaves(explore(run, oracle=R.oracle)))
    for j, (pc, l) in enumerate(ls):
        path = f" path {j + 1}" if len(ls) > 1 else ""
        if l.kind == "raise":
            R.goal(f"{nm}: no exception{path}", FALSE, list(pc))
            continue
        keep, out, same = l.val
        base = [lt(TV, N)] + list(pc)
        t0 = time.time()
        R.add(f"{nm}: the caller's frame keeps its columns{path}", same, t0, by="symbolic execution")
        events(R, f"{nm}: writes nothing into the caller's frame{path}", l, ("mutation",))
        R.add(f"{nm}: columns and their order are kept{path}", list(out) == list(kinds), t0, detail=str(list(out)), by="symbolic execution")
        ok = []
        for k, kd in kinds.items():
            e = spec[k](TV)
            if kd == "o":
                ok.append(not_(e.nan))
            else:
                ok.append(and_(not_(e.nan), not_(and_(not_(e.inf), eq(e.v, RZERO))), e_lt(e, LIM)))
        want = and_(*ok)
        R.goal(f"{nm}: keeps only usable rows{path}", implies(keep, want), base)
        R.goal(f"{nm}: keeps every usable row{path}", implies(want, keep), base)
        for k in kinds:
            if k in out:
                x, y = out[k], spec[k](TV)
                R.goal(f"{nm}: values of a {kinds[k]} column in the rows kept{path}",
                       and_(iff(x.nan, y.nan), iff(x.pi, y.pi), iff(x.ni, y.ni), implies(y.fin, eq(x.v, y.v))), base + [keep])


# ------------------------------------------------------------------ C08
def order_goal(R, name, p, base, extra, caps, secs=240):
    """p <= 0"""
    t0 = time.time()
    O = Order(R.P, caps=caps, deadline=t0 + secs)
    late = False
    try:
        ok = O.top(p, base, extra)
    except OutOfTime:
        ok, late = False, True
    R.add(name, ok, t0, by="order lemma", detail=None if ok else ("gave up after %d s: " % secs if late else "not derived: ") + str(p)[:600])
    if late:
        R.obs[-1]["status"] = "timeout"
    return ok


def absent(R, name, form, base, extra, caps, secs=240):
    """form never holds where the extra facts do (form is false elsewhere)"""
    t0 = time.time()
    if R.P.prove(not_(form), base) is True:
        R.add(name, True, t0)
        return
    why = R.P.why
    O = Order(R.P, caps=caps, deadline=time.time() + secs)
    late = False
    try:
        facts = O.compare(R.P.norm(form, Ctx.of(base)), base, extra)
        ok = bool(facts) and R.P.prove(not_(and_(form, *extra)), base + facts) is True
    except OutOfTime:
        ok, late = False, True
    R.add(name, ok, t0, by="order lemma", detail=None if ok else "not derived: " + (str(why[0])[:600] if isinstance(why, tuple) else ""))
    if late:
        R.obs[-1]["status"] = "timeout"


def t_range(R, cls, a, ci, fill):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    lo, hi = laws.RANGES[(cls, a)]
    for path, pc, l in entry_leaves(R, e, cfg, fill):
        x = l.val[a].val
        base = [lt(TV, N)] + pc + e.pre(N, cfg[1])
        nm = cname(e, cfg, fill, a)
        caps = sorted({0, 1} | {v for v in (lo, hi) if v})
        if lo is not None:
            absent(R, f"{nm}: never -inf{path}", x.ni, base, [not_(x.nan)], caps)
            order_goal(R, f"{nm}: at least {lo}{path}", sub(R_(lo), x.v), base, [x.fin], caps)
        if hi is not None:
            absent(R, f"{nm}: never +inf{path}", x.pi, base, [not_(x.nan)], caps)
            order_goal(R, f"{nm}: at most {hi}{path}", sub(x.v, R_(hi)), base, [x.fin], caps)


def R_(v):
    return const(Fraction(v), "R")


# ------------------------------------------------------------------ C18
class Envelope:
    """hypothesis: the inputs averaged lie between two numbers, in the rows lo..t (lo None: in every row)"""

    def __init__(self, names, lo):
        self.names, self.lo = names, lo
        self.low, self.high = var("env_low", "R"), var("env_high", "R")
        self.inputs = ("close",) if names == ("close", "close") else ("low", "high", "close")

    def __call__(self, u):
        if u.data.name not in self.inputs:
            return None
        i = u.args[0]
        g = TRUE if self.lo is None else and_(le(self.lo, i), le(i, TV))
        return g, self.low, self.high


def t_envelope(R, cls, a, ci, fill):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    lo_in, hi_in, w = laws.ENVELOPE[(cls, a)]
    for path, pc, l in entry_leaves(R, e, cfg, fill):
        x = l.val[a].val
        R.P.envelope = env = Envelope((lo_in, hi_in), None if w is None else add(TV, neg(cfg[1][w]), ONE))
        base = [lt(TV, N)] + pc + e.pre(N, cfg[1])
        nm = cname(e, cfg, fill, a)
        what = "over the rows so far" if w is None else "over the window"
        absent(R, f"{nm}: never infinite{path}", or_(x.pi, x.ni), base, [not_(x.nan)], [env.low, env.high])
        order_goal(R, f"{nm}: at least the smallest {lo_in} {what}{path}", sub(env.low, x.v), base, [x.fin], [env.low, env.high], 120)
        order_goal(R, f"{nm}: at most the largest {hi_in} {what}{path}", sub(x.v, env.high), base, [x.fin], [env.low, env.high], 120)


# ------------------------------------------------------------------ C19
def t_units(R, cls, ci, fill):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    for path, pc, l in entry_leaves(R, e, cfg, fill):
        for a, r in l.val.items():
            x = r.val
            base = [lt(TV, N)] + pc + e.pre(N, cfg[1])
            want = laws.degree(cls, a)
            nm = cname(e, cfg, fill, a)
            for what, p in (("gaps", x.nan), ("+inf", x.pi), ("-inf", x.ni), ("value", x.v)):
                t0 = time.time()
                why = None
                U = Units(R.P, base)
                try:
                    if what == "value":
                        d = U.real(p)
                        ok = d is None or d == want
                        why = None if ok else f"has unit price^{d[0]} volume^{d[1]}"
                    else:
                        U.bool(p)
                        ok = True
                except Mismatch as ex:
                    ok, why = False, str(ex)[:300]
                label = f"{nm}: value has unit price^{want[0]} volume^{want[1]}" if what == "value" else f"{nm}: {what} are independent of the units"
                if not ok:
                    # dead branches may mix units: try the normalised term
                    try:
                        ctx = Ctx.of(base if what != "value" else base + [x.fin])
                        q = R.P.norm(p, ctx)
                        U = Units(R.P, base)
                        if what == "value":
                            d = U.real(q)
                            ok = d is None or d == want
                        else:
                            U.bool(q)
                            ok = True
                    except Mismatch as ex:
                        ok, why = False, str(ex)[:300]
                R.add(label + path, ok, t0, detail=why, by="units of measure")


# ------------------------------------------------------------------ C09, C20: laws between the outputs of one row
def t_laws(R, cls, ci, which):
    e = ENTRIES[cls]
    cfg = configs(e)[ci]
    fn = laws.c09 if which == "C09" else laws.c20
    for path, pc, l in entry_leaves(R, e, cfg, False):
        base = [lt(TV, N)] + pc + e.pre(N, cfg[1])
        o = {a: sym.SF(r.val) for a, r in l.val.items()}
        ins = {k: sym.SF(series(k).nseq()(TV)) for k in PRICE}
        ps = dict(cfg[1])
        if cls == "DonchianChannel" and which == "C09":
            # the claims about the close hold without displacement only
            variants = [("", ps, []), (" (no displacement)", {**ps, "offset": 0}, [eq(ps["offset"], ZERO)])]
        else:
            variants = [("", ps, [])]
        for lab, p, hy in variants:
            laws_ = run_laws(fn, cls, o, ins, p)
            if lab:
                laws_ = [x for x in laws_ if x[0] not in {y[0] for y in run_laws(fn, cls, o, ins, ps)}]
            for name, kind, x, y in laws_:
                law(R, f"{cname(e, cfg, False)}: {name}{lab}{path}", kind, x, y, base + hy, entry=e, cfg=cfg, fill=False)


def run_laws(fn, cls, o, ins, p):
    c = sym.Ctx()
    old, sym.CTX = sym.CTX, c
    try:
        return fn(cls, o, ins, p)
    finally:
        sym.CTX = old


def law(R, nm, kind, x, y, base, **kw):
    if kind.startswith("flag"):
        u, v = y[0].e, y[1].e
        c = e_lt(v, u) if kind == "flag>" else e_lt(u, v)
        f = x.e
        if f.simple:
            R.equal(nm, f.v, ite(c, RONE, RZERO), base, **kw)
        else:
            R.goal(nm, and_(f.fin, eq(f.v, ite(c, RONE, RZERO))), base, **kw)
        return
    x, y = sym.toE(x), sym.toE(y)
    if kind == "same":
        R.equal(nm + " (missing)", x.nan, y.nan, base, **kw)
        R.equal(nm + " (+inf)", x.pi, y.pi, base, **kw)
        R.equal(nm + " (-inf)", x.ni, y.ni, base, **kw)
        R.equal(nm, x.v, y.v, base + [x.fin, y.fin], **kw)
    else:
        n = len(R.obs)
        if kind == "eq":
            ok = R.equal(nm, x.v, y.v, base + [x.fin, y.fin], **kw)
            ps = [sub(x.v, y.v), sub(y.v, x.v)]
        else:
            ok = R.goal(nm, le(x.v, y.v), base + [x.fin, y.fin], **kw)
            ps = [sub(x.v, y.v)]
        if not ok:
            t0 = time.time()
            O = Order(R.P, caps=[0, 1], deadline=t0 + 240)
            try:
                if all(O.top(p, base, [x.fin, y.fin]) for p in ps):
                    del R.obs[n:]
                    R.add(nm, True, t0, by="order lemma")
            except OutOfTime:
                R.obs[-1]["status"] = "timeout"


def t_cross(R, k):
    nm, x, y, rel = laws.CROSS[k]
    val = []
    w, s = declare(var("w", "I"), 1), declare(var("s", "I"), 1)
    d = var("d", "R")
    POS.add(d)
    code = {"w": SI(w), "s": SI(s), "d": SF(EF(d))}
    base = [lt(TV, N)]
    for cls, a, ps in (x, y):
        e = ENTRIES[cls]
        C = getattr(R.loader.module("ta." + e.module), cls)

        def run():
            kw = {q: (code[v] if isinstance(v, str) else v) for q, v in ps.items()}
            return freeze(getattr(C(**{i: series(i) for i in e.inputs}, **kw, fillna=False), a)())
        ls = list(leaves(explore(run, oracle=R.oracle)))
        if len(ls) != 1 or ls[0][1].kind != "return":
            raise Unsupported("several paths")
        val.append(ls[0][1].val.val)
    c = sym.Ctx()
    old, sym.CTX = sym.CTX, c
    try:
        a, b = rel(SF(val[0]), SF(val[1]))
    finally:
        sym.CTX = old
    law(R, f"identity: {nm}", "same", a, b, base)


# ------------------------------------------------------------------ plan
def per_class(kind, *extra, fills=(False, True), classes=None):
    return [(kind, cls, ci) + ((f,) if f is not None else ()) + extra for cls, e in ENTRIES.items() if classes is None or cls in classes
            for ci in range(len(configs(e))) for f in fills]


def plan(prop):
    if prop == "C08":
        return [("range", c, a, ci, f) for (c, a) in laws.RANGES for ci in range(len(configs(ENTRIES[c]))) for f in (False, True)]
    if prop == "C09":
        return per_class("laws", "C09", fills=(None,), classes=laws.C09)
    if prop == "C10":
        return per_class("causal")
    if prop == "C11":
        return per_class("index")
    if prop == "C12":
        return per_class("pure")
    if prop == "C13":
        return per_class("nogap", fills=(None,))
    if prop == "C15":
        return [("function", fn, f) for fn in api.FUNCTIONS for f in (False, True)]
    if prop == "C16":
        return [("wrapper", fn, f, v) for fn in GROUPS for f in (False, True) for v in (False, True) if fn != "add_others_ta" or not v]
    if prop == "C17":
        return [("dropna",)]
    if prop == "C18":
        return [("envelope", c, a, ci, False) for (c, a) in laws.ENVELOPE for ci in range(len(configs(ENTRIES[c])))]
    if prop == "C19":
        return per_class("units", fills=(False,))
    if prop == "C20":
        return per_class("laws", "C20", fills=(None,), classes=laws.C20) + [("cross", k) for k in range(len(laws.CROSS))]
    return []
