"""Mathematical semantics of the array operations (assumed contracts of pandas/numpy).

The same definitions serve as the vocabulary of the specifications: rolling window
aggregates over the values present, exponential weighting, running sums, last/first
value present, displacement.  conformance/run.py cross-checks each of them
against the installed pandas on sample data.
"""
from .ef import *

TV = declare(var("$t", "I", True), 0)  # positions are never negative


class Seq:
    """an indexed sequence of extended floats: length n and value at a position"""

    def __init__(self, n, fn):
        self.n, self._fn, self._memo = n, fn, {}

    def __call__(self, t):
        t = I(t)
        r = self._memo.get(t.id)
        if r is None:
            r = self._memo[t.id] = self._fn(t)
        return r

    @property
    def gen(self):
        """value at the generic position TV"""
        return self(TV)


def gfold(agg, lo, hi, guard, body=None):
    k = declare(fresh("k"), 0)
    return Fold.make(agg, lo, hi, k, guard(k), body(k) if body else None)


def obs(x):
    """rolling / ewm treat infinities as missing"""
    return lambda k: x(k).fin


def notnan(x):
    return lambda k: not_(x(k).nan)


def seqmap(f, *xs):
    return Seq(xs[0].n, lambda t: f(*[x(t) for x in xs]))


# ------------------------------------------------------------------ rolling windows
def _lo(t, w):
    return imax(ZERO, add(t, neg(w), ONE))


def count(x, lo, hi):
    return gfold("sum", lo, hi, obs(x), lambda k: RONE)


def roll_sum(x, w, m):
    def at(t):
        lo = _lo(t, w)
        c = count(x, lo, t)
        return EF(gfold("sum", lo, t, obs(x), lambda k: x(k).v), lt(c, toR(m)))
    return Seq(x.n, at)


def roll_mean(x, w, m):
    def at(t):
        lo = _lo(t, w)
        c = count(x, lo, t)
        s = gfold("sum", lo, t, obs(x), lambda k: x(k).v)
        nan = or_(lt(c, toR(m)), lt(c, RONE))
        return EF(mul(s, inv(_count_at_least(c, m, w, x, lo, t))), nan)
    return Seq(x.n, at)


def _count_at_least(c, m, w, x, lo, t):
    # when all w values are required, the number of values is w wherever the result is defined
    return toR(w) if m is w else c


def roll_count(x, w, m):
    """number of values present; the minimum number of observations counts rows"""
    def at(t):
        return EF(count(x, _lo(t, w), t), lt(imin(add(t, ONE), w), m))
    return Seq(x.n, at)


def roll_ext(kind, x, w, m):
    def at(t):
        lo = _lo(t, w)
        c = count(x, lo, t)
        return EF(gfold(kind, lo, t, obs(x), lambda k: x(k).v), or_(lt(c, toR(m)), lt(c, RONE)))
    return Seq(x.n, at)


def roll_max(x, w, m):
    return roll_ext("max", x, w, m)


def roll_min(x, w, m):
    return roll_ext("min", x, w, m)


def _var(s1, s2, c, ddof):
    d = sub(c, toR(I(ddof)))
    return mul(sub(s2, mul(s1, s1, inv(c))), inv(d))


def roll_var(x, w, m, ddof):
    def at(t):
        lo = _lo(t, w)
        c = count(x, lo, t)
        s1 = gfold("sum", lo, t, obs(x), lambda k: x(k).v)
        s2 = gfold("sum", lo, t, obs(x), lambda k: mul(x(k).v, x(k).v))
        cc = _count_at_least(c, m, w, x, lo, t)
        nan = or_(lt(c, toR(m)), lt(c, RONE), le(c, toR(I(ddof))))
        v = _var(s1, s2, cc, ddof)
        if not v.op == "c":
            NONNEG.add(v)        # Cauchy-Schwarz; a variance below the number of observations needed is missing
        return EF(v, nan)
    return Seq(x.n, at)


def roll_std(x, w, m, ddof):
    v = roll_var(x, w, m, ddof)
    return Seq(x.n, lambda t: EF(fn1("sqrt", v(t).v), v(t).nan))


# ------------------------------------------------------------------ recurrences
_recs = {}


def hc_rec(tag, key, build):
    """hash-consed recurrence: build() is run once per key"""
    k = (tag,) + tuple(key)
    r = _recs.get(k)
    if r is None:
        r = _recs[k] = build()
    return r


def _prefix_start(nan, t):
    """e with (nan(t) <=> t < e), e free of t, else None"""
    if nan is FALSE:
        return ZERO
    if nan.op == "le0" and nan.args[0].sort == "I":
        c, d = terms_lin(nan.args[0])
        if d.get(t, 0) == 1:
            e = sub(ONE, sub(nan.args[0], t))  # t + r <= 0  <=>  t < 1 - r
            if t not in e.fv:
                return e
    if nan.op == "or":
        es = [_prefix_start(a, t) for a in nan.args]
        if all(e is not None for e in es):
            return imax(*es)
    return None


def terms_lin(t):
    from . import terms
    return terms._lin(t)


def ewm(x, alpha, m, adjust=False, ignore_na=False):
    """pandas ExponentialMovingWindow.mean; alpha: real term in (0, 1]"""
    g = Seq(x.n, lambda t: EF(x(t).v, or_(x(t).nan, x(t).inf)))  # infinities are missing
    start = _prefix_start(g.gen.nan, TV)
    if start is not None and not adjust:
        def build():
            r = Rec("ema", start, x.n)
            y = r.comp("y", "R")
            i = r.iv
            r.steps[y] = ite(le(i, start), g(start).v,
                             add(mul(sub(RONE, alpha), y(sub(i, ONE))), mul(alpha, g(i).v)))
            r.close()
            r.starts = {y: start}
            return r
        r = hc_rec("ema", (g.gen.v.id, start.id, alpha.id, g(start).v.id, x.n.id), build)
        y = r.comps[0]

        def at(t):
            nobs = add(t, neg(start), ONE)
            return EF(y(t), or_(lt(nobs, m), lt(nobs, ONE)))
        return Seq(x.n, at)

    def build():
        r = Rec("ewm", ZERO, x.n)
        y, ow, nb = r.comp("y", "R"), r.comp("ow", "R"), r.comp("nb", "R")
        i = r.iv
        p = sub(i, ONE)
        first = le(i, ZERO)
        isobs = not_(g(i).nan)
        has = gt(nb(p), RZERO)
        newwt = RONE if adjust else alpha
        dec = mul(ow(p), sub(RONE, alpha)) if not ignore_na else ite(isobs, mul(ow(p), sub(RONE, alpha)), ow(p))
        wavg = mul(add(mul(dec, y(p)), mul(newwt, g(i).v)), inv(add(dec, newwt)))
        r.steps[y] = ite(first, g(i).v, ite(has, ite(isobs, wavg, y(p)), g(i).v))
        r.steps[ow] = ite(first, RONE, ite(has, ite(isobs, add(dec, newwt) if adjust else RONE, dec), RONE))
        r.steps[nb] = add(ite(first, RZERO, nb(p)), ite(isobs, RONE, RZERO))
        r.close()
        return r
    r = hc_rec("ewm", (g.gen.v.id, g.gen.nan.id, alpha.id, adjust, ignore_na, x.n.id), build)
    y, ow, nb = r.comps
    return Seq(x.n, lambda t: EF(y(t), or_(lt(nb(t), toR(m)), lt(nb(t), RONE))))


# ------------------------------------------------------------------ whole-series operations
def cumsum(x):
    def at(t):
        s = gfold("sum", ZERO, t, lambda k: x(k).fin, lambda k: x(k).v)
        e = x(t)
        pi = gfold("any", ZERO, t, lambda k: x(k).pi)
        ni = gfold("any", ZERO, t, lambda k: x(k).ni)
        nan = or_(e.nan, and_(pi, ni))
        return EF(s, nan, and_(not_(nan), pi), and_(not_(nan), ni))
    return Seq(x.n, at)


def cumprod(x):
    def at(t):
        if x(t).inf is not FALSE:
            raise NotImplementedError("cumprod with infinities")
        return EF(gfold("prod", ZERO, t, notnan(x), lambda k: x(k).v), x(t).nan)
    return Seq(x.n, at)


def cumext(kind, x):
    def at(t):
        if x(t).inf is not FALSE:
            raise NotImplementedError("cummax with infinities")
        return EF(gfold(kind, ZERO, t, notnan(x), lambda k: x(k).v), x(t).nan)
    return Seq(x.n, at)


def at_index(x, i, n):
    """value at a computed position; missing if the position is outside [0, n)"""
    if i.op == "ite":
        return e_ite(i.args[0], at_index(x, i.args[1], n), at_index(x, i.args[2], n))
    none = or_(lt(i, ZERO), ge(i, n) if bounds(i)[1] is None and i is not TV and i.op == "app" and i.data.agg == "firstidx" else FALSE)
    if none is TRUE:
        return NAN
    e = x(i)
    return EF(e.v, or_(none, e.nan) if i.op != "app" else none, and_(not_(none), e.pi), and_(not_(none), e.ni))


def ffill(x, limit=None):
    """limit: at most so many missing values in a row are replaced"""
    if x.gen.nan is FALSE:
        return x

    def at(t):
        i = gfold("lastidx", ZERO, t, notnan(x))
        e = at_index(x, i, x.n)
        return e if limit is None else e_ite(le(sub(t, i), const(int(limit), "I")), e, NAN)

    return Seq(x.n, at)


def bfill(x):
    if x.gen.nan is FALSE:
        return x

    def at(t):
        i = gfold("firstidx", t, sub(x.n, ONE), notnan(x))
        if i.op == "ite":  # ite(found, position, n)
            return e_ite(i.args[0], x(i.args[1]), NAN) if i.args[2] is x.n else e_ite(i.args[0], NAN, x(i.args[2]))
        e = x(i)
        none = ge(i, x.n)
        return EF(e.v, none, and_(not_(none), e.pi), and_(not_(none), e.ni))
    return Seq(x.n, at)


def fillna(x, v):
    """v: Seq or EF"""
    return Seq(x.n, lambda t: e_ite(x(t).nan, v(t) if isinstance(v, Seq) else v, x(t)))


def shift(x, k, fill=NAN):
    """value k rows earlier (later if k < 0)"""
    def at(t):
        s = sub(t, k)
        lb, ub = bounds(k)
        below = FALSE if ub is not None and ub <= 0 else lt(s, ZERO)
        above = FALSE if lb is not None and lb >= 0 else ge(s, x.n)
        return e_ite(or_(below, above), fill, x(s))
    return Seq(x.n, at)


def total(x, lo=None, hi=None):
    """NaN-skipping sum, count over a range"""
    lo = ZERO if lo is None else lo
    hi = sub(x.n, ONE) if hi is None else hi
    return (gfold("sum", lo, hi, lambda k: x(k).fin, lambda k: x(k).v),
            gfold("sum", lo, hi, notnan(x), lambda k: RONE),
            gfold("any", lo, hi, lambda k: x(k).pi), gfold("any", lo, hi, lambda k: x(k).ni))


def s_sum(x, lo=None, hi=None):
    s, c, pi, ni = total(x, lo, hi)
    nan = and_(pi, ni)
    return EF(s, nan, and_(pi, not_(ni)), and_(ni, not_(pi)))


def s_mean(x, lo=None, hi=None):
    s, c, pi, ni = total(x, lo, hi)
    nan = or_(and_(pi, ni), lt(c, RONE))
    return EF(mul(s, inv(c)), nan, and_(pi, not_(ni)), and_(ni, not_(pi)))
