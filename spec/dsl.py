"""Vocabulary of the specifications: sequences of extended floats with elementwise arithmetic."""
from vc.lib import *
from vc import lib
from vc.recs import scan
from vc.sym import e_cmp


class Q(Seq):
    def __init__(self, n, fn):
        Seq.__init__(self, n, fn)

    @staticmethod
    def of(x, n):
        if isinstance(x, Q):
            return x
        if isinstance(x, Seq):
            return Q(x.n, x)
        e = num(x)
        return Q(n, lambda t: e)

    def _b(self, o, f):
        o = Q.of(o, self.n)
        return Q(self.n, lambda t: f(self(t), o(t)))

    def __add__(self, o): return self._b(o, e_add)
    def __sub__(self, o): return self._b(o, e_sub)
    def __mul__(self, o): return self._b(o, e_mul)
    def __truediv__(self, o): return self._b(o, e_div)
    def __radd__(self, o): return self._b(o, lambda a, b: e_add(b, a))
    def __rsub__(self, o): return self._b(o, lambda a, b: e_sub(b, a))
    def __rmul__(self, o): return self._b(o, lambda a, b: e_mul(b, a))
    def __rtruediv__(self, o): return self._b(o, lambda a, b: e_div(b, a))
    def __neg__(self): return Q(self.n, lambda t: e_neg(self(t)))
    def __abs__(self): return Q(self.n, lambda t: e_abs(self(t)))

    def _c(self, o, op):
        o = Q.of(o, self.n)
        return Cond(self.n, lambda t: e_cmp(op, self(t), o(t)))

    def __lt__(self, o): return self._c(o, "lt")
    def __le__(self, o): return self._c(o, "le")
    def __gt__(self, o): return self._c(o, "gt")
    def __ge__(self, o): return self._c(o, "ge")
    def same(self, o): return self._c(o, "eq")

    def shift(self, k): return Q.of(lib.shift(self, I(k)), self.n)
    def prev(self): return self.shift(1)
    def sum(self, w, m): return Q.of(roll_sum(self, I(w), I(m)), self.n)
    def mean(self, w, m): return Q.of(roll_mean(self, I(w), I(m)), self.n)
    def max(self, w, m): return Q.of(roll_max(self, I(w), I(m)), self.n)
    def min(self, w, m): return Q.of(roll_min(self, I(w), I(m)), self.n)
    def std(self, w, m): return Q.of(roll_std(self, I(w), I(m), 0), self.n)
    def ema(self, span, m): return Q.of(ewm(self, mul(RONE, const(2, "R"), inv(add(toR(I(span)), RONE))), imax(ONE, I(m))), self.n)
    def wilder(self, w, m): return Q.of(ewm(self, inv(toR(I(w))), imax(ONE, I(m))), self.n)
    def cumsum(self): return Q.of(lib.cumsum(self), self.n)
    def missing(self): return Cond(self.n, lambda t: self(t).nan)
    def present(self): return Cond(self.n, lambda t: not_(self(t).nan))
    def or_zero(self): return Q.of(lib.fillna(self, num(0)), self.n)

    def no_inf(self):
        return Q(self.n, lambda t: EF(self(t).v, or_(self(t).nan, self(t).inf)))


class Cond:
    def __init__(self, n, fn):
        self.n, self.fn = n, fn

    def __call__(self, t):
        return self.fn(I(t))

    def __and__(self, o): return Cond(self.n, lambda t: and_(self(t), o(t)))
    def __or__(self, o): return Cond(self.n, lambda t: or_(self(t), o(t)))
    def __invert__(self): return Cond(self.n, lambda t: not_(self(t)))


def iff_(c, a, b):
    a, b = Q.of(a, c.n), Q.of(b, c.n)
    return Q(c.n, lambda t: e_ite(c(t), a(t), b(t)))


def row(n):
    return Q(n, lambda t: EF(toR(t)))


def at_or_after(n, k, q):
    """q from row k on, missing before"""
    k = I(k)
    return Q(n, lambda t: e_ite(lt(t, k), NAN, q(t)))


def largest(*qs):
    """row-wise maximum of the values present"""
    r = qs[0]
    for q in qs[1:]:
        r = r._b(q, max_skip)
    return r


def window_fold(x, w, m, body, post=lambda s, lo, t: EF(s), kind="sum"):
    """aggregate body(k, lo, t) over the rows k of the window of w rows ending at t; missing unless m values present"""
    w, m = I(w), I(m)

    def at(t):
        lo = lib._lo(t, w)
        s = gfold(kind, lo, t, lambda k: TRUE, lambda k: body(k, lo, t))
        e = post(s, lo, t)
        return EF(e.v, or_(lt(lib.count(x, lo, t), toR(m)), e.nan))
    return Q(x.n, at)


def fill_policy(q, value):
    """the library's gap filling: infinities count as gaps, gaps take the last value, leading gaps the neutral value
    (-1: the first value to come)"""
    q = q.no_inf()
    f = Q.of(lib.ffill(q), q.n)
    if value == -1:
        f = Q.of(lib.bfill(f), q.n)
    v = value if isinstance(value, Seq) else num(value)
    return Q.of(lib.fillna(f, v), q.n)
