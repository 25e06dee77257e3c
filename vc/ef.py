"""Extended floats: a mathematical real plus NaN / +inf / -inf flags.

This is the number model the verification conditions are stated in.  Rounding,
overflow to infinity by magnitude and the sign of zero are not modelled (listed
as an assumption in every evidence file).
"""
from .terms import *


class EF:
    __slots__ = ("nan", "pi", "ni", "v", "_k")

    def __init__(self, v, nan=FALSE, pi=FALSE, ni=FALSE):
        self.v, self.nan, self.pi, self.ni = v, nan, pi, ni

    @property
    def key(self):
        return (self.v.id, self.nan.id, self.pi.id, self.ni.id)

    @property
    def inf(self):
        return or_(self.pi, self.ni)

    @property
    def fin(self):
        return not_(or_(self.nan, self.pi, self.ni))

    @property
    def simple(self):
        return self.nan is FALSE and self.pi is FALSE and self.ni is FALSE

    def parts(self):
        return (self.v, self.nan, self.pi, self.ni)

    def map(self, f):
        return EF(f(self.v), f(self.nan), f(self.pi), f(self.ni))

    def subst(self, m):
        return self.map(lambda x: subst(x, m))

    def __repr__(self):
        if self.simple:
            return repr(self.v)
        return f"EF({self.v!r}; nan={self.nan!r}; +inf={self.pi!r}; -inf={self.ni!r})"


def num(x):
    if isinstance(x, EF):
        return x
    if isinstance(x, T):
        return EF(R(x) if x.sort != "B" else ite(x, RONE, RZERO))
    if isinstance(x, bool):
        return EF(RONE if x else RZERO)
    if isinstance(x, float):
        if x != x:
            return NAN
        if x in (float("inf"), float("-inf")):
            return PINF if x > 0 else NINF
    return EF(R(x))


NAN = EF(RZERO, TRUE)
PINF = EF(RZERO, FALSE, TRUE)
NINF = EF(RZERO, FALSE, FALSE, TRUE)


def e_ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    nan = ite(c, a.nan, b.nan)
    # the value under a definite NaN is irrelevant: keep the other branch's value
    if a.nan is TRUE:
        return EF(b.v, nan, and_(not_(c), b.pi), and_(not_(c), b.ni))
    if b.nan is TRUE:
        return EF(a.v, nan, and_(c, a.pi), and_(c, a.ni))
    return EF(ite(c, a.v, b.v), nan, ite(c, a.pi, b.pi), ite(c, a.ni, b.ni))


def e_neg(a):
    return EF(neg(a.v), a.nan, a.ni, a.pi)


def e_add(a, b):
    if a.simple and b.simple:
        return EF(add(a.v, b.v))
    nan = or_(a.nan, b.nan, and_(a.pi, b.ni), and_(a.ni, b.pi))
    return EF(add(a.v, b.v), nan, and_(not_(nan), or_(a.pi, b.pi)), and_(not_(nan), or_(a.ni, b.ni)))


def e_sub(a, b):
    return e_add(a, e_neg(b))


def _sgn(a):
    """(positive, negative) of a non-NaN value, infinities included"""
    return or_(a.pi, and_(not_(a.ni), gt(a.v, RZERO))), or_(a.ni, and_(not_(a.pi), lt(a.v, RZERO)))


def e_mul(a, b):
    if a.inf is FALSE and b.inf is FALSE:
        return EF(mul(a.v, b.v), or_(a.nan, b.nan))
    pa, na = _sgn(a)
    pb, nb = _sgn(b)
    inf = or_(a.inf, b.inf)
    nan = or_(a.nan, b.nan, and_(inf, or_(and_(not_(pa), not_(na)), and_(not_(pb), not_(nb)))))
    ok = and_(not_(nan), inf)
    return EF(mul(a.v, b.v), nan, and_(ok, or_(and_(pa, pb), and_(na, nb))),
              and_(ok, or_(and_(pa, nb), and_(na, pb))))


def e_div(a, b):
    bz = and_(not_(b.inf), eq(b.v, RZERO))
    nan = or_(a.nan, b.nan, and_(bz, not_(a.inf), eq(a.v, RZERO)), and_(a.inf, b.inf))
    if bz is FALSE and a.inf is FALSE and b.inf is FALSE:
        return EF(mul(a.v, inv(b.v)), nan)
    pa, na = _sgn(a)
    ok = not_(nan)
    pb, nb = _sgn(b)
    # a zero divisor counts as +0
    pi = and_(ok, or_(and_(bz, pa), and_(a.inf, not_(bz), or_(and_(pa, not_(nb)), and_(na, nb)))))
    ni = and_(ok, or_(and_(bz, na), and_(a.inf, not_(bz), or_(and_(na, not_(nb)), and_(pa, nb)))))
    v = mul(a.v, inv(b.v))
    if b.inf is not FALSE:
        v = ite(b.inf, RZERO, v)
    return EF(v, nan, pi, ni)


def e_abs(a):
    return EF(r_abs(a.v), a.nan, or_(a.pi, a.ni), FALSE)


def r_abs(v):
    lb, ub = bounds(v)
    if lb is not None and lb >= 0:
        return v
    if v.op == "ite" and r_abs_trivial(v):
        return v
    return mk_abs(v)


def r_abs_trivial(v):
    return False


def mk_abs(v):
    # canonical: |v| = |-v|
    if v.op == "+" and v.data[1][0] < 0:
        v = neg(v)
    return ite(le0(neg(v)), v, neg(v))


def e_floor(a):
    return EF(toR(floor(a.v)), a.nan, a.pi, a.ni)


NONNEG = set()          # values that contracts state to be at least 0 wherever they are present (variances)


def _nonneg(v):
    if v in NONNEG or (v.op == "c" and v.data >= 0):
        return True
    return v.op == "ite" and _nonneg(v.args[1]) and _nonneg(v.args[2])


def e_sqrt(a):
    if a.v.op == "c" and a.v.data >= 0:
        from math import isqrt
        n, d = a.v.data.numerator, a.v.data.denominator
        if isqrt(n) ** 2 == n and isqrt(d) ** 2 == d:
            return EF(const(Fraction(isqrt(n), isqrt(d)), "R"), a.nan, a.pi, FALSE)
    neg_ = and_(not_(a.nan), or_(a.ni, FALSE if _nonneg(a.v) else and_(not_(a.pi), lt(a.v, RZERO))))
    return EF(fn1("sqrt", a.v), or_(a.nan, neg_), a.pi, FALSE)


def e_log(a):
    f = not_(or_(a.nan, a.pi, a.ni))
    return EF(fn1("log", a.v), or_(a.nan, a.ni, and_(f, lt(a.v, RZERO))), a.pi, and_(f, eq(a.v, RZERO)))


def e_exp(a):
    return EF(ite(a.ni, RZERO, fn1("exp", a.v)), a.nan, a.pi, FALSE)


def e_powi(a, n):
    r = num(1)
    for _ in range(n):
        r = e_mul(r, a)
    return r


# comparisons: False when either side is NaN
def e_lt(a, b):
    ok = and_(not_(a.nan), not_(b.nan))
    core = lt(a.v, b.v)
    if a.inf is not FALSE or b.inf is not FALSE:
        core = and_(not_(a.pi), not_(b.ni), or_(a.ni, b.pi, core))
        core = and_(core, not_(and_(a.ni, b.ni)))
    return and_(ok, core)


def e_le(a, b):
    ok = and_(not_(a.nan), not_(b.nan))
    core = le(a.v, b.v)
    if a.inf is not FALSE or b.inf is not FALSE:
        core = or_(a.ni, b.pi, and_(not_(a.pi), not_(b.ni), core))
    return and_(ok, core)


def e_eq(a, b):
    ok = and_(not_(a.nan), not_(b.nan))
    if a.inf is FALSE and b.inf is FALSE:
        return and_(ok, eq(a.v, b.v))
    return and_(ok, or_(and_(a.pi, b.pi), and_(a.ni, b.ni), and_(not_(a.inf), not_(b.inf), eq(a.v, b.v))))


def same(a, b):
    """obligations for 'a and b are the same extended float', as a list of (name, formula)"""
    out = []
    for nm, x, y in (("missing", a.nan, b.nan), ("+inf", a.pi, b.pi), ("-inf", a.ni, b.ni)):
        out.append((nm, iff(x, y)))
    out.append(("value", implies(and_(a.fin, b.fin), eq(a.v, b.v))))
    return out


def max_np(a, b):
    """numpy maximum: NaN if either is NaN"""
    r = e_ite(e_lt(a, b), b, a)
    return EF(r.v, or_(a.nan, b.nan), r.pi, r.ni) if not (a.simple and b.simple) else r


def min_np(a, b):
    r = e_ite(e_lt(b, a), b, a)
    return EF(r.v, or_(a.nan, b.nan), r.pi, r.ni) if not (a.simple and b.simple) else r


def max_skip(a, b):
    """NaN-skipping maximum (pandas DataFrame.max(axis=1))"""
    return e_ite(a.nan, b, e_ite(b.nan, a, max_np(a, b)))


def min_skip(a, b):
    return e_ite(a.nan, b, e_ite(b.nan, a, min_np(a, b)))
