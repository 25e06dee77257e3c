"""Floating point values with an error bound, for judging the real (binary64) results against a specification that is
exact.  A comparison whose outcome depends on rounding is Ambiguous: the row is then not judged."""
import math

EPS = 1e-12   # generous: also covers the drift of running (add / remove) window aggregates


class Ambiguous(Exception):
    pass


class V:
    __slots__ = ("f", "e")

    def __init__(self, f, e=0.0):
        self.f, self.e = f, e

    def __repr__(self):
        return f"{self.f}±{self.e}"

    def __add__(self, o):
        if not isinstance(o, V):
            o = V(float(o))
        a, b = self.f, o.f
        s = a + b
        e = self.e + o.e
        bb = s - a
        if (a - (s - bb)) + (b - bb) != 0.0 or e:
            e += EPS * (abs(a) + abs(b))
        return V(s, e)
    __radd__ = __add__

    def __neg__(self):
        return V(-self.f, self.e)

    def __mul__(self, o):
        if not isinstance(o, V):
            o = V(float(o))
        a, b = self.f, o.f
        if (a == 0.0 and not self.e) or (b == 0.0 and not o.e):
            return V(0.0)
        p = a * b
        e = abs(a) * o.e + abs(b) * self.e + self.e * o.e
        if e or not exact_mul(a, b, p):
            e += EPS * abs(p)
        return V(p, e)
    __rmul__ = __mul__

    def __rtruediv__(self, one):
        # reciprocal
        a = abs(self.f)
        if self.e >= a:
            raise Ambiguous
        r = 1.0 / self.f
        e = self.e / (a * (a - self.e))
        if e or math.frexp(self.f)[0] not in (0.5, -0.5):
            e += EPS * abs(r)
        return V(r, e)

    def _sgn(self, o):
        if isinstance(o, V):
            d = self.f - o.f
            e = self.e + o.e
            if e and abs(d) <= e:
                raise Ambiguous
            return d
        d = self.f - o
        if self.e and abs(d) <= self.e:
            raise Ambiguous
        return d

    def __le__(self, o): return self._sgn(o) <= 0
    def __lt__(self, o): return self._sgn(o) < 0
    def __ge__(self, o): return self._sgn(o) >= 0
    def __gt__(self, o): return self._sgn(o) > 0
    def __eq__(self, o): return self._sgn(o) == 0
    def __ne__(self, o): return self._sgn(o) != 0
    __hash__ = None

    def __abs__(self): return V(abs(self.f), self.e)

    def __floor__(self):
        r = math.floor(self.f)
        if self.e and (self.f - self.e < r or self.f + self.e >= r + 1):
            raise Ambiguous
        return r

    def sqrt(self):
        f = self.f
        if f < 0:
            if self.e < -f:
                return V(0.0)
            f = 0.0
        r = math.sqrt(f)
        if self.e == 0 and r * r == f and float(r).is_integer():
            return V(r)
        hi, lo = math.sqrt(f + self.e), math.sqrt(max(f - self.e, 0.0))
        return V(r, max(hi - r, r - lo) + EPS * hi)

    def log(self):
        if self.f - self.e <= 0:
            if self.e:
                raise Ambiguous
            return V(0.0)
        r = math.log(self.f)
        return V(r, self.e / (self.f - self.e) + EPS * max(1.0, abs(r)))

    def exp(self):
        r = math.exp(self.f)
        return V(r, r * (math.exp(self.e) - 1) + EPS * r)


def exact_mul(a, b, p):
    na, da = a.as_integer_ratio()
    nb, db = b.as_integer_ratio()
    if not math.isfinite(p):
        raise Ambiguous
    np_, dp = p.as_integer_ratio()
    return na * nb * dp == np_ * da * db


def num(x):
    """exact constants that binary64 cannot hold carry an error"""
    if isinstance(x, V):
        return x
    f = float(x)
    return V(f, 0.0 if x == f else EPS * abs(f))


def total(vs, guard=0.0):
    """sum of window values: bound independent of the order of summation"""
    s = V(0.0)
    mag = 0.0
    inexact = False
    for v in vs:
        s = s + v
        mag += abs(v.f)
        inexact = inexact or v.e
    return V(s.f, s.e + (EPS * mag if s.e else 0.0))
