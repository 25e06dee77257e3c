"""Concrete evaluation of terms (used to filter candidate invariants and to run specifications on data).

Numbers are exact fractions; square roots, logarithms and exponentials fall back to floats."""
import math
import sys
from fractions import Fraction

from .terms import *

sys.setrecursionlimit(100000)


class Env:
    """env: variable term -> value; inputs: InputFn name -> sequence; mode 'frac' or 'float'"""

    def __init__(self, env, inputs, mode="frac"):
        self.env, self.inputs, self.mode = dict(env), inputs, mode
        self.memo = {}    # closed terms
        self.app = {}     # (FSym, args) -> value
        self.hist = {}    # fold symbol -> {row: magnitude of an inexact summand}; running sums remember them
        self.num = float if mode == "float" else Fraction
        self.err = mode == "err"
        self.Amb = ()
        if self.err:
            from concrete import errnum
            self.num, self.Amb = errnum.num, errnum.Ambiguous

    def __call__(self, t, loc=None):
        return self.ev(t, loc or {})

    def ev(self, t, loc):
        if not t.fv or not loc:
            if t.fv and not loc:
                pass
            r = self.memo.get(t.id)
            if r is None:
                r = self._ev(t, {})
                self.memo[t.id] = r
            return r
        if not t.args and t.op == "v":
            return loc[t] if t in loc else self.env[t]
        key = loc.get("$memo")
        if key is not None:
            r = key.get(t.id)
            if r is None:
                r = self._ev(t, loc)
                key[t.id] = r
            return r
        return self._ev(t, loc)

    def _ev(self, t, loc):
        o = t.op
        if o == "c":
            if t.sort == "R":
                return self.num(t.data)
            return t.data
        if o == "v":
            return loc[t] if t in loc else self.env[t]
        if o == "ite":
            return self.ev(t.args[1] if self.ev(t.args[0], loc) else t.args[2], loc)
        if o in ("and", "or"):
            amb = None
            for a in t.args:
                try:
                    if self.ev(a, loc) != (o == "and"):
                        return o == "or"
                except self.Amb as e:
                    amb = e
            if amb is not None:
                raise amb
            return o == "and"
        a = [self.ev(x, loc) for x in t.args]
        if o == "+":
            s = t.data[0] if t.sort == "I" else self.num(t.data[0])
            for k, x in zip(t.data[1], a):
                s += (x if k == 1 else (k if t.sort == "I" else self.num(k)) * x)
            return s
        if o == "*":
            s = a[0]
            for x in a[1:]:
                s = s * x
            return s
        if o == "inv":
            return (self.num(0) if a[0] == 0 else 1 / a[0])
        if o == "toR":
            return self.num(a[0])
        if o == "imin":
            return min(a)
        if o == "floor":
            return math.floor(a[0])
        if o == "not":
            return not a[0]
        if o == "iff":
            return bool(a[0]) == bool(a[1])
        if o == "le0":
            return a[0] <= 0
        if o == "lt0":
            return a[0] < 0
        if o == "eq0":
            return a[0] == 0
        if self.err and o in ("sqrt", "log", "exp"):
            return getattr(a[0], o)()
        if o == "sqrt":
            x = a[0]
            if x < 0:
                return self.num(0)
            if isinstance(x, Fraction):
                p, q = math.isqrt(x.numerator), math.isqrt(x.denominator)
                if p * p == x.numerator and q * q == x.denominator:
                    return Fraction(p, q)
            return self.num(math.sqrt(x))
        if o == "log":
            return self.num(math.log(a[0])) if a[0] > 0 else self.num(0)
        if o == "exp":
            return self.num(math.exp(a[0]))
        if o == "app":
            return self.apply(t.data, tuple(a))
        raise NotImplementedError(o)

    def apply(self, f, a):
        if f.kind == "input":
            xs = self.inputs[f.name]
            i = a[0]
            if 0 <= i < len(xs):
                return xs[i]
            return self.num(1 + (i % 3))
        key = (f, tuple((x.f, x.e) if hasattr(x, 'e') else x for x in a)) if self.err else (f, a)
        r = self.app.get(key)
        if r is None:
            try:
                r = self.fold(f, a) if f.kind == "fold" else self.rec(f, a[0])
            except self.Amb as e:
                r = e
            self.app[key] = r
        if self.err and isinstance(r, Exception):
            raise type(r)
        return r

    def fold(self, f, a):
        lo, hi = a[0], a[1]
        loc = dict(zip(f.params, a[2:]))
        agg = f.agg
        if agg == "lastidx":
            for k in range(hi, lo - 1, -1):
                if self._at(f.guard, loc, k):
                    return k
            return lo - 1
        if agg == "firstidx":
            for k in range(lo, hi + 1):
                if self._at(f.guard, loc, k):
                    return k
            return hi + 1
        if agg == "any":
            return any(self._at(f.guard, loc, k) for k in range(lo, hi + 1))
        s = None
        if agg == "sum":
            s = self.num(0)
        if agg == "prod":
            s = self.num(1)
        best = None
        mag = worst = 0.0
        for k in range(lo, hi + 1):
            l2 = {**loc, KV: k, "$memo": {}}
            if f.guard is not TRUE and not self.ev(f.guard, l2):
                continue
            b = self.ev(f.body, l2)
            if agg == "sum":
                s = s + b
                if self.err:
                    mag += abs(b.f)
                    if b.e:
                        self.hist.setdefault(f, {})[k] = abs(b.f)
            elif agg == "prod":
                s = s * b
            elif self.err and agg in ("max", "min") and f.sort == "R":
                if best is None or (b.f > best[0].f if agg == "max" else b.f < best[0].f):
                    best = (b, k)
                worst = max(worst, b.e)
            elif best is None or (b > best[0] if agg in ("max", "argmax") else b < best[0]):
                best = (b, k)
        if self.err and worst and best is not None:
            best = (type(best[0])(best[0].f, worst), best[1])
        if agg in ("sum", "prod"):
            if self.err and agg == "sum":
                past = max((m for k, m in self.hist.get(f, {}).items() if k < lo), default=0.0)
                if s.e or past:
                    s = type(s)(s.f, s.e + 1e-12 * (mag + past))
            return s
        if best is None:
            return self.num(0) if f.sort == "R" else 0
        return best[0] if agg in ("max", "min") else best[1]

    def _at(self, t, loc, k):
        return self.ev(t, {**loc, KV: k, "$memo": {}})

    def rec(self, f, i):
        rec = f.rec
        lo = self.ev(rec.lo, {})
        if i < lo:
            return False if f.sort == "B" else 0 if f.sort == "I" else self.num(0)
        # fill the table upwards to bound the recursion depth
        tab = rec_tab = self.app.setdefault(("$top", rec), [lo - 1])
        while tab[0] < i:
            j = tab[0] + 1
            loc = {rec.iv: j, "$memo": {}}
            for c in rec.comps:
                k = (c, (j,))
                if k not in self.app:
                    try:
                        self.app[k] = self.ev(rec.steps[c], loc)
                    except self.Amb as e:
                        self.app[k] = e
            tab[0] = j
        r = self.app[(f, (i,))]
        if self.err and isinstance(r, Exception):
            raise type(r)
        return r


def ef_value(env, e, loc=None):
    """float-like value of an extended float"""
    loc = loc or {}
    if env.ev(e.nan, loc):
        return None
    if env.ev(e.pi, loc):
        return math.inf
    if env.ev(e.ni, loc):
        return -math.inf
    return env.ev(e.v, loc)
