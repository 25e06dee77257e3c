"""Units of measure of terms: every real term is homogeneous of a degree (price, volume), every comparison relates
quantities of one degree.  Then scaling prices by a and volumes by b scales the term by a^p b^v and changes no condition.
The degree of zero is free (None)."""
from .terms import *
from fractions import Fraction


class Mismatch(Exception):
    pass


DEG = {"open": (1, 0), "high": (1, 0), "low": (1, 0), "close": (1, 0), "volume": (0, 1)}
ANY = None


def _add(a, b):
    return (a[0] + b[0], a[1] + b[1])


class Units:
    def __init__(self, prover=None, hyps=()):
        self.P, self.hyps = prover, list(hyps)
        self.memo = {}
        self.rec = {}      # component -> degree (None: so far only zero)
        self.done = set()

    def join(self, ds, t):
        r = ANY
        for d in ds:
            if d is ANY:
                continue
            if r is ANY:
                r = d
            elif r != d:
                raise Mismatch(f"adds or compares quantities of units {r} and {d}: {str(t)[:200]}")
        return r

    def real(self, t):
        k = t.id
        if k in self.memo:
            return self.memo[k]
        r = self._real(t)
        self.memo[k] = r
        return r

    def _real(self, t):
        o = t.op
        if o == "c":
            return ANY if t.data == 0 else (0, 0)
        if o == "v":
            return (0, 0)
        if o == "toR":
            self.int(t.args[0])
            return (0, 0)
        if o == "+":
            logs = [(k, a) for k, a in zip(t.data[1], t.args) if a.op == "log"]
            rest = [a for a in t.args if a.op != "log"]
            ds = [self.real(a) for a in rest]
            if logs:
                # a sum of logarithms is a pure number when the units cancel
                tot = (0, 0)
                for k, a in logs:
                    d = self.real(a.args[0]) or (0, 0)
                    tot = (tot[0] + k * d[0], tot[1] + k * d[1])
                if tot != (0, 0):
                    raise Mismatch(f"logarithm of a quantity with a unit: {str(t)[:200]}")
                ds.append((0, 0))
            if t.data[0] != 0:
                ds.append((0, 0))
            return self.join(ds, t)
        if o == "*":
            r = (0, 0)
            for a in t.args:
                d = self.real(a)
                if d is ANY:
                    return ANY
                r = _add(r, d)
            return r
        if o == "inv":
            d = self.real(t.args[0])
            return ANY if d is ANY else (-d[0], -d[1])
        if o == "sqrt":
            d = self.real(t.args[0])
            return ANY if d is ANY else (Fraction(d[0]) / 2, Fraction(d[1]) / 2)
        if o in ("exp", "log"):
            d = self.real(t.args[0])
            if d not in (ANY, (0, 0)):
                raise Mismatch(f"{o} of a quantity with a unit: {str(t)[:200]}")
            return (0, 0)
        if o == "ite":
            self.bool(t.args[0])
            a, b = self.real(t.args[1]), self.real(t.args[2])
            if ANY not in (a, b) and a != b:
                # a branch that is only taken with the value 0 has no unit
                if self.zero(t.args[1], t.args[0]):
                    a = ANY
                elif self.zero(t.args[2], not_(t.args[0])):
                    b = ANY
            return self.join([a, b], t)
        if o == "app":
            f = t.data
            if f.kind == "input":
                self.int(t.args[0])
                return DEG[f.name]
            if f.kind == "fold":
                return self.fold(t)
            if f.kind == "rec":
                self.int(t.args[0])
                self.solve(f.rec)
                return self.rec[f]
        raise Mismatch(f"unit of {o} unknown")

    def zero(self, x, cond):
        if self.P is None:
            return False
        import z3
        return self.P.check([h for h in self.hyps if h.fv <= x.fv | cond.fv] + [cond, ne(x, RZERO)], self.P.zl, 1500, 2) == z3.unsat

    def fold(self, t):
        f = t.data
        for a in t.args:
            self.any(a)
        k = var(f"$u{f.depth}", "I", True)
        g, b = f.at(t.args, k)
        self.bool(g)
        if f.agg in ("any", "lastidx", "firstidx"):
            return (0, 0)
        d = self.real(b)
        if f.agg in ("argmax", "argmin"):
            return (0, 0)
        if f.agg == "prod":
            if d not in (ANY, (0, 0)):
                raise Mismatch("product of a varying number of quantities with a unit")
            return (0, 0)
        return d

    def any(self, t):
        return self.bool(t) if t.sort == "B" else self.int(t) if t.sort == "I" else self.real(t)

    def int(self, t):
        key = ("i", t.id)
        if key in self.memo:
            return
        self.memo[key] = True
        if t.op == "app":
            if t.data.kind == "fold":
                self.fold(t)
            elif t.data.kind == "rec":
                self.solve(t.data.rec)
            return
        if t.op == "floor":
            d = self.real(t.args[0])
            if d not in (ANY, (0, 0)):
                raise Mismatch(f"rounding of a quantity with a unit: {str(t)[:200]}")
            return
        if t.op == "ite":
            self.bool(t.args[0])
            self.int(t.args[1])
            self.int(t.args[2])
            return
        for a in t.args:
            self.any(a)

    def bool(self, t):
        key = ("b", t.id)
        if key in self.memo:
            return
        self.memo[key] = True
        if t.op in ("le0", "lt0", "eq0"):
            self.any(t.args[0])
        elif t.op == "app":
            if t.data.kind == "fold":
                self.fold(t)
            elif t.data.kind == "rec":
                self.int(t.args[0])
                self.solve(t.data.rec)
        else:
            for a in t.args:
                self.any(a)

    def solve(self, rec):
        """least degrees of the components, by iteration from 'zero so far'"""
        if rec in self.done:
            return
        self.done.add(rec)
        for c in rec.comps:
            self.rec[c] = ANY if c.sort == "R" else (0, 0)
        for _ in range(len(rec.comps) + 2):
            keep = dict(self.memo)
            new = {}
            for c in rec.comps:
                st = rec.steps[c]
                if c.sort == "R":
                    new[c] = self.real(st)
                else:
                    self.any(st)
            if all(self.rec[c] == new.get(c, self.rec[c]) for c in rec.comps):
                return
            self.memo = keep
            self.rec.update(new)
        raise Mismatch("units of a loop do not settle")
