"""Translation to Z3 and the feasibility oracle used during symbolic execution."""
import time

import z3

from .lib import *




class Z:
    """translation of terms to Z3 (functions uninterpreted)"""

    def __init__(self):
        self.memo, self.fn, self.keep = {}, {}, []
        self.reals = {}

    def f(self, fs):
        r = self.fn.get(fs)
        if r is None:
            so = {"I": z3.IntSort(), "R": z3.RealSort(), "B": z3.BoolSort()}
            r = self.fn[fs] = z3.Function(f"{fs.name}!{fs.uid}", *[so[s] for s in fs.sorts], so[fs.sort])
        return r

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._tr(t)
        return r

    def _un(self, name, *args):
        so = lambda a: a.sort()
        return z3.Function(name, *[so(a) for a in args], z3.RealSort())(*args)

    def _tr(self, t):
        o = t.op
        if o == "c":
            return z3.BoolVal(t.data) if t.sort == "B" else z3.IntVal(t.data) if t.sort == "I" else z3.RealVal(str(t.data))
        if o == "v":
            nm = f"{t.data[0]}"
            return {"I": z3.Int, "R": z3.Real, "B": z3.Bool}[t.sort](nm)
        a = [self(x) for x in t.args]
        if o == "+":
            k = t.data[0]
            c = z3.IntVal(k) if t.sort == "I" else z3.RealVal(str(k))
            ks = [z3.IntVal(q) if t.sort == "I" else z3.RealVal(str(q)) for q in t.data[1]]
            return z3.Sum([c] + [q * x if not (z3.is_rational_value(q) or z3.is_int_value(q)) or str(q) != "1" else x for q, x in zip(ks, a)])
        if o == "*":
            r = a[0]
            for x in a[1:]:
                r = r * x
            return r
        if o == "imin":
            r = a[0]
            for x in a[1:]:
                r = z3.If(x < r, x, r)
            return r
        if o == "inv":
            return self._un("inv", a[0])
        if o == "toR":
            return z3.ToReal(a[0])
        if o == "floor":
            return z3.ToInt(a[0])
        if o == "not":
            return z3.Not(a[0])
        if o == "and":
            return z3.And(a)
        if o == "or":
            return z3.Or(a)
        if o == "iff":
            return a[0] == a[1]
        if o == "le0":
            return a[0] <= 0
        if o == "lt0":
            return a[0] < 0
        if o == "eq0":
            return a[0] == 0
        if o == "ite":
            return z3.If(*a)
        if o == "app":
            return self.f(t.data)(*a)
        return self._un(o, *a)


class Oracle:
    def __init__(self):
        self.z = Z()
        self.cache = {}
        self.time = 0.0
        self.calls = 0

    def bnd(self, ts):
        out, seen = [], set()
        for t in ts:
            for v in subterms(t, lambda u: u.op in ("v", "app"), seen):
                if v.op == "v":
                    lb, ub = bounds(v)
                    if lb is not None:
                        out.append(self.z(v) >= lb)
                    if ub is not None:
                        out.append(self.z(v) <= ub)
                    if v in POS:
                        out.append(self.z(v) > 0)
        return out

    def __call__(self, hyps, cond):
        key = (frozenset(h.id for h in hyps), cond.id)
        if key in self.cache:
            return self.cache[key]
        t0 = time.time()
        self.calls += 1
        r = None
        s = z3.SolverFor("QF_AUFLIRA") if False else z3.Solver()
        s.set("rlimit", 2000000)
        s.set("timeout", 4000)
        for h in hyps:
            s.add(self.z(h))
        for x in self.bnd(list(hyps) + [cond]):
            s.add(x)
        c = self.z(cond)
        s.push()
        s.add(c)
        if s.check() == z3.unsat:
            r = False
        else:
            s.pop()
            s.add(z3.Not(c))
            if s.check() == z3.unsat:
                r = True
        self.time += time.time() - t0
        self.cache[key] = r
        return r
