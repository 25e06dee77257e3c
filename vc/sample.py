"""Random small models: discard inequalities that are false before trying to prove them (never used to accept one)."""
import random

from .evalt import Env
from .terms import *


def local(v):
    return v.data[0].startswith("$") or "!" in v.data[0]


def variables(t):
    """all variables, through the definitions of the applications too"""
    out, seen, st = set(), set(), [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == "v":
            out.add(u)
        st.extend(u.args)
        if u.op == "app" and u.data not in seen:
            f = u.data
            seen.add(f)
            if f.kind == "fold":
                st += [f.guard, f.body]
            elif f.kind == "rec":
                st += [f.rec.lo] + list(f.rec.steps.values())
    return out


class Samples:
    def __init__(self, base, terms, count=6, seed=7, envelope=None):
        self.envelope = envelope
        self.rng = random.Random(seed)
        fv = set()
        for t in list(base) + list(terms):
            fv |= variables(t)
        self.params = sorted((v for v in fv if not local(v)), key=lambda v: v.data[0])
        self.closed = [h for h in base if not h.fs and not any(local(v) for v in variables(h))]
        self.envs = []
        for k in range(40 * count):
            if len(self.envs) == count:
                break
            e = self.model()
            if e is not None:
                self.envs.append(e)
        self.tried = 0

    def model(self):
        r = self.rng
        n = r.randint(2, 12)
        env = {}
        for v in self.params:
            if v.data[0] == "n":
                env[v] = n
            elif v.sort == "I":
                env[v] = r.randint(1, 4)
            elif v.sort == "R":
                env[v] = Fraction(r.randint(1, 8), r.choice([1, 2, 4]))
            else:
                env[v] = r.random() < 0.5
        lo, hi, cl, op, vo = [], [], [], [], []
        p, calm = r.randint(5, 15), r.random() < 0.3
        for i in range(n):
            p = max(2, p + r.randint(-3, 3) * (0 if calm and r.random() < 0.5 else 1))
            a, b = r.choice([0, 0, 1, 2]), r.choice([0, 0, 1, 2])
            lo.append(Fraction(max(1, p - a)))
            hi.append(Fraction(p + b))
            cl.append(Fraction(p))
            op.append(Fraction(p))
            vo.append(Fraction(r.choice([0, 1, 2, 5])))
        sc = r.choice([Fraction(1), Fraction(1, 40), Fraction(100)])
        lo, hi, cl, op = ([x * sc for x in xs] for xs in (lo, hi, cl, op))
        if self.envelope:
            # the tightest bounds: those of the model
            xs = dict(low=lo, high=hi, close=cl)
            env[self.envelope.low], env[self.envelope.high] = min(xs[self.envelope.names[0]]), max(xs[self.envelope.names[1]])
        e = Env(env, dict(low=lo, high=hi, close=cl, open=op, volume=vo))
        e.n = n
        try:
            if all(e(h) for h in self.closed):
                return e
        except Exception:
            return None
        return None

    def refuted(self, hyps, p, tries=10):
        """some sampled model satisfies the hypotheses and makes p positive"""
        loc = set()
        for t in list(hyps) + [p]:
            loc |= {v for v in t.fv if local(v)}
        if any(v.sort != "I" for v in loc):
            return False
        loc = sorted(loc, key=lambda v: v.data[0])
        r = random.Random(p.id)
        hs = sorted(hyps, key=lambda h: (bool(h.fs), len(h.fv), h.id))
        for e in self.envs:
            for _ in range(tries if loc else 1):
                l = {v: r.randint(0, e.n - 1) for v in loc}
                l["$memo"] = {}
                try:
                    if e.ev(p, l) <= 0:
                        continue
                    if all(e.ev(h, l) for h in hs):
                        return True
                except (KeyError, NotImplementedError, ArithmeticError, TypeError, RecursionError):
                    return False
        return False

    def false_somewhere(self, h, v):
        """h(v) fails at some row of some model"""
        for e in self.envs:
            for t in range(0, e.n):
                try:
                    if not e.ev(h, {v: t, "$memo": {}}):
                        return True
                except (KeyError, NotImplementedError, ArithmeticError, TypeError, RecursionError):
                    return False
        return False
