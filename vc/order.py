"""Order lemmas: p <= 0 for terms with aggregates, quotients and recurrences.

Rules (each sound on its own; every leaf is decided by the normaliser or by Z3):
  case split          on a visible if-then-else condition
  generalisation      a last/first index becomes an arbitrary position with its defining facts
  clearing            A + B/x <= 0  from  x > 0 |- A*x + B <= 0  and  x = 0 |- A <= 0   (x >= 0)
  ratio               y/x is replaced by a fresh number in the interval proved for it
  aggregate           sum_k m_k b_k + rest <= 0 from the pointwise inequality with the rest spread over the range
  witness             a maximum (minimum) with positive (negative) coefficient is attained at some position
  elimination         an atom is replaced by a proved bound when the sign of its coefficient is proved
  induction           bounds of recurrence components by simultaneous induction (candidates that fail are dropped)
"""
import time

import z3

from .lib import *
from .prove import Ctx, Prover, raw_ge0, raw_gt0, replace, kvar, isindex
from .recs import subst_fs
from .sample import Samples
from .terms import _lin, _mklin, _factors


class OutOfTime(Exception):
    pass


def monos(p):
    """[(coefficient, [factors])]"""
    c, d = _lin(p)
    out = [(Fraction(c), [])] if c else []
    for u, k in d.items():
        out.append((Fraction(k), list(u.args) if u.op == "*" else [u]))
    return out


def build(ms):
    return add(RZERO, *[scale(k, mul(RONE, *fs)) for k, fs in ms])


def coeff(p, z):
    """p = a*z + b with b free of z as a factor (a may contain z when p is not linear: then None)"""
    a, b = [], []
    for k, fs in monos(p):
        n = fs.count(z)
        if n == 0:
            b.append((k, fs))
        elif n == 1:
            g = list(fs)
            g.remove(z)
            a.append((k, g))
        else:
            return None
    A, Bt = build(a), build(b)
    return A, Bt


def visible_ites(p):
    seen, out, st = set(), [], [p]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == "ite":
            out.append(u)
        st.extend(u.args)
    return out


def rational_sqrt(x):
    import math
    x = Fraction(x)
    if x < 0:
        return None
    a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
    return Fraction(a, b) if a * a == x.numerator and b * b == x.denominator else None


def square(p):
    """(k, s, c) with p = k*s^2 + c, s with at least one factor"""
    ms = [(k, tuple(sorted(fs, key=lambda u: u.id))) for k, fs in monos(p)]
    rest = {fs: k for k, fs in ms if fs}
    c = sum(k for k, fs in ms if not fs)
    if not rest or len(rest) > 30:
        return None
    order = lambda fs: (len(fs), [u.id for u in fs])
    lead = max(rest, key=order)
    half = []
    for u in dict.fromkeys(lead):
        if lead.count(u) % 2:
            return None
        half += [u] * (lead.count(u) // 2)
    k0 = rest[lead]
    sg = 1 if k0 > 0 else -1
    root = rational_sqrt(abs(k0))
    if root is None:
        return None
    if root == 0:
        return None
    s = scale(root, mul(RONE, *half))
    for _ in range(6):
        r = sub(scale(sg, p), mul(s, s))
        if r.op == "c":
            return Fraction(sg), s, Fraction(r.data) * sg
        rm = {tuple(sorted(fs, key=lambda u: u.id)): k for k, fs in monos(r) if fs}
        big = max(rm, key=order)
        g = list(big)
        try:
            for u in half:
                g.remove(u)
        except ValueError:
            return None
        s = add(s, scale(rm[big] / (2 * root), mul(RONE, *g)))
    return None


class Order:
    def __init__(self, P, caps=(), deadline=None):
        self.P = P
        self.caps = [c if isinstance(c, T) else R(c) for c in caps]
        self.memo = {}
        self.deadline = deadline
        self.tried = set()
        self.nfresh = 0
        self.trace = False
        self.recdone = {}
        self.busy = set()
        self.nonlinear = True
        self.samples = None
        self.noind = False
        self.active = {}

    # ------------------------------------------------------------ leaf
    def leaf(self, p, ctx, depth=3, to=700):
        P = self.P
        if self.deadline and time.time() > self.deadline:
            raise OutOfTime
        g = raw_gt0(p)
        if g.op == "c":
            return not g.data
        if P.check(list(ctx.hyps) + [g], P.zl, to, depth) == z3.unsat:
            return True
        ff = self.foldfacts(p, ctx)
        return bool(ff) and P.check(list(ctx.hyps) + ff + [g], P.zl, to, depth) == z3.unsat

    def foldfacts(self, p, ctx):
        """max/min at the positions the term mentions"""
        P = self.P
        key = ("ff", p.id, ctx.key)
        if key in self.memo:
            return self.memo[key]
        out = []
        fs = [u for u in apps(p) if u.data.kind == "fold" and u.data.agg in ("max", "min")]
        if fs:
            pts = self.points(p, ctx)[:8]
            for u in fs[:6]:
                lo, hi = u.args[:2]
                for j in pts:
                    if P.entails(ctx, and_(le(lo, j), le(j, hi))) is True:
                        gj, bj = u.data.at(u.args, j)
                        bj = P.norm(bj, ctx)
                        f = P.norm(implies(gj, le(bj, u) if u.data.agg == "max" else le(u, bj)), ctx)
                        if f.op != "c":
                            out.append(f)
        self.memo[key] = out
        return out

    def sgn(self, p, ctx, fuel):
        """'+': p >= 0, '-': p <= 0, None"""
        p = self.P.norm(p, ctx)
        if p.op == "c":
            return "+" if p.data >= 0 else "-"
        if known_positive(p) or (bounds(p)[0] is not None and bounds(p)[0] >= 0):
            return "+"
        if self.leaf(neg(p), ctx):
            return "+"
        if self.leaf(p, ctx):
            return "-"
        r = self.square_sign(p, ctx, fuel)
        if r:
            return r
        if fuel > 0:
            if self.le(neg(p), ctx, fuel - 1):
                return "+"
            if self.le(p, ctx, fuel - 1):
                return "-"
        return None

    def square_sign(self, p, ctx, fuel):
        """the sign of k*s^2 + c"""
        r = square(p)
        if r is None:
            return None
        k, s, c = r
        if k > 0 and c >= 0:
            return "+"
        if k < 0 and c <= 0:
            return "-"
        m = rational_sqrt(-c / k)
        if m is None or fuel <= 0:
            return None
        m = const(m, "R")
        if self.le(sub(s, m), ctx, fuel) and self.le(sub(neg(s), m), ctx, fuel):
            return "-" if k > 0 else "+"
        return None

    # ------------------------------------------------------------ main
    def top(self, p, base, extra=()):
        """p <= 0 under hypotheses; the extra ones are normalised and dropped when they are not needed"""
        if self.samples is None:
            self.samples = Samples(base, [p] + list(extra), envelope=self.P.envelope)
        return self.le(p, self.assume(base, extra))

    def assume(self, base, extra):
        hs = list(base)
        todo = list(extra)
        todo.sort(key=lambda h: (bool(h.fs), h.id))
        while todo:
            n = self.P.norm(todo.pop(0), Ctx.of(hs))
            if n.op == "and":
                todo = list(n.args) + todo
            elif n is not TRUE:
                hs.append(n)
        return Ctx.of(hs)

    def le(self, p, ctx, fuel=6):
        P = self.P
        p = P.norm(p, ctx)
        if p.op == "c":
            return p.data <= 0
        if ctx.false:
            return True
        key = (p.id, ctx.key)
        r = self.memo.get(key)
        if r is True or (r is not None and r >= fuel):
            if self.trace:
                print("  " * (8 - fuel), "memo", r, str(p)[:900], "|", [str(h) for h in ctx.hyps][-6:])
            return r is True
        self.memo[key] = fuel
        if r is None and self.samples is not None and self.samples.refuted(ctx.hyps, p):
            self.memo[key] = 99
            return False
        if self.trace:
            print("  " * (8 - fuel), "le", str(p)[:150], "|", str(ctx.hyps)[-150:])
        ok = self._le(p, ctx, fuel)
        if ok:
            self.memo[key] = True
        if self.trace:
            print("  " * (8 - fuel), "->", ok)
        return ok

    def _le(self, p, ctx, fuel):
        P = self.P
        if self.leaf(p, ctx):
            return True
        if fuel <= 0:
            return False
        its = visible_ites(p)
        if its:
            # the condition that occurs most often first
            cs = {}
            for u in its:
                cs[u.args[0]] = cs.get(u.args[0], 0) + 1
            c = min(cs, key=lambda c: (not isindex(c), -cs[c], c.id))
            on = [u for u in its if u.args[0] is c]
            return self.le(replace(p, {u: u.args[1] for u in on}), ctx.plus(c), fuel) and \
                self.le(replace(p, {u: u.args[2] for u in on}), ctx.plus(not_(c)), fuel)
        r = self.cancel(p, ctx, fuel)
        if r is not None:
            return r
        r = self.generalise(p, ctx, fuel)
        if r is not None:
            return r
        r = self.diffratio(p, ctx, fuel)
        if r is not None:
            return r
        if self.convex(p, ctx, fuel):
            return True
        r = self.clear_const(p, ctx, fuel)
        if r is not None:
            return r
        r = self.sumcaps(p, ctx, fuel) or self.factor(p, ctx, fuel)
        if r is not None:
            return r
        if self.roots(p, ctx, fuel) or self.common(p, ctx, fuel):
            return True
        for rule in (self.quotients, self.sums, self.recs, self.eliminate, self.witness, lambda *a: self.factor(*a, split=True)):
            r = rule(p, ctx, fuel)
            if r:
                return True
        return self.nonlinear and P.check(list(ctx.hyps) + [raw_gt0(p)], P.zn, 400, 2) == z3.unsat

    # ------------------------------------------------------------ last / first index
    def generalise(self, p, ctx, fuel):
        P = self.P
        for u in apps(p):
            if u.data.kind == "fold" and u.data.agg in ("lastidx", "firstidx"):
                self.nfresh += 1
                j = declare(var(f"$j{self.nfresh}", "I", True))
                m = {u: j}
                facts = [replace(x, m) for x in P.facts_of(u)]
                hyps = [replace(h, m) for h in ctx.hyps]
                c2 = self.assume(hyps, facts)
                q = replace(p, m)
                return self.le(q, c2, fuel)
        return None

    # ------------------------------------------------------------ contradictions
    def compare(self, form, base, extra=()):
        """the facts y <= x and -y <= x that hold between the numbers form compares with zero, where the extra hypotheses hold"""
        if self.samples is None:
            self.samples = Samples(base, [form])
        ctx = self.assume(base, extra)
        at = {}
        for u in subterms(form, lambda u: u.op in ("eq0", "lt0", "le0") and u.args[0].sort == "R"):
            ms = monos(u.args[0])
            if len(ms) == 1 and len(ms[0][1]) == 1 and ms[0][1][0].op == "app":
                at[ms[0][1][0]] = 0
        out = []
        for x in at:
            for y in at:
                if x is not y and (x.op != "app" or y.op != "app" or x.data.kind != "fold" or y.data.kind != "fold" or x.args == y.args):
                    if x.op == "app" and x.data.kind == "fold" and y.op == "app" and y.data.kind == "fold":
                        # a sum of non-negative terms is zero only when every term is
                        if x.data.agg != "sum" or y.data.agg != "sum" or self.P.sign(x.data) not in ("ge0", "gt0"):
                            continue
                        k = self.P.kv(max(x.data.depth, y.data.depth) + 20, x.args[0], ctx)
                        bx, by = (ite(g, b, RZERO) for g, b in (f.data.at(f.args, k) for f in (x, y)))
                        inner = ctx.plus(le(x.args[0], k), le(k, x.args[1]), eq(bx, RZERO))
                        for sg in (1, -1):
                            if self.le(scale(sg, by), inner, 4):
                                out.append(implies(eq(x, RZERO), le(scale(sg, y), RZERO)))
                        continue
                    for q in (sub(y, x), sub(neg(y), x)):
                        if self.le(q, ctx, 5):
                            out.append(le(q, RZERO))
        return out

    # ------------------------------------------------------------ quotients
    def cancel(self, p, ctx, fuel):
        """x / x"""
        for k, fs in monos(p):
            for f in fs:
                if f.op == "inv" and f.args[0] in fs:
                    x = f.args[0]
                    out = []
                    for k, fs in monos(p):
                        g = list(fs)
                        while f in g and x in g:
                            g.remove(f)
                            g.remove(x)
                        out.append((k, g))
                    ok = self.le(build(out), ctx.plus(ne(x, RZERO)), fuel)
                    return ok and (self.P.entails(ctx, ne(x, RZERO)) is True or
                                   self.le(build([(k, fs) for k, fs in monos(p) if f not in fs]), ctx.plus(eq(x, RZERO)), fuel))
        return None

    def invs(self, p):
        out = {}
        for k, fs in monos(p):
            for f in fs:
                if f.op == "inv":
                    out[f] = max(out.get(f, 0), fs.count(f))
        return out

    def clear_const(self, p, ctx, fuel):
        """multiply by parameters known positive (windows, weights)"""
        q = p
        for f, n in self.invs(p).items():
            x = f.args[0]
            if not x.fs and known_positive(x):
                for _ in range(n):
                    q = self.clear_mul(q, f)
        if q is not p:
            return self.le(q, ctx, fuel)
        return None

    def clear_mul(self, p, f):
        x = f.args[0]
        out = []
        for k, fs in monos(p):
            if f in fs:
                g = list(fs)
                g.remove(f)
                out.append(scale(k, mul(RONE, *g)))
            else:
                out.append(scale(k, mul(x, RONE, *fs)))
        return add(RZERO, *out)

    def diffratio(self, p, ctx, fuel):
        """powers of (a - b)/x become powers of one number in the interval proved for it"""
        for f, n in self.invs(p).items():
            if n < 2 or not f.fs or f.args[0].op != "app":
                continue
            x = f.args[0]
            at = list({u: 1 for _, fs in monos(p) if f in fs for u in fs if u.op == "app" and u.data.kind == "input"})
            for a in at[:4]:
                for b in at[:4]:
                    if a is b or a.data is not b.data:
                        continue
                    dv = var(f"$diff{a.id}_{b.id}", "R", True)
                    rv = var(f"$ratio{a.id}_{b.id}_{x.id}", "R", True)
                    out = []
                    for k, fs in monos(replace(p, {b: sub(a, dv)})):
                        c = fs.count(f)
                        if fs.count(dv) != c:
                            out = None
                            break
                        out.append((k, [u for u in fs if u is not f and u is not dv] + [rv] * c))
                    if out is None or self.sgn(x, ctx, fuel - 1) != "+":
                        continue
                    d = sub(a, b)
                    s = self.sgn(d, ctx, 0)
                    facts = [raw_ge0(rv)] if s == "+" else [raw_ge0(neg(rv))] if s == "-" else []
                    if s != "-" and self.le(sub(d, x), ctx, fuel - 1):
                        facts.append(le(rv, RONE))
                    if s != "+" and self.le(sub(neg(d), x), ctx, fuel - 1):
                        facts.append(ge(rv, neg(RONE)))
                    return self.le(build(out), ctx.plus(*facts), fuel) or None
        return None

    def convex(self, p, ctx, fuel):
        """a price weighted by a square, or by a constant less a square, is replaced by one of its bounds"""
        for z in {f: 1 for _, fs in monos(p) for f in fs if f.op == "app" and f.data.kind in ("rec", "input") and len(fs) > 1}:
            r = coeff(p, z)
            if r is None or r[0].op == "c":
                continue
            q = square(r[0])
            if q is None or len(monos(q[1])) < 2:
                continue
            s = self.square_sign(r[0], ctx, fuel - 1)
            if s is None:
                continue
            for up, t in self.atom_bounds(z, ctx):
                if up == (s == "+") and self.le(add(mul(r[0], t), r[1]), ctx, fuel - 1):
                    return True
        return None

    def roots(self, p, ctx, fuel):
        """a*sqrt(x) + b <= 0 from x <= C^2 and a*C + b <= 0, for a > 0"""
        for f in {f for _, fs in monos(p) for f in fs if f.op == "sqrt"}:
            r = coeff(p, f)
            if r is None or r[0].op != "c" or r[0].data <= 0:
                continue
            for c in self.caps:
                if c.op == "c" and c.data <= 0 or c.op != "c":
                    continue
                q = add(scale(c.data, r[0]), r[1])
                if (q.op != "c" or q.data <= 0) and self.le(sub(f.args[0], mul(c, c)), ctx, fuel - 1):
                    if self.le(q, ctx, fuel - 1):
                        return True
        return None

    def common(self, p, ctx, fuel):
        """D*Q <= 0 from the sign of the data factors D common to all terms"""
        ms = monos(p)
        com = list(ms[0][1])
        for _, fs in ms[1:]:
            g, nxt = list(fs), []
            for u in com:
                if u in g:
                    g.remove(u)
                    nxt.append(u)
            com = nxt
        if not com or len(ms) < 2:
            return None
        out = []
        for k, fs in ms:
            g = list(fs)
            for u in com:
                g.remove(u)
            out.append((k, g))
        s = self.sgn(mul(RONE, *com), ctx, min(1, fuel - 1))
        if s is None:
            return None
        q = build(out)
        return self.le(q if s == "+" else neg(q), ctx, fuel - 1) or None

    def factor(self, p, ctx, fuel, split=False):
        """p = sum of q_i * A_i with q_i free of data: every part on its own (q >= 0 and A <= 0)"""
        cl = {}
        for k, fs in monos(p):
            d = tuple(f for f in fs if f.fs)
            cl.setdefault(d, []).append((k, [f for f in fs if not f.fs]))
        parts = {}
        for d, m in cl.items():
            q = build(m)
            if q.op == "c":
                k, q = q.data, RONE
            else:
                k = monos(q)[0][0]
                q = scale(1 / k, q)
            parts.setdefault(q, []).append(scale(k, mul(RONE, *d)))
        if len(parts) == 1 and RONE in parts:
            return None
        todo = []
        for q, m in parts.items():
            s = self.sgn(q, ctx, 0)
            if s is None:
                return None
            A = add(RZERO, *m)
            todo.append(A if s == "+" else neg(A))
        if len(todo) == 1:
            return self.le(todo[0], ctx, fuel)
        old, self.noind = self.noind, not split or self.noind
        try:
            return all(self.le(A, ctx, fuel - 1) for A in todo) or None
        finally:
            self.noind = old

    def quotients(self, p, ctx, fuel):
        iv = self.invs(p)
        if not iv:
            return None
        P = self.P
        if any(sum(1 for f in fs if f.op == "inv" and f.args[0].fs) > 1 for _, fs in monos(p)):
            # the outermost quotient, when the sign of its divisor is immediate
            f = max(iv, key=lambda f: f.id)
            x = P.norm(f.args[0], ctx)
            for s, y in (("+", neg(x)), ("-", x)):
                if self.leaf(y, ctx):
                    if self.clear(p, f, f.args[0], s, ctx, fuel):
                        return True
                    break
        if len(iv) > 1:
            # ratios: every quotient becomes a number with a proved range
            q, facts = p, []
            for f in iv:
                r = self.ratio(q, f, ctx, fuel - 1)
                if r is None:
                    continue
                q, fc = r
                facts += fc
            if q is not p:
                if self.le(q, ctx.plus(*facts), fuel - 1):
                    return True
        # clear one quotient, the outermost first
        for f in sorted(iv, key=lambda f: -f.id):
            x = f.args[0]
            s = self.sgn(x, ctx, fuel - 1)
            if s is None:
                continue
            if self.clear(p, f, x, s, ctx, fuel):
                return True
        return None

    def clear(self, p, f, x, s, ctx, fuel):
        q = self.clear_mul(p, f)
        if s == "-":
            q = neg(q)
        pos = raw_gt0(x) if s == "+" else raw_gt0(neg(x))
        zero = eq(x, RZERO)
        p0 = add(RZERO, *[scale(k, mul(RONE, *fs)) for k, fs in monos(p) if f not in fs])
        return self.le(q, ctx.plus(pos), fuel - 1) and \
            (self.P.entails(ctx, not_(zero)) is True or self.le(p0, ctx.plus(zero), fuel - 1))

    def ratio(self, p, f, ctx, fuel):
        """p with (content * y / x) replaced by content * r, and the facts about r"""
        x = f.args[0]
        part = [(k, [g for g in fs if g is not f]) for k, fs in monos(p) if fs.count(f) == 1]
        rest = [(k, fs) for k, fs in monos(p) if f not in fs]
        if len(part) + len(rest) != len(monos(p)):
            return None
        if not part:
            return None
        # common factors of the numerator
        com = list(part[0][1])
        for k, fs in part[1:]:
            g, nxt = list(fs), []
            for u in com:
                if u in g:
                    g.remove(u)
                    nxt.append(u)
            com = nxt
        # factors depending on the data belong to the ratio
        com = [u for u in com if not u.fs]
        k0 = part[0][0]
        num = []
        for k, fs in part:
            g = list(fs)
            for u in com:
                g.remove(u)
            num.append((k / k0, g))
        y = build(num)
        if self.sgn(x, ctx, fuel) != "+":
            return None
        lo, hi, facts = False, False, []
        rv = var(f"$ratio{y.id}_{x.id}", "R", True)
        if self.le(neg(y), ctx, fuel):
            facts.append(raw_ge0(rv))
            lo = True
        elif self.le(y, ctx, fuel):
            facts.append(raw_ge0(neg(rv)))
            hi = True
        for cap in [RONE] + self.caps:
            if cap.op == "c" and cap.data <= 0:
                continue
            if not hi and self.le(sub(y, mul(cap, x)), ctx, fuel):
                facts.append(le(rv, cap))
                hi = True
            if not lo and self.le(sub(mul(neg(cap), x), y), ctx, fuel):
                facts.append(ge(rv, neg(cap)))
                lo = True
        if not facts:
            return None
        q = add(build(rest), scale(k0, mul(rv, *com)) if com else scale(k0, rv))
        return q, facts

    # ------------------------------------------------------------ sums
    def sumcaps(self, p, ctx, fuel):
        """a sum is at most (at least) a cap times the number of its terms"""
        P = self.P
        for s in {f: 1 for _, fs in monos(p) for f in fs if f.op == "app" and f.data.kind == "fold" and f.data.agg == "sum"}:
            r = coeff(p, s)
            if r is None or any(s in apps(x) for x in r) or r[0].fs or r[0].op == "c":
                continue
            a, b = r
            sg = self.sgn(a, ctx, 0)
            if sg is None:
                continue
            lo, hi = s.args[:2]
            cnt = toR(add(hi, neg(lo), ONE))
            ci = Ctx.of([h for h in ctx.hyps if not h.fs])
            if P.entails(ci, le(lo, add(hi, ONE))) is not True:
                continue
            k = P.kv(s.data.depth + 20 + (6 - fuel), lo, ci)
            gd, bd = s.data.at(s.args, k)
            inner = ci.plus(le(lo, k), le(k, hi))
            body = ite(gd, bd, RZERO)
            for c in self.caps:
                for cap in ((c,) if c is RZERO else (c, neg(c))):
                    q = sub(body, cap) if sg == "+" else sub(cap, body)
                    key = ("cap", s.id, cap.id, sg, ci.key)
                    if key in self.memo:
                        ok = self.memo[key]
                    else:
                        self.memo[key] = False
                        ok = self.memo[key] = self.le(q, inner, fuel - 1)
                    if ok and self.le(add(mul(a, cap, cnt), b), ctx, fuel - 1):
                        return True
        for z in {f: 1 for _, fs in monos(p) for f in fs if f.op == "app" and f.data.kind == "rec"}:
            r = coeff(p, z)
            if r is None or any(z in apps(x) for x in r) or r[0].fs or r[0].op == "c" or not r[1].fs:
                continue
            a, b = r
            sg = self.sgn(a, ctx, 0)
            for up, t in self.atom_bounds(z, ctx):
                if t.op == "c" and up == (sg == "+") and self.le(add(mul(a, t), b), ctx, fuel - 1):
                    return True
        return None

    def sums(self, p, ctx, fuel):
        P = self.P
        ss = {}
        for k, fs in monos(p):
            for f in fs:
                if f.op == "app" and f.data.kind == "fold" and f.data.agg == "sum":
                    ss[f] = ss.get(f, 0) + 1
        if not ss:
            return None
        # every monomial with exactly one sum
        groups = []
        for s in sorted(ss, key=lambda s: -s.id):
            for g in groups:
                if P.entails(ctx, and_(le(g[0].args[0], s.args[0]), le(s.args[1], g[0].args[1]))) is True:
                    g.append(s)
                    break
                if P.entails(ctx, and_(le(s.args[0], g[0].args[0]), le(g[0].args[1], s.args[1]))) is True and \
                        all(P.entails(ctx, and_(le(s.args[0], x.args[0]), le(x.args[1], s.args[1]))) is True for x in g[1:]):
                    g.insert(0, s)
                    break
            else:
                groups.append([s])
        for g in groups:
            if self.sum_parts(p, g, ctx, fuel) or self.sum_group(p, g, ctx, fuel):
                return True
        return None

    def sum_parts(self, p, g, ctx, fuel):
        """p = q * (combination of sums) + rest with q free of data: both parts separately"""
        co, rest = {}, []
        for k, fs in monos(p):
            hit = [f for f in fs if f in g]
            if len(hit) > 1:
                return False
            if hit:
                o = list(fs)
                o.remove(hit[0])
                if any(x.fs for x in o):
                    return False
                co.setdefault(hit[0], []).append((k, o))
            else:
                rest.append((k, fs))
        co = {s: build(m) for s, m in co.items()}
        q = next(iter(co.values()))
        if len(co) < 2 or q.op == "c":
            return False
        k0 = monos(q)[0][0]
        q = scale(1 / k0, q)
        comb = []
        for s, a in co.items():
            k = monos(a)[0][0]
            if scale(1 / k, a) is not q:
                return False
            comb.append(scale(k, s))
        s = self.sgn(q, ctx, 0)
        if s is None:
            return False
        d = add(RZERO, *comb)
        return self.le(build(rest), ctx, fuel - 1) and self.le(d if s == "+" else neg(d), ctx, fuel - 1)

    def sum_group(self, p, g, ctx, fuel):
        P = self.P
        lo, hi = g[0].args[:2]
        if P.entails(ctx, le(lo, add(hi, ONE))) is not True:
            c = le(lo, add(hi, ONE))
            return self.le(p, ctx.plus(c), fuel - 1) and self.le(p, ctx.plus(not_(c)), fuel - 1)
        k = P.kv(max(s.data.depth for s in g) + 20 + (6 - fuel), lo, ctx)
        point, rest = [], []
        for c, fs in monos(p):
            hit = [f for f in fs if f in g]
            if len(hit) == 1:
                s = hit[0]
                gd, b = s.data.at(s.args, k)
                # a shorter range is the longer one with a guard
                if s.args[0] is not lo:
                    gd = and_(gd, le(s.args[0], k))
                if s.args[1] is not hi:
                    gd = and_(gd, le(k, s.args[1]))
                o = list(fs)
                o.remove(s)
                point.append(scale(c, mul(ite(gd, b, RZERO), *o)))
            else:
                rest.append((c, fs))
        q = add(RZERO, *point)
        rs = build(rest)
        inner = ctx.plus(le(lo, k), le(k, hi))
        cnt = toR(add(hi, neg(lo), ONE))
        opts = [(RZERO, rs)]
        # spread the rest over the range: rest = rho * count + remainder
        c0, d = _lin(cnt)
        for z, cz in sorted(d.items(), key=lambda x: x[0].id):
            if z.op == "toR" or z.op == "v":
                r = coeff(rs, z)
                if r is None or r[0] is RZERO:
                    continue
                rho = scale(Fraction(1) / Fraction(cz), r[0])
                opts.insert(0, (rho, self.P.norm(sub(rs, mul(rho, cnt)), ctx)))
        if not d and c0:
            opts.insert(0, (scale(Fraction(1) / Fraction(c0), rs), RZERO))
        # telescoping: a*f(hi) - a*f(lo - 1) is the sum of a*(f(k) - f(k - 1))
        ms = monos(rs)
        for c, fs in ms:
            for f in fs:
                if f.op == "app" and f.data.kind == "input" and f.args[0] is hi:
                    o = list(fs)
                    o.remove(f)
                    g = f.data(sub(lo, ONE))
                    other = scale(c, mul(g, *o))
                    rem = add(rs, neg(scale(c, mul(RONE, *fs))), other)
                    if len(monos(rem)) <= len(ms) - 2:
                        opts.append((scale(c, mul(sub(f.data(k), f.data(sub(k, ONE))), *o)), rem))
        for rho, rem in opts:
            if self.le(rem, ctx, fuel - 1) and self.le(add(q, rho), inner, fuel - 1):
                return True
        # constants: count >= 1 and a negative total, or a pointwise bound by a cap
        for cap in self.caps:
            # sum <= cap * count, then the rest
            if self.le(sub(q, cap), inner, fuel - 2) and self.le(add(rs, mul(cap, cnt)), ctx, fuel - 2):
                return True
        # replace the data by their bounds and sum the weights
        return self.relax(q, rs, lo, hi, k, inner, ctx, fuel)

    def relax(self, q, rs, lo, hi, k, inner, ctx, fuel):
        P = self.P
        q = P.norm(q, inner)
        if visible_ites(q):
            return False
        todo = [u for u in apps(q) if u.data.kind == "input" and k in u.fv]
        for u in todo:
            r = coeff(q, u)
            if r is None:
                return False
            a, b = r
            s = self.sgn(a, inner, fuel - 1)
            bd = self.input_caps(u, inner)
            if s is None or not bd:
                return False
            cap = bd[1] if s == "+" else bd[0]
            q = add(mul(a, cap), b)
        if not todo:
            return False
        tot = power_sum(q, k, lo, hi)
        return tot is not None and self.le(add(tot, rs), ctx, fuel - 1)

    def input_caps(self, u, ctx):
        """the bounds assumed for the inputs of the rows in the envelope"""
        f = self.P.envelope
        bd = f(u) if f else None
        if bd and (bd[0] is TRUE or self.P.entails(ctx, bd[0]) is True):
            return bd[1:]
        return None

    # ------------------------------------------------------------ maxima and minima
    def witness(self, p, ctx, fuel):
        P = self.P
        q, c2, done = p, ctx, False
        pts = self.points(p, ctx)
        for u in sorted([u for u in apps(p) if u.data.kind == "fold" and u.data.agg in ("max", "min")], key=lambda u: -u.data.depth):
            r = coeff(q, u)
            if r is None or u not in [f for _, fs in monos(q) for f in fs]:
                continue
            a, b = r
            s = self.sgn(a, c2, 0)
            if s is None:
                continue
            up = (s == "+") == (u.data.agg == "max")
            lo, hi = u.args[:2]
            if up:
                # attained somewhere in the range
                if P.entails(c2, le(lo, hi)) is not True or u.data.guard is not TRUE:
                    continue
                self.nfresh += 1
                j = declare(var(f"$w{self.nfresh}", "I", True))
                _, bj = u.data.at(u.args, j)
                q = add(mul(a, bj), b)
                c2 = c2.plus(le(lo, j), le(j, hi))
                pts.append(j)
                done = True
        facts = []
        for u in apps(q):
            if u.data.kind == "fold" and u.data.agg in ("max", "min"):
                lo, hi = u.args[:2]
                for j in pts[:12]:
                    if P.entails(c2, and_(le(lo, j), le(j, hi))) is True:
                        gj, bj = u.data.at(u.args, j)
                        f = le(bj, u) if u.data.agg == "max" else le(u, bj)
                        f = implies(gj, f)
                        if f.op != "c":
                            facts.append(f)
        facts = [f for f in facts if f not in c2.hyps]
        if not done and not facts:
            return None
        return self.le(q, c2.plus(*facts), fuel - 1)

    def points(self, p, ctx):
        out = []
        for u in apps(p):
            if u.data.kind in ("input", "rec") and not (u.args[0] in out):
                out.append(u.args[0])
            elif u.data.kind == "fold":
                for a in u.args[1:]:
                    if a not in out:
                        out.append(a)
        return out

    # ------------------------------------------------------------ elimination
    def atom_bounds(self, z, ctx):
        """[(is upper bound, term)] of an atom"""
        out = []
        if z.op == "app" and z.data.kind == "input":
            bd = self.input_caps(z, ctx)
            if bd:
                out += [(True, bd[1]), (False, bd[0])]
        lb, ub = bounds(z)
        if lb is not None:
            out.append((False, R(lb)))
        if ub is not None:
            out.append((True, R(ub)))
        hs = list(ctx.hyps)
        if z.op == "app" and z.data.kind in ("rec", "input"):
            hs += [h for h in self.P.facts_of(z)]
        for h in hs:
            if h.op == "or":
                # a conditional fact whose condition holds here
                lits = [x for x in h.args if x.op in ("le0", "lt0") and x.args[0].sort == "R"]
                oth = [x for x in h.args if x not in lits]
                if len(lits) == 1 and z in [f for _, fs in monos(lits[0].args[0]) for f in fs] and \
                        all(self.P.entails(ctx, not_(x)) is True for x in oth):
                    h = lits[0]
            if h.op in ("le0", "lt0") and h.args[0].sort == "R":
                r = coeff(h.args[0], z)
                if r is None or r[0].op != "c" or r[0].data == 0:
                    continue
                a, b = r
                if z in subterms(b, lambda u: u is z):
                    continue
                out.append((a.data > 0, scale(Fraction(-1) / a.data, b)))
        seen, res = set(), []
        for x in out:
            if (x[0], x[1].id) not in seen:
                seen.add((x[0], x[1].id))
                res.append(x)
        return res

    def eliminate(self, p, ctx, fuel):
        P = self.P
        at = []
        for k, fs in monos(p):
            for f in fs:
                if f not in at and f.op in ("app", "v", "toR", "inv", "sqrt"):
                    at.append(f)
        at.sort(key=lambda u: (0 if u.op == "app" and u.data.kind == "rec" else 1 if u.op == "v" and u.data[0].startswith("$ratio") else
                               2 if u.op == "app" and u.data.kind == "input" else 3, -u.id))
        for z in at[:10]:
            r = coeff(p, z)
            if r is None:
                continue
            a, b = r
            bs = self.atom_bounds(z, ctx)
            if not bs:
                continue
            s = self.sgn(a, ctx, min(1, fuel - 1))
            if s is None:
                continue
            for up, t in bs:
                if up == (s == "+"):
                    q = add(mul(a, t), b)
                    if q is p:
                        continue
                    if self.le(q, ctx, fuel - 1):
                        return True
        return None

    # ------------------------------------------------------------ recurrences
    def recs(self, p, ctx, fuel):
        P = self.P
        if self.recdone is None or self.noind:
            return None
        us = [u for u in apps(p) if u.data.kind == "rec" and u.sort == "R"]
        us = [u for u in us if u.data.rec not in self.active and all(f is c for c, f in P.normrec(u.data.rec).items())]
        if not us:
            return None
        # the recurrences that the steps use come first
        for r in {u.data.rec: 1 for u in us}:
            self.inner(r, fuel)
        # bounds of the components in the term, under the guards that hold here
        stages = []
        cands = []
        for u in us:
            c = u.data
            gs = [None] + [g for g in self.guards(c.rec) if P.entails(ctx, self.guard(c.rec, g, u.args[0])) is True]
            for g in gs:
                for cap in self.caps:
                    if not cap.fv:
                        cands += [(c, g, None, 1, cap), (c, g, None, -1, cap)]
        stages.append([c for c in cands if c[1] is None])
        if len(stages[0]) < len(cands):
            stages.append(cands)
        cs = list({u.data: 1 for u in us})
        pairs = []
        for a in cs:
            for b in cs:
                if a is not b:
                    pairs.append((a, None, b, 1, None))
                    if a.uid < b.uid:
                        pairs.append((a, None, b, -1, None))
        stages.append(cands + pairs)
        rs = list({u.data.rec: 1 for u in us})
        allc = [c for r in rs for c in r.comps if c.sort == "R"]
        full = list(cands)
        for c in allc:
            gs = [None] + [(d(c.rec.iv), v) for d in c.rec.comps if d.sort == "B" for v in (True, False)]
            full += [(c, g, None, s, cap) for g in gs for cap in self.caps if not cap.fv for s in (1, -1)]
        for a in allc:
            for b in allc:
                if a is not b and a.sort == b.sort == "R":
                    full.append((a, None, b, 1, None))
                    if a.uid < b.uid:
                        full.append((a, None, b, -1, None))
        stages.append(full)
        for st in stages:
            key = frozenset((c[0], c[1] and (c[1][0].id, c[1][1]), c[2], c[3], c[4]) for c in st)
            if not st or key in self.recdone or key in self.busy:
                continue
            self.busy.add(key)
            try:
                new = self.invariants(st, fuel - 1)
            finally:
                self.busy.discard(key)
            self.recdone[key] = True
            if new:
                self.memo = {k: v for k, v in self.memo.items() if v is True}
                if self.le(p, ctx, fuel - 1):
                    return True
        return None

    def inner(self, rec, fuel):
        if rec in self.recdone:
            return
        self.recdone[rec] = True
        for v in apps_many(rec.steps.values()):
            r = v.data.rec if v.data.kind == "rec" else None
            if r is not None and r is not rec and r not in self.recdone:
                if not all(f is c for c, f in self.P.normrec(r).items()):
                    continue
                self.inner(r, fuel)
                self.invariants([(c, None, None, s, cap) for c in r.comps if c.sort == "R" for s in (1, -1)
                                 for cap in self.caps if not cap.fv], fuel - 1)

    def guards(self, rec):
        """conditions over the previous values that the steps distinguish, and the truth values of the flags"""
        out = []
        prev = sub(rec.iv, ONE)
        for c in rec.comps:
            for a in subterms(rec.steps[c], lambda u: u.op in ("le0", "lt0", "eq0")):
                us = apps(a)
                if us and all(u.data.kind == "rec" and u.data.rec is rec and u.args[0] is prev for u in us) and a.fv <= {rec.iv}:
                    a = subst(a, {rec.iv: add(rec.iv, ONE)})
                    out += [(a, True), (a, False)]
            if c.sort == "B":
                out += [(c(rec.iv), True), (c(rec.iv), False)]
        return out[:12]

    def guard(self, rec, g, t):
        a = subst(g[0], {rec.iv: t})
        return a if g[1] else not_(a)

    def invariants(self, cands, fuel):
        """bounds of recurrence components proved by simultaneous induction; candidates that fail are dropped"""
        P = self.P
        i = var("$on", "I", True)
        if all(bounds(c[0].rec.lo)[0] is not None and bounds(c[0].rec.lo)[0] >= 0 for c in cands):
            i = declare(var("$oi", "I", True), 0)
        done = self.recdone
        kk = lambda c: (c[0], c[1] and (c[1][0].id, c[1][1]), c[2], c[3], c[4])
        seen = {}
        for c in cands:
            if kk(c) not in done:
                seen.setdefault(kk(c), c)
        cands = list(seen.values())
        if not cands:
            return False
        comps = {}
        for c in cands:
            for x in (c[0], c[2]):
                if x is not None:
                    for y in x.rec.comps:
                        comps[y] = 1

        def fact(c, t):
            """guard, p   (guard implies p <= 0)"""
            a, g, b, s, cap = c
            r = cap if b is None else b(t)
            if b is None:
                p = sub(a(t), cap) if s > 0 else sub(cap, a(t))
            else:
                # s=1: a <= b ; s=-1: -a <= b
                p = sub(a(t), b(t)) if s > 0 else sub(neg(a(t)), b(t))
            return (TRUE if g is None else self.guard(a.rec, g, t)), p

        def start(c):
            return c[0].rec.lo if c[2] is None else imax(c[0].rec.lo, c[2].rec.lo)

        def whole(c, t):
            g, p = fact(c, t)
            return implies(and_(le(start(c), t), g), not_(raw_gt0(p)))
        if self.samples is not None:
            for c in cands:
                if self.samples.false_somewhere(whole(c, i), i):
                    done[kk(c)] = True
            cands = [c for c in cands if kk(c) not in done]
        recs = {c.rec: 1 for c in comps if c.rec not in self.active}
        self.active.update(recs)
        try:
            return self.induct(cands, comps, fact, whole, start, i, fuel)
        finally:
            for r in recs:
                del self.active[r]

    def induct(self, cands, comps, fact, whole, start, i, fuel):
        P = self.P
        done = self.recdone
        kk = lambda c: (c[0], c[1] and (c[1][0].id, c[1][1]), c[2], c[3], c[4])
        prev = sub(i, ONE)
        m = {c: (lambda c: lambda q: c.rec.step(c, q) if q is i else c(q))(c) for c in comps}
        alive = list(cands)
        changed = True
        rounds = 0
        while changed and alive and rounds < 8:
            changed = False
            rounds += 1
            hyp = [whole(c, prev) for c in alive]
            keep = []
            for c in alive:
                g, p = fact(c, i)
                ctx = self.assume(P.world + [le(start(c), i)] + hyp, [subst_fs(g, m)])
                if ctx.false or self.le(subst_fs(p, m), ctx, fuel):
                    keep.append(c)
                else:
                    changed = True
            alive = keep
        if changed and alive:
            return False
        for c in cands:
            done[kk(c)] = True
        for c in alive:
            for x in {c[0]: 1, c[2]: 1}:
                if x is not None:
                    P.recinv.setdefault(x.rec, []).append((x, (lambda c: lambda u, t: whole(c, t))(c)))
        for k in [k for k in P.fcache]:
            P.fcache.pop(k)
        if alive:
            for c in Ctx.tab.values():
                c.memo.clear()
                c.ent = {k: v for k, v in c.ent.items() if v is True}
        if self.trace:
            print("invariants:", [str(whole(c, i))[:100] for c in alive])
        return bool(alive)


def power_sum(q, k, lo, hi):
    """closed form of sum_{k=lo}^{hi} of a polynomial of degree <= 2 in k (lo <= hi + 1)"""
    kr = toR(k)
    out = RZERO
    L, H = toR(lo), toR(hi)
    n = add(H, neg(L), RONE)
    s1 = scale(Fraction(1, 2), mul(n, add(H, L)))

    def sq(x):   # sum_{0..x} j^2 = x(x+1)(2x+1)/6
        return scale(Fraction(1, 6), mul(x, add(x, RONE), add(scale(2, x), RONE)))
    s2 = sub(sq(H), sq(sub(L, RONE)))
    for c, fs in monos(q):
        d = fs.count(kr)
        o = [f for f in fs if f is not kr]
        if any(k in f.fv for f in o) or d > 2:
            return None
        out = add(out, scale(c, mul(RONE, [n, s1, s2][d], *o)))
    return out
