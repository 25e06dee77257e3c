"""Discharging of verification conditions: contextual normalisation, lemmas, Z3.

Every fact handed to the solver is a ground instance of one of
  - the assumptions on the inputs (positive prices, low <= close <= high, volume >= 0),
  - the definitions of the aggregates (sum, max, last index, ...), reciprocal, square root,
  - lemmas about aggregates and recurrences proved here (by pointwise comparison / induction).
"""
import time

import z3

from .lib import *
from .smt import Z
from .recs import subst_fs, canonical
from . import terms as _t


class ZLin(Z):
    """products as opaque terms"""

    def _tr(self, t):
        if t.op == "*":
            return z3.Real(f"mono!{t.id}")
        return Z._tr(self, t)


class Ctx:
    """a conjunction of facts"""
    tab = {}

    @staticmethod
    def of(hyps):
        fl = []
        for h in hyps:
            fl.extend(h.args if h.op == "and" else [h])
        fl = [h for h in fl if h is not TRUE]
        key = frozenset(h.id for h in fl)
        c = Ctx.tab.get(key)
        if c is None:
            c = Ctx()
            c.key, c.hyps, c.solver, c.memo, c.ent = key, tuple({h.id: h for h in fl}.values()), None, {}, {}
            c.fv = EMPTY
            for h in c.hyps:
                c.fv = c.fv | h.fv
            Ctx.tab[key] = c
        return c

    def plus(self, *hs):
        hs = [h for h in hs if h is not TRUE]
        if not hs:
            return self
        return Ctx.of(self.hyps + tuple(hs))

    @property
    def false(self):
        return any(h is FALSE for h in self.hyps)


PROF = None
_KV = {}


def kvar(depth, nonneg=False):
    """a generic index for the range of an aggregate; never negative only where the range is known not to be"""
    key = depth, nonneg
    if key not in _KV:
        v = var(f"$k{depth}" if nonneg else f"$m{depth}", "I", True)
        _KV[key] = declare(v, 0) if nonneg else v
    return _KV[key]


class Stats:
    def __init__(self):
        self.queries = self.unknown = 0
        self.time = 0.0


class Prover:
    def __init__(self, world=()):
        self.world = list(world)      # hypotheses without bound variables that every goal of this prover has
        self.zl, self.zn = ZLin(), Z()
        self.fcache, self.closure = {}, {}
        self.signs, self.pairs = {}, {}
        self.recinv = {}
        self.recnorm = {}
        self.phase = {}
        self.runs = {}        # running aggregate -> recurrence component
        self.rules = {}       # recurrence component -> rewriting rules
        self.stats = Stats()
        self.deadline = None
        self.busy = set()

    # ------------------------------------------------------------ facts
    def facts_of(self, u):
        """ground facts about the top symbol of u"""
        r = self.fcache.get(u.id)
        if r is not None:
            return r
        out = []
        o = u.op
        if o == "app":
            f = u.data
            if f.kind == "input":
                out += self._input_facts(f.name, u.args[0])
            elif f.kind == "fold":
                out += self._fold_facts(u)
            elif f.kind == "rec":
                out += self._rec_facts(u)
        elif o == "inv":
            x = u.args[0]
            out += [implies(gt(x, RZERO), gt(u, RZERO)), implies(lt(x, RZERO), lt(u, RZERO)),
                    implies(eq(x, RZERO), eq(u, RZERO))]
            out.append(implies(ne(x, RZERO), eq(mul(x, u), RONE)))
            lb = bounds(x)[0]
            if lb is not None and lb > 0:       # (known to the constructors, not to the solver)
                out += [raw_gt0(u), raw_ge0(sub(const(1 / Fraction(lb), "R"), u))]
        elif o == "sqrt":
            x = u.args[0]
            out += [ge(u, RZERO), implies(ge(x, RZERO), eq(mul(u, u), x)), implies(gt(x, RZERO), gt(u, RZERO)),
                    implies(eq(x, RZERO), eq(u, RZERO))]
        elif o == "exp":
            out.append(gt(u, RZERO))
        elif o == "floor":
            x = u.args[0]
            out += [le(toR(u), x), lt(x, add(toR(u), RONE))]
        elif o == "*":
            a = u.args[0]
            b = mul(*u.args[1:])
            if a is b:
                out += [ge(u, RZERO), iff(eq(u, RZERO), eq(a, RZERO))]
            else:
                pa, na, pb, nb = gt(a, RZERO), lt(a, RZERO), gt(b, RZERO), lt(b, RZERO)
                # (as they are: not in terms of the factors, nor dropped because the constructors know them)
                P, Nn = raw_gt0(u), raw_gt0(neg(u))
                if lt(u, RZERO) is FALSE:
                    out.append(raw_gt0(u) if gt(u, RZERO) is TRUE else raw_ge0(u))
                out += [iff(P, or_(and_(pa, pb), and_(na, nb))), iff(Nn, or_(and_(pa, nb), and_(na, pb)))]
        elif o == "v":
            lb, ub = bounds(u)
            if u.sort == "I" and lb is not None:
                out.append(mk("le0", (sub(I(lb), u),), "B"))
            if u in POS:
                out.append(mk("lt0", (neg(u),), "B"))
        out = [x for x in out if x is not TRUE]
        self.fcache[u.id] = out
        return out

    envelope = None     # input -> (rows it holds for, lower bound, upper bound)

    def _input_facts(self, nm, i):
        from .model import PRICE
        out = []
        b = self.envelope(PRICE[nm](i)) if self.envelope else None
        if b:
            out += [implies(b[0], le(b[1], PRICE[nm](i))), implies(b[0], le(PRICE[nm](i), b[2]))]
        if nm == "volume":
            return [raw_ge0(PRICE["volume"](i))]
        if nm == "open":
            return [raw_gt0(PRICE["open"](i))] + out
        H, L, C = PRICE["high"](i), PRICE["low"](i), PRICE["close"](i)
        return [raw_gt0(L), le(L, C), le(C, H)] + out

    def _fold_facts(self, u):
        f = u.data
        lo, hi = u.args[:2]
        out = []
        ne_ = le(lo, hi)
        gh, bh = f.at(u.args, hi)
        if f.agg == "sum":
            s = self.sign(f)
            if s == "ge0" or s == "gt0":
                out.append(raw_ge0(u))
                out.append(implies(and_(ne_, gh), ge(u, bh)))
            if s == "gt0":
                out.append(implies(and_(ne_, gh), gt(u, RZERO)))
                if f.guard is TRUE:
                    out.append(implies(ne_, gt(u, RZERO)))
            elif s == "le0":
                out.append(raw_ge0(neg(u)))
                out.append(implies(and_(ne_, gh), le(u, bh)))
            if f.body is RONE:
                out += [implies(ne_, le(u, toR(add(hi, neg(lo), ONE)))), implies(not_(ne_), eq(u, RZERO))]
                gl, _ = f.at(u.args, lo)
                # a count of all rows means every row is counted
                out.append(implies(and_(ne_, or_(not_(gl), not_(gh))), le(u, toR(sub(hi, lo)))))
            out.append(implies(not_(ne_), eq(u, RZERO)))
        elif f.agg == "prod":
            s = self.sign(f)
            if s in ("ge0", "gt0"):
                out.append(raw_ge0(u) if s == "ge0" else raw_gt0(u))
            out.append(implies(not_(ne_), eq(u, RONE)))
        elif f.agg in ("max", "min"):
            cmp_ = ge if f.agg == "max" else le
            out.append(implies(and_(ne_, gh), cmp_(u, bh)))
            gl, bl = f.at(u.args, lo)
            out.append(implies(and_(ne_, gl), cmp_(u, bl)))
            s = self.sign(f)
            non = ne_ if f.guard is TRUE else and_(ne_, or_(gh, gl))
            if s == "gt0":
                out.append(implies(non, gt(u, RZERO)))
            if s == "ge0":
                out.append(implies(non, ge(u, RZERO)))
            if s == "le0":
                out.append(implies(non, le(u, RZERO)))
            if f.guard is TRUE:
                # a window of one row
                out.append(implies(eq(lo, hi), eq(u, bh)))
        elif f.agg in ("argmax", "argmin"):
            out += [implies(ne_, and_(le(lo, u), le(u, hi)))]
        elif f.agg == "lastidx":
            out += [le(sub(lo, ONE), u), implies(ne_, le(u, hi)), implies(not_(ne_), eq(u, sub(lo, ONE)))]
            gu, _ = f.at(u.args, u)
            out += [implies(le(lo, u), gu), implies(and_(ne_, gh), eq(u, hi)), implies(and_(ne_, not_(gh)), lt(u, hi))]
        elif f.agg == "firstidx":
            out += [le(u, add(hi, ONE)), implies(ne_, le(lo, u)), implies(not_(ne_), eq(u, add(hi, ONE)))]
            gu, _ = f.at(u.args, u)
            gl, _ = f.at(u.args, lo)
            out += [implies(le(u, hi), gu), implies(and_(ne_, gl), eq(u, lo)), implies(and_(ne_, not_(gl)), lt(lo, u))]
        elif f.agg == "any":
            out += [implies(and_(ne_, gh), u), implies(not_(ne_), not_(u))]
        return out

    def kv(self, depth, lo, ctx):
        """generic index of a range that starts at lo"""
        b = bounds(lo)[0]
        return kvar(depth, b is not None and b >= 0 or self.entails(ctx, le(ZERO, lo)) is True)

    def generic(self, f):
        """(context, guard, body) of a fold symbol at a generic index"""
        k = kvar(f.depth)
        ren = {KV: k}
        return k, subst(f.guard, ren), subst(f.body, ren)

    def sign(self, f):
        """sign of the body of a fold over its guard: gt0, ge0, le0 or None"""
        r = self.signs.get(f)
        if r is None:
            self.signs[f] = ""
            k, g, b = self.generic(f)
            ctx = Ctx.of([g] + self.world)
            r = ""
            if b.sort == "R":
                if self.entails(ctx, gt(b, RZERO)) is True:
                    r = "gt0"
                elif self.entails(ctx, ge(b, RZERO)) is True:
                    r = "ge0"
                elif self.entails(ctx, le(b, RZERO)) is True:
                    r = "le0"
            self.signs[f] = r
        return r

    def _rec_facts(self, u):
        f = u.data
        out = []
        inv = self.rec_invariants(f.rec)
        t = u.args[0]
        dom = le(f.rec.lo, t)
        for c, fact in inv:
            if c is f:
                out.append(implies(dom, fact(u, t)))
        return out

    # ------------------------------------------------------------ solver
    def gather(self, ts, depth=3):
        """facts relevant to the terms, closed a few steps"""
        seen, facts = set(), {}
        todo = list(ts)
        for d in range(depth):
            nxt = []
            for t in todo:
                for u in self._subs(t, seen):
                    fs = self.facts_of(u)
                    for x in fs:
                        if x.id not in facts:
                            facts[x.id] = x
                            nxt.append(x)
            todo = nxt
            if not todo:
                break
        return list(facts.values())

    def _subs(self, t, seen):
        out, st = [], [t]
        while st:
            u = st.pop()
            if u.id in seen:
                continue
            seen.add(u.id)
            if u.op in ("app", "inv", "sqrt", "*", "v", "floor", "exp"):
                out.append(u)
            st.extend(u.args)
        return out

    def check(self, hyps, z, timeout, depth):
        """satisfiability of a conjunction with the facts"""
        s = z3.Solver()
        # a deterministic resource limit decides; the time limit is a backstop for a loaded machine
        s.set("rlimit", timeout * 5000)
        s.set("timeout", timeout * 10)
        for h in hyps:
            s.add(z(h))
        for x in self.gather(hyps, depth):
            s.add(z(x))
        t0 = time.time()
        r = s.check()
        self.stats.time += time.time() - t0
        if PROF is not None:
            st = s.statistics()
            rl = [st[i][1] for i in range(len(st)) if st[i][0] == "rlimit count"]
            PROF.append((time.time() - t0, rl[0] if rl else 0, str(r), timeout))
        self.stats.queries += 1
        if r == z3.unknown:
            self.stats.unknown += 1
        return r

    def entails(self, ctx, cond, timeout=250, depth=2):
        if cond is TRUE:
            return True
        if cond is FALSE and not ctx.hyps:
            return False
        r = ctx.ent.get(cond.id, 0)
        if r != 0:
            return r
        # lemmas about the functions involved are established first
        self.gather(list(ctx.hyps) + [cond], depth)
        r = ctx.ent.get(cond.id, 0)
        if r != 0:
            return r
        ctx.ent[cond.id] = None
        r = None
        z = self.check(list(ctx.hyps) + [not_(cond)], self.zl, timeout, depth)
        if z == z3.unsat or (z == z3.unknown and self.check(list(ctx.hyps) + [not_(cond)], self.zl, timeout, 0) == z3.unsat):
            r = True
        ctx.ent[cond.id] = r
        return r

    def decide(self, ctx, cond):
        if cond.op == "c":
            return cond.data
        if self.entails(ctx, cond):
            return True
        if self.entails(ctx, not_(cond)):
            return False
        return None

    # ------------------------------------------------------------ normalisation
    def norm(self, t, ctx):
        if not t.args:
            return t
        c = ctx
        r = c.memo.get(t.id)
        if r is None:
            r = self._norm(t, ctx)
            c.memo[t.id] = r
            c.memo.setdefault(r.id, r)
        return r

    def _norm(self, t, ctx):
        o = t.op
        if o == "ite":
            c = self.norm(t.args[0], ctx)
            if c.op == "c":
                return self.norm(t.args[1 if c.data else 2], ctx)
            if t.sort == "B":
                a, b = self.norm(t.args[1], ctx), self.norm(t.args[2], ctx)
            else:
                a, b = self.norm(t.args[1], ctx.plus(c)), self.norm(t.args[2], ctx.plus(not_(c)))
            return ite(c, a, b)
        if o in ("and", "or"):
            # index conditions first; the others under them (and) or under their negation (or)
            idx = [a for a in t.args if isindex(a)]
            oth = [a for a in t.args if not isindex(a)]
            idx = [self.norm(a, ctx) for a in idx]
            c2 = ctx.plus(*[a if o == "and" else not_(a) for a in idx]) if oth else ctx
            if c2.false:
                return FALSE if o == "and" else TRUE
            r = rebuild(t, idx + [self.norm(a, c2) for a in oth])
            if r.op == "c":
                return r
            return self._dec(r, ctx) if r.op not in ("and", "or") else self._nindex(r, ctx)
        if o == "app":
            f = t.data
            if f.kind == "fold":
                r = self._normfold(t, ctx)
                if r.op != "app" or r.data.kind != "fold":
                    return self.norm(r, ctx) if r.op == "ite" else r
                return self._dec(r, ctx) if r.sort == "B" else r
            if f.kind == "rec":
                args = [self.norm(a, ctx) for a in t.args]
                g = self.normrec(f.rec)[f]
                r = g(args[0])
                if r.op == "app" and r.data.kind == "rec":
                    d = sub(r.args[0], r.data.rec.lo)
                    if d is ZERO or (d.op != "c" and self.entails(ctx, eq(d, ZERO))):
                        return self.norm(r.data.rec.step(r.data, r.data.rec.lo), ctx)
                    for L, to in self.rules.get(r.data, ()):
                        if self.entails(ctx, le(L, r.args[0])):
                            return self.norm(to(r.args[0]), ctx)
                    return self._dec(r, ctx) if r.sort == "B" else r
                return self.norm(r, ctx)
        r = rebuild(t, [self.norm(a, ctx) for a in t.args])
        if r.sort == "B" and r.op != "c":
            u = r.args[0]
            if r.op in ("lt0", "le0", "eq0") and u.op == "ite":
                # comparison of a case distinction, where a case settles it
                a = self.norm(rebuild(r, [u.args[1]]), ctx.plus(u.args[0]))
                b = self.norm(rebuild(r, [u.args[2]]), ctx.plus(not_(u.args[0])))
                if a.op == "c" or b.op == "c":
                    return ite(u.args[0], a, b)
            return self._dec(r, ctx)
        if r.op == "imin":
            return self._nimin(r, ctx)
        if r.op in ("+", "*") and r.sort == "R":
            r = self._cancel(r, ctx)
            if r.op in ("+", "*"):
                r = self._lift_ite(r, ctx)
                return self._merge_ite(r, ctx) if r.op == "+" else r
        return r

    def _merge_ite(self, r, ctx):
        """several summands that distinguish the same cases: one case distinction"""
        cs = {}
        for m in r.args:
            if m.op == "ite":
                cs.setdefault(m.args[0], []).append(m)
        if all(len(v) < 2 for v in cs.values()):
            return r
        k = {m: x for x, m in zip(r.data[1], r.args)}
        c, ms = max(cs.items(), key=lambda cv: (len(cv[1]), -cv[0].id))
        a = self.norm(add(RZERO, *[scale(k[m], m.args[1]) for m in ms]), ctx.plus(c))
        b = self.norm(add(RZERO, *[scale(k[m], m.args[2]) for m in ms]), ctx.plus(not_(c)))
        rest = add(const(r.data[0], "R"), *[scale(x, m) for x, m in zip(r.data[1], r.args) if m not in ms])
        r = add(rest, ite(c, a, b))
        return self._merge_ite(r, ctx) if r.op == "+" else r

    def _cancel(self, r, ctx):
        """x/x where x is known to be zero or not to be zero"""
        ms = [(1, r)] if r.op == "*" else list(zip(r.data[1], r.args))
        out, hit = [], False
        for k, m in ms:
            if m.op == "*":
                fs = list(m.args)
                for f in m.args:
                    if f.op == "inv" and f in fs and f.args[0] in fs:
                        z = self.decide(ctx, eq(f.args[0], RZERO))
                        if z is None:
                            continue
                        hit = True
                        if z:
                            fs = None
                            break
                        fs.remove(f)
                        fs.remove(f.args[0])
                if fs is None:
                    continue
                m = mul(RONE, *fs) if len(fs) < len(m.args) else m
            out.append(scale(k, m))
        if not hit:
            return r
        return add(const(r.data[0], "R") if r.op == "+" else RZERO, *out)

    def _nindex(self, r, ctx):
        """a compound index condition that is equivalent to one of its atoms here"""
        if not isindex(r) or len(r.args) > 6:
            return r
        d = self.decide(ctx, r)
        if d is not None:
            return B(d)
        ats = sorted(subterms(r, lambda u: u.op == "le0"), key=lambda u: u.id)
        for a in ats:
            if self.entails(ctx.plus(a), r) and self.entails(ctx.plus(not_(a)), not_(r)):
                return a
        return r

    def _lift_ite(self, r, ctx):
        """(sum of) products with an if-then-else factor: case distinction at the top"""
        for m in ([r] if r.op == "*" else r.args):
            if m.op == "*":
                for f in m.args:
                    if f.op == "ite":
                        c = f.args[0]
                        m1, m2 = {}, {}
                        for u in subterms(r, lambda u: u.op == "ite" and u.args[0] is c):
                            m1[u], m2[u] = u.args[1], u.args[2]
                        return ite(c, self.norm(replace(r, m1), ctx.plus(c)), self.norm(replace(r, m2), ctx.plus(not_(c))))
        return r

    def _nimin(self, r, ctx):
        keep = list(r.args)
        for a in r.args:
            if len(keep) > 1 and any(b is not a and self.entails(ctx, le(b, a)) for b in keep):
                keep.remove(a)
        return imin(*keep)

    def _dec(self, r, ctx):
        if r.op in ("iff", "not", "and", "or"):
            return r
        d = self.decide(ctx, r)
        return r if d is None else B(d)

    def _normfold(self, t, ctx):
        f = t.data
        lo, hi = self.norm(t.args[0], ctx), self.norm(t.args[1], ctx)
        k = self.kv(f.depth, lo, ctx)
        d = sub(hi, lo)
        if f.agg in ("sum", "prod") and d.op == "c" and 0 <= d.data <= 2:
            # a short range: the terms one by one
            each = [ite(g, b, RZERO if f.agg == "sum" else RONE) for g, b in (f.at(t.args, add(lo, I(j))) for j in range(int(d.data) + 1))]
            return self.norm(add(*each) if f.agg == "sum" else mul(*each), ctx)
        g, b = f.at(t.args, k)
        # facts about the bound variables used inside, plus the range
        inner = relevant(ctx, (g.fv | b.fv | lo.fv | hi.fv) - {k}).plus(le(lo, k), le(k, hi))
        g2 = self.norm(g, inner)
        if g2.op in ("and", "or"):
            d = self.decide(inner, g2)
            g2 = g2 if d is None else B(d)
        if f.agg == "firstidx" and g2.op != "c" and not lo.fv - {TV} and self.decide(ctx, le(lo, hi)) is True \
                and self.decide(ctx, self.norm(subst(g2, {k: lo}), ctx)) is True:
            return lo
        b2 = self.norm(b, inner.plus(g2)) if g2 is not FALSE else b
        r = Fold.make(f.agg, lo, hi, k, g2, b2)
        if r is t:
            return t
        return r

    # ------------------------------------------------------------ recurrences
    def rec_invariants(self, rec):
        """inductive sign facts about single components: list of (component, app -> fact)"""
        r = self.recinv.get(rec)
        if r is not None:
            return r
        self.recinv[rec] = []
        cands = []
        for c in rec.comps:
            if c.sort == "R":
                cands += [(c, "gt0", lambda u, p: gt_raw(u)), (c, "ge0", lambda u, p: raw_ge0(u)), (c, "le0", lambda u, p: raw_ge0(neg(u)))]
            elif c.sort == "B":
                cands += [(c, "T", lambda u, p: u), (c, "F", lambda u, p: not_(u))]
                cands += [(c, ("phase", P), (lambda P: lambda u, p: iff(u, subst(P, {rec.iv: p})))(P))
                          for P in self.phase_candidates(rec)]
        i = rec.iv
        prev = sub(i, ONE)
        changed = True
        while changed and cands:
            changed = False
            hyp = [implies(le(rec.lo, prev), fact(c(prev), prev)) for c, _, fact in cands]
            keep = []
            for c, nm, fact in cands:
                goal = fact(rec.steps[c], i)
                ok = self.check(self.world + [le(rec.lo, i)] + hyp + [not_(goal)], self.zl, 400, 2) == z3.unsat
                if ok:
                    keep.append((c, nm, fact))
                else:
                    changed = True
            cands = keep
        cands += self.order_signs(rec, cands)
        self.recinv[rec] = [(c, fact) for c, _, fact in cands]
        if cands:
            for c in Ctx.tab.values():
                c.memo.clear()
        self.phase[rec] = {c: nm[1] for c, nm, _ in cands if isinstance(nm, tuple)}
        for c, nm, _ in cands:
            if nm in ("T", "F"):
                self.phase[rec][c] = B(nm == "T")
        self._drop()
        return self.recinv[rec]

    def order_signs(self, rec, known):
        """signs of components that need an order argument (weighted averages of one sign)"""
        from .order import Order
        done = {c for c, _, _ in known}
        cands = []
        for c in rec.comps:
            if c.sort != "R" or c in done or weight(rec.steps[c]) > 60:
                continue
            if any(subterms(rec.steps[c], lambda u: u.op in ("inv", "*"))):
                cands += [(c, "ge0", lambda u, p: raw_ge0(u), -1), (c, "le0", lambda u, p: raw_ge0(neg(u)), 1)]
        i = rec.iv
        prev = sub(i, ONE)
        # positive averages of positive values: nonlinear arithmetic on the single step
        pos = [(c, "gt0", lambda u, p: gt_raw(u)) for c in {x[0]: 0 for x in cands} if weight(rec.steps[c]) < 40]
        while pos:
            hyp = [implies(le(rec.lo, prev), x[2](x[0](prev), prev)) for x in list(known) + pos]
            keep = [x for x in pos if self.check(self.world + [le(rec.lo, i)] + hyp + [not_(gt_raw(rec.steps[x[0]]))], self.zn, 400, 2) == z3.unsat]
            if len(keep) == len(pos):
                break
            pos = keep
        known, done = list(known) + pos, {x[0] for x in pos}
        cands = [x for x in cands if x[0] not in done]
        while cands:
            keep = []
            hyp = [implies(le(rec.lo, prev), x[2](x[0](prev), prev)) for x in list(known) + cands]
            ctx = Ctx.of(self.world + [le(rec.lo, i)] + hyp)
            for x in cands:
                O = Order(self)
                O.recdone = None          # no further induction from here
                O.nonlinear = False
                try:
                    if O.le(scale(x[3], rec.steps[x[0]]), ctx, 2):
                        keep.append(x)
                except RecursionError:
                    pass
            if len(keep) == len(cands):
                break
            cands = keep
        return pos + [x[:3] for x in cands]

    def phase_candidates(self, rec):
        """index conditions a flag may be equivalent to: "position < threshold", from the atoms of the steps"""
        ats = {}
        i = rec.iv
        for c in rec.comps:
            for a in subterms(rec.steps[c], lambda u: u.op == "le0" and u.args[0].sort == "I" and i in u.fv):
                if a.fs or (a.fv - {i} and rec.hi is not None and (a.fv - {i}) <= rec.hi.fv):
                    continue
                x = a.args[0]
                k = sub(subst(x, {i: add(i, ONE)}), x)
                if k.op == "c" and k.data in (1, -1):
                    for d in (0, 1, -1):
                        b = subst(a, {i: add(i, I(d))})
                        if b.op != "c":
                            ats[b.id] = b
        out = []
        for b in list(ats.values())[:12]:
            out += [b, not_(b)]
        return out

    def _drop(self):
        # facts computed while a lemma was being established may be incomplete
        for i in list(self.fcache):
            if not self.fcache[i]:
                del self.fcache[i]
        for c in Ctx.tab.values():
            c.ent = {k: v for k, v in c.ent.items() if v is True}

    def normrec(self, rec):
        """component -> function of the position, in normalised recurrences"""
        r = self.recnorm.get(rec)
        if r is not None:
            return r
        self.recnorm[rec] = {c: c for c in rec.comps}
        i = rec.iv
        prev = sub(i, ONE)
        inv = self.rec_invariants(rec)
        hyps = self.world + [le(rec.lo, i)] + [implies(le(rec.lo, prev), fact(c(prev), prev)) for c, fact in inv]
        if rec.hi is not None:
            hyps.append(lt(i, rec.hi))
        ctx = Ctx.of(hyps)
        lo = self.norm(rec.lo, Ctx.of(self.world))
        steps = {c: self.norm(rec.steps[c], ctx) for c in rec.comps}
        # components proved constant
        for c, P in self.phase.get(rec, {}).items():
            steps[c] = P
        tmp = Rec(rec.name, lo, rec.hi)
        tmp.iv = i
        m = {}
        for c in rec.comps:
            m[c] = tmp.comp(c.name.split(".", 1)[1], c.sort, rec.tags.get(c))
        st = {m[c]: subst_fs(steps[c], m) for c in rec.comps}
        fin = canonical(tmp, st, i, lo)
        r = {c: fin[m[c]] for c in rec.comps}
        self.recnorm[rec] = r
        for c in rec.comps:
            g = r[c]
            if isinstance(g, RecComp) and g.rec not in self.recnorm:
                self.recnorm[g.rec] = {d: d for d in g.rec.comps}
        return r

    def assume(self, hyps):
        """the hypotheses with those about data normalised under the others"""
        hs = [h for h in hyps if not h.fs]
        todo = [h for h in hyps if h.fs]
        while todo:
            n = self.norm(todo.pop(0), Ctx.of(hs))
            if n.op == "and":
                todo = list(n.args) + todo
            elif n is not TRUE:
                hs.append(n)
        return hs

    # ------------------------------------------------------------ goals
    def prove(self, goal, hyps, depth=3, splits=4):
        """True: proved; None: not proved.  self.why holds the method or the residual goal"""
        v = pinned(hyps)
        if v is not None:
            goal, hyps = subst(goal, v), [subst(h, v) for h in hyps]
        ctx = Ctx.of(hyps)
        g = self.norm(goal, ctx)
        if g is TRUE or ctx.false:
            self.why = "normalisation"
            return True
        if self.check(list(ctx.hyps) + [not_(g)], self.zl, 1500, 3) == z3.unsat:
            self.why = "linear arithmetic"
            return True
        if depth > 0:
            # coupled recurrences are rewriting rules from then on
            rap = [u for u in apps_many([g]) if u.data.kind == "rec"]
            if rap and self.couple(rap, depth):
                g = self.norm(goal, ctx)
                if g is TRUE:
                    self.why = "induction"
                    return True
            if any(u.data.kind == "rec" for u in apps_many([g])):
                m = self.running(g)
                if m:
                    g2 = self.norm(replace(g, m), ctx)
                    rap = [u for u in apps_many([g2]) if u.data.kind == "rec"]
                    if self.couple(rap, depth):
                        g2 = self.norm(g2, ctx)
                    if g2 is TRUE or self.unfold_once(g2, ctx):
                        self.why = "induction"
                        return True
            m = self.fold_map(apps_many([g]), ctx, depth, ("lastidx", "firstidx", "any"))
            if m:
                g = self.norm(replace(g, m), ctx)
                if g is TRUE:
                    self.why = "equal aggregates"
                    return True
        if depth > 0 and self.unfold_once(g, ctx):
            return True
        if splits > 0:
            c = self.split_atom(g, ctx)
            if c is not None:
                # (the residual goal of the failing branch is left in self.why)
                return self.prove(g, list(ctx.hyps) + [c], depth, splits - 1) and \
                    self.prove(g, list(ctx.hyps) + [not_(c)], depth, splits - 1)
        if depth > 0:
            m = self.fold_map(apps_many([g]), ctx, depth)
            if m:
                g = self.norm(replace(g, m), ctx)
                if g is TRUE or self.check(list(ctx.hyps) + [not_(g)], self.zl, 1500, 3) == z3.unsat:
                    self.why = "equal aggregates"
                    return True
            unf = {}
            for u in apps_many([g]):
                if u.data.kind == "rec" and self.entails(ctx, le(u.data.rec.lo, u.args[0])):
                    unf[u] = self.norm(u.data.rec.step(u.data, u.args[0]), ctx)
            if unf:
                for pick in self.unfold_choices(unf):
                    g2 = self.norm(replace(g, pick), ctx)
                    if g2 is TRUE or self.check(list(ctx.hyps) + [not_(g2)], self.zl, 1500, 3) == z3.unsat:
                        self.why = "unfolding"
                        return True
        if self.check(list(ctx.hyps) + [not_(g)], self.zn, 3000, 2) == z3.unsat:
            self.why = "nonlinear arithmetic"
            return True
        v = pinned(list(ctx.hyps) + self.world, True)
        if v is not None and any(k in subterms_vars(g) for k in v) and self.prove(subst(g, v), [subst(h, v) for h in ctx.hyps], min(depth, 1), 0):
            return True
        self.why = g, ctx
        return None

    def running(self, g):
        """running sums and products (the upper end moves, the lower end does not), as recurrences"""
        m = {}
        for u in apps_many([g]):
            f = u.data
            if f.kind != "fold" or f.agg not in ("sum", "prod") or u.args[0].fv or any(a.fv for a in u.args[2:]) or not u.args[1].fv:
                continue
            key = (f,) + tuple(a.id for i, a in enumerate(u.args) if i != 1)
            X = self.runs.get(key)
            zero = RZERO if f.agg == "sum" else RONE
            if X is None:
                rec = Rec(f"run{len(self.runs)}", u.args[0], None)
                X = self.runs[key] = rec.comp(f.agg, "R")
                gd, b = f.at(u.args, rec.iv)
                b = ite(gd, b, zero)
                p = X(sub(rec.iv, ONE))
                rec.steps[X] = ite(le(rec.iv, rec.lo), b, add(p, b) if f.agg == "sum" else mul(p, b))
                X.rec.close()
            m[u] = ite(le(u.args[0], u.args[1]), X(u.args[1]), zero)
        return m

    def unfold_once(self, g, ctx):
        """one side refers to a step of a recurrence, the other to the state before it"""
        ap = [u for u in apps_many([g]) if u.data.kind == "rec"]
        top = [u for u in ap if any(v.data.rec is u.data.rec and isc(sub(u.args[0], v.args[0])) and sub(u.args[0], v.args[0]).data == 1
                                    for v in ap) and self.entails(ctx, le(u.data.rec.lo, u.args[0])) is True]
        if not top or len(top) > 12:
            return False
        g2 = replace(g, {u: self.norm(u.data.rec.step(u.data, u.args[0]), ctx) for u in top})
        for _ in (0, 1):
            if g2 is TRUE or self.check(list(ctx.hyps) + [not_(g2)], self.zl, 1500, 3) == z3.unsat:
                self.why = "unfolding"
                return True
            g2 = self.norm(g2, ctx)
        if len({u.args[0] for u in top}) > 1:
            # steps at several positions: as equations
            eqs = [(eq if u.sort == "R" else iff)(u, self.norm(u.data.rec.step(u.data, u.args[0]), ctx)) for u in top]
            if self.check(list(ctx.hyps) + eqs + [not_(g)], self.zl, 3000, 1) == z3.unsat:
                self.why = "unfolding"
                return True
        return False

    def unfold_choices(self, unf):
        """unfold the applications at the largest positions only, then all"""
        out = []
        top = {u: s for u, s in unf.items() if not any(v is not u and v.data.rec is u.data.rec and
               isc(sub(v.args[0], u.args[0])) and sub(v.args[0], u.args[0]).data > 0 for v in unf)}
        out.append(top)
        if len(top) < len(unf):
            out.append(unf)
        return out

    def split_atom(self, g, ctx):
        """an index condition (or the first position a rewriting rule applies to) undecided in this context"""
        seen = set()
        st = [g]
        while st:
            u = st.pop()
            if u.id in seen:
                continue
            seen.add(u.id)
            if u.op in ("le0", "eq0") and u.args[0].sort == "I" and u.args[0].op != "c":
                if self.decide(ctx, u) is None:
                    return u
            if u.op == "app" and u.data.kind == "rec":
                for L in [u.data.rec.lo] + [x for x, _ in self.rules.get(u.data, ())]:
                    for c in (le(L, u.args[0]), le(u.args[0], L)):
                        if c.op != "c" and self.decide(ctx, c) is None:
                            return c
            st.extend(u.args)
        return None

    def fold_map(self, ap, ctx, depth, only=None):
        m = {}
        folds = sorted([u for u in ap if u.data.kind == "fold" and (not only or u.data.agg in only)], key=lambda u: (u.data.depth, u.id))
        folds = [u for u in folds if u.fv <= ctx.fv | {TV}]
        for n, u in enumerate(folds):
            for v in folds[:n]:
                if u.data.agg == v.data.agg and v not in m:
                    if self.same_fold(u, v, ctx, depth - 1) is not None:
                        m[u] = v
                        break
                    if u.data.agg == "sum" and self.sign(u.data) and self.sign(u.data) + self.sign(v.data) in ("le0ge0", "ge0le0", "le0gt0", "gt0le0") \
                            and self.same_fold(u, v, ctx, depth - 1, -1) is not None:
                        m[u] = neg(v)
                        break
        return m

    def same_fold(self, u, v, ctx, depth, sgn=1):
        """equality (up to sign) of two aggregates by pointwise comparison"""
        f, g = u.data, v.data
        key = (u.id, v.id, ctx.key, sgn)
        r = self.pairs.get(key, -9)
        if not isinstance(r, int) or r >= depth:
            return None if isinstance(r, int) else r
        self.pairs[key] = depth
        lo, hi = u.args[:2]
        if f is g and sgn == 1:
            args_eq = and_(*[eq(a, b) for a, b in zip(u.args, v.args)])
            if self.entails(ctx, args_eq):
                self.pairs[key] = eq(u, v)
                return self.pairs[key]
        if not (self.entails(ctx, eq(lo, v.args[0])) and self.entails(ctx, eq(hi, v.args[1]))):
            return None
        k = self.kv(max(f.depth, g.depth) + 50, lo, ctx)
        inner = ctx.plus(le(lo, k), le(k, hi))
        gu, bu = f.at(u.args, k)
        gv, bv = g.at(v.args, k)
        if f.agg == "sum":
            goals = [eq(ite(gu, bu, RZERO), scale(sgn, ite(gv, bv, RZERO)))]
        else:
            goals = [iff(gu, gv)]
            if f.agg not in ("any", "lastidx", "firstidx"):
                goals.append(implies(and_(gu, gv), eq(bu, bv)))
        r = None
        idx = Ctx.of([h for h in inner.hyps if not h.fs])
        if any(all(self.prove(x, list(c.hyps), depth) for x in goals) for c in ([idx, inner] if idx is not inner else [inner])):
            r = self.pairs[key] = eq(u, scale(sgn, v))
        return r

    def couple(self, ap, depth):
        """prove equalities between components of recurrences by simultaneous induction; the result is kept as
        rewriting rules"""
        recs = []
        for u in ap:
            if u.data.rec not in recs and all(f is c for c, f in self.normrec(u.data.rec).items()):
                recs.append(u.data.rec)
        recs.sort(key=lambda r: r.comps[0].uid)
        comps = []
        for r in recs:
            comps += r.comps
        # offsets suggested by the positions the goal talks about, and by the first positions
        offs = {}
        for r in recs:
            for q in recs:
                o = {ZERO}
                for a in ap:
                    for b in ap:
                        if a.data.rec is r and b.data.rec is q:
                            d = sub(b.args[0], a.args[0])
                            if not d.fv:
                                o.add(d)
                if not (r.lo.fv or q.lo.fv):
                    o.add(sub(q.lo, r.lo))
                offs[r, q] = o
        i = var("$cn", "I", True)
        if all(bounds(r.lo)[0] is not None and bounds(r.lo)[0] >= 0 for r in recs):
            i = declare(var("$ci", "I", True), 0)
        cands = []
        for x, a in enumerate(comps):
            for b in comps[x + 1:]:
                if a.sort != b.sort:
                    continue
                for d in offs[a.rec, b.rec]:
                    if a.rec is b.rec and d is not ZERO:
                        continue
                    L = imax(a.rec.lo, sub(b.rec.lo, d))
                    cands.append((L, lambda t, a=a, b=b, d=d: eq(a(t), b(add(t, d))), a, b, d, 1))
                    if a.sort == "B":
                        cands.append((L, lambda t, a=a, b=b, d=d: iff(a(t), not_(b(add(t, d)))), a, b, d, -1))
        cands = [c for c in cands if (c[2], c[3], c[4].id, c[5]) not in self.busy]
        if not cands:
            return False
        self.busy |= {(c[2], c[3], c[4].id, c[5]) for c in cands}

        def unfold(t):
            # every component replaced by its defining step
            m = {c: (lambda c: lambda p: c.rec.step(c, p))(c) for c in comps}
            return subst_fs(t, m)

        def unfold_base(t):
            for _ in range(4):
                todo = [u for u in apps(t) if u.data in comps and isc(sub(u.args[0], u.data.rec.lo))
                        and sub(u.args[0], u.data.rec.lo).data >= 0]
                if not todo:
                    break
                m = {c: (lambda c: lambda p: c.rec.step(c, p) if isc(sub(p, c.rec.lo)) and
                         sub(p, c.rec.lo).data >= 0 else c(p))(c) for c in comps}
                t = subst_fs(t, m)
            return t

        # base: drop candidates false at their first position
        keep = []
        for c in cands:
            goal = unfold_base(c[1](c[0]))
            if self.prove(goal, self.world, depth - 1):
                keep.append(c)
        cands = keep
        changed = True
        while changed and cands:
            changed = False
            keep = []
            prev = sub(i, ONE)
            hyp = [implies(le(c[0], prev), c[1](prev)) for c in cands]
            for c in cands:
                goal = unfold(c[1](i))
                ctx = Ctx.of(self.world + [lt(c[0], i)])
                rel = hyp
                # use the equalities of the previous position as rewriting rules
                m = {}
                for e in cands:
                    if e[5] == 1 and e[2].sort == "R" and self.entails(ctx, le(e[0], prev)):
                        x, y = e[2](prev), e[3](add(prev, e[4]))
                        if x not in m:
                            m[x] = m.get(y, y)
                goal = self.norm(goal, ctx)
                goal = replace(goal, m)
                if self.prove(goal, [lt(c[0], i)] + rel, depth - 1):
                    keep.append(c)
                else:
                    changed = True
            cands = keep
        if not cands:
            return False
        for L, f, a, b, d, s in cands:
            # the later symbol is rewritten into the earlier one
            if b.uid > a.uid:
                self.rules.setdefault(b, []).append((add(L, d), (lambda a, d, s: lambda t: a(sub(t, d)) if s > 0 else not_(a(sub(t, d))))(a, d, s)))
            else:
                self.rules.setdefault(a, []).append((L, (lambda b, d, s: lambda t: b(add(t, d)) if s > 0 else not_(b(add(t, d))))(b, d, s)))
        self._drop()
        for c in Ctx.tab.values():
            c.memo = {}
        return True


def replace(t, m):
    """replace whole subterms"""
    memo = {}

    def go(t):
        r = memo.get(t.id)
        if r is None:
            r = m.get(t)
            if r is None:
                na = [go(a) for a in t.args]
                r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
            memo[t.id] = r
        return r
    return go(t)


def weight(t):
    """size without the conditions"""
    seen, st = set(), [t]
    while st:
        u = st.pop()
        if u.id not in seen:
            seen.add(u.id)
            st.extend(u.args[1:] if u.op == "ite" else u.args)
    return len(seen)


def isindex(a):
    if a.op == "le0" and a.args[0].sort == "I":
        return not a.fs
    if a.op in ("and", "or"):
        return all(isindex(x) for x in a.args)
    return False


def raw_ge0(t):
    if t.op == "c":
        return B(t.data >= 0)
    return mk("le0", (neg(t),), "B")


def raw_gt0(t):
    if t.op == "c":
        return B(t.data > 0)
    return mk("lt0", (neg(t),), "B")


gt_raw = raw_gt0


def relevant(ctx, fv):
    """facts over the given bound variables (and global constants) only, with what the others say about them:
    the dropped index variables are eliminated from the linear facts"""
    hs = [h for h in ctx.hyps if h.fv <= fv]
    if len(hs) == len(ctx.hyps):
        return ctx
    lin = [h for h in ctx.hyps if h.op == "le0" and h.args[0].sort == "I" and h.fv]
    more = []
    for v in sorted({v for h in lin for v in h.fv} - fv, key=lambda v: str(v.data)):
        up, dn, rest = [], [], []
        for h in lin:
            c = coef(h.args[0], v)
            if v not in h.fv:
                rest.append(h)
            elif c:
                (up if c > 0 else dn).append((c, h))
        if len(up) * len(dn) > 16:
            lin = rest
            continue
        for cu, u in up:
            for cd, d in dn:
                r = le(add(scale(-cd, u.args[0]), scale(cu, d.args[0])), ZERO)
                if r.op == "le0":
                    rest.append(r)
        lin = rest
    more = [h for h in lin if h.fv <= fv and h not in hs]
    return Ctx.of(hs).plus(*more) if more else Ctx.of(hs)


def subterms_vars(t):
    return set(subterms(t, lambda u: u.op == "v"))


def pinned(hyps, params=False):
    """a substitution for an index variable (or for a parameter) that has a single value under the hypotheses"""
    hs = [h for x in hyps for h in (x.args if x.op == "and" else (x,)) if h.op in ("le0", "eq0") and h.args[0].sort == "I"]
    for v in sorted({v for h in hs for v in (subterms_vars(h) if params else h.fv)}, key=lambda v: v.id):
        up, dn = [], [I(bounds(v)[0])] if bounds(v)[0] is not None else []
        for h in hs:
            c = coef(h.args[0], v)
            if c not in (1, -1):
                continue
            e = scale(-c, sub(h.args[0], scale(c, v)))          # c*v + r <= 0
            if h.op == "eq0" or c == 1:
                up.append(e)
            if h.op == "eq0" or c == -1:
                dn.append(e)
        for e in up:
            if e in dn:
                return {v: e}
    return None


def coef(t, v):
    """coefficient of v in a linear index term; 0 if v occurs otherwise"""
    if t is v:
        return 1
    if t.op != "+":
        return 0
    r = 0
    for k, m in zip(t.data[1], t.args):
        if m is v:
            r = k
        elif v in m.fv or not v.fv and v in subterms_vars(m):
            return 0
    return r
