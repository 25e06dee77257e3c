"""Hash-consed term language of the verification-condition generator.

Sorts: 'I' (mathematical integers), 'R' (mathematical reals), 'B' (booleans).
Ring terms are kept in a sum-of-products normal form (products of sums are not
distributed).  `inv` is the total reciprocal with inv(0) = 0; extended-float
division (ef.py) guards every use of it with flags, so the convention is never
observable.  Function symbols (class FSym and subclasses) are inputs, folds
over an index range, or components of a recurrence.
"""
from fractions import Fraction
import itertools
import math

_tab = {}
_ids = itertools.count()


class T:
    __slots__ = ("op", "args", "sort", "data", "id", "fv", "fs", "__weakref__")

    def __repr__(self):
        return show(self)


EMPTY = frozenset()


def mk(op, args, sort, data=None):
    key = (op, tuple(a.id for a in args), sort, data)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.sort, t.data = op, tuple(args), sort, data
        t.id = next(_ids)
        if op == "v" and data[1]:
            t.fv = frozenset((t,))
            t.fs = EMPTY
        else:
            fv, fs = EMPTY, EMPTY
            for a in args:
                if a.fv:
                    fv = fv | a.fv if fv else a.fv
                if a.fs:
                    fs = fs | a.fs if fs else a.fs
            if op == "app":
                fs = fs | {data}
            t.fv, t.fs = fv, fs
        _tab[key] = t
    return t


# ------------------------------------------------------------------ leaves
def const(x, sort):
    if sort == "R":
        x = Fraction(x)
    elif sort == "I":
        x = int(x)
    else:
        x = bool(x)
    return mk("c", (), sort, x)


TRUE, FALSE = const(True, "B"), const(False, "B")
ZERO, ONE = const(0, "I"), const(1, "I")
RZERO, RONE = const(0, "R"), const(1, "R")


def I(x):
    return x if isinstance(x, T) else const(x, "I")


def R(x):
    if isinstance(x, T):
        return x if x.sort == "R" else toR(x)
    if isinstance(x, float):
        return const(Fraction(repr(x)), "R")
    return const(x, "R")


def B(x):
    return x if isinstance(x, T) else const(x, "B")


def var(name, sort, formal=False):
    return mk("v", (), sort, (name, formal))


_fresh = itertools.count()


def fresh(prefix, sort="I", formal=True):
    return var(f"{prefix}!{next(_fresh)}", sort, formal)


def isc(t):
    return t.op == "c"


# ------------------------------------------------------------------ known bounds of global constants
# (declared once per variable, e.g. a window is >= 1; part of the stated precondition)
BOUNDS = {}


def declare(v, lb=None, ub=None):
    BOUNDS[v] = (lb, ub)
    return v


def bounds(t):
    """(lb, ub) of a term, None = unknown; lb/ub are inclusive"""
    if t.op == "c":
        return t.data, t.data
    if t.op == "v":
        return BOUNDS.get(t, (None, None))
    if t.op == "toR":
        return bounds(t.args[0])
    if t.op == "app":
        return t.data.bnds
    if t.op == "inv":
        lb, ub = bounds(t.args[0])
        if lb is not None and lb > 0:
            return (Fraction(1) / ub if ub is not None else Fraction(0)), Fraction(1) / Fraction(lb)
        return None, None
    if t.op == "*":
        L = [bounds(a) for a in t.args]
        if len(t.args) == 2 and t.args[0] is t.args[1]:
            return Fraction(0), None
        if all(l is not None and l >= 0 for l, _ in L):
            lo, hi = 1, 1
            for l, u in L:
                lo *= l
                hi = None if hi is None or u is None else hi * u
            return lo, hi
        return None, None
    if t.op == "+" and t.sort == "R" and all(a.op == "toR" for a in t.args):
        l = 1
        for q in (t.data[0],) + t.data[1]:
            l = l * q.denominator // math.gcd(l, q.denominator)
        if any(a.args[0].op == "imin" for a in t.args):
            lo, hi = bounds(_toI(t))
            return (None if lo is None else Fraction(lo, l)), (None if hi is None else Fraction(hi, l))
    if t.op == "+":
        if t.sort == "I":
            for k, a in zip(t.data[1], t.args):
                if a.op == "imin":
                    rest = sub(t, scale(k, a))
                    L = [bounds(add(rest, scale(k, u))) for u in a.args]
                    los, his = [l for l, _ in L], [u for _, u in L]
                    if k > 0:
                        us = [u for u in his if u is not None]
                        return (None if None in los else min(los)), (min(us) if us else None)
                    ls = [l for l in los if l is not None]
                    return (max(ls) if ls else None), (None if None in his else max(his))
        lo = hi = t.data[0]
        for k, a in zip(t.data[1], t.args):
            l, u = bounds(a)
            if k < 0:
                l, u = u, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or u is None else hi + k * u
        return lo, hi
    if t.op == "imin":
        L = [bounds(a) for a in t.args]
        us = [u for _, u in L if u is not None]
        return (None if any(l is None for l, _ in L) else min(l for l, _ in L)), (min(us) if us else None)
    if t.op == "ite":
        if t.sort == "R" and t.args[1].op != "c" and t.args[0].op == "le0" and add(t.args[1], t.args[2]) is RZERO and \
                (t.args[0].args[0] is t.args[2] or t.args[0].args[0] is _normsign(t.args[2])):
            return Fraction(0), None  # absolute value
        a, b = bounds(t.args[1]), bounds(t.args[2])
        f = lambda g, x, y: None if x is None or y is None else g(x, y)
        return f(min, a[0], b[0]), f(max, a[1], b[1])
    return None, None


def known_nonzero(t):
    if t.op == "c":
        return t.data != 0
    if t.op == "inv":
        return known_nonzero(t.args[0])
    if known_positive(t):
        return True
    lb, ub = bounds(t)
    return (lb is not None and lb > 0) or (ub is not None and ub < 0)


POS = set()  # real variables declared strictly positive


# ------------------------------------------------------------------ ring ops
# '+' : data = (const, (coef,...)), args = terms ; '*' : args = factors sorted by id
def _lin(t):
    """t as (const, {term: coef})"""
    if t.op == "c":
        return t.data, {}
    if t.op == "+":
        return t.data[0], dict(zip(t.args, t.data[1]))
    return (0 if t.sort == "I" else Fraction(0)), {t: (1 if t.sort == "I" else Fraction(1))}


def _mklin(c, d, sort):
    d = {t: k for t, k in d.items() if k != 0}
    if not d:
        return const(c, sort)
    if c == 0 and len(d) == 1:
        (t, k), = d.items()
        if k == 1:
            return t
    items = sorted(d.items(), key=lambda x: x[0].id)
    if sort == "R":
        c = Fraction(c)
        return mk("+", [t for t, _ in items], sort, (c, tuple(Fraction(k) for _, k in items)))
    return mk("+", [t for t, _ in items], sort, (int(c), tuple(int(k) for _, k in items)))


def add(*ts):
    sort = ts[0].sort
    c, d = 0, {}
    for t in ts:
        assert t.sort == sort, (t, sort)
        c2, d2 = _lin(t)
        c += c2
        for u, k in d2.items():
            d[u] = d.get(u, 0) + k
    return _mklin(c, d, sort)


def scale(k, t):
    if k == 0:
        return const(0, t.sort)
    if k == 1:
        return t
    if t.op == "ite" and isc(t.args[1]) and isc(t.args[2]):
        return ite(t.args[0], scale(k, t.args[1]), scale(k, t.args[2]))
    c, d = _lin(t)
    return _mklin(c * k, {u: v * k for u, v in d.items()}, t.sort)


def neg(t):
    return scale(-1, t)


def sub(a, b):
    return add(a, neg(b))


def _factors(t):
    """(coef, [factors]) of a normal-form term that is a single monomial, else (1,[t])"""
    if t.op == "c":
        return t.data, []
    if t.op == "*":
        return 1, list(t.args)
    if t.op == "+" and t.data[0] == 0 and len(t.args) == 1:
        k, f = _factors(t.args[0])
        return k * t.data[1][0], f
    if t.op == "+" and t.sort == "R" and t.data[1][0] != 1:
        k = t.data[1][0]
        return k, [scale(1 / k, t)]
    return 1, [t]


def mul(*ts):
    sort = ts[0].sort
    k, fs = 1, []
    for t in ts:
        assert t.sort == sort, (t, sort)
        k2, f2 = _factors(t)
        k *= k2
        fs += f2
    if k == 0:
        return const(0, sort)
    if not fs:
        return const(k, sort)
    if len(fs) == 1:
        return scale(k, fs[0])
    # x * inv(x) cancels only when x is known to be nonzero
    if any(f.op == "inv" for f in fs):
        out = list(fs)
        for f in fs:
            if f.op == "inv" and f.args[0] in out and f in out:
                if known_nonzero(f.args[0]):
                    out.remove(f)
                    out.remove(f.args[0])
                elif out.count(f.args[0]) > 1:
                    # x * x * inv(x) is x, also for zero
                    out.remove(f)
                    out.remove(f.args[0])
                elif out.count(f) > 1:
                    out.remove(f)
                    out.remove(f.args[0])
        if len(out) < len(fs):
            return mul(const(k, sort), *out)
    if sort == "R" and any(f.op == "+" for f in fs):
        size = 1
        for f in fs:
            if f.op == "+":
                size *= len(f.args) + (1 if f.data[0] else 0)
        if size <= 16:
            parts = [[]]
            for f in fs:
                if f.op == "+":
                    ms = [scale(c, u) for c, u in zip(f.data[1], f.args)]
                    if f.data[0]:
                        ms.append(const(f.data[0], "R"))
                    parts = [p + [m] for p in parts for m in ms]
                else:
                    parts = [p + [f] for p in parts]
            return add(*[scale(k, mul(RONE, *p)) for p in parts])
    fs.sort(key=lambda t: t.id)
    return scale(k, mk("*", fs, sort))


def inv(t):
    if t.op == "c":
        return const(0 if t.data == 0 else 1 / t.data, "R")
    if t.op == "inv":
        return t.args[0]
    k, fs = _factors(t)
    if len(fs) > 1 or k != 1:
        return scale(Fraction(1) / k, mul(RONE, *[inv(f) for f in fs]))
    cf, rest = _common(t)
    if cf:
        return mul(inv(rest), *[inv(f) for f in cf])
    return mk("inv", (t,), "R")


def _common(t):
    """([common factors], rest) of a sum of products"""
    if t.op != "+" or t.data[0] != 0 or t.sort != "R":
        return [], t
    com = None
    for a in t.args:
        fs = list(a.args) if a.op == "*" else [a]
        if com is None:
            com = fs
        else:
            nxt = []
            for f in com:
                if f in fs:
                    fs.remove(f)
                    nxt.append(f)
            com = nxt
        if not com:
            return [], t
    rest = {}
    for k, a in zip(t.data[1], t.args):
        fs = list(a.args) if a.op == "*" else [a]
        for f in com:
            fs.remove(f)
        r = mul(RONE, *fs)
        c, d = _lin(r)
        if c:
            rest[None] = rest.get(None, 0) + k * c
        for u, v in d.items():
            rest[u] = rest.get(u, 0) + k * v
    c0 = rest.pop(None, Fraction(0))
    return com, _mklin(c0, rest, "R")


def known_positive(t):
    if t in POS or t.op == "app" and t.data.positive:
        return True
    if t.op == "*" or t.op == "+" and t.sort == "R" and t.data[0] >= 0 and all(k > 0 for k in t.data[1]):
        return all(known_positive(a) for a in t.args)
    if t.op == "inv":
        return known_positive(t.args[0])
    lb, _ = bounds(t)
    return lb is not None and lb > 0


def _strip_pos(t):
    """drop known positive common factors (sign and zero preserving)"""
    if t.sort != "R":
        return t
    if t.op == "*":
        fs = [f for f in t.args if not known_positive(f)]
        return t if len(fs) == len(t.args) else mul(RONE, *fs)
    cf, rest = _common(t)
    if cf and any(known_positive(f) for f in cf):
        return mul(rest, *[f for f in cf if not known_positive(f)])
    return t


def toR(t):
    if t.sort == "R":
        return t
    if t.op == "c":
        return const(t.data, "R")
    if t.op == "+":
        return add(const(t.data[0], "R"), *[scale(k, toR(u)) for u, k in zip(t.args, t.data[1])])
    if t.op == "*":
        return mul(*[toR(u) for u in t.args])
    if t.op == "ite":
        return ite(t.args[0], toR(t.args[1]), toR(t.args[2]))
    return mk("toR", (t,), "R")


def floor(t):
    if t.op == "c":
        return const(t.data.numerator // t.data.denominator, "I")
    if t.op == "toR":
        return t.args[0]
    if t.op == "+":
        # whole-number part of the constant and integer multiples of integers
        c = t.data[0]
        whole = I(c.numerator // c.denominator)
        rest = {}
        for k, a in zip(t.data[1], t.args):
            if a.op == "toR" and k.denominator == 1:
                whole = add(whole, scale(int(k), a.args[0]))
            else:
                rest[a] = k
        if whole is not ZERO:
            return add(whole, floor(_mklin(c - c.numerator // c.denominator, rest, "R")))
    return mk("floor", (t,), "I")


def fn1(name, t):
    return mk(name, (t,), "R")


# ------------------------------------------------------------------ booleans
_nots = {}


def not_(a):
    if a.op == "c":
        return FALSE if a.data else TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "le0" and a.args[0].sort == "I":
        return le0(sub(ONE, a.args[0]))
    if a.op == "le0":
        return lt0(neg(a.args[0]))
    if a.op == "lt0":
        return le0(neg(a.args[0]))
    if a.op in ("and", "or"):
        r = _nots.get(a.id)
        if r is None:
            r = (or_ if a.op == "and" else and_)(*[not_(x) for x in a.args])
            _nots[a.id] = r
            _nots.setdefault(r.id, a)
        return r
    return mk("not", (a,), "B")


def _linkey(t):
    """integer le0(sum + c) as (key of the sum, key of its negation, c)"""
    c, d = _lin(t.args[0])
    k = tuple(sorted((u.id, v) for u, v in d.items()))
    return k, tuple((i, -v) for i, v in k), c


def _ac(op, ts, unit, zero):
    out = {}
    lin = {}
    stack = list(reversed(ts))
    while stack:
        t = stack.pop()
        if t is unit:
            continue
        if t is zero:
            return zero
        if t.op == op:
            stack.extend(reversed(t.args))
            continue
        if t.op == "le0" and t.args[0].sort == "I":
            k, nk, c = _linkey(t)
            if k in lin:
                c0, t0 = lin[k]
                # and: keep the larger constant (stronger); or: the smaller
                if (c > c0) == (op == "and"):
                    if c == c0:
                        continue
                    out.pop(t0.id, None)
                else:
                    continue
            if nk in lin:
                c2 = lin[nk][0]  # sum <= -c and sum >= c2
                if op == "and" and c2 > -c:
                    return zero
                if op == "or" and c2 <= -c + 1:
                    return zero
            lin[k] = (c, t)
        out[t.id] = t
    for t in list(out.values()):
        n = not_(t)
        if n.id in out:
            return zero
    # absorption: x op (x dual y) = x ; x op (not x dual y) = x op y
    dual = "or" if op == "and" else "and"
    for t in list(out.values()):
        if t.op == dual:
            if any(a.id in out for a in t.args):
                out.pop(t.id)
            elif any(not_(a).id in out for a in t.args):
                out.pop(t.id)
                rest = [a for a in t.args if not_(a).id not in out]
                r = or_(*rest) if dual == "or" else and_(*rest)
                return _ac(op, list(out.values()) + [r], unit, zero)
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out.values()))
    return mk(op, [out[i] for i in sorted(out)], "B")


def and_(*ts):
    return _ac("and", ts, TRUE, FALSE)


def or_(*ts):
    return _ac("or", ts, FALSE, TRUE)


def implies(a, b):
    return or_(not_(a), b)


def iff(a, b):
    if a is b:
        return TRUE
    if a.op == "c":
        return b if a.data else not_(b)
    if b.op == "c":
        return a if b.data else not_(a)
    if a.id > b.id:
        a, b = b, a
    return mk("iff", (a, b), "B")


def _normsign(t):
    """scale so that the leading coefficient is +-1 (positive scaling only)"""
    if t.op == "+" and t.sort == "R":
        k = abs(t.data[1][0])
        if k != 1:
            return scale(1 / k, t)
    return t


def _lift(t, f, eq=False):
    """integer comparison over one min/max/if-then-else: push the comparison inside"""
    if t.sort == "I" and t.op in ("ite", "imin", "+"):
        for k, a in ([(1, t)] if t.op != "+" else zip(t.data[1], t.args)):
            rest = None
            if a.op == "ite":
                rest = sub(t, scale(k, a))
                return ite(a.args[0], f(add(rest, scale(k, a.args[1]))), f(add(rest, scale(k, a.args[2]))))
            if a.op == "imin" and not eq:
                rest = sub(t, scale(k, a))
                comb = or_ if k > 0 else and_
                return comb(*[f(add(rest, scale(k, u))) for u in a.args])
    return None


def _intgcd(t):
    if t.op == "+" and t.sort == "I":
        g = 0
        for k in t.data[1]:
            g = math.gcd(g, k)
        if g > 1:
            return g
    return 1


def _toI(t):
    """a real sum of integers as a positive multiple in sort I, else None"""
    if t.sort != "R":
        return None
    if t.op == "toR":
        return t.args[0]
    if t.op == "+" and all(a.op == "toR" for a in t.args):
        l = 1
        for q in (t.data[0],) + t.data[1]:
            l = l * q.denominator // math.gcd(l, q.denominator)
        return add(const(t.data[0] * l, "I"), *[scale(int(k * l), a.args[0]) for k, a in zip(t.data[1], t.args)])
    return None


def le0(t):
    if t.op == "c":
        return B(t.data <= 0)
    t = _strip_pos(t)
    if t.op == "c":
        return le0(t)
    ti = _toI(t)
    if ti is not None:
        return le0(ti)
    lb, ub = bounds(t)
    if ub is not None and ub <= 0:
        return TRUE
    if lb is not None and lb > 0 or t.sort == "R" and known_positive(t):
        return FALSE
    l = _lift(t, le0)
    if l is not None:
        return l
    g = _intgcd(t)
    if g > 1:  # g*s + c <= 0  <=>  s <= floor(-c/g)
        c = t.data[0]
        s = _mklin(-((-c) // g), {a: k // g for k, a in zip(t.data[1], t.args)}, "I")
        return le0(s)
    return mk("le0", (_normsign(t),), "B")


def lt0(t):
    if t.op == "c":
        return B(t.data < 0)
    if t.sort == "I":
        return le0(add(t, ONE))
    t = _strip_pos(t)
    if t.op == "c":
        return lt0(t)
    ti = _toI(t)
    if ti is not None:
        return lt0(ti)
    lb, ub = bounds(t)
    if ub is not None and ub < 0:
        return TRUE
    if lb is not None and lb >= 0:
        return FALSE
    if known_positive(t):
        return FALSE
    return mk("lt0", (_normsign(t),), "B")


def eq0(t):
    if t.op == "c":
        return B(t.data == 0)
    t = _strip_pos(t)
    if t.op == "c":
        return eq0(t)
    ti = _toI(t)
    if ti is not None:
        return eq0(ti)
    lb, ub = bounds(t)
    if (lb is not None and lb > 0) or (ub is not None and ub < 0) or known_positive(t):
        return FALSE
    l = _lift(t, eq0, True)
    if l is not None:
        return l
    c, d = _lin(t)
    lead = min(d.items(), key=lambda x: x[0].id)
    if lead[1] < 0:
        t = neg(t)
    return mk("eq0", (_normsign(t),), "B")


def le(a, b):
    return le0(sub(a, b))


def lt(a, b):
    return lt0(sub(a, b))


def ge(a, b):
    return le(b, a)


def gt(a, b):
    return lt(b, a)


def eq(a, b):
    if a.sort == "B":
        return iff(a, b)
    return eq0(sub(a, b))


def ne(a, b):
    return not_(eq(a, b))


def ite(c, a, b):
    if a is b:
        return a
    if c.op == "c":
        return a if c.data else b
    if a.sort == "B":
        if a.op == "c" or b.op == "c":
            return and_(or_(not_(c), a), or_(c, b))
        return or_(and_(c, a), and_(not_(c), b))
    if c.op == "not":
        return ite(c.args[0], b, a)
    if c.op in ("le0", "lt0"):
        u = c.args[0]
        if (u.op == "+" and u.data[1][0] < 0):
            return ite(not_(c), b, a)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    return mk("ite", (c, a, b), a.sort)


def imin(*ts):
    """n-ary integer minimum in a translation-invariant normal form a + imin(0, b-a, ...)"""
    flat, st = [], list(reversed(ts))
    while st:
        t = st.pop()
        inner = None
        if t.op == "imin":
            inner, rest = t, None
        elif t.op == "+":
            for k, a in zip(t.data[1], t.args):
                if a.op == "imin" and k == 1:
                    inner, rest = a, sub(t, a)
                    break
        if inner is not None:
            st.extend((add(u, rest) if rest is not None else u) for u in reversed(inner.args))
        elif t not in flat:
            flat.append(t)
    keep = list(flat)
    for t in flat:
        if len(keep) > 1 and t in keep and any(u is not t and le(u, t) is TRUE for u in keep):
            keep.remove(t)
    if len(keep) == 1:
        return keep[0]
    best = None
    for a in keep:
        ds = tuple(sorted(sub(u, a).id for u in keep if u is not a))
        if best is None or ds < best[0]:
            best = (ds, a)
    a = best[1]
    args = sorted([sub(u, a) for u in keep], key=lambda t: t.id)
    return add(mk("imin", args, "I"), a)


def imax(*ts):
    if len(ts) == 2:
        a, b = ts
        if le(a, b) is TRUE:
            return b
        if le(b, a) is TRUE:
            return a
    flat, st = [], list(reversed(ts))
    while st:
        t = st.pop()
        if t.op == "+":
            hit = False
            for k, a in zip(t.data[1], t.args):
                if a.op == "imin" and k == -1:
                    rest = add(t, a)
                    st.extend(sub(rest, u) for u in reversed(a.args))
                    hit = True
                    break
            if hit:
                continue
        if t not in flat:
            flat.append(t)
    keep = list(flat)
    for t in flat:
        if len(keep) > 1 and any(u is not t and le(t, u) is TRUE for u in keep):
            keep.remove(t)
    if len(keep) == 1:
        return keep[0]
    if len(keep) == 2:
        a, b = keep
        return sub(add(a, b), imin(a, b))
    return neg(imin(*[neg(t) for t in keep]))


# ------------------------------------------------------------------ functions
class FSym:
    kind = "free"
    bnds = (None, None)   # inclusive bounds of every value
    positive = False      # every value is > 0

    def __init__(self, name, sorts, sort):
        self.name, self.sorts, self.sort = name, tuple(sorts), sort
        self.uid = next(_ids)
        self.depth = 0

    def __call__(self, *args):
        return app(self, *args)

    def __repr__(self):
        return f"<{self.kind} {self.name}>"


def app(f, *args):
    return mk("app", args, f.sort, f)


class InputFn(FSym):
    kind = "input"


_folds = {}
FOLD_SORT = {"any": "B", "argmax": "I", "argmin": "I", "lastidx": "I", "firstidx": "I"}
EMPTY_VAL = {"sum": 0, "prod": 1, "any": False}
KV = var("$k", "I", True)
PLO, PHI = var("$lo", "I", True), var("$hi", "I", True)


def _conj(g):
    return list(g.args) if g.op == "and" else ([] if g is TRUE else [g])


def _split_range(guard, kv, lo, hi):
    """move bounds on kv from the guard into the range"""
    rest = []
    for c in _conj(guard):
        done = False
        if c.op == "le0":
            k0, d = _lin(c.args[0])
            ck = d.get(kv, 0)
            if ck in (1, -1):
                e = _mklin(k0, {u: k for u, k in d.items() if u is not kv}, "I")
                if kv not in e.fv:
                    if ck == 1:
                        hi = imin(hi, neg(e))
                    else:
                        lo = imax(lo, e)
                    done = True
        if not done:
            rest.append(c)
    return and_(*rest), lo, hi


def _shift_of(parts, kv):
    """canonical offset: the argument of the first function applied to kv + offset"""
    best = {}
    for a in apps_many(parts):
        for x in a.args:
            if x.sort == "I" and kv in x.fv:
                k0, d = _lin(x)
                if d.get(kv, 0) == 1:
                    off = sub(x, kv)
                    if kv not in off.fv:
                        best.setdefault(a.data.uid, []).append(off)
    if not best:
        return None
    offs = best[min(best)]
    r = offs[0]
    for o in offs[1:]:
        d = sub(o, r)
        if d.op == "c":
            if d.data > 0:
                r = o
        elif o.id < r.id:
            r = o
    return r


def _poly(body, kv, limit=24):
    """body as a list of (kv-free factor, kv-dependent part); None if nothing to separate"""
    def mono(t):
        # expand a single product as far as a factor mixes kv-free and kv-dependent summands
        k, fs = _factors(t)
        terms = [(const(k, "R"), RONE)]
        for f in fs:
            opts = None
            if kv not in f.fv:
                opts = [(f, RONE)]
            elif f.op == "+":
                free = [(c, u) for c, u in zip(f.data[1], f.args) if kv not in u.fv]
                if free:
                    dep = _mklin(f.data[0], {u: c for c, u in zip(f.data[1], f.args) if kv in u.fv}, "R")
                    opts = [(_mklin(0, {u: c for c, u in free}, "R"), RONE), (RONE, dep)]
            elif f.op == "toR" and f.args[0].op == "+":
                raise AssertionError
            if opts is None:
                opts = [(RONE, f)]
            terms = [(mul(a, x), mul(b, y)) for a, b in terms for x, y in opts]
            if len(terms) > limit:
                return None
        return terms
    c, d = _lin(body)
    out = []
    if c:
        out.append((RONE, const(c, "R")))
    for u, k in d.items():
        m = mono(u)
        if m is None:
            return None
        out += [(scale(k, a), b) for a, b in m]
    groups = {}
    for a, b in out:
        k, fs = _factors(a)
        if a.op == "+" or len(fs) != 0:
            # distribute a kv-free sum into its own monomials only through scale
            groups.setdefault(a if not (a.op == "+" and len(a.args) == 1 and a.data[0] == 0) else a.args[0], [])
    merged = {}
    for a, b in out:
        if a.op == "c":
            merged[RONE] = add(merged.get(RONE, RZERO), scale(a.data, b))
        elif a.op == "+" and len(a.args) == 1 and a.data[0] == 0:
            merged[a.args[0]] = add(merged.get(a.args[0], RZERO), scale(a.data[1][0], b))
        else:
            merged[a] = add(merged.get(a, RZERO), b)
    return list(merged.items())


class Fold(FSym):
    """Aggregate over k in [lo, hi] with guard(k); the first two arguments are lo and hi.
    sum, prod, max, min, any, argmax, argmin (smallest such k), lastidx (largest guarded k,
    lo-1 if none), firstidx (smallest guarded k, hi+1 if none)."""
    kind = "fold"

    @staticmethod
    def make(agg, lo, hi, kv, guard=TRUE, body=None):
        if agg in ("any", "lastidx", "firstidx"):
            body = TRUE
        if body.sort == "I":
            body = toR(body)
        sort = FOLD_SORT.get(agg, "R")
        lo0, hi0 = lo, hi
        if guard is FALSE:
            if agg in EMPTY_VAL:
                return const(EMPTY_VAL[agg], sort)
            return sub(lo, ONE) if agg == "lastidx" else add(hi, ONE) if agg == "firstidx" else const(0, sort)
        if agg not in ("lastidx", "firstidx"):
            guard, lo, hi = _split_range(guard, kv, lo, hi)
        else:
            g2, l2, h2 = _split_range(guard, kv, lo, hi)
            if g2 is TRUE:
                if agg == "lastidx":
                    return ite(le(l2, h2), h2, sub(lo, ONE))
                return ite(le(l2, h2), l2, add(hi, ONE))
        if agg in EMPTY_VAL and le(lo, hi) is FALSE:
            return const(EMPTY_VAL[agg], sort)
        if agg == "any" and guard is TRUE:
            return le(lo, hi)
        if agg == "sum":
            if body.op == "c":
                if body.data == 0:
                    return RZERO
                if guard is TRUE:
                    return scale(body.data, toR(imax(ZERO, add(hi, neg(lo), ONE))))
            if guard is TRUE and kv not in body.fv:
                return mul(body, toR(imax(ZERO, add(hi, neg(lo), ONE))))
            ps = _poly(body, kv)
            if ps is not None and (len(ps) > 1 or (ps and ps[0][0] is not RONE)):
                return add(RZERO, *[mul(a, Fold.make(agg, lo, hi, kv, guard, b)) for a, b in ps])
            k, _ = _factors(body)
            if k != 1:
                return scale(k, Fold.make(agg, lo, hi, kv, guard, scale(Fraction(1) / k, body)))
        if agg in ("max", "min"):
            c, d = _lin(body)
            free = _mklin(c, {u: k for u, k in d.items() if kv not in u.fv}, "R")
            if free is not RZERO and free.op != "c" or (free.op == "c" and free.data != 0):
                dep = sub(body, free)
                if dep is RZERO and guard is TRUE:
                    return free
                return add(free, Fold.make(agg, lo, hi, kv, guard, dep))
            k, fs = _factors(body)
            if k != 1 and fs:
                a2 = agg if k > 0 else ("min" if agg == "max" else "max")
                return scale(k, Fold.make(a2, lo, hi, kv, guard, scale(Fraction(1) / k, body)))
        off = _shift_of([guard, body], kv)
        if off is not None and off is not ZERO:
            m = {kv: sub(kv, off)}
            r = Fold.make(agg, add(lo, off), add(hi, off), kv, subst(guard, m), subst(body, m))
            return sub(r, off) if agg in FOLD_SORT and agg != "any" else r
        fvs = sorted((guard.fv | body.fv) - {kv}, key=lambda v: v.id)
        ren = {v: var(f"${n}", "I", True) for n, v in enumerate(fvs)}
        ren[kv] = KV
        g2, b2 = subst(guard, ren), subst(body, ren)
        key = (agg, g2.id, b2.id, len(fvs))
        f = _folds.get(key)
        if f is None:
            f = Fold(f"{agg}#{len(_folds)}", ["I"] * (2 + len(fvs)), sort)
            f.agg, f.guard, f.body = agg, g2, b2
            f.params = tuple(ren[v] for v in fvs)
            if agg == "sum":
                lb, ub = bounds(b2)
                f.bnds = (Fraction(0) if lb is not None and lb >= 0 or known_positive(b2) else None,
                          Fraction(0) if ub is not None and ub <= 0 else None)
            f.depth = 1 + max([g.depth for x in (g2, b2) for g in x.fs] or [0])
            _folds[key] = f
        return app(f, lo, hi, *fvs)

    def at(self, args, k):
        """(guard, body) at index k for the application with these arguments"""
        ren = dict(zip(self.params, args[2:]))
        ren[KV] = k
        return subst(self.guard, ren), subst(self.body, ren)


class Rec:
    """System of recurrences X_c(i) = step_c(i), lo <= i < hi, step mentions X_d(t), lo <= t < i."""

    def __init__(self, name, lo, hi):
        self.name, self.lo, self.hi = name, lo, hi
        self.iv = fresh("i")
        self.comps, self.steps = [], {}
        self.tags = {}

    def comp(self, name, sort, tag=None):
        c = RecComp(f"{self.name}.{name}", ["I"], sort)
        c.rec = self
        self.comps.append(c)
        self.tags[c] = tag or name
        return c

    def close(self):
        d = 1 + max([g.depth for s in self.steps.values() for g in s.fs
                     if not (isinstance(g, RecComp) and g.rec is self)] +
                    [g.depth for x in (self.lo, self.hi) if x is not None for g in x.fs] + [0])
        for c in self.comps:
            c.depth = d

    def step(self, c, t):
        return subst(self.steps[c], {self.iv: t})


class RecComp(FSym):
    kind = "rec"


# ------------------------------------------------------------------ substitution
def rebuild(t, args):
    op = t.op
    if op == "+":
        return add(const(t.data[0], t.sort), *[scale(k, a) for k, a in zip(t.data[1], args)])
    if op == "*":
        return mul(*args)
    if op == "app":
        return app(t.data, *args)
    f = {"imin": imin, "inv": inv, "toR": toR, "floor": floor, "not": not_, "and": and_, "or": or_, "iff": iff,
         "le0": le0, "lt0": lt0, "eq0": eq0, "ite": ite}.get(op)
    if f:
        return f(*args)
    return mk(op, args, t.sort, t.data)


def subst(t, m):
    """replace variables (keys of m: var terms) by terms"""
    keys = frozenset(m)
    formal = all(k.data[1] for k in m)
    memo = {}

    def go(t):
        if formal and t.fv.isdisjoint(keys):
            return t
        r = memo.get(t.id)
        if r is None:
            if t.op == "v":
                r = m.get(t, t)
            elif not t.args:
                r = t
            else:
                na = [go(a) for a in t.args]
                r = t if all(x is y for x, y in zip(na, t.args)) else rebuild(t, na)
            memo[t.id] = r
        return r

    return go(t)


def apps(t, seen=None, out=None):
    """all application subterms"""
    seen = set() if seen is None else seen
    out = [] if out is None else out
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == "app":
            out.append(u)
        st.extend(u.args)
    return out


def apps_many(ts):
    seen, out = set(), []
    for t in ts:
        apps(t, seen, out)
    return out


def subterms(t, pred, seen=None):
    seen = set() if seen is None else seen
    out, st = [], [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if pred(u):
            out.append(u)
        st.extend(u.args)
    return out


def closure_fs(fs):
    """all function symbols reachable through definitions"""
    out, st = set(), list(fs)
    while st:
        f = st.pop()
        if f in out:
            continue
        out.add(f)
        if f.kind == "fold":
            for x in (f.guard, f.body):
                st.extend(x.fs)
        elif f.kind == "rec":
            for c in f.rec.comps:
                if c not in out:
                    st.append(c)
            st.extend(f.rec.lo.fs | f.rec.hi.fs)
            for s in f.rec.steps.values():
                st.extend(s.fs)
    return out


def show(t, depth=0):
    if depth > 12:
        return "…"
    s = lambda a: show(a, depth + 1)
    o = t.op
    if o == "c":
        return str(t.data)
    if o == "v":
        return t.data[0]
    if o == "+":
        parts = []
        for k, a in zip(t.data[1], t.args):
            parts.append(s(a) if k == 1 else f"{k}*{s(a)}")
        if t.data[0]:
            parts.append(str(t.data[0]))
        return "(" + " + ".join(parts) + ")"
    if o == "*":
        return "*".join(s(a) for a in t.args)
    if o == "app":
        return f"{t.data.name}({', '.join(s(a) for a in t.args)})"
    if o == "le0":
        return f"({s(t.args[0])} <= 0)"
    if o == "lt0":
        return f"({s(t.args[0])} < 0)"
    if o == "eq0":
        return f"({s(t.args[0])} = 0)"
    if o == "ite":
        return f"if({s(t.args[0])}, {s(t.args[1])}, {s(t.args[2])})"
    if o in ("and", "or"):
        return "(" + f" {o} ".join(s(a) for a in t.args) + ")"
    return f"{o}({', '.join(s(a) for a in t.args)})"
