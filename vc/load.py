"""Mechanical loading of the real source: /repo/ta/*.py is parsed, rewritten and executed symbolically.

The rewriting (Xform) is the whole of the extraction.  It changes
  * float literals   0.5        -> __vc__.F('0.5')        (exact decimal instead of binary double)
  * true division    a / b      -> __vc__.div(a, b)       (exact when both are Python integers)
  * for loops        for x in e: body
        -> e is evaluated; if its length is not a constant, the body becomes a function of the iteration
           which the loop rule (run_loop) executes once on a generic iteration; otherwise the loop runs as is
  * comprehensions over one iterable without a filter -> __vc__.comp(...)
  * while i < e: body; i += 1 -> for i in range(i, e): body, when nothing else assigns i or the names of e
  * [x] * k -> __vc__.repeat(x, k)
  * list displays -> __vc__.mklist()/mklistof(...) (a list that the loop rule can extend)
  * a is b -> __vc__.is_(a, b) (refuses a variable that has no value yet; otherwise the same)
and nothing else; docstrings and annotations are kept but have no effect.  pandas, numpy and math
are replaced by modules implementing their assumed contracts (pd_stub.py, np_stub.py).
"""
import ast
import builtins
import os
import sys
import types

from .np_stub import np, mathmod
from .pd_stub import pd, Series, DataFrame, Idx
from .sym import *
from .sym import SHADOW
from .arr import *
from . import sym, lib
from .recs import subst_fs, canonical
from .heap import Heap, Loc, MISSING, CACHED

REPO = os.environ.get("VC_REPO", "/repo")


class _Undef:
    """value of a variable that has none on entry to an iteration"""

    def __getattr__(self, nm):
        raise Unsupported("a variable may be read before it is assigned in a loop")

    def _bad(self, *a, **k):
        raise Unsupported("a variable may be read before it is assigned in a loop")


for _n in ("add radd sub rsub mul rmul truediv rtruediv lt le gt ge eq ne getitem setitem call neg abs bool len iter "
           "and rand or ror invert float int index").split():
    setattr(_Undef, f"__{_n}__", _Undef._bad)
_Undef.__hash__ = object.__hash__
UNDEF = _Undef()


def _no(what):
    def f(self, *a, **k):
        lp = sym.CTX.loop if sym.CTX is not None else None
        if lp is not None and getattr(self, "_home", None) is not lp:
            raise Unsupported(f"list {what} inside a symbolic loop")
        if self._sl is not None:
            raise Unsupported(f"list {what} on a list of symbolic length")
        return getattr(list, what)(self, *a, **k)
    return f


class VList(list):
    """python list built by append; inside a symbolic loop it grows by one element per iteration"""
    _sl = None

    def _lp(self):
        """the loop that extends this list and is being analysed now"""
        lp = sym.CTX.loop if sym.CTX is not None else None
        return lp if lp is not None and id(self) in lp.lists else None

    def append(self, x):
        lp = sym.CTX.loop if sym.CTX is not None else None
        if lp is not None and getattr(self, "_home", None) is not lp:
            lp.append(self, x)
            return
        if self._sl is not None:
            raise Unsupported("append after a symbolic loop")
        list.append(self, x)

    def _symlen(self):
        lp = self._lp()
        if lp is None:
            return list.__len__(self)
        return mkint(add(I(list.__len__(self) + (1 if id(self) in lp.appends else 0)), sub(lp.iv, lp.lo)))

    def __getitem__(self, i):
        lp = self._lp()
        if lp is None:
            if isinstance(i, Sym):
                return mkarr(list(list.__iter__(self)))[i]
            return list.__getitem__(self, i)
        if not isint(i):
            raise Unsupported("slice of a list that the loop extends")
        return lp.list_read(self, toI(i))

    def __bool__(self):
        lp = self._lp()
        if lp is None:
            return list.__len__(self) > 0
        return sym.CTX.decide(lt(ZERO, toI(self._symlen())))

    def __iter__(self):
        if self._lp() is not None:
            raise Unsupported("iteration over a list that the loop extends")
        return list.__iter__(self)

    def __len__(self):
        if self._lp() is not None:
            raise Unsupported("concrete length of a list that the loop extends")
        return list.__len__(self)

    for _n in "extend insert pop remove clear sort reverse __delitem__ __iadd__ __imul__".split():
        locals()[_n] = _no(_n)

    def __setitem__(self, i, v):
        if self._lp() is not None or self._sl is not None or not isinstance(i, int):
            raise Unsupported("assignment to an element of a list of symbolic length")
        list.__setitem__(self, i, v)        # inside a loop that does not own the list: a location (heap.py)

    @property
    def _arr(self):
        if self._lp() is not None:
            raise Unsupported("whole-list use of a list that the loop extends")
        if self._sl is not None:
            return self._sl._arr
        return mkarr(list(list.__iter__(self)))


class _VL2(VList):
    """after a symbolic loop: behaves like SymList"""

    def _symlen(self):
        return mkint(self._sl.n)

    def __getitem__(self, i):
        return self._sl[i]

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list")

    def __len__(self):
        raise Unsupported("concrete length needed")

    def _pysum(self):
        return self._sl._pysum()

    n = property(lambda s: s._sl.n)
    kind = property(lambda s: s._sl.kind)
    fn = property(lambda s: s._sl.fn)


def mklist():
    l = VList()
    l._home = sym.CTX.loop if sym.CTX is not None else None
    return l


# ------------------------------------------------------------------ the loop rule
class Restart(BaseException):
    pass


class Slot:
    """one piece of loop state: a carried variable or the cell of a buffer written in each iteration"""

    def __init__(self, name):
        self.name = name
        self.kind = None          # 'I' 'R' 'B'
        self.flags = {}           # 'nan','pi','ni' -> True if that flag needs a component
        self.comps = None
        self.opt = False          # the variable is None in some iterations


class LoopState:
    def __init__(self, iv, lo, hi, parent):
        self.iv, self.lo, self.hi, self.parent = iv, lo, hi, parent
        self.writes = {}      # buf -> off
        self.wslots = {}      # buf -> Slot
        self.vslots = {}      # var -> Slot
        self.lists = {}       # id(list) -> (list, Slot)
        self.stores = {}
        self.appends = {}

    # value of slot s at iteration k
    def at(self, s, k):
        c = s.comps
        if s.kind == "B":
            return c["v"](k)
        v = c["v"](k)
        if s.kind == "I":
            return v
        return EF(v, *[c[f](k) if f in c else FALSE for f in ("nan", "pi", "ni")])

    def tracks(self, buf):
        return buf in self.writes

    def read(self, buf, e):
        off = self.writes[buf]
        pos = add(self.iv, off)
        st = self.stores.get(buf)
        if st is not None:
            d = sub(e, pos)
            if d is ZERO or (not isc(d) and ctx().decide(eq(e, pos))):
                return st
        k = sub(e, off)
        c = and_(le(self.lo, k), lt(k, self.iv))
        r = static_decide(c)
        if r is not None:
            c = B(r)
        init = buf.cur(e)
        if c is FALSE:
            return init
        w = self.at(self.wslots[buf], k)
        return ite(c, w, init) if buf.kind == "b" else e_ite(c, w, init)

    def write(self, buf, e, v):
        if buf.home is self:
            buf.set_direct(e, v)
            return
        off = sub(e, self.iv)
        if self.iv in off.fv:
            raise Unsupported("array write at a position that is not the loop index plus a constant")
        if buf in self.writes:
            if self.writes[buf] is not off:
                raise Unsupported("array written at two different offsets in one loop")
        else:
            self.writes[buf] = off
            s = self.wslots[buf] = Slot(f"buf{len(self.wslots)}")
            s.kind = "B" if buf.kind == "b" else "R"
            raise Restart()
        self.stores[buf] = v

    def snapshot(self, buf):
        if buf in self.writes:
            raise Unsupported("whole-array use of an array that the same loop writes")

    def append(self, lst, x):
        if id(lst) not in self.lists:
            s = Slot(f"list{len(self.lists)}")
            self.lists[id(lst)] = (lst, s)
            raise Restart()
        if id(lst) in self.appends:
            raise Unsupported("two appends to a list in one iteration")
        self.appends[id(lst)] = x

    def list_read(self, lst, e):
        """element e of a list that this loop extends"""
        nb, s = list.__len__(lst), self.lists[id(lst)][1]
        old = add(I(nb), sub(self.iv, self.lo))        # length at the start of this iteration
        x = self.appends.get(id(lst))
        length = add(old, ONE) if x is not None else old
        c = ctx()
        if isc(e):
            if e.data < 0:
                e = add(length, e)
        elif c.decide(lt(e, ZERO)):
            e = add(length, e)
        if c.decide(or_(lt(e, ZERO), le(length, e))):
            raise PathRaise(IndexError("list index out of range"))
        if x is not None and c.decide(eq(e, old)):
            return x
        kind = s.kind or "R"
        prev = self.at(s, add(sub(e, I(nb)), self.lo))
        f = e_ite if kind == "R" else ite
        for j in range(nb - 1, -1, -1):
            prev = f(eq(e, I(j)), to_kind(list.__getitem__(lst, j), kind), prev)
        return from_kind(prev, kind)

    def make_comps(self):
        rec = self.rec = Rec("loop", self.lo, self.hi)
        rec.iv = self.iv
        for s in list(self.vslots.values()) + list(self.wslots.values()) + [s for _, s in self.lists.values()]:
            s.comps = {"v": rec.comp(s.name, s.kind or "R", (s.name, "v"))}
            if s.opt:
                s.comps["none"] = rec.comp(s.name + ".none", "B", (s.name, "none"))
            for f in ("nan", "pi", "ni"):
                if s.flags.get(f):
                    s.comps[f] = rec.comp(s.name + "." + f, "B", (s.name, f))


def _items(it):
    """(lo, hi, item(i)) of a symbolic iterable, i the position term"""
    if isinstance(it, SymRange):
        if it.step == 1:
            return it.lo, it.hi, lambda i: mkint(i)
        return ZERO, it.count(), lambda i: mkint(it.item(i).t)
    if isinstance(it, SymEnum):
        lo, hi, f = _items(it.xs)
        if not (isinstance(it.start, int)):
            raise Unsupported("enumerate start")
        return lo, hi, lambda i: (mkint(add(sub(i, lo), I(it.start))), f(i))
    if isinstance(it, SymZip):
        ps = []
        for x in it.xs:
            ps.append(_items(x))
        los = [p[0] for p in ps]
        n = imin(*[sub(p[1], p[0]) for p in ps])
        base = los[0]
        return base, add(base, n), lambda i: tuple(p[2](add(sub(i, base), p[0])) for p in ps)
    if isinstance(it, (SymList, _VL2)):
        if getattr(it, "_buf", None) is not None:
            a = Arr(it._buf)
            return ZERO, it.n, lambda i: wrap(a.buf.read(i), a.kind)
        return ZERO, it.n, lambda i: it[mkint(i)]
    if isarr(it):
        a = arr_of(it)

        def item(i):
            return wrap(a.buf.read(add(a.off, i)), a.kind)
        return ZERO, a.n, item
    if isinstance(it, (list, tuple, range)):
        raise Unsupported("zip of a concrete and a symbolic iterable")
    raise Unsupported(f"iteration over {type(it).__name__}")


def symbolic(it):
    if isinstance(it, (SymEnum, SymZip, SymRange)):
        return True
    if isinstance(it, _VL2):
        return True
    f = getattr(type(it), "_symlen", None)
    return f is not None and not isc(toI(f(it)))


def concrete_iter(it):
    if hasattr(type(it), "_concrete_iter"):
        return it._concrete_iter()
    return it


def kind_scalar(x):
    if isinstance(x, (SB, bool)):
        return "B"
    if isinstance(x, (SI, int)) and not isinstance(x, SF):
        return "I"
    if isinstance(x, (SF, float, Fraction)):
        return "R"
    return None


def to_kind(x, k):
    if k == "B":
        return asB(x)
    if k == "I":
        return toI(x)
    return toE(x)


def from_kind(x, k):
    return SB(x) if k == "B" else SI(x) if k == "I" else SF(x)


def run_loop(it, body, get, put, names):
    lo, hi, item = _items(it)
    c = ctx()
    if c.loop is not None:
        raise Unsupported("nested symbolic loops")
    lex = list(names)
    names = list(names)
    dyn = []                  # locations changed by functions the body calls
    get0, put0 = get, put

    def get():
        d = get0()
        for l in dyn:
            d[l] = l.get()
            if d[l] is MISSING:
                d[l] = UNDEF
        return d

    def put(d):
        put0(d)
        for l in dyn:
            if l in d:
                l.set(MISSING if d[l] is UNDEF else d[l])
    init = get()
    heap = Heap([body])
    # locations that the body itself assigns
    cells = dict(zip(body.__code__.co_freevars, body.__closure__ or ()))
    own = set()
    for v in lex:
        o, _, at_ = v.partition(".")
        if not at_:
            if o in cells:
                own.add(("c", id(cells[o]), None))
        elif o in cells:
            try:
                x = cells[o].cell_contents
            except ValueError:
                continue
            own |= {("o", id(x), at_), ("k", id(x), at_), ("m", id(x), at_)}
    lb, _ = bounds(lo)
    iv = declare(fresh("i"), lb)
    st = LoopState(iv, lo, hi, None)
    oracle = c.oracle
    empty = static_decide(ge(lo, hi))
    if empty is True:
        return
    def slot(v):
        x = init.get(v, UNDEF)
        k = None if x is UNDEF else kind_scalar(x)
        if k or x is None:
            s = st.vslots[v] = Slot(str(v))
            s.kind = k
            s.opt = x is None
    for v in names:
        slot(v)
    for _round in range(20):
        st.make_comps()
        st.stores, st.appends = {}, {}

        def entry(v):
            s = st.vslots.get(v)
            if s is None:
                return UNDEF
            first = le(iv, lo)
            i0 = init[v]
            if s.opt:
                none = ite(first, B(i0 is None), s.comps["none"](sub(iv, ONE)))
                if s.kind is None or ctx().decide(none):
                    return None
                if i0 is None:
                    return from_kind(st.at(s, sub(iv, ONE)), s.kind)
            prev = st.at(s, sub(iv, ONE))
            i0 = to_kind(i0, s.kind)
            return from_kind((e_ite if s.kind == "R" else ite)(first, i0, prev), s.kind)

        def run():
            st.stores, st.appends = {}, {}
            heap.restore(own)
            put({v: entry(v) for v in names})
            body(item(iv))
            g = get()
            ch = heap.changes(own)
            if ch:
                for kind, owner, key in ch:
                    if kind == "s" or len(dyn) > 24:
                        raise Unsupported("the loop body changes a container that the loop rule does not track")
                    l = Loc(kind, owner, key)
                    x0 = heap.loc.get(l.id, (None, MISSING))[1]
                    if x0 is not MISSING and x0 is not None and kind_scalar(x0) is None:
                        raise Unsupported(f"the loop body changes {l}, which the loop rule does not track")
                    own.add(l.id)
                    dyn.append(l)
                    names.append(l)
                    init[l] = UNDEF if x0 is MISSING else x0
                    l.set(x0)
                    slot(l)
                raise Restart()
            return {v: g.get(v, UNDEF) for v in names}, dict(st.stores), dict(st.appends)
        try:
            tree = explore(run, hyps=[le(lo, iv), lt(iv, hi)], oracle=oracle, loop=st)
        except Restart:
            continue
        finally:
            heap.restore(own)
            put({v: init.get(v, UNDEF) for v in names})
        lv = list(leaves(tree))
        for pc, l in lv:
            if l.kind == "raise":
                if isinstance(l.val, Exception):
                    raise Unsupported(f"the loop body may raise {type(l.val).__name__}: {l.val}")
                raise Unsupported("the loop body may raise")
        again = False
        # kinds of carried variables
        for v, s in list(st.vslots.items()):
            xs = [l.val[0][v] for _, l in lv]
            if s.kind is None and any(x is not None and kind_scalar(x) is None for x in xs):
                del st.vslots[v]         # None at first, then an object: usable only after an assignment
                again = True
                continue
            for x in xs:
                if x is None:
                    if not s.opt:
                        s.opt = again = True
                    continue
                k = kind_scalar(x) if x is not UNDEF else None
                if k is None:
                    raise Unsupported(f"loop variable {v} changes its type")
                if s.kind is None:
                    s.kind, again = k, True
                elif k != s.kind:
                    if "B" in (k, s.kind):
                        if s.kind == "B" and k == "I" or s.kind == "I" and k == "B":
                            nk = "I"
                        else:
                            raise Unsupported(f"loop variable {v} changes its type")
                    else:
                        nk = "R"
                    if nk != s.kind:
                        s.kind = nk
                        again = True
        for lst, s in st.lists.values():
            ks = {kind_scalar(l.val[2].get(id(lst))) if id(lst) in l.val[2] else None for _, l in lv}
            ks |= {kind_scalar(x) for x in list.__iter__(lst)}
            if None in ks:
                raise Unsupported("a list is extended in some iterations only")
            k = "R" if "R" in ks else ("I" if "I" in ks else "B")
            if s.kind != k:
                s.kind = k
                again = True
        if again:
            continue
        # step terms
        vals, nones = {}, {}

        def mux(s, leafval):
            if s.kind in ("R", None):
                return fold_tree(tree, leafval, e_ite)
            return fold_tree(tree, leafval, ite)
        for v, s in st.vslots.items():
            if s.opt:
                nones[s] = fold_tree(tree, lambda l: B(l.val[0][v] is None), ite)
                zero = to_kind({"B": False, "I": 0}.get(s.kind, SF(num(0))), s.kind or "R")
                vals[s] = mux(s, lambda l: zero if l.val[0][v] is None else to_kind(l.val[0][v], s.kind))
            else:
                vals[s] = mux(s, lambda l: to_kind(l.val[0][v], s.kind))
        for b, s in st.wslots.items():
            pos = add(iv, st.writes[b])
            vals[s] = mux(s, lambda l: l.val[1][b] if b in l.val[1] else b.cur(pos))
        for lst, s in st.lists.values():
            vals[s] = mux(s, lambda l: to_kind(l.val[2][id(lst)], s.kind))
        for s, x in vals.items():
            if s.kind in ("R", None):
                for f, t in (("nan", x.nan), ("pi", x.pi), ("ni", x.ni)):
                    if t is not FALSE and not s.flags.get(f):
                        s.flags[f] = True
                        again = True
        if again:
            continue
        break
    else:
        raise Unsupported("loop state does not stabilise")
    for pc, l in lv:
        c.events.extend(l.events)
    steps = {}
    for s, x in vals.items():
        if s in nones:
            steps[s.comps["none"]] = nones[s]
        if s.kind in ("R", None):
            for f, t in (("v", x.v), ("nan", x.nan), ("pi", x.pi), ("ni", x.ni)):
                if f in s.comps:
                    steps[s.comps[f]] = t
        else:
            steps[s.comps["v"]] = x
    fin = canonical(st.rec, steps, iv, lo)

    def val(s, k):
        f = lambda key: fin[s.comps[key]](k)
        if s.kind == "R":
            return EF(f("v"), *[f(x) if x in s.comps else FALSE for x in ("nan", "pi", "ni")])
        return f("v")
    # state after the loop
    last = sub(hi, ONE)
    none = le(hi, lo)
    r = static_decide(none)
    if r is not None:
        none = B(r)
    out = {}
    for v in names:
        s = st.vslots.get(v)
        if s is None:
            out[v] = UNDEF if v not in init or v in init else init[v]
        else:
            i0 = init[v]
            if s.opt:
                nn = ite(none, B(i0 is None), fin[s.comps["none"]](last))
                d = True if s.kind is None else static_decide(nn)
                if d is None:
                    d = c.decide(nn)
                if d:
                    out[v] = None
                    continue
                if i0 is None:
                    out[v] = from_kind(val(s, last), s.kind)
                    continue
            i0 = to_kind(i0, s.kind)
            out[v] = from_kind((e_ite if s.kind == "R" else ite)(none, i0, val(s, last)), s.kind)
    put(out)
    for b, s in st.wslots.items():
        off = st.writes[b]
        if b.origin is not None:
            event("mutation", f"writes into the caller's {b.origin}")
        old = b.cur
        whole = add(hi, off) is b.n
        f = ite if b.kind == "b" else e_ite

        def at(u, old=old, off=off, s=s, whole=whole, f=f):
            k = sub(u, off)
            c1 = le(lo, k)
            c2 = TRUE if whole else lt(k, hi)
            cc = and_(c1, c2)
            return f(cc, val(s, k), old(u)) if cc is not TRUE else val(s, k)
        b.cur = Seq(b.n, at)
    for lst, s in st.lists.values():
        base = list(list.__iter__(lst))
        nb = len(base)
        kind = {"R": "f", "I": "i", "B": "b"}[s.kind]
        n = add(I(nb), imax(ZERO, sub(hi, lo)))

        def at(u, base=base, nb=nb, s=s, kind=kind):
            k = add(sub(u, I(nb)), lo)
            r = val(s, k)
            if kind == "i":
                r = EF(toR(r))
            for j in range(nb - 1, -1, -1):
                x = toE(base[j]) if kind != "b" else asB(base[j])
                r = (ite if kind == "b" else e_ite)(eq(u, I(j)), x, r)
            return r
        lst._sl = SymList(n, at, kind)
        lst.__class__ = _VL2


def comp(fn, it):
    """[fn(x) for x in it]"""
    if not symbolic(it):
        return VListOf([fn(x) for x in concrete_iter(it)])
    lo, hi, item = _items(it)
    lb, _ = bounds(lo)
    iv = declare(fresh("c"), lb)
    heap = Heap([fn])

    def run():
        r = fn(item(iv))
        if heap.changes():
            heap.restore()
            raise Unsupported("a comprehension with side effects")
        return r
    tree = explore(run, hyps=[le(lo, iv), lt(iv, hi)], oracle=ctx().oracle)
    ks = set()
    for pc, l in leaves(tree):
        if l.kind == "raise":
            raise Unsupported(f"exception in a comprehension: {l.val!r}")
        ks.add(kind_scalar(l.val))
        ctx().events.extend(l.events)
    if None in ks:
        raise Unsupported("comprehension of non-scalars")
    if ks == {"B"}:
        g = fold_tree(tree, lambda l: asB(l.val), ite)
        return SymList(imax(ZERO, sub(hi, lo)), lambda t: subst(g, {iv: add(lo, t)}), "b")
    g = fold_tree(tree, lambda l: toE(l.val), e_ite)
    return SymList(imax(ZERO, sub(hi, lo)), lambda t: g.subst({iv: add(lo, t)}), "f" if "R" in ks else "i")


def VListOf(xs):
    l = mklist()
    list.extend(l, xs)
    return l


def is_(a, b):
    """a is b"""
    if a is UNDEF or b is UNDEF:
        raise Unsupported("a variable may be read before it is assigned in a loop")
    return a is b


def isinstance_(x, t):
    if x is UNDEF:
        raise Unsupported("a variable may be read before it is assigned in a loop")
    return isinstance(x, t)


def next_(it, *d):
    if sym.CTX is not None and sym.CTX.loop is not None:
        raise Unsupported("next() inside a symbolic loop")
    return next(it, *d)


def F(s):
    return SF(num(Fraction(s)))


def div(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
        return SF(num(Fraction(a, b)))
    return a / b


def repeat(x, k):
    """[x] * k"""
    if not isint(k) or isc(toI(k)):
        return VListOf([x] * (k if not isint(k) else toI(k).data))
    kd = kind_scalar(x)
    if kd is None:
        raise Unsupported("list of non-numbers of symbolic length")
    n = imax(ZERO, toI(k))
    kind = {"R": "f", "I": "i", "B": "b"}[kd]
    v = asB(x) if kind == "b" else toE(x)
    return SymList(n, lambda t: v, kind)


def unsupported(msg):
    raise Unsupported(msg)


# ------------------------------------------------------------------ source transformation
class _Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names, self.attrs = [], []

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)) and n.id not in self.names:
            self.names.append(n.id)

    def visit_Attribute(self, n):
        if isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
            k = (n.value.id, n.attr)
            if k not in self.attrs:
                self.attrs.append(k)
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name not in self.names:
            self.names.append(n.name)

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def visit_ListComp(self, n):
        pass

    visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp


def assigned(nodes):
    v = _Assigned()
    for n in nodes:
        v.visit(n)
    return v.names, v.attrs


class _Body(ast.NodeTransformer):
    """statements of a loop body as a function body"""

    def visit_For(self, n):
        return n

    visit_While = visit_FunctionDef = visit_Lambda = visit_For

    def visit_Continue(self, n):
        return ast.copy_location(ast.Return(value=None), n)

    def visit_Break(self, n):
        return ast.copy_location(ast.parse('__vc__.unsupported("break out of a loop of symbolic length")').body[0], n)

    def visit_Return(self, n):
        return ast.copy_location(ast.parse('__vc__.unsupported("return from inside a loop")').body[0], n)


def _own(s):
    """nodes of a statement outside nested functions"""
    yield s
    for c in ast.iter_child_nodes(s):
        if not isinstance(c, (ast.FunctionDef, ast.Lambda)):
            yield from _own(c)


class Xform(ast.NodeTransformer):
    def __init__(self):
        self.k = 0
        self.infunc = 0

    def _call(self, f, *args):
        return ast.Call(func=ast.Attribute(value=ast.Name("__vc__", ast.Load()), attr=f, ctx=ast.Load()),
                        args=list(args), keywords=[])

    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return ast.copy_location(self._call("F", ast.Constant(repr(n.value))), n)
        return n

    def visit_JoinedStr(self, n):
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)):
            r = self._call("is_", n.left, n.comparators[0])
            if isinstance(n.ops[0], ast.IsNot):
                r = ast.UnaryOp(op=ast.Not(), operand=r)
            return ast.copy_location(r, n)
        return n

    def visit_BinOp(self, n):
        rep = isinstance(n.op, ast.Mult) and isinstance(n.left, ast.List) and len(n.left.elts) == 1
        if rep:
            n.left.elts[0] = self.visit(n.left.elts[0])
            n.right = self.visit(n.right)
            return ast.copy_location(self._call("repeat", n.left.elts[0], n.right), n)
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(self._call("div", n.left, n.right), n)
        return n

    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            if not n.elts:
                return ast.copy_location(self._call("mklist"), n)
            return ast.copy_location(self._call("mklistof", n), n)
        return n

    def _comp(self, n):
        self.generic_visit(n)
        if len(n.generators) == 1 and not n.generators[0].ifs and not n.generators[0].is_async:
            g = n.generators[0]
            self.k += 1
            if isinstance(g.target, ast.Name):
                fn = ast.Lambda(args=_args([g.target.id]), body=n.elt)
            elif isinstance(g.target, ast.Tuple) and all(isinstance(e, ast.Name) for e in g.target.elts):
                inner = ast.Lambda(args=_args([e.id for e in g.target.elts]), body=n.elt)
                fn = ast.Lambda(args=_args(["__x"]), body=ast.Call(
                    func=inner, args=[ast.Starred(ast.Name("__x", ast.Load()), ast.Load())], keywords=[]))
            else:
                return n
            return ast.copy_location(self._call("comp", fn, g.iter), n)
        return n

    visit_ListComp = visit_GeneratorExp = _comp

    def visit_FunctionDef(self, n):
        self.infunc += 1
        self.generic_visit(n)
        self.infunc -= 1
        return n

    def visit_While(self, n):
        """while i < e: ...; i += 1  ->  for i in range(i, e): ...   when nothing else assigns i or the names of e"""
        t, last = n.test, n.body[-1]
        plain = (ast.Name, ast.Attribute, ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Load, ast.Subscript)
        ok = self.infunc and not n.orelse and len(n.body) > 1 and isinstance(t, ast.Compare) and len(t.ops) == 1 \
            and isinstance(t.ops[0], (ast.Lt, ast.LtE)) and isinstance(t.left, ast.Name)
        if ok:
            i, e = t.left.id, t.comparators[0]
            ok = ast.unparse(last) in (f"{i} += 1", f"{i} = {i} + 1", f"{i} = 1 + {i}")
            for x in ast.walk(e):
                if isinstance(x, ast.Call):
                    ok = ok and isinstance(x.func, ast.Name) and x.func.id == "len"
                elif not isinstance(x, plain):
                    ok = False
            names, attrs = assigned(n.body[:-1])
            free = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}
            at = {(x.value.id, x.attr) for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name)}
            ok = ok and i not in names and i not in free and not (free & set(names)) and not (at & set(attrs))
            own = [x for s in n.body for x in _own(s)]
            ok = ok and not any(isinstance(x, (ast.Continue, ast.Break, ast.Return)) for x in own)
        if not ok:
            self.generic_visit(n)
            return n
        import copy
        self.k += 1
        st = f"__start{self.k}"
        stop = copy.deepcopy(e) if isinstance(t.ops[0], ast.Lt) else ast.BinOp(copy.deepcopy(e), ast.Add(), ast.Constant(1))
        rng = lambda f, s: ast.Call(func=ast.Name(f, ast.Load()), args=[ast.Name(st, ast.Load()), s], keywords=[])
        out = [ast.Assign(targets=[ast.Name(st, ast.Store())], value=ast.Name(i, ast.Load())),
               ast.For(target=ast.Name(i, ast.Store()), iter=rng("range", stop), body=n.body[:-1], orelse=[]),
               ast.Assign(targets=[ast.Name(i, ast.Store())], value=rng("max", copy.deepcopy(stop)))]
        for o in out:
            ast.copy_location(o, n)
            ast.fix_missing_locations(o)
        return [out[0]] + self.visit_For(out[1]) + [out[2]]

    def visit_For(self, n):
        names, attrs = assigned([n.target] + n.body)
        self.generic_visit(n)
        if not self.infunc or n.orelse:
            return n
        self.k += 1
        k = self.k
        import copy
        body = [_Body().visit(copy.deepcopy(s)) for s in n.body]
        nl = [ast.Nonlocal(names=list(names))] if names else []
        bind = ast.Assign(targets=[copy.deepcopy(n.target)], value=ast.Name("__it", ast.Load()))
        fbody = ast.FunctionDef(name=f"__body{k}", args=_args(["__it"]), body=nl + [bind] + body, decorator_list=[])
        # getter / setter of the variables the body assigns
        src = f"def __get{k}():\n    d = {{}}\n"
        for v in names:
            src += f"    try:\n        d[{v!r}] = {v}\n    except NameError:\n        pass\n"
        for o, a in attrs:
            src += f"    try:\n        d['{o}.{a}'] = {o}.{a}\n    except AttributeError:\n        pass\n"
        src += "    return d\n"
        src += f"def __put{k}(d):\n"
        if names:
            src += f"    nonlocal {', '.join(names)}\n"
        src += "    pass\n"
        for v in names:
            src += f"    if {v!r} in d:\n        {v} = d[{v!r}]\n"
        for o, a in attrs:
            src += f"    if '{o}.{a}' in d:\n        {o}.{a} = d['{o}.{a}']\n"
        allnames = names + [f"{o}.{a}" for o, a in attrs]
        tn = [x for x in ast.walk(n.target) if isinstance(x, ast.Name)]
        carried = [v for v in allnames if v not in {x.id for x in tn}]
        fake = ast.parse("def f():\n" + "\n".join("    " + l for l in src.splitlines())).body[0].body
        run = ast.parse(f"__vc__.run_loop(__iter{k}, __body{k}, __get{k}, __put{k}, {carried!r})").body[0]
        n.iter, it = ast.parse(f"__vc__.concrete_iter(__iter{k})").body[0].value, n.iter
        out = [ast.Assign(targets=[ast.Name(f"__iter{k}", ast.Store())], value=it),
               ast.If(test=ast.parse(f"__vc__.symbolic(__iter{k})").body[0].value,
                      body=[fbody] + fake + [run], orelse=[n])]
        for o in out:
            ast.copy_location(o, n)
            for x in ast.walk(o):
                if not hasattr(x, "lineno") and isinstance(x, (ast.stmt, ast.expr)):
                    x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = n.lineno, 0, n.lineno, 0
        return out


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[], kw_defaults=[], defaults=[])


ALLOWED = {"typing", "functools", "itertools", "collections", "abc", "__future__", "warnings", "dataclasses", "enum",
           "operator", "types", "typing_extensions", "numbers"}


class Loader:
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.vc = types.SimpleNamespace(F=F, div=div, run_loop=run_loop, comp=comp, mklist=mklist, mklistof=VListOf, is_=is_, symbolic=symbolic,
                                        concrete_iter=concrete_iter, unsupported=unsupported, repeat=repeat)
        sym.GUARD[:] = [self._frame]

    def _frame(self):
        """frame condition of every function: no state of a module or class is written, so that every execution starts in
        the state the modules have when loaded"""
        h = Heap((), list(self.mods.values()))

        def after():
            for kind, owner, key in h.changes():
                now = Heap._get(kind, owner, key) if kind != "s" else None
                if not isinstance(now, types.ModuleType):
                    what = f"module or class state is written: {getattr(owner, '__name__', type(owner).__name__)}.{key}"
                    raise (Unsupported if isinstance(owner, CACHED) else sym.StateWritten)(what)
        return after

    def _import(self, name, g=None, l=None, fromlist=(), level=0):
        if level:
            pkg = (g or {}).get("__package__") or "ta"
            base = ".".join(pkg.split(".")[:len(pkg.split(".")) - level + 1])
            name = f"{base}.{name}" if name else base
        top = name.split(".")[0]
        if top == "pandas":
            return pd
        if top == "numpy":
            return np
        if name == "math":
            return mathmod
        if top == "ta":
            m = self.module(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f) and os.path.exists(self._path(name + "." + f) or ""):
                        setattr(m, f, self.module(name + "." + f))
                return m
            return self.module("ta")
        if top in ALLOWED:
            return builtins.__import__(name, {}, {}, fromlist, 0)
        raise Unsupported(f"import of {name}")

    def _path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py")
        return p + ".py"

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        path = self._path(name)
        if not os.path.exists(path):
            raise ModuleNotFoundError(name)
        src = open(path).read()
        tree = Xform().visit(ast.parse(src, path))
        ast.fix_missing_locations(tree)
        code = compile(tree, path, "exec")
        m = types.ModuleType(name)
        b = dict(vars(builtins))
        b.update(SHADOW)
        b.update({"isinstance": isinstance_, "next": next_})
        b["__import__"] = self._import
        m.__dict__.update(__builtins__=b, __vc__=self.vc, __file__=path,
                          __package__=name if path.endswith("__init__.py") else name.rpartition(".")[0])
        if path.endswith("__init__.py"):
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        if "." in name:
            parent, _, leaf = name.rpartition(".")
            if parent in self.mods:
                setattr(self.mods[parent], leaf, m)
        exec(code, m.__dict__)
        return m
