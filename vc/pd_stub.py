"""Assumed contracts of the pandas operations the code under analysis may call."""
import types
from .np_stub import *
from .np_stub import _not, _missing, _NpT
from .arr import _bad, _unhashable
from . import lib, sym

pd = types.ModuleType("pandas")


class Label(Sym):
    """one label of the caller's index; nothing is known about it"""

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"label.{nm}")


class Idx:
    """index object: labels are opaque unless it is a default range"""

    def __init__(self, kind, n, ident=None):
        self.kind, self.n, self.ident = kind, n, ident

    def aligned(self, o):
        return self is o or (self.kind == o.kind and self.ident == o.ident and self.n is o.n)

    def _symlen(self):
        return mkint(self.n)

    def equals(self, o):
        return self.aligned(o)

    def copy(self, deep=False, name=None):
        return Idx(self.kind, self.n, self.ident)

    def min(self, *a, **k):
        return Label()

    max = min

    def __getitem__(self, i):
        if isint(i) and self.kind != "range":
            return Label()
        raise Unsupported("Index[...]")

    def __setattr__(self, nm, v):
        if nm in ("kind", "n", "ident", "caller"):
            object.__setattr__(self, nm, v)
        elif nm in ("name", "names"):
            if "caller" in self.__dict__:
                event("mutation", f"changes the {nm} of the caller's index")
        else:
            raise Unsupported(f"attribute {nm} set on an index")

    size = property(lambda s: mkint(s.n))
    name = None

    def __repr__(self):
        return f"Idx({self.kind},{self.ident})"

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"Index.{nm}")


def range_idx(n):
    return Idx("range", n)


class Series(Sym):
    def __init__(self, data=None, index=None, dtype=None, name=None, copy=None, **kw):
        if kw:
            raise Unsupported("Series keyword")
        if isinstance(index, (Series, Arr, list, SymList, range, SymRange)):
            index = Idx("custom", index.n if hasattr(index, "n") else toI(len_(index)), id(index))
        if isinstance(data, Idx) or isinstance(data, dict):
            raise Unsupported("Series of an index or dict")
        if isinstance(data, Series):
            self.a, self.index = data.a, data.index
            if index is not None:
                if not index.aligned(data.index):
                    event("label", "Series built from a Series with a different index (values are matched by label)")
                    same_len(index.n, data.index.n)
                self.index = index
            self.name = name if name is not None else data.name
            if copy:
                self.a = self.a.copy()
        else:
            self.name = name
            if data is None:
                data = float("nan")
            if isinstance(data, Arr):
                self.a = data.copy() if copy else data
            elif isinstance(data, (list, SymList, tuple, range)):
                self.a = mkarr(list(data) if isinstance(data, (tuple, range)) else data)
            elif isnum(data):
                if index is None:
                    raise Unsupported("Series of a scalar without index")
                self.a = full(mkint(index.n), data, dtype)
            else:
                raise Unsupported(f"Series of {type(data).__name__}")
            if index is None:
                index = range_idx(self.a.n)
            else:
                if ctx().decide(ne(index.n, self.a.n)):
                    raise PathRaise(ValueError("Length of values does not match length of index"))
            self.index = index
        if dtype is not None and kind_of(dtype) != self.a.kind:
            self.a = convert(self.a, kind_of(dtype))

    @staticmethod
    def of(a, index, name=None):
        s = object.__new__(Series)
        s.a, s.index, s.name = a, index, name
        return s

    _arr = property(lambda s: s.a)
    n = property(lambda s: s.a.n)
    kind = property(lambda s: s.a.kind)
    ndim = 1

    def seq(self):
        return self.a.seq()

    def nseq(self):
        return self.a.nseq()

    def bseq(self):
        return self.a.bseq()

    def _rewrap(self, a):
        return Series.of(a, self.index, self.name)

    def _check_align(self, o):
        if isinstance(o, Series) and not self.index.aligned(o.index):
            event("label", "operation between Series with different indexes (values are matched by label)")

    def _map(self, fn, kind=None):
        return Series.of(Arr.new(self.n, fn, kind or self.kind), self.index, self.name)

    # -- protocol
    def _symlen(self):
        return mkint(self.n)

    def __len__(self):
        return len(self.a)

    def _concrete_iter(self):
        return self.a._concrete_iter()

    def __iter__(self):
        return self._concrete_iter()

    def __bool__(self):
        raise PathRaise(ValueError("The truth value of a Series is ambiguous"))

    @property
    def values(self):
        return self.a

    array = values

    def to_numpy(self, dtype=None, copy=False, **kw):
        a = self.a if dtype is None else convert(self.a, kind_of(dtype))
        return a.copy() if copy else a

    def __array__(self, *a, **k):
        raise Unsupported("real numpy function on symbolic data")

    def tolist(self):
        return self.a.tolist()

    to_list = tolist
    size = property(lambda s: mkint(s.n))
    shape = property(lambda s: (mkint(s.n),))
    dtype = property(lambda s: DT[s.kind])
    empty = property(lambda s: SB(eq(s.n, ZERO)))

    def _scalar_label(self, i):
        if self.index.kind != "range":
            event("label", "a row is selected by index label, not by position")

    def __getitem__(self, i):
        if isinstance(i, slice):
            for b in (i.start, i.stop):
                if b is not None and self.index.kind not in ("range",):
                    event("label", "rows are sliced with [] (by label when the index holds floats)")
            return self._slice(i)
        if isint(i):
            self._scalar_label(i)
            return self.a[i]
        if isarr(i) and arr_of(i).kind == "b":
            return self._filter(i)
        if isinstance(i, Label):
            event("label", "a row is selected by index label, not by position")
        raise Unsupported(f"Series[{type(i).__name__}]")

    def _slice(self, i):
        a = self.a[i]
        if a.n is self.n and a.off is self.a.off:
            return Series.of(a, self.index, self.name)
        return Series.of(a, Idx("slice", a.n, (id(self.index), a.off.id)), self.name)

    def _filter(self, m):
        raise Unsupported("boolean selection of rows")

    def __setitem__(self, i, v):
        if isint(i):
            self._scalar_label(i)
            if self.index.kind != "range":
                pass
            self._store(lambda: self.a.__setitem__(i, v), v)
            return
        if isinstance(i, slice):
            for b in (i.start, i.stop):
                if b is not None and self.index.kind != "range":
                    event("label", "rows are assigned with [] slices")
        if isinstance(v, Series):
            self._check_align(v)
        if isinstance(i, Series):
            self._check_align(i)
        self._store(lambda: self.a.__setitem__(i, v), v)

    def _store(self, f, v):
        k = arr_of(v).kind if isarr(v) else skind(v)
        if self.kind == "i" and k == "f":
            # pandas upcasts the whole Series instead of truncating
            if self.a.buf.origin is not None:
                event("mutation", f"writes into the caller's {self.a.buf.origin}")
            if sym.CTX.loop is not None:
                # the first float stored turns the Series into floats: same values from here on
                self.a.buf.kind = "f"
            else:
                self.a = convert(self.a, "f")
        f()

    @property
    def iloc(self):
        return _ILoc(self)

    iat = iloc

    @property
    def loc(self):
        return _Loc(self)

    at = loc

    # -- operators
    def __neg__(self):
        return unop(e_neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop(e_abs, self)

    abs = __abs__

    def __invert__(self):
        s = self.seq()
        if self.kind != "b":
            raise Unsupported("~ on numbers")
        return self._map(lambda t: not_(s(t)), "b")

    def _inplace(self, o, op):
        if isinstance(o, Series):
            self._check_align(o)
        r = binop(op, self, o)
        if r.kind == self.kind:
            self.a[slice(None)] = r.a
        else:
            self.a = r.a
        return self

    # -- elementwise
    def where(self, cond, other=float("nan"), inplace=False, axis=None):
        if callable(cond) and not isarr(cond):
            cond = cond(self)
        if callable(other) and not isarr(other):
            other = other(self)
        if isinstance(cond, Series):
            self._check_align(cond)
        if isinstance(other, Series):
            self._check_align(other)
        c = arr_of(cond).bseq()
        same_len(self.n, arr_of(cond).n)
        s = self.nseq()
        o = arr_of(other).nseq() if isarr(other) else (lambda t, v=toE(other): v)
        k = arr_of(other).kind if isarr(other) else skind(other)
        if self.kind == "b":
            raise Unsupported("where on booleans")
        r = self._map(lambda t: e_ite(c(t), s(t), o(t)), "f" if "f" in (self.kind, k) else "i")
        return self._ip(r, inplace)

    def mask(self, cond, other=float("nan"), inplace=False, axis=None):
        if callable(cond) and not isarr(cond):
            cond = cond(self)
        return self.where(_not(cond), other, inplace)

    def _ip(self, r, inplace):
        if not inplace:
            return r
        if r.kind == self.kind:
            self.a[slice(None)] = r.a
        else:
            self.a = r.a
        return None

    def fillna(self, value=None, method=None, axis=None, inplace=False, limit=None, downcast=None):
        if limit is not None:
            raise Unsupported("fillna limit")
        if method is not None:
            r = self.ffill() if method in ("ffill", "pad") else self.bfill() if method in ("bfill", "backfill") else _bad("fillna method")
            return self._ip(r, inplace)
        if isinstance(value, Series):
            self._check_align(value)
        s = self.nseq()
        if self.kind == "b":
            return self._ip(self.copy(), inplace)
        v = arr_of(value).nseq() if isarr(value) else toE(value)
        return self._ip(self._map(lib.fillna(s, v)), inplace)

    def ffill(self, axis=None, inplace=False, limit=None, **kw):
        if kw or isinstance(limit, (bool, float, Sym)):
            raise Unsupported("ffill limit")
        if limit is not None and limit <= 0:
            raise PathRaise(ValueError("Limit must be greater than 0"))
        return self._ip(self._map(lib.ffill(self.nseq(), limit)), inplace)

    pad = ffill

    def bfill(self, axis=None, inplace=False, limit=None, **kw):
        if limit is not None or kw:
            raise Unsupported("bfill limit")
        return self._ip(self._map(lib.bfill(self.nseq())), inplace)

    backfill = bfill

    def replace(self, to_replace=None, value=None, inplace=False, **kw):
        if kw:
            raise Unsupported("replace keywords")
        if isinstance(to_replace, dict):
            items = list(to_replace.items())
        elif isinstance(to_replace, (list, tuple)):
            items = [(a, b) for a, b in zip(to_replace, value)] if isinstance(value, (list, tuple)) else [(a, value) for a in to_replace]
        else:
            items = [(to_replace, value)]
        s = self.nseq()

        def at(t):
            e = s(t)
            r = e
            for a, b in items:
                x = toE(a)
                hit = e.nan if x.nan is TRUE else e_eq(e, x)
                r = e_ite(hit, toE(b), r)
            return r
        k = "f" if self.kind == "i" and any(skind(b) == "f" for _, b in items) else self.kind
        if self.kind == "i" and all(toE(a).inf is TRUE or toE(a).nan is TRUE for a, _ in items):
            k = "i"
        return self._ip(self._map(at, k), inplace)

    def isnull(self):
        s = self.nseq()
        return self._map(lambda t: s(t).nan, "b")

    isna = isnull

    def notnull(self):
        s = self.nseq()
        return self._map(lambda t: not_(s(t).nan), "b")

    notna = notnull

    def astype(self, t, copy=True):
        return convert(self, kind_of(t))

    def clip(self, lower=None, upper=None, axis=None, inplace=False):
        r = self
        s = self.nseq()
        l = None if lower is None else (arr_of(lower).nseq() if isarr(lower) else (lambda t, v=toE(lower): v))
        u = None if upper is None else (arr_of(upper).nseq() if isarr(upper) else (lambda t, v=toE(upper): v))

        def at(t):
            e = s(t)
            if l is not None:
                e = e_ite(e_lt(e, l(t)), l(t), e)
            if u is not None:
                e = e_ite(e_lt(u(t), e), u(t), e)
            return e
        return self._map(at)

    def round(self, d=0):
        raise Unsupported("round")

    def apply(self, f, *a, **k):
        return self._elementwise(f)

    map = apply

    def _elementwise(self, f):
        s = self.seq()
        kind = self.kind
        tv = TV
        if f is abs or f is abs_:
            return abs(self)

        def at_gen():
            tree = explore(lambda: f(wrap(s(tv), kind)), hyps=[le(ZERO, tv), lt(tv, self.n)], oracle=sym.CTX.oracle)
            for pc, leaf in leaves(tree):
                if leaf.kind != "return":
                    raise Unsupported("exception inside an elementwise function")
                for e in leaf.events:
                    sym.CTX.events.append(e)
            isb = all(isinstance(l.val, (SB, bool)) for _, l in leaves(tree))
            if isb:
                return fold_tree(tree, lambda l: asB(l.val), lambda c, x, y: ite(c, x, y)), "b"
            return fold_tree(tree, lambda l: toE(l.val), lambda c, x, y: e_ite(c, x, y)), "f"
        g, k = at_gen()
        return self._map(lambda t: g.subst({tv: t}) if k == "f" else subst(g, {tv: t}), k)

    def shift(self, periods=1, freq=None, axis=0, fill_value=None):
        if freq is not None:
            raise Unsupported("shift by frequency")
        k = toI(periods)
        if self.kind == "b":
            s = self.seq()
            if fill_value is None:
                raise Unsupported("shift of booleans without fill")
            fv = asB(fill_value)
            return self._map(lambda t: ite(or_(lt(sub_(t, k), ZERO), ge_(sub_(t, k), self.n)), fv, s(sub_(t, k))), "b")
        fill = NAN if fill_value is None else toE(fill_value)
        kind = "f" if fill_value is None or skind(fill_value) == "f" else self.kind
        return self._map(lib.shift(self.nseq(), k, fill), kind)

    def diff(self, periods=1):
        return self - self.shift(periods)

    def pct_change(self, periods=1, fill_method="pad", limit=None, freq=None, **kw):
        if limit is not None or freq is not None:
            raise Unsupported("pct_change arguments")
        s = self
        if fill_method is not None:
            s = s.ffill()
        return s / s.shift(periods) - 1

    def cumsum(self, axis=None, skipna=True):
        if skipna is not True:
            raise Unsupported("cumsum skipna")
        return self._map(lib.cumsum(self.nseq()), "f" if self.kind == "f" else "i")

    def cumprod(self, axis=None, skipna=True):
        return self._map(lib.cumprod(self.nseq()))

    def cummax(self, axis=None, skipna=True):
        return self._map(lib.cumext("max", self.nseq()))

    def cummin(self, axis=None, skipna=True):
        return self._map(lib.cumext("min", self.nseq()))

    def rolling(self, window=None, min_periods=None, center=False, win_type=None, on=None, axis=0, closed=None, **kw):
        if win_type or on or closed or kw:
            raise Unsupported("rolling options")
        return Rolling(self, window, min_periods, center=bool(center))

    def expanding(self, min_periods=1, **kw):
        return Rolling(self, None, min_periods, expanding=True)

    def ewm(self, com=None, span=None, halflife=None, alpha=None, min_periods=0, adjust=True, ignore_na=False, **kw):
        if kw:
            raise Unsupported("ewm options")
        return EWM(self, com, span, halflife, alpha, min_periods, adjust, ignore_na)

    # -- structure
    def copy(self, deep=True):
        if deep:
            return Series.of(self.a.copy(), self.index, self.name)
        return Series.of(self.a, self.index, self.name)

    def rename(self, name=None, **kw):
        if kw or callable(name):
            raise Unsupported("rename")
        return Series.of(self.a.copy(), self.index, name)

    def reset_index(self, level=None, drop=False, name=None, inplace=False):
        if not drop:
            raise Unsupported("reset_index without drop")
        return Series.of(self.a.copy(), range_idx(self.n), self.name)

    def set_axis(self, labels, axis=0, **kw):
        if not isinstance(labels, Idx):
            raise Unsupported("set_axis")
        return Series.of(self.a.copy(), labels, self.name)

    def reindex(self, index=None, **kw):
        if isinstance(index, Idx) and index.aligned(self.index):
            return self.copy()
        event("label", "reindex by label")
        raise Unsupported("reindex")

    def dropna(self, axis=0, inplace=False, **kw):
        s = self.nseq()
        if s.gen.nan is FALSE:
            return self.copy()
        e = lib._prefix_start(s.gen.nan, TV)
        if e is None:
            # all missing values form a prefix?  prove nan(t) -> nan(t-1) and find its length
            raise Unsupported("dropna of values missing in the middle")
        lo = imin(imax(ZERO, e), self.n)
        a = self.a
        return Series.of(Arr(Buf(a.seq(), a.kind), lo, lib.sub(self.n, lo)), Idx("slice", lib.sub(self.n, lo), (id(self.index), lo.id)), self.name)

    def to_frame(self, name=None):
        return DataFrame({name or self.name: self})

    def head(self, k=5):
        return self._slice(slice(None, k))

    def tail(self, k=5):
        st = imax(ZERO, lib.sub(self.n, toI(k)))
        return self._slice(slice(mkint(st), None))

    def take(self, idx):
        raise Unsupported("take")

    def squeeze(self):
        return self

    # -- reductions (NaN skipped)
    def sum(self, axis=None, skipna=True, **kw):
        if self.kind == "i":
            return intsum(self.a)
        return SF(red_sum(self.nseq(), skipna))

    def mean(self, axis=None, skipna=True, **kw):
        s = self.nseq()
        if not skipna:
            return self.a.mean()
        v, c = red_sum(s, True), red_count(s)
        e = EF(mul_(v.v, inv(c)), or_(v.nan, lt(c, RONE)), v.pi, v.ni)
        return SF(e)

    def max(self, axis=None, skipna=True, **kw):
        return SF(red_ext("max", self.nseq(), True))

    def min(self, axis=None, skipna=True, **kw):
        return SF(red_ext("min", self.nseq(), True))

    def std(self, axis=None, skipna=True, ddof=1, **kw):
        return SF(red_std(self.nseq(), ddof, True))

    def var(self, axis=None, skipna=True, ddof=1, **kw):
        return SF(red_var(self.nseq(), ddof, True))

    def count(self):
        return SIF_(red_count(self.nseq()))

    def any(self, **kw):
        return self.a.any()

    def all(self, **kw):
        return self.a.all()

    def _pyminmax(self, less):
        return SF(red_ext("min" if less else "max", self.nseq(), False))

    def _pysum(self):
        return self.a.sum()

    def _pyany(self):
        return self.a.any()

    def first_valid_index(self):
        raise Unsupported("first_valid_index")

    def combine_first(self, o):
        return self.fillna(o)

    def between(self, left, right, inclusive="both"):
        lo = binop("ge" if inclusive in ("both", "left") else "gt", self, left)
        return binop("and", lo, binop("le" if inclusive in ("both", "right") else "lt", self, right))

    def combine(self, *a, **k):
        raise Unsupported("combine")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"Series.{nm}")


from .terms import sub as sub_, ge as ge_, mul as mul_


def SIF_(v):
    t = to_int_term(v)
    if t is not None:
        return SI(t)
    r = SF(EF(v))
    r.__class__ = SIF
    return r


def _flex(op, rev=False):
    def f(self, o, fill_value=None, axis=None, level=None):
        if fill_value is not None:
            if not isarr(o):
                raise Unsupported("fill_value with a scalar operand")
            a, b = self.nseq(), arr_of(o).nseq()
            fv = toE(fill_value)
            both = lambda t: and_(a(t).nan, b(t).nan)
            u = self._rewrap(Arr.new(self.n, lambda t: e_ite(and_(a(t).nan, not_(b(t).nan)), fv, a(t)), "f"))
            v = self._rewrap(Arr.new(self.n, lambda t: e_ite(and_(b(t).nan, not_(a(t).nan)), fv, b(t)), "f"))
            if isinstance(o, Series):
                self._check_align(o)
            r = binop(op, v, u) if rev else binop(op, u, v)
            return r
        return binop(op, o, self) if rev else binop(op, self, o)
    return f


for _nm, _op in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("div", "div"), ("truediv", "div"),
                 ("subtract", "sub"), ("multiply", "mul"), ("divide", "div"), ("pow", "pow")):
    setattr(Series, _nm, _flex(_op))
    setattr(Series, "r" + _nm, _flex(_op, True))
for _op in CMP:
    setattr(Series, _op, _flex(_op))
for _nm, _op in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("pow", "pow"), ("and", "and"),
                 ("or", "or"), ("xor", "xor"), ("floordiv", "floordiv")):
    setattr(Series, f"__{_nm}__", lambda s, o, _op=_op: binop(_op, s, o))
    setattr(Series, f"__r{_nm}__", lambda s, o, _op=_op: binop(_op, o, s))
    if _nm in ("add", "sub", "mul", "truediv", "pow", "and", "or"):
        setattr(Series, f"__i{_nm}__", lambda s, o, _op=_op: s._inplace(o, _op))
for _op in CMP:
    setattr(Series, f"__{_op}__", lambda s, o, _op=_op: binop(_op, s, o))
Series.__hash__ = _unhashable


class _ILoc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        if isinstance(i, slice):
            return self.s._slice(i)
        if isint(i):
            return self.s.a[i]
        if isinstance(i, (SF, float)):
            raise PathRaise(TypeError("Cannot index by location index with a non-integer key"))
        raise Unsupported("iloc")

    def __setitem__(self, i, v):
        if isinstance(v, Series):
            self.s._check_align(v)
        self.s._store(lambda: self.s.a.__setitem__(i, v), v)


class _Loc:
    def __init__(self, s):
        self.s = s

    def __getitem__(self, i):
        if isarr(i) and arr_of(i).kind == "b":
            return self.s._filter(i)
        event("label", "rows are selected by index label")
        if isint(i):
            return self.s.a[i]
        raise Unsupported("loc")

    def __setitem__(self, i, v):
        if isarr(i) and arr_of(i).kind == "b":
            self.s[i] = v
            return
        if isint(i):
            self.s._scalar_label(i)
            self.s._store(lambda: self.s.a.__setitem__(i, v), v)
            return
        event("label", "rows are assigned by index label")
        raise Unsupported("loc assignment")


def _fixed(*names):
    """attributes the code under analysis may set; others would be state hidden in the caller's object"""
    def f(self, nm, v):
        if nm not in names:
            raise Unsupported(f"attribute {nm} set on a {type(self).__name__}")
        if "caller" in self.__dict__ and nm in self.__dict__:
            event("mutation", f"changes the {nm} of the caller's {self.caller}")
        object.__setattr__(self, nm, v)
    return f


Series.__setattr__ = _fixed("a", "index", "name", "caller")


class Rolling:
    def __init__(self, s, window, minp, expanding=False, center=False):
        self.s = s
        n = s.n
        self.center = center
        if expanding:
            self.w = n
        else:
            if not isint(window):
                raise Unsupported("non-integer window")
            self.w = toI(window)
        if minp is not None and not isint(minp):
            raise PathRaise(ValueError("min_periods must be an integer"))
        self.m = self.w if minp is None else toI(minp)
        if minp is not None:
            bad = lt(self.m, ZERO)
            if bad is not FALSE and ctx().decide(bad):
                raise PathRaise(ValueError("min_periods must be >= 0"))
        if not expanding and minp is not None:
            bad = gt(self.m, self.w)
            if bad is not FALSE and ctx().decide(bad):
                raise PathRaise(ValueError("min_periods must be <= window"))
        bad = lt(self.w, ZERO)
        if bad is not FALSE and ctx().decide(bad):
            raise PathRaise(ValueError("window must be an integer 0 or greater"))

    def _q(self):
        """the rows, followed by missing ones for centred windows"""
        q = self.s.nseq()
        if not self.center:
            return q
        self.off = toI((mkint(self.w) - 1) // 2)
        return Seq(add(q.n, self.off), lambda t: e_ite(lt(t, q.n), q(t), NAN))

    def _r(self, q):
        if self.center:
            r = q
            q = Seq(self.s.n, lambda t: r(add(t, self.off)))
        return self.s._map(q, "f")

    def sum(self, **kw):
        return self._r(lib.roll_sum(self._q(), self.w, self.m))

    def mean(self, **kw):
        return self._r(lib.roll_mean(self._q(), self.w, self.m))

    def max(self, **kw):
        return self._r(lib.roll_max(self._q(), self.w, self.m))

    def min(self, **kw):
        return self._r(lib.roll_min(self._q(), self.w, self.m))

    def std(self, ddof=1, **kw):
        return self._r(lib.roll_std(self._q(), self.w, self.m, ddof))

    def var(self, ddof=1, **kw):
        return self._r(lib.roll_var(self._q(), self.w, self.m, ddof))

    def count(self, **kw):
        return self._r(lib.roll_count(self._q(), self.w, self.m))

    def apply(self, func, raw=False, engine=None, engine_kwargs=None, args=None, kwargs=None):
        s0 = self.s.nseq()
        if self.center:
            raise Unsupported("centred window function")
        # missing values reach the function; infinities are turned into missing values first
        s = Seq(s0.n, lambda t: EF(s0(t).v, or_(s0(t).nan, s0(t).inf)))
        t = TV
        lo = lib._lo(t, self.w)
        cnt = lib.count(s, lo, t)
        ok = ge(cnt, toR(self.m))
        L = sub_(add(t, ONE), lo)
        raw = bool(raw)

        def run():
            w = Arr.new(L, lambda k: s(add(lo, k)), "f")
            x = w if raw else Series.of(w, Idx("slice", L, ("win", id(self.s.index))))
            return func(x, *(args or ()), **(kwargs or {}))
        hyps = [le(ZERO, t), lt(t, s.n), ok]
        if self.m is self.w:
            hyps.append(eq(L, self.w))
            # complete windows: as many rows as the window (count <= rows <= window)
        if all_static(s.gen.nan, FALSE):
            pass
        tree = explore(run, hyps=hyps, oracle=sym.CTX.oracle)
        for pc, leaf in leaves(tree):
            if leaf.kind == "raise":
                raise leaf.val if isinstance(leaf.val, Exception) else Unsupported("exception in window function")
            sym.CTX.events.extend(leaf.events)
        g = fold_tree(tree, lambda l: toE(l.val), lambda c, x, y: e_ite(c, x, y))
        g = EF(g.v, or_(not_(ok), g.nan), and_(ok, g.pi), and_(ok, g.ni))
        return self._r(lambda u: g.subst({t: u}))

    agg = aggregate = lambda self, f, *a, **k: getattr(self, f)() if isinstance(f, str) else _bad("agg")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"Rolling.{nm}")


def all_static(a, b):
    return a is b


class EWM:
    def __init__(self, s, com, span, halflife, alpha, minp, adjust, ignore_na):
        self.s = s
        given = [x for x in (com, span, halflife, alpha) if x is not None]
        if len(given) != 1:
            raise PathRaise(ValueError("com, span, halflife, and alpha are mutually exclusive"))
        if halflife is not None:
            raise Unsupported("halflife")
        if span is not None:
            e = toE(span)
            bad = not_(e_le(num(1), e))
            self.alpha = e_div(num(2), e_add(e, num(1)))
        elif com is not None:
            e = toE(com)
            bad = not_(e_le(num(0), e))
            self.alpha = e_div(num(1), e_add(e, num(1)))
        else:
            e = toE(alpha)
            bad = or_(not_(e_lt(num(0), e)), not_(e_le(e, num(1))))
            self.alpha = e
        if bad is not FALSE and ctx().decide(bad):
            raise PathRaise(ValueError("invalid smoothing parameter"))
        if self.alpha.nan is not FALSE or self.alpha.inf is not FALSE:
            # excluded by the check above
            if static_decide(or_(self.alpha.nan, self.alpha.inf)) is not False:
                raise Unsupported("smoothing parameter may be undefined")
        self.alpha = self.alpha.v
        self.m = imax(ONE, toI(minp))
        self.adjust, self.ignore_na = bool(adjust), bool(ignore_na)

    def mean(self, **kw):
        return self.s._map(lib.ewm(self.s.nseq(), self.alpha, self.m, self.adjust, self.ignore_na), "f")

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"ExponentialMovingWindow.{nm}")


class DataFrame(Sym):
    more = False
    _frame = True

    def __init__(self, data=None, index=None, columns=None, copy=None, dtype=None):
        self.cols = {}
        self.index = index
        if data is None:
            data = {}
        if isinstance(data, DataFrame):
            data = dict(data.cols)
        if not isinstance(data, dict):
            raise Unsupported("DataFrame of " + type(data).__name__)
        for k, v in data.items():
            if isinstance(v, Series):
                if self.index is None:
                    self.index = v.index
                elif not self.index.aligned(v.index):
                    event("label", "DataFrame built from Series with different indexes")
                self.cols[k] = Series.of(v.a.copy(), self.index, k)
            elif isarr(v) or isinstance(v, list):
                a = arr_of(v) if isarr(v) else mkarr(v)
                if self.index is None:
                    ser = [x for x in data.values() if isinstance(x, Series)]
                    self.index = ser[0].index if ser else range_idx(a.n)
                self.cols[k] = Series.of(a.copy(), self.index, k)
            elif isnum(v):
                if self.index is None:
                    raise Unsupported("DataFrame of scalars")
                self.cols[k] = Series.of(full(mkint(self.index.n), v), self.index, k)
            else:
                raise Unsupported("DataFrame column")

    @property
    def columns(self):
        return Cols(self.cols, self.more)

    @property
    def n(self):
        return self.index.n

    def _symlen(self):
        return mkint(self.n)

    shape = property(lambda s: (mkint(s.n), len(s.cols)))
    empty = property(lambda s: SB(eq(s.n, ZERO)))

    def __getitem__(self, k):
        if isinstance(k, str):
            if k not in self.cols:
                raise PathRaise(KeyError(k))
            return self.cols[k]
        if isinstance(k, list):
            d = DataFrame({c: self[c] for c in k})
            d.index = self.index
            return d
        if isinstance(k, DataFrame):
            # boolean frame: keep where True, missing elsewhere
            d = DataFrame()
            d.index = self.index
            for c, v in self.cols.items():
                d.cols[c] = v.where(k.cols[c]) if c in k.cols else v._map(lambda t: NAN, "f")
            return d
        if isarr(k) and arr_of(k).kind == "b":
            return self._keep(arr_of(k).seq())
        raise Unsupported("DataFrame selection")

    def _keep(self, m):
        r = Rows(self, m)
        return r

    def __setitem__(self, k, v):
        if getattr(self, "_input", False) or getattr(self, "_share", None) is not None:
            pass
        if isinstance(k, str):
            if isinstance(v, Series):
                if not self.index.aligned(v.index):
                    event("label", f"column {k} is assigned from a Series with a different index (matched by label)")
                self.cols[k] = Series.of(v.a.copy(), self.index, k)
            elif isarr(v):
                self.cols[k] = Series.of(arr_of(v).copy(), self.index, k)
            elif isnum(v):
                self.cols[k] = Series.of(full(mkint(self.n), v), self.index, k)
            else:
                raise Unsupported("column assignment")
            self._touch(k)
            return
        if isinstance(k, list) and isinstance(v, DataFrame):
            if list(v.cols) != list(k) and set(v.cols) != set(k):
                raise Unsupported("column assignment")
            for c, w in zip(k, v.cols.values()):
                self[c] = w
            return
        raise Unsupported("DataFrame assignment")

    def _touch(self, k):
        if getattr(self, "_log", None) is not None:
            self._log.append(k)

    def copy(self, deep=True):
        d = DataFrame()
        d.index = self.index
        d.cols = {k: v.copy(deep) for k, v in self.cols.items()}
        for a in ("_objcols", "more"):
            if hasattr(self, a):
                setattr(d, a, getattr(self, a))
        return d

    def assign(self, **kw):
        d = self.copy()
        for k, v in kw.items():
            d[k] = v(d) if callable(v) and not isinstance(v, Sym) else v
        return d

    def items(self):
        return self.cols.items()

    def __iter__(self):
        return iter(self.cols)

    def __contains__(self, k):
        return Cols(self.cols, self.more).__contains__(k)

    def keys(self):
        return Cols(self.cols, self.more)

    def select_dtypes(self, include=None, exclude=None):
        obj = getattr(self, "_objcols", ())
        incs = include if isinstance(include, (list, tuple)) else [include]
        kinds = ""
        for i in incs:
            nm = i if isinstance(i, str) else i.__name__ if isinstance(i, _NpT) else None
            if nm == "number":
                kinds += "fi"
            elif nm in ("floating", "integer") and not isinstance(i, str):
                kinds += nm[0]
            else:       # one storage format only
                raise Unsupported(f"select_dtypes of {nm}")
        if exclude is not None:
            raise Unsupported("select_dtypes")
        d = DataFrame()
        d.index = self.index
        d.cols = {k: v for k, v in self.cols.items() if k not in obj and v.a.kind in kinds}
        return d

    def _cmp(self, o, op):
        d = DataFrame()
        d.index = self.index
        for k, v in self.cols.items():
            d.cols[k] = binop(op, v, o.cols[k] if isinstance(o, DataFrame) else o)
        return d

    def _red(self, f, axis, skipna, kind="f"):
        if axis not in (1, "columns"):
            raise Unsupported("column-wise reduction of a frame")
        cs = list(self.cols.values())
        ss = [c.nseq() for c in cs]

        def at(t):
            r = ss[0](t)
            for s in ss[1:]:
                r = f(r, s(t))
            return r
        return Series.of(Arr.new(self.n, at, "f"), self.index)

    def max(self, axis=0, skipna=True, **kw):
        return self._red(max_skip if skipna else max_np, axis, skipna)

    def min(self, axis=0, skipna=True, **kw):
        return self._red(min_skip if skipna else min_np, axis, skipna)

    def sum(self, axis=0, skipna=True, min_count=0, **kw):
        if min_count:
            raise Unsupported("min_count")
        z = lambda e: e_ite(e.nan, num(0), e)
        if not skipna:
            return self._red(e_add, axis, skipna)
        d = DataFrame()
        d.index = self.index
        d.cols = {k: v.fillna(0) for k, v in self.cols.items()}
        return d._red(e_add, axis, skipna)

    def mean(self, axis=0, skipna=True, **kw):
        if skipna and any(v.nseq().gen.nan is not FALSE for v in self.cols.values()):
            if axis not in (1, "columns"):
                raise Unsupported("column-wise reduction of a frame")
            c = None
            for v in self.cols.values():
                b = v.notnull().astype(float)
                c = b if c is None else c + b
            return self.sum(axis=1) / c
        return self._red(e_add, axis, skipna) / len(self.cols)

    def notnull(self):
        d = DataFrame()
        d.index = self.index
        d.cols = {k: v.notnull() for k, v in self.cols.items()}
        return d

    notna = notnull

    def isnull(self):
        d = DataFrame()
        d.index = self.index
        d.cols = {k: v.isnull() for k, v in self.cols.items()}
        return d

    isna = isnull

    def _boolred(self, axis, f):
        if axis not in (1, "columns"):
            raise Unsupported("column-wise any/all")
        ss = [c.bseq() for c in self.cols.values()]
        return Series.of(Arr.new(self.n, lambda t: f(*[s(t) for s in ss]), "b"), self.index)

    def any(self, axis=0, **kw):
        return self._boolred(axis, or_)

    def all(self, axis=0, **kw):
        return self._boolred(axis, and_)

    def dropna(self, axis=0, how=None, subset=None, inplace=False, **kw):
        if axis not in (0, "index") or how not in (None, "any") or kw or inplace:
            raise Unsupported("dropna options")
        ss = [v.nseq() for k, v in self.cols.items() if v.kind != "b" and (subset is None or k in subset)]
        return self._keep(Seq(self.n, lambda t: and_(*[not_(s(t).nan) for s in ss])))

    def drop(self, labels=None, axis=0, columns=None, inplace=False, **kw):
        cs = columns if columns is not None else labels if axis in (1, "columns") else _bad("drop rows")
        cs = [cs] if isinstance(cs, str) else list(cs)
        d = self if inplace else self.copy()
        for c in cs:
            d.cols.pop(c)
        return None if inplace else d

    def join(self, o, **kw):
        d = self.copy()
        for k, v in (o.cols.items() if isinstance(o, DataFrame) else [(o.name, o)]):
            d[k] = v
        return d

    def replace(self, *a, **k):
        d = DataFrame()
        d.index = self.index
        d.cols = {c: v.replace(*a, **k) for c, v in self.cols.items()}
        return d

    def mask(self, cond, other=float("nan")):
        d = DataFrame()
        d.index = self.index
        d.cols = {c: v.mask(cond.cols[c], other) for c, v in self.cols.items()}
        return d

    def where(self, cond, other=float("nan")):
        d = DataFrame()
        d.index = self.index
        d.cols = {c: v.where(cond.cols[c], other) for c, v in self.cols.items()}
        return d

    def abs(self):
        d = DataFrame()
        d.index = self.index
        d.cols = {c: abs(v) for c, v in self.cols.items()}
        return d

    __abs__ = abs

    def __neg__(self):
        d = DataFrame()
        d.index = self.index
        d.cols = {c: -v for c, v in self.cols.items()}
        return d

    def __and__(self, o):
        return self._cmp(o, "and")

    def __or__(self, o):
        return self._cmp(o, "or")

    def __invert__(self):
        d = DataFrame()
        d.index = self.index
        d.cols = {c: ~v for c, v in self.cols.items()}
        return d

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        if nm in self.__dict__.get("cols", {}):
            return self.cols[nm]
        raise Unsupported(f"DataFrame.{nm}")


for _op in CMP:
    setattr(DataFrame, f"__{_op}__", lambda s, o, _op=_op: s._cmp(o, _op))
    setattr(DataFrame, _op, lambda s, o, _op=_op: s._cmp(o, _op))
for _nm, _op in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div")):
    setattr(DataFrame, f"__{_nm}__", lambda s, o, _op=_op: s._cmp(o, _op))
DataFrame.__hash__ = _unhashable
DataFrame.__setattr__ = _fixed("cols", "index", "_objcols", "more")


class Rows:
    """a frame restricted to the rows where keep(t) holds (order preserved)"""
    _frame = True

    def __init__(self, df, keep):
        self.df, self.keep = df, keep
        self.cols, self.index = df.cols, df.index

    def copy(self):
        return self

    def dropna(self, **kw):
        r = self.df.dropna(**kw)
        k = self.keep
        return Rows(self.df, Seq(self.df.n, lambda t: and_(k(t), r.keep(t))))

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"DataFrame.{nm} after row selection")


class Cols(list):
    """column names; more: the caller's frame may have others, of which the column "extra" is one"""

    def __init__(self, xs, more=False):
        list.__init__(self, xs)
        self.more = more

    def __contains__(self, k):
        if list.__contains__(self, k):
            return True
        if self.more:
            raise Unsupported("whether the caller's frame has another column")
        return False

    def tolist(self):
        return list(self)

    to_list = tolist


def concat(objs, axis=0, keys=None, **kw):
    if axis not in (1, "columns") or kw:
        raise Unsupported("concat")
    d = DataFrame()
    objs = list(objs.values()) if isinstance(objs, dict) else list(objs)
    for j, o in enumerate(objs):
        for k, v in (o.cols.items() if isinstance(o, DataFrame) else [(keys[j] if keys else (o.name or j), o)]):
            if d.index is None:
                d.index = v.index
            elif not d.index.aligned(v.index):
                event("label", "concat of Series with different indexes")
            d.cols[k if k not in d.cols else (k, j)] = Series.of(v.a.copy(), d.index, k)
    return d


pd.Series, pd.DataFrame, pd.concat = Series, DataFrame, concat
pd.NA = pd.NaT = float("nan")
pd.isnull = pd.isna = lambda x: x.isnull() if hasattr(x, "isnull") else np.isnan(x)
pd.notnull = pd.notna = lambda x: x.notnull() if hasattr(x, "notnull") else _not(np.isnan(x))
pd.Index = Idx
pd.RangeIndex = lambda *a, **k: _bad("RangeIndex")
pd.__getattr__ = _missing
