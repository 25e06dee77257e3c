"""Assumed contracts of the numpy functions the code under analysis may call."""
import types
from .arr import *
from .arr import _bad
from . import sym, arr as _arr

np = types.ModuleType("numpy")
np.nan = np.NaN = np.NAN = float("nan")
np.inf = np.Inf = np.infty = float("inf")
import math as _math
np.pi, np.e = _math.pi, _math.e
np.newaxis = None
np.ndarray = Arr


class _NpT(type):
    def __instancecheck__(cls, x):
        return isinstance(x, Num) and ((cls._npkind == "f" and isinstance(x, SF)) or (cls._npkind == "i" and isinstance(x, SI)))


def _npt(name, kind, conv):
    c = _NpT(name, (), {"_npkind": kind, "__new__": lambda cls, x=0: conv(x)})
    setattr(np, name, c)
    return c


for _n in ("float64", "float32", "float16", "double", "floating", "float_"):
    _npt(_n, "f", lambda x: float_(x))
for _n in ("int64", "int32", "int16", "int8", "integer", "intp", "int_", "uint8", "uint64"):
    _npt(_n, "i", lambda x: int_(x))
_npt("bool_", "b", lambda x: bool_(x))
np.number = _NpT("number", (), {"_npkind": "f"})


def _un(f, kind=None):
    def g(x, out=None, where=True, **kw):
        if out is not None or where is not True or kw:
            raise Unsupported("ufunc keyword arguments")
        if isinstance(x, (list, tuple)):
            x = mkarr(x)
        if isarr(x):
            if kind == "b":
                s = arr_of(x).nseq()
                return like(x, lambda t: f(s(t)), "b")
            return unop(f, x, kind)
        if isnum(x):
            r = f(toE(x))
            return SB(r) if kind == "b" else SF(r)
        raise Unsupported(f"ufunc of {type(x).__name__}")
    return g


def _abs(x, **kw):
    if isinstance(x, (SI,)):
        return abs(x)
    return _un(e_abs)(x, **kw)


np.abs = np.absolute = np.fabs = _abs
np.sqrt = _un(e_sqrt, "f")
np.log = _un(e_log, "f")
np.log1p = _un(lambda e: e_log(e_add(num(1), e)), "f")
np.exp = _un(e_exp, "f")
np.negative = _un(e_neg)
np.square = _un(lambda e: e_mul(e, e))
np.floor = _un(e_floor, "f")
np.isnan = _un(lambda e: e.nan, "b")
np.isinf = _un(lambda e: e.inf, "b")
np.isfinite = _un(lambda e: e.fin, "b")
np.sign = _un(lambda e: EF(ite(gt(e.v, RZERO), RONE, ite(lt(e.v, RZERO), R(-1), RZERO)), e.nan)
              if e.inf is FALSE else _bad("sign of infinity"))
np.isneginf = _un(lambda e: e.ni, "b")
np.isposinf = _un(lambda e: e.pi, "b")


def _binf(op):
    def g(x, y, out=None, where=True, **kw):
        if kw:
            raise Unsupported("ufunc keyword arguments")
        r = binop(op, x, y) if isarr(x) or isarr(y) or isinstance(x, list) or isinstance(y, list) else _scalar2(op, x, y)
        if r is NotImplemented:
            raise Unsupported("ufunc operands")
        if where is True and out is None:
            return r
        return _masked(r, out, where)
    return g


def _scalar2(op, x, y):
    if op in ARITH and op == "div":
        return SF(e_div(toE(x), toE(y)))
    if op in ARITH:
        return arith(op, x, y)
    if op == "pow":
        return power(x, y)
    if op in CMP:
        return cmp_(x if isinstance(x, Num) else SF(toE(x)), y, op)
    a, b = asB(x), asB(y)
    return SB({"and": and_, "or": or_}[op](a, b))


def _masked(r, out, where):
    """result with out=/where=: unselected positions keep the content of out"""
    if out is None:
        raise Unsupported("where= without out= leaves unspecified values")
    if isinstance(out, tuple):
        out = out[0]
    if not isinstance(out, Arr):
        raise Unsupported("out= must be an ndarray")
    a = arr_of(r)
    same_len(out.n, a.n)
    rs, os_ = a.seq(), out.seq()
    if where is True:
        fn = rs
    else:
        m = arr_of(where).bseq() if isarr(where) else (lambda t, c=asB(where): c)
        fn = lambda t: e_ite(m(t), out._conv(rs(t), a.kind), os_(t))
    off = out.off
    out.buf.write_range(off, add(off, out.n), lambda u: fn(sub(u, off)))
    return r._rewrap(out) if hasattr(r, "_rewrap") else out


np.add, np.subtract, np.multiply = _binf("add"), _binf("sub"), _binf("mul")
np.divide = np.true_divide = _binf("div")
np.power = _binf("pow")
for _o, _n in (("lt", "less"), ("le", "less_equal"), ("gt", "greater"), ("ge", "greater_equal"), ("eq", "equal"),
               ("ne", "not_equal"), ("and", "logical_and"), ("or", "logical_or"), ("and", "bitwise_and"),
               ("or", "bitwise_or")):
    setattr(np, _n, _binf(_o))


def _not(x):
    if isarr(x):
        s = arr_of(x).bseq()
        return like(x, lambda t: not_(s(t)), "b")
    return SB(not_(asB(x)))


np.logical_not = np.invert = _not


def _ext2(f):
    def g(x, y, **kw):
        if kw:
            raise Unsupported("ufunc keyword arguments")
        if isarr(x) or isarr(y):
            owner = result_owner(x, y)
            if isarr(x) and isarr(y):
                same_len(arr_of(x).n, arr_of(y).n)
            n = arr_of(x).n if isarr(x) else arr_of(y).n
            fx = arr_of(x).nseq() if isarr(x) else (lambda t, c=toE(x): c)
            fy = arr_of(y).nseq() if isarr(y) else (lambda t, c=toE(y): c)
            ks = (arr_of(x).kind if isarr(x) else skind(x), arr_of(y).kind if isarr(y) else skind(y))

            def at(t):
                return f(fx(t), fy(t))
            if ks == ("i", "i") and f in (max_np, min_np):
                def at(t):
                    a, b = to_int_term(fx(t).v), to_int_term(fy(t).v)
                    if a is None or b is None:
                        return f(fx(t), fy(t))
                    return EF(toR((imax if f is max_np else imin)(a, b)))
            return finish(owner, Arr.new(n, at, "f" if "f" in ks else "i"))
        if isinstance(x, (SI, int)) and isinstance(y, (SI, int)):
            return mkint((imax if f in (max_np, max_skip) else imin)(toI(x), toI(y)))
        return SF(f(toE(x), toE(y)))
    return g


np.maximum, np.minimum = _ext2(max_np), _ext2(min_np)
np.fmax, np.fmin = _ext2(max_skip), _ext2(min_skip)


def where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    if not (isarr(c) or isarr(a) or isarr(b)):
        return SF(e_ite(asB(c), toE(a), toE(b)))
    arrs = [arr_of(x) for x in (c, a, b) if isarr(x)]
    result_owner(c, a, b)
    for x in arrs[1:]:
        same_len(arrs[0].n, x.n)
    cm = arr_of(c).bseq() if isarr(c) else (lambda t, v=asB(c): v)
    ks = [arr_of(x).kind if isarr(x) else skind(x) for x in (a, b)]
    if ks == ["b", "b"]:
        fa = arr_of(a).seq() if isarr(a) else (lambda t, v=asB(a): v)
        fb = arr_of(b).seq() if isarr(b) else (lambda t, v=asB(b): v)
        return Arr.new(arrs[0].n, lambda t: ite(cm(t), fa(t), fb(t)), "b")
    fa = arr_of(a).nseq() if isarr(a) else (lambda t, v=toE(a): v)
    fb = arr_of(b).nseq() if isarr(b) else (lambda t, v=toE(b): v)
    return Arr.new(arrs[0].n, lambda t: e_ite(cm(t), fa(t), fb(t)), "f" if "f" in ks else "i")


np.where = where


def select(conds, choices, default=0):
    r = default
    for c, x in zip(reversed(conds), reversed(choices)):
        r = where(c, x, r)
    return r


np.select = select


def _dim(n):
    if isinstance(n, (tuple, list)):
        if len(n) != 1:
            raise Unsupported("multi-dimensional array")
        n = n[0]
    t = toI(n)
    neg_ = lt(t, ZERO)
    if neg_ is not FALSE and ctx().decide(neg_):
        raise PathRaise(ValueError("negative dimensions are not allowed"))
    return t


def full(n, v, dtype=None):
    k = kind_of(dtype) if dtype is not None else skind(v)
    n = _dim(n)
    if k == "b":
        c = asB(v)
    elif k == "i" and skind(v) == "f":
        event("int-store", "a float is stored into an integer array")
        raise Unsupported("float fill of an integer array")
    else:
        c = toE(v)
    return Arr.new(n, lambda t: c, k)


np.full = full
np.zeros = lambda n, dtype=None: full(n, 0, dtype or "float")
np.ones = lambda n, dtype=None: full(n, 1, dtype or "float")


def empty(n, dtype=None):
    # unspecified content: modelled by fresh unknown values
    f = InputFn(f"uninit{next(_arr.sym._fresh_ids)}", ["I"], "R")
    return Arr.new(_dim(n), lambda t: EF(f(t)), kind_of(dtype) if dtype is not None else "f")


sym._fresh_ids = __import__("itertools").count()
np.empty = empty


def _like(v):
    def g(a, dtype=None, **kw):
        a = arr_of(a) if isarr(a) else mkarr(a)
        return full(mkint(a.n), v, dtype or DT[a.kind])
    return g


np.zeros_like, np.ones_like = _like(0), _like(1)
np.full_like = lambda a, v, dtype=None: full(mkint(arr_of(a).n), v, dtype or DT[arr_of(a).kind])
np.empty_like = lambda a, dtype=None: empty(mkint(arr_of(a).n), dtype or DT[arr_of(a).kind])
np.array = lambda x, dtype=None, copy=True: (mkarr(x) if dtype is None or isinstance(mkarr(x), list) else convert(mkarr(x), kind_of(dtype)))


def asarray(x, dtype=None):
    a = x._arr if hasattr(x, "_arr") else (x if isinstance(x, Arr) else mkarr(x))
    return a if dtype is None or kind_of(dtype) == a.kind else convert(a, kind_of(dtype))


np.asarray = np.asanyarray = np.ascontiguousarray = asarray


def arange(*a, dtype=None):
    if any(skind(x) == "f" for x in a):
        raise Unsupported("float arange")
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else 1)
    lo, hi, st = toI(lo), toI(hi), toI(st)
    if st is ONE:
        r = Arr.new(imax(ZERO, sub(hi, lo)), lambda t: EF(toR(add(lo, t))), "i")
    elif isc(st) and st.data == -1:
        r = Arr.new(imax(ZERO, sub(lo, hi)), lambda t: EF(toR(sub(lo, t))), "i")
    else:
        raise Unsupported("arange with a step")
    return r if dtype is None else convert(r, kind_of(dtype))


np.arange = arange


def roll(a, k, axis=None):
    owner = a if hasattr(a, "_rewrap") else None
    x = arr_of(a) if isarr(a) else mkarr(a)
    k, n, s = toI(k), x.n, x.seq()
    f = e_ite if x.kind != "b" else ite
    if static_decide(and_(le(ZERO, k), le(k, n))) is not True:
        # general shift: reduce modulo n once in either direction, else give up
        if static_decide(le(ZERO, k)) is True:
            big = InputFn(f"roll{next(sym._fresh_ids)}", ["I"], "R")
            return Arr.new(n, lambda t: f(le(k, n), f(lt(t, k), s(add(sub(t, k), n)), s(sub(t, k))), EF(big(t))), x.kind)
        if static_decide(and_(le(k, ZERO), le(neg(k), n))) is True:
            return Arr.new(n, lambda t: f(lt(sub(t, k), n), s(sub(t, k)), s(sub(sub(t, k), n))), x.kind)
        raise Unsupported("roll by an unknown amount")
    return Arr.new(n, lambda t: f(lt(t, k), s(add(sub(t, k), n)), s(sub(t, k))), x.kind)


np.roll = roll


def concatenate(xs, axis=0):
    xs = [arr_of(x) if isarr(x) else mkarr(x) for x in xs]
    kind = "f" if any(x.kind == "f" for x in xs) else ("i" if any(x.kind == "i" for x in xs) else "b")
    ss = [x.nseq() if kind != "b" else x.seq() for x in xs]
    starts, n = [], ZERO
    for x in xs:
        starts.append(n)
        n = add(n, x.n)
    f = e_ite if kind != "b" else ite

    def at(t):
        r = ss[-1](sub(t, starts[-1]))
        for j in range(len(xs) - 2, -1, -1):
            r = f(lt(t, starts[j + 1]), ss[j](sub(t, starts[j])), r)
        return r
    return Arr.new(n, at, kind)


np.concatenate = np.hstack = concatenate
_listed = lambda b: b if isarr(b) or isinstance(b, (list, tuple)) else [b]
np.append = lambda a, b, axis=None: concatenate([_listed(a), _listed(b)])


def insert(a, i, v, axis=None):
    if isint(i) and isc(toI(i)) and toI(i).data == 0:
        return concatenate([_listed(v), a])
    raise Unsupported("np.insert")


np.insert = insert


def _red(meth, ser_as_np=True):
    def g(x, axis=None, **kw):
        if isinstance(x, (list, tuple)) and x and all(isarr(u) for u in x):
            if axis != 0:
                raise Unsupported("reduction over stacked arrays")
            r = x[0]
            for u in x[1:]:
                r = {"max": np.maximum, "min": np.minimum, "sum": np.add}.get(meth, lambda a, b: _bad("stacked " + meth))(arr_of(r), arr_of(u))
            return r
        if isinstance(x, (list, tuple)) and x and all(isinstance(u, (list, tuple)) for u in x):
            raise Unsupported("nested lists")
        if hasattr(x, "_rewrap") or hasattr(x, "_frame"):
            return getattr(x, meth)(**({"axis": axis} if axis is not None and hasattr(x, "_frame") else {}), **kw)
        a = arr_of(x) if isarr(x) else mkarr(x)
        return getattr(a, meth)(**kw)
    return g


for _m in ("sum", "mean", "max", "min", "argmax", "argmin", "std", "var", "any", "all", "cumsum", "cumprod"):
    setattr(np, _m, _red(_m))
np.amax, np.amin = np.max, np.min


def _nanred(f):
    return lambda x, axis=None: SF(f(arr_of(x).nseq()))


np.nansum = _nanred(lambda s: red_sum(s, True))
np.nanmax = _nanred(lambda s: red_ext("max", s, True))
np.nanmin = _nanred(lambda s: red_ext("min", s, True))


def _nanmean(s):
    v, c = red_sum(s, True), red_count(s)
    return e_div(v, EF(c))


np.nanmean = _nanred(_nanmean)


def diff(a, n=1, prepend=None, **kw):
    if n != 1 or kw:
        raise Unsupported("np.diff")
    if prepend is not None:
        a = concatenate([prepend if isarr(prepend) or isinstance(prepend, list) else [prepend], a])
    x = arr_of(a)
    s = x.nseq()
    return Arr.new(imax(ZERO, sub(x.n, ONE)), lambda t: e_sub(s(add(t, ONE)), s(t)), x.kind)


np.diff = diff


def nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    if not isarr(x):
        return SF(e_ite(toE(x).nan, toE(nan), toE(x)))
    s = arr_of(x).nseq()

    def at(t):
        e = s(t)
        if e.inf is not FALSE and (posinf is None or neginf is None):
            raise Unsupported("nan_to_num of infinities")
        r = e_ite(e.nan, toE(nan), e)
        if e.inf is not FALSE:
            r = e_ite(e.pi, toE(posinf), e_ite(e.ni, toE(neginf), r))
        return r
    at(TV)
    return like(x, at, arr_of(x).kind)


np.nan_to_num = nan_to_num


def clip(x, lo=None, hi=None, **kw):
    r = x
    if lo is not None:
        r = np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    return r


np.clip = clip


class errstate:
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


np.errstate = errstate
np.seterr = lambda *a, **k: {}
np.float_power = np.power


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    """|a-b| <= atol + rtol*|b| with b finite, or a == b"""
    if isarr(rtol) or isarr(atol) or not isinstance(equal_nan, bool):
        raise Unsupported("tolerances of np.isclose")
    rt, at = toE(rtol), toE(atol)

    def close(x, y):
        c = or_(and_(y.fin, e_le(e_abs(e_sub(x, y)), e_add(at, e_mul(rt, e_abs(y))))), e_eq(x, y))
        return or_(c, and_(x.nan, y.nan)) if equal_nan else c

    if not isarr(a) and not isarr(b):
        return SB(close(toE(a), toE(b)))
    n = (arr_of(a) if isarr(a) else arr_of(b)).n
    for v in (a, b):
        if isinstance(v, list):
            raise Unsupported("np.isclose of a list")
        if isarr(v):
            same_len(n, arr_of(v).n)
    q = [arr_of(v).nseq() if isarr(v) else (lambda t, e=toE(v): e) for v in (a, b)]
    r = Arr.new(n, lambda t: close(q[0](t), q[1](t)), "b")
    return r


def _allclose(*a, **k):
    raise Unsupported("np.allclose")


np.isclose, np.allclose = isclose, _allclose
np.dot = lambda a, b: (np.multiply(arr_of(a), arr_of(b) if isarr(b) else b)).sum()


class _Acc:
    def __init__(self, f, red):
        self.accumulate, self.reduce = f, red

    def __call__(self, *a, **k):
        raise Unsupported("ufunc")


def _accmax(kind):
    def g(a):
        x = arr_of(a)
        s = x.nseq()
        if s(TV).nan is not FALSE:
            raise Unsupported("accumulate over missing values")
        return like(a, cumext(kind, s), x.kind)
    return g


np.maximum.accumulate = _accmax("max")
np.minimum.accumulate = _accmax("min")
np.maximum.reduce = lambda xs, axis=0: np.max(xs, axis=0)
np.minimum.reduce = lambda xs, axis=0: np.min(xs, axis=0)


def _missing(name):
    if name.startswith("_"):
        raise AttributeError(name)

    def f(*a, **k):
        raise Unsupported(f"numpy.{name}")
    return f




def finfo(t):
    """numbers of the double precision format only"""
    import sys
    if t is not float and t is not float_ and t is not np.float64 and not (isinstance(t, str) and t in ("float", "float64")):
        raise Unsupported("np.finfo of another format")
    i = sys.float_info
    return types.SimpleNamespace(eps=i.epsilon, max=i.max, min=-i.max, tiny=i.min, smallest_normal=i.min)


np.finfo = finfo
np.__getattr__ = _missing

mathmod = types.ModuleType("math")
mathmod.nan, mathmod.inf, mathmod.pi, mathmod.e = float("nan"), float("inf"), _math.pi, _math.e
mathmod.sqrt = lambda x: np.sqrt(x) if isinstance(x, Num) else SF(e_sqrt(toE(x)))
mathmod.log = lambda x: np.log(x)


def _mexp(x):
    if isinstance(x, int) and x == 709:
        return SF(num(Fraction(_math.exp(709))))
    if isinstance(x, (int, float)):
        return SF(num(Fraction(_math.exp(x))))
    return np.exp(x)


mathmod.exp = _mexp
mathmod.floor = lambda x: SI(floor(toE(x).v)) if isinstance(x, Num) else _math.floor(x)
mathmod.ceil = lambda x: SI(neg(floor(neg(toE(x).v)))) if isinstance(x, Num) else _math.ceil(x)
mathmod.isnan = lambda x: SB(toE(x).nan)
mathmod.isinf = lambda x: SB(toE(x).inf)
mathmod.isfinite = lambda x: SB(toE(x).fin)


def _misclose(a, b, *, rel_tol=1e-09, abs_tol=0.0):
    if rel_tol < 0 or abs_tol < 0:
        raise PathRaise(ValueError("tolerances must be non-negative"))
    x, y, rt, at = toE(a), toE(b), toE(rel_tol), toE(abs_tol)
    d = e_abs(e_sub(x, y))
    return SB(or_(e_eq(x, y), and_(x.fin, y.fin, or_(e_le(d, e_mul(rt, e_abs(x))), e_le(d, e_mul(rt, e_abs(y))), e_le(d, at)))))


mathmod.isclose = _misclose
mathmod.fabs = lambda x: SF(e_abs(toE(x)))
mathmod.pow = lambda x, y: power(x, y)
mathmod.__getattr__ = _missing
