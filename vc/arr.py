"""Symbolic buffers and one-dimensional arrays (contracts of numpy arrays)."""
from .sym import *
from . import sym

NANF = float("nan")


class Buf:
    """mutable storage: current content (Seq over absolute positions), element kind f/i/b"""

    def __init__(self, seq, kind, origin=None):
        self.cur, self.kind, self.origin = seq, kind, origin
        self.n = seq.n
        self.home = sym.CTX.loop if sym.CTX is not None else None

    def read(self, t):
        lp = sym.CTX.loop if sym.CTX is not None else None
        if lp is not None and lp.tracks(self):
            return lp.read(self, t)
        return self.cur(t)

    def snapshot(self):
        lp = sym.CTX.loop if sym.CTX is not None else None
        if lp is not None:
            lp.snapshot(self)
        return self.cur

    def coerce(self, x):
        """value as stored: (EF or B-term)"""
        if self.kind == "b":
            return asB(x)
        e = toE(x)
        if self.kind == "i":
            if not (isinstance(x, (SI, int, bool, SB)) or (hasattr(x, "_intkind"))):
                event("int-store", "a float is stored into an integer array")
                if e.nan is not FALSE:
                    raise Unsupported("NaN stored into an integer array")
                v = e.v
                e = EF(ite(ge(v, RZERO), toR(floor(v)), neg(toR(floor(neg(v))))))
        return e

    reversed_view = False

    def write(self, t, x):
        if self.reversed_view:
            raise Unsupported("write to an array that shares memory with a reversed view")
        if self.origin is not None:
            event("mutation", f"writes into the caller's {self.origin}")
        v = self.coerce(x)
        lp = sym.CTX.loop if sym.CTX is not None else None
        if lp is not None:
            lp.write(self, t, v)
            return
        self.set_direct(t, v)

    def set_direct(self, t, v):
        old = self.cur
        if self.kind == "b":
            self.cur = Seq(self.n, lambda u: ite(eq(u, t), v, old(u)))
        else:
            self.cur = Seq(self.n, lambda u: e_ite(eq(u, t), v, old(u)))

    def write_range(self, lo, hi, fn):
        """content := fn(t) for lo <= t < hi"""
        if self.reversed_view:
            raise Unsupported("write to an array that shares memory with a reversed view")
        if self.origin is not None:
            event("mutation", f"writes into the caller's {self.origin}")
        if sym.CTX is not None and sym.CTX.loop is not None and self.home is not sym.CTX.loop:
            raise Unsupported("array write inside a loop")
        old = self.cur
        if self.kind == "b":
            self.cur = Seq(self.n, lambda u: ite(and_(le(lo, u), lt(u, hi)), fn(u), old(u)))
        else:
            self.cur = Seq(self.n, lambda u: e_ite(and_(le(lo, u), lt(u, hi)), fn(u), old(u)))


def wrap(x, kind):
    """scalar of an array element"""
    if kind == "b":
        return SB(x)
    if kind == "i":
        if x.v.op == "toR":
            return SI(x.v.args[0])
        if isc(x.v) and x.v.data.denominator == 1:
            return SI(int(x.v.data))
        s = SF(x)
        s.__class__ = SIF
        return s
    return SF(x)


class SIF(SF):
    """integer-typed element whose value is carried as a real"""
    __slots__ = ()
    _intkind = True


def numel(x, kind):
    return num(x) if kind == "b" else x


def static_decide(c):
    """truth of c if it follows from the current facts, else None"""
    if c.op == "c":
        return c.data
    cx = ctx()
    known = set(cx.allhyps())
    if c in known:
        return True
    if not_(c) in known:
        return False
    if cx.oracle is not None:
        return cx.oracle(cx.allhyps(), c)
    return None


def norm_index(i, n, what="index"):
    """python index semantics with bounds check; returns the position term"""
    t = toI(i)
    lb, ub = bounds(t)
    if isc(t):
        if t.data < 0:
            t = add(n, t)
            if ctx().decide(lt(t, ZERO)):
                raise PathRaise(IndexError(f"{what} out of bounds"))
            return t
    elif lb is None or lb < 0:
        if ctx().decide(lt(t, ZERO)):
            t = add(t, n)
            if ctx().decide(lt(t, ZERO)):
                raise PathRaise(IndexError(f"{what} out of bounds"))
            return t
    if ctx().decide(ge(t, n)):
        raise PathRaise(IndexError(f"{what} out of bounds"))
    return t


def norm_slice(s, n):
    """(start, length) of a slice with step 1"""
    if s.step not in (None, 1):
        raise Unsupported("slice with a step")

    def one(x, default):
        if x is None:
            return default
        t = toI(x)
        lb, _ = bounds(t)
        if isc(t) and t.data < 0:
            t = imax(ZERO, add(n, t))
        elif not isc(t) and (lb is None or lb < 0):
            if ctx().decide(lt(t, ZERO)):
                t = imax(ZERO, add(n, t))
        return imin(t, n)
    a, b = one(s.start, ZERO), one(s.stop, n)
    return a, imax(ZERO, sub(b, a))


def same_len(a, b, what="operands could not be broadcast together"):
    if a is b:
        return
    if ctx().decide(eq(a, b)):
        return
    raise PathRaise(ValueError(what))


class Arr(Sym):
    """one-dimensional ndarray (possibly a view: absolute position = off + t)"""

    def __init__(self, buf, off=ZERO, n=None):
        self.buf, self.off, self.n = buf, off, (buf.n if n is None else n)

    @staticmethod
    def new(n, fn, kind="f"):
        return Arr(Buf(Seq(n, fn), kind))

    kind = property(lambda s: s.buf.kind)
    ndim = 1

    def seq(self):
        """immutable content at this moment, elements as stored"""
        s = self.buf.snapshot()
        if self.off is ZERO and self.n is s.n:
            return s
        off = self.off
        return Seq(self.n, lambda t: s(add(off, t)))

    def nseq(self):
        """content as numbers"""
        s, k = self.seq(), self.kind
        return s if k != "b" else Seq(self.n, lambda t: num(s(t)))

    def bseq(self):
        s, k = self.seq(), self.kind
        if k == "b":
            return s
        return Seq(self.n, lambda t: or_(s(t).nan, s(t).inf, ne(s(t).v, RZERO)))

    # -- python protocol
    def _symlen(self):
        return mkint(self.n)

    def __len__(self):
        if isc(self.n):
            return self.n.data
        raise Unsupported("concrete length needed")

    def _concrete_iter(self):
        return iter([self[i] for i in range(len(self))])

    def __iter__(self):
        return self._concrete_iter()

    @property
    def size(self):
        return mkint(self.n)

    @property
    def shape(self):
        return (mkint(self.n),)

    @property
    def dtype(self):
        return DT[self.kind]

    @property
    def values(self):
        raise PathRaise(AttributeError("'numpy.ndarray' object has no attribute 'values'"))

    @property
    def T(self):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice):
            if i.step == -1 and i.start is None and i.stop is None:
                s, n = self.seq(), self.n
                self.buf.reversed_view = True
                r = Arr.new(n, lambda t: s(sub(sub(n, ONE), t)), self.kind)
                r.buf.reversed_view = True
                return r
            a, l = norm_slice(i, self.n)
            return Arr(self.buf, add(self.off, a), l)
        if isint(i):
            return wrap(self.buf.read(add(self.off, norm_index(i, self.n))), self.kind)
        if isinstance(i, Arr) and i.kind == "i":
            s, ix, n = self.seq(), i.seq(), self.n

            def at(t):
                j = ix(t)
                p = j.v.args[0] if j.v.op == "toR" else (I(int(j.v.data)) if isc(j.v) else None)
                if p is None:
                    p = to_int_term(j.v)
                if p is None:
                    raise Unsupported("index array with non-integer terms")
                return s(p)
            p0 = to_int_term(ix(TV).v)
            if p0 is None:
                raise Unsupported("index array")
            hy = and_(le(ZERO, TV), lt(TV, i.n))
            bad = and_(hy, or_(lt(p0, neg(n)), ge(p0, n)))
            neg_ = and_(hy, lt(p0, ZERO))
            if static_decide(bad) is not False or static_decide(neg_) is not False:
                raise Unsupported("index array possibly out of bounds")
            return Arr.new(i.n, at, self.kind)
        if isinstance(i, SF) or isinstance(i, float):
            raise PathRaise(IndexError("only integers are valid indices"))
        raise Unsupported(f"array indexing by {type(i).__name__}")

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            a, l = norm_slice(i, self.n)
            lo = add(self.off, a)
            hi = add(lo, l)
            if isinstance(v, Arr) or hasattr(v, "_arr"):
                v = v._arr if hasattr(v, "_arr") else v
                same_len(v.n, l)
                s = v.seq()
                self.buf.write_range(lo, hi, lambda u: self._conv(s(sub(u, lo)), v.kind))
            else:
                c = self.buf.coerce(v)
                self.buf.write_range(lo, hi, lambda u: c)
            return
        if isint(i):
            self.buf.write(add(self.off, norm_index(i, self.n)), v)
            return
        m = getattr(i, "_arr", i)
        if isinstance(m, Arr) and m.kind == "b":
            ms = m.seq()
            if isinstance(v, Arr) or hasattr(v, "_arr"):
                raise Unsupported("masked assignment of an array")
            c = self.buf.coerce(v)
            old = self.seq()
            off = self.off
            self.buf.write_range(off, add(off, self.n), lambda u: (ite if self.kind == "b" else e_ite)(
                ms(sub(u, off)), c, old(sub(u, off))))
            return
        raise Unsupported(f"assignment through {type(i).__name__}")

    def _conv(self, x, kind):
        if self.kind == "b":
            if kind != "b":
                raise Unsupported("numbers stored into a boolean array")
            return x
        if self.kind == "i" and kind == "f":
            event("int-store", "floats are stored into an integer array")
            if x.nan is not FALSE:
                raise Unsupported("NaN stored into an integer array")
            return EF(ite(ge(x.v, RZERO), toR(floor(x.v)), neg(toR(floor(neg(x.v))))))
        return numel(x, kind)

    # -- operators
    def _bin(self, o, op, swap=False):
        return binop(op, o, self) if swap else binop(op, self, o)

    def __array_ufunc__(self, *a, **k):
        raise Unsupported("real numpy function on symbolic data")

    def __neg__(self):
        return unop(e_neg, self)

    def __pos__(self):
        return self

    def __abs__(self):
        return unop(e_abs, self)

    def __invert__(self):
        s = self.seq()
        if self.kind != "b":
            raise Unsupported("~ on numbers")
        return like(self, lambda t: not_(s(t)), "b")

    def __bool__(self):
        if isc(self.n) and self.n.data == 1:
            return bool(self[0])
        raise PathRaise(ValueError("The truth value of an array is ambiguous"))

    def _inplace(self, o, op):
        r = binop(op, self, o)
        a = getattr(r, "_arr", r)
        if self.kind == "i" and a.kind == "f":
            raise PathRaise(TypeError("cannot cast float result into an integer array"))
        self[slice(None)] = a
        return self

    def astype(self, t, copy=True):
        k = kind_of(t)
        return convert(self, k)

    def copy(self, order=None):
        s = self.seq()
        return Arr.new(self.n, s, self.kind)

    def tolist(self):
        return SymList(self.n, self.seq(), self.kind) if not isc(self.n) else [self[i] for i in range(len(self))]

    def flatten(self):
        return self.copy()

    ravel = reshape1 = flatten

    def to_numpy(self):
        raise PathRaise(AttributeError("to_numpy"))

    def item(self):
        return self[0]

    def fill(self, v):
        self[slice(None)] = v

    # -- reductions (numpy: NaN propagates)
    def sum(self, axis=None):
        return SF(red_sum(self.nseq(), False)) if self.kind != "b" and self.kind != "i" else intsum(self)

    def mean(self, axis=None):
        s = self.nseq()
        return SF(e_div(red_sum(s, False), EF(toR(self.n))))

    def max(self, axis=None):
        return SF(red_ext("max", self.nseq(), False))

    def min(self, axis=None):
        return SF(red_ext("min", self.nseq(), False))

    def argmax(self, axis=None):
        return SI(red_arg("argmax", self.nseq()))

    def argmin(self, axis=None):
        return SI(red_arg("argmin", self.nseq()))

    def std(self, ddof=0):
        return SF(red_std(self.nseq(), ddof, False))

    def var(self, ddof=0):
        return SF(red_var(self.nseq(), ddof, False))

    def any(self):
        s = self.bseq()
        return SB(gfold("any", ZERO, sub(self.n, ONE), lambda k: s(k)))

    def all(self):
        s = self.bseq()
        return SB(not_(gfold("any", ZERO, sub(self.n, ONE), lambda k: not_(s(k)))))

    def cumsum(self):
        return Arr.new(self.n, cumsum_np(self.nseq()), self.kind if self.kind != "b" else "i")

    def cumprod(self):
        return Arr.new(self.n, cumprod(self.nseq()), self.kind)

    def dot(self, o):
        return (self * o).sum()

    def _pyminmax(self, less):
        return SF(red_ext("min" if less else "max", self.nseq(), False))

    def _pysum(self):
        return self.sum()

    def _pyany(self):
        return self.any()

    def __getattr__(self, nm):
        if nm.startswith("_"):
            raise AttributeError(nm)
        raise Unsupported(f"ndarray.{nm}")


class SymList(Sym):
    """python list of symbolic length (from a comprehension over a symbolic range)"""

    def __init__(self, n, fn, kind):
        self.n, self.fn, self.kind = n, fn, kind
        self._lhome = sym.CTX.loop if sym.CTX is not None else None

    def _symlen(self):
        return mkint(self.n)

    _buf = None

    @property
    def _arr(self):
        """a copy of the content"""
        if self._buf is not None:
            return Arr(self._buf).copy()
        return Arr.new(self.n, self.fn, self.kind)

    def __setitem__(self, i, v):
        if not isint(i):
            raise Unsupported("slice assignment to a symbolic list")
        if self._buf is None:
            self._buf = Buf(Seq(self.n, self.fn), self.kind)
            self._buf.home = self._lhome
        if self.kind == "i" and skind(v) != "i" or self.kind == "b" and skind(v) != "b" or skind(v) not in ("f", "i", "b"):
            raise Unsupported("an element of another type is stored into a list")
        Arr(self._buf)[i] = v

    def _pysum(self):
        return self._arr.sum()

    def _pyminmax(self, less):
        return self._arr._pyminmax(less)

    def __getitem__(self, i):
        if self._buf is not None:
            return Arr(self._buf)[i]
        return self._arr[i]

    def copy(self):
        a = self._arr
        return SymList(self.n, a.seq(), self.kind)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic list")


def to_int_term(v):
    """integer term equal to an integral real term"""
    if v.op == "toR":
        return v.args[0]
    if isc(v):
        return I(int(v.data)) if v.data.denominator == 1 else None
    if v.op == "+":
        if v.data[0].denominator != 1:
            return None
        r = const(int(v.data[0]), "I")
        for k, a in zip(v.data[1], v.args):
            b = to_int_term(a)
            if b is None or k.denominator != 1:
                return None
            r = add(r, scale(int(k), b))
        return r
    if v.op == "ite":
        a, b = to_int_term(v.args[1]), to_int_term(v.args[2])
        return None if a is None or b is None else ite(v.args[0], a, b)
    return None


class DType:
    def __init__(self, kind):
        self.kind = kind

    def __eq__(self, o):
        try:
            return kind_of(o) == self.kind
        except Unsupported:
            return False

    def __hash__(self):
        return hash(self.kind)

    @property
    def type(self):
        return self

    @property
    def name(self):
        return {"f": "float64", "i": "int64", "b": "bool", "o": "object"}[self.kind]

    def __repr__(self):
        return self.name

    __str__ = __repr__


DT = {k: DType(k) for k in "fibo"}


def kind_of(t):
    if isinstance(t, DType):
        return t.kind
    if t is None or t is float_ or t is float:
        return "f"
    if t is int_ or t is int:
        return "i"
    if t is bool_ or t is bool:
        return "b"
    if isinstance(t, str):
        if t.startswith("float") or t == "f" or t == "f8" or t == "d":
            return "f"
        if t.startswith(("int", "uint")) or t in ("i", "i8"):
            return "i"
        if t.startswith("bool"):
            return "b"
        if t in ("object", "O"):
            return "o"
    k = getattr(t, "_npkind", None)
    if k:
        return k
    raise Unsupported(f"dtype {t!r}")


def convert(a, k):
    s = a.seq()
    if k == a.kind:
        return like(a, s, k)
    if k == "f":
        return like(a, lambda t: numel(s(t), a.kind), "f")
    if k == "i" and a.kind == "b":
        return like(a, lambda t: num(s(t)), "i")
    if k == "b":
        b = a.bseq()
        return like(a, b, "b")
    if k == "i":
        if s(TV).nan is not FALSE or s(TV).inf is not FALSE:
            raise Unsupported("astype(int) of values that may be missing")
        return like(a, lambda t: EF(ite(ge(s(t).v, RZERO), toR(floor(s(t).v)), neg(toR(floor(neg(s(t).v)))))), "i")
    raise Unsupported("astype")


def like(a, fn, kind):
    """result container of the same class and index as a"""
    r = Arr.new(a.n, fn, kind)
    return a._rewrap(r) if hasattr(a, "_rewrap") else r


def isarr(x):
    return isinstance(x, Arr) or hasattr(x, "_arr")


def arr_of(x):
    return x._arr if hasattr(x, "_arr") else x


def skind(x):
    if isinstance(x, (SB, bool)):
        return "b"
    if isinstance(x, (SI, int)) or hasattr(x, "_intkind"):
        return "i"
    return "f"


ARITH = {"add": e_add, "sub": e_sub, "mul": e_mul, "div": e_div}
CMP = ("lt", "le", "gt", "ge", "eq", "ne")


def binop(op, x, y):
    """elementwise operation of arrays / series / scalars"""
    if isinstance(x, list) or isinstance(y, list):
        x = mkarr(x) if isinstance(x, list) else x
        y = mkarr(y) if isinstance(y, list) else y
    if not ((isarr(x) or isnum(x)) and (isarr(y) or isnum(y))):
        return NotImplemented
    owner = result_owner(x, y)
    if isarr(x) and isarr(y):
        ax, ay = arr_of(x), arr_of(y)
        if isc(ax.n) and ax.n.data == 1 or isc(ay.n) and ay.n.data == 1:
            raise Unsupported("broadcasting of length-one arrays")
        same_len(ax.n, ay.n)
    n = arr_of(x).n if isarr(x) else arr_of(y).n
    kx = arr_of(x).kind if isarr(x) else skind(x)
    ky = arr_of(y).kind if isarr(y) else skind(y)
    if op in ("and", "or", "xor"):
        if kx != "b" or ky != "b":
            raise Unsupported("bitwise operation on numbers")
        fx = arr_of(x).seq() if isarr(x) else (lambda t, c=asB(x): c)
        fy = arr_of(y).seq() if isarr(y) else (lambda t, c=asB(y): c)
        f = {"and": and_, "or": or_, "xor": lambda a, b: not_(iff(a, b))}[op]
        return finish(owner, Arr.new(n, lambda t: f(fx(t), fy(t)), "b"))
    fx = arr_of(x).nseq() if isarr(x) else (lambda t, c=toE(x): c)
    fy = arr_of(y).nseq() if isarr(y) else (lambda t, c=toE(y): c)
    if op in ARITH:
        f = ARITH[op]
        kind = "f" if op == "div" or "f" in (kx, ky) else "i"
        if kx == ky == "b":
            if op == "mul":
                bx = arr_of(x).bseq() if isarr(x) else (lambda t: asB(x))
                by = arr_of(y).bseq() if isarr(y) else (lambda t: asB(y))
                return finish(owner, Arr.new(n, lambda t: and_(bx(t), by(t)), "b"))
            raise Unsupported("arithmetic of boolean arrays")
        return finish(owner, Arr.new(n, lambda t: f(fx(t), fy(t)), kind))
    if op in CMP:
        return finish(owner, Arr.new(n, lambda t: e_cmp(op, fx(t), fy(t)), "b"))
    if op == "pow":
        if isarr(y):
            raise Unsupported("power with an array exponent")
        s = fx
        kind = "f" if "f" in (kx, ky) else "i"
        return finish(owner, Arr.new(n, lambda t: toE(power(SF(s(t)), y)), kind))
    if op == "floordiv":
        return finish(owner, Arr.new(n, lambda t: e_floor(e_div(fx(t), fy(t))), "f"))
    raise Unsupported(op)


def result_owner(*xs):
    """the Series whose index the result carries; checks alignment between Series"""
    own = None
    for x in xs:
        if hasattr(x, "_rewrap"):
            if own is None:
                own = x
            else:
                own._check_align(x)
    return own


def finish(owner, a):
    return owner._rewrap(a) if owner is not None else a


def unop(f, a, kind=None):
    s = arr_of(a).nseq()
    k = arr_of(a).kind
    return like(a, lambda t: f(s(t)), kind or ("f" if k == "b" else k))


for _nm, _op in (("add", "add"), ("sub", "sub"), ("mul", "mul"), ("truediv", "div"), ("pow", "pow"), ("and", "and"),
                 ("or", "or"), ("xor", "xor"), ("floordiv", "floordiv")):
    setattr(Arr, f"__{_nm}__", lambda s, o, _op=_op: binop(_op, s, o))
    setattr(Arr, f"__r{_nm}__", lambda s, o, _op=_op: binop(_op, o, s))
    if _nm in ("add", "sub", "mul", "truediv", "pow"):
        setattr(Arr, f"__i{_nm}__", lambda s, o, _op=_op: s._inplace(o, _op))
for _op in CMP:
    setattr(Arr, f"__{_op}__", lambda s, o, _op=_op: binop(_op, s, o))


def _unhashable(self):
    raise TypeError(f"unhashable type: '{type(self).__name__}'")


Arr.__hash__ = _unhashable


# ------------------------------------------------------------------ reductions
def _rng(s):
    return ZERO, sub(s.n, ONE)


def red_sum(s, skip):
    lo, hi = _rng(s)
    v = gfold("sum", lo, hi, lambda k: s(k).fin if skip or True else TRUE, lambda k: s(k).v)
    g = s(declare(fresh("k"), 0))
    pi = gfold("any", lo, hi, lambda k: s(k).pi) if g.pi is not FALSE else FALSE
    ni = gfold("any", lo, hi, lambda k: s(k).ni) if g.ni is not FALSE else FALSE
    nan = and_(pi, ni)
    if not skip and g.nan is not FALSE:
        nan = or_(nan, gfold("any", lo, hi, lambda k: s(k).nan))
    return EF(v, nan, and_(not_(nan), pi), and_(not_(nan), ni))


def red_count(s):
    lo, hi = _rng(s)
    return gfold("sum", lo, hi, notnan(s), lambda k: RONE)


def red_ext(kind, s, skip):
    lo, hi = _rng(s)
    g = s(declare(fresh("k"), 0))
    if g.inf is not FALSE:
        raise Unsupported("maximum over values that may be infinite")
    empty = lt(hi, lo)
    if not skip and empty is not FALSE and ctx().decide(empty):
        raise PathRaise(ValueError("zero-size array to reduction operation"))
    v = gfold(kind, lo, hi, notnan(s), lambda k: s(k).v)
    if skip:
        nan = not_(gfold("any", lo, hi, notnan(s)))
    else:
        nan = FALSE if g.nan is FALSE else gfold("any", lo, hi, lambda k: s(k).nan)
    return EF(v, nan)


def red_arg(kind, s):
    lo, hi = _rng(s)
    g = s(declare(fresh("k"), 0))
    if not g.simple:
        raise Unsupported("argmax over values that may be missing")
    empty = lt(hi, lo)
    if empty is not FALSE and ctx().decide(empty):
        raise PathRaise(ValueError("attempt to get argmax of an empty sequence"))
    return gfold(kind, lo, hi, lambda k: TRUE, lambda k: s(k).v)


def red_var(s, ddof, skip):
    lo, hi = _rng(s)
    g = s(declare(fresh("k"), 0))
    if g.inf is not FALSE:
        raise Unsupported("variance over values that may be infinite")
    c = red_count(s) if skip else toR(s.n)
    s1 = gfold("sum", lo, hi, notnan(s), lambda k: s(k).v)
    s2 = gfold("sum", lo, hi, notnan(s), lambda k: mul(s(k).v, s(k).v))
    from .lib import _var
    nan = le(c, toR(I(ddof)))
    if not skip and g.nan is not FALSE:
        nan = or_(nan, gfold("any", lo, hi, lambda k: s(k).nan))
    return EF(_var(s1, s2, c, ddof), nan)


def red_std(s, ddof, skip):
    e = red_var(s, ddof, skip)
    return EF(fn1("sqrt", e.v), e.nan)


def intsum(a):
    e = red_sum(a.nseq(), False)
    t = to_int_term(e.v)
    if t is not None:
        return SI(t)
    r = SF(e)
    r.__class__ = SIF
    return r


def cumsum_np(s):
    """numpy cumsum: a NaN poisons everything after it"""
    c = cumsum(s)

    def at(t):
        e = c(t)
        if s(t).nan is FALSE:
            return e
        p = gfold("any", ZERO, t, lambda k: s(k).nan)
        return EF(e.v, or_(p, e.nan), and_(not_(p), e.pi), and_(not_(p), e.ni))
    return Seq(s.n, at)


def mkarr(x):
    """np.array / asarray"""
    if isinstance(x, Arr):
        return x.copy()
    if hasattr(x, "_arr"):
        return x._arr.copy()
    if isinstance(x, (list, tuple)):
        if any(isarr(u) or isinstance(u, (list, tuple)) for u in x):
            return x if all(isarr(u) for u in x) else _bad("nested array")
        kinds = [skind(u) for u in x]
        kind = "f" if "f" in kinds or not x else ("i" if "i" in kinds else "b")
        vals = [toE(u) if kind != "b" else asB(u) for u in x]

        def at(t):
            if isc(t):
                return vals[t.data]
            r = vals[-1]
            for j in range(len(vals) - 2, -1, -1):
                r = (ite if kind == "b" else e_ite)(eq(t, I(j)), vals[j], r)
            return r
        return Arr.new(I(len(x)), at, kind)
    if isinstance(x, SymList):
        return x._arr
    if isinstance(x, (range,)):
        return mkarr(list(x))
    if isinstance(x, SymRange):
        return Arr.new(x.count(), lambda t: EF(toR(x.item(t).t)), "i")
    raise Unsupported(f"array from {type(x).__name__}")


def _bad(m):
    raise Unsupported(m)
