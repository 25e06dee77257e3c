"""Symbolic scalars, path exploration and recorded events."""
import os
import re
from .lib import *


class Unsupported(BaseException):
    """the code left the supported subset; nothing is proved about this output"""


class PathRaise(BaseException):
    """a Python exception raised by the code under a path condition"""


class Event:
    def __init__(self, kind, msg, where=None):
        self.kind, self.msg, self.where = kind, msg, where

    def __repr__(self):
        return f"{self.kind}: {self.msg}"


class Ctx:
    def __init__(self, hyps=(), oracle=None):
        self.hyps = list(hyps)        # facts valid on entry
        self.oracle = oracle          # decides feasibility: oracle(hyps, cond) -> True/False/None
        self.events = []
        self.prefix = []
        self.trace = []
        self.parent = None
        self.loop = None

    def pc(self):
        own = [c if b else not_(c) for c, b in self.trace]
        return (self.parent.pc() if self.parent else []) + own

    def allhyps(self):
        return (self.parent.allhyps() if self.parent else []) + self.hyps + [c if b else not_(c) for c, b in self.trace]

    def decide(self, cond):
        if cond.op == "c":
            return cond.data
        known = set(self.allhyps())
        if cond in known:
            return True
        if not_(cond) in known:
            return False
        for h in known:  # conjunction members
            if h.op == "and":
                if cond in h.args:
                    return True
                if not_(cond) in h.args:
                    return False
        if self.oracle is not None:
            r = self.oracle(self.allhyps(), cond)
            if r is not None:
                return r
        i = len(self.trace)
        if i < len(self.prefix):
            b = self.prefix[i]
        else:
            b = True
            if len(self.prefix) > 400:
                raise Unsupported("too many decisions on one path")
            self.prefix.append(True)
        self.trace.append((cond, b))
        return b


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic operation outside a verification run")
    return CTX


LABELS = []     # uses of index labels so far, also on paths that were given up


def event(kind, msg):
    ctx().events.append(Event(kind, msg))
    if kind == "label":
        LABELS.append(msg)


class Leaf:
    def __init__(self, kind, val, events):
        self.kind, self.val, self.events = kind, val, events


class Node:
    def __init__(self, cond, t, f):
        self.cond, self.t, self.f = cond, t, f


HERE = os.path.dirname(os.path.abspath(__file__))


def ours(e):
    """an exception of the symbolic machinery itself, not one the code would raise"""
    if isinstance(e, PathRaise):
        return False
    if isinstance(e, (TypeError, AttributeError)) and re.search(r"'_?(Sym|SI|SF|SB|Arr|Series|DataFrame|VList|_VL2|EF|T|Idx|Rolling|EWM)\w*'", str(e)):
        return True
    tb = e.__traceback__
    while tb.tb_next is not None:
        tb = tb.tb_next
    return os.path.abspath(tb.tb_frame.f_code.co_filename).startswith(HERE)


class StateWritten(Unsupported):
    """a module or class variable is written: what a function returns depends on the calls made before"""


GUARD = []      # functions called before an outermost path; each returns a function called after it


def explore(fn, hyps=(), oracle=None, limit=600, loop=None):
    """run fn under every feasible sequence of decisions; returns the decision tree"""
    global CTX
    parent = CTX
    runs = []
    prefix = []
    while True:
        c = Ctx(hyps, oracle)
        c.parent, c.prefix, c.loop = parent, prefix, loop if loop is not None else (parent.loop if parent else None)
        CTX = c
        after = [g() for g in GUARD] if parent is None else ()
        try:
            leaf = Leaf("return", fn(), c.events)
        except PathRaise as e:
            leaf = Leaf("raise", e.args[0], c.events)
        except Unsupported:
            raise
        except RecursionError:
            raise Unsupported("recursion")
        except Exception as e:  # a Python exception of the code under analysis
            if ours(e):
                raise Unsupported(f"{type(e).__name__}: {e}")
            leaf = Leaf("raise", e, c.events)
            leaf.tb = e.__traceback__
        finally:
            CTX = parent
        for g in after:
            g()
        runs.append((list(c.trace), leaf))
        if len(runs) > limit:
            raise Unsupported("too many paths")
        # next prefix: flip the last True decision
        prefix = list(c.prefix[:len(c.trace)])
        while prefix and not prefix[-1]:
            prefix.pop()
        if not prefix:
            break
        prefix[-1] = False

    def build(rs, d):
        if len(rs) == 1 and len(rs[0][0]) == d:
            return rs[0][1]
        cond = rs[0][0][d][0]
        T_ = [r for r in rs if r[0][d][1]]
        F_ = [r for r in rs if not r[0][d][1]]
        return Node(cond, build(T_, d + 1), build(F_, d + 1))
    return build(runs, 0)


def leaves(tree, pc=()):
    if isinstance(tree, Leaf):
        yield list(pc), tree
    else:
        yield from leaves(tree.t, pc + (tree.cond,))
        yield from leaves(tree.f, pc + (not_(tree.cond),))


def fold_tree(tree, leaf, node):
    if isinstance(tree, Leaf):
        return leaf(tree)
    return node(tree.cond, fold_tree(tree.t, leaf, node), fold_tree(tree.f, leaf, node))


# ------------------------------------------------------------------ scalars
class Sym:
    __array_priority__ = 1000

    def __hash__(self):
        raise Unsupported("hash of a symbolic value")


class SB(Sym):
    """symbolic bool"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return ctx().decide(self.t)

    def __and__(self, o):
        return lift2(self, o, "and")

    __rand__ = __and__

    def __or__(self, o):
        return lift2(self, o, "or")

    __ror__ = __or__

    def __xor__(self, o):
        return lift2(self, o, "xor")

    __rxor__ = __xor__

    def __invert__(self):
        return SB(not_(self.t))

    def __eq__(self, o):
        return cmp_(self, o, "eq")

    def __ne__(self, o):
        return cmp_(self, o, "ne")

    __hash__ = Sym.__hash__

    def _n(self):
        return SF(num(self.t))

    def __mul__(self, o):
        return self._n() * o

    __rmul__ = __mul__

    def __add__(self, o):
        return self._n() + o

    __radd__ = __add__

    def __sub__(self, o):
        return self._n() - o

    def __rsub__(self, o):
        return o - self._n()

    def __neg__(self):
        return -self._n()

    def item(self):
        return self

    def any(self):
        return self

    all = any


def asB(x):
    if isinstance(x, SB):
        return x.t
    if isinstance(x, (bool,)):
        return B(x)
    if isinstance(x, T) and x.sort == "B":
        return x
    if isinstance(x, (int,)):
        return B(bool(x))
    if isinstance(x, SI):
        return ne(x.t, ZERO)
    if isinstance(x, SF):
        return or_(x.e.nan, x.e.inf, ne(x.e.v, RZERO))
    raise Unsupported(f"boolean from {type(x).__name__}")


def lift2(a, b, op):
    if not isinstance(b, (SB, bool, SI, int)):
        return NotImplemented
    if isinstance(b, (SI, int)) and not isinstance(b, bool):
        return NotImplemented
    x, y = asB(a), asB(b)
    return SB(and_(x, y) if op == "and" else or_(x, y) if op == "or" else not_(iff(x, y)))


class Num(Sym):
    def __add__(self, o):
        return arith("add", self, o)

    def __radd__(self, o):
        return arith("add", o, self)

    def __sub__(self, o):
        return arith("sub", self, o)

    def __rsub__(self, o):
        return arith("sub", o, self)

    def __mul__(self, o):
        return arith("mul", self, o)

    def __rmul__(self, o):
        return arith("mul", o, self)

    def __truediv__(self, o):
        return arith("div", self, o)

    def __rtruediv__(self, o):
        return arith("div", o, self)

    def __floordiv__(self, o):
        return arith("floordiv", self, o)

    def __rfloordiv__(self, o):
        return arith("floordiv", o, self)

    def __mod__(self, o):
        return arith("mod", self, o)

    def __rmod__(self, o):
        return arith("mod", o, self)

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self):
        return arith("sub", 0, self) if isinstance(self, SI) else SF(e_neg(self.e))

    def __pos__(self):
        return self

    def __lt__(self, o):
        return cmp_(self, o, "lt")

    def __le__(self, o):
        return cmp_(self, o, "le")

    def __gt__(self, o):
        return cmp_(self, o, "gt")

    def __ge__(self, o):
        return cmp_(self, o, "ge")

    def __eq__(self, o):
        return cmp_(self, o, "eq")

    def __ne__(self, o):
        return cmp_(self, o, "ne")

    __hash__ = Sym.__hash__

    def __bool__(self):
        return ctx().decide(asB(self))

    def __round__(self, nd=None):
        if nd is None:
            return sym_int_floor(arith("add", self, SF(num(Fraction(1, 2)))))
        raise Unsupported("round to digits")

    def item(self):
        return self

    def astype(self, t):
        raise Unsupported("scalar astype")

    def copy(self):
        return self


class SF(Num):
    """symbolic float"""
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e if isinstance(e, EF) else num(e)

    def __abs__(self):
        return SF(e_abs(self.e))

    def __float__(self):
        if self.e.simple and isc(self.e.v):
            return float(self.e.v.data)
        raise Unsupported("concrete float needed")

    def __int__(self):
        raise Unsupported("concrete int needed")

    def __format__(self, spec):
        return f"<{self.e.v}>"

    __str__ = __repr__ = lambda self: f"<{self.e!r}>"

    def __trunc__(self):
        return sym_trunc(self)

    def is_integer(self):
        raise Unsupported("is_integer")


class SI(Num):
    """symbolic int"""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t if isinstance(t, T) else const(t, "I")

    def __abs__(self):
        return SI(imax(self.t, neg(self.t)))

    def __index__(self):
        if isc(self.t):
            return self.t.data
        raise Unsupported("concrete index needed for a symbolic integer")

    def __float__(self):
        if isc(self.t):
            return float(self.t.data)
        raise Unsupported("concrete float needed")

    def __format__(self, spec):
        return f"<{self.t}>"

    __str__ = __repr__ = lambda self: f"<{self.t!r}>"


def isnum(x):
    return isinstance(x, (Num, SB, int, float, Fraction)) and True


def toE(x):
    """extended float of any scalar"""
    if isinstance(x, SF):
        return x.e
    if isinstance(x, SI):
        return EF(toR(x.t))
    if isinstance(x, SB):
        return num(x.t)
    if isinstance(x, (bool, int, float, Fraction)):
        return num(x)
    if isinstance(x, EF):
        return x
    if type(x).__name__ == "NAType":
        return NAN
    raise Unsupported(f"number from {type(x).__name__}")


def toI(x):
    """integer term of any integer scalar"""
    if isinstance(x, SI):
        return x.t
    if isinstance(x, bool):
        return I(int(x))
    if isinstance(x, int):
        return I(x)
    if isinstance(x, T) and x.sort == "I":
        return x
    if isinstance(x, SF) and x.e.simple and isc(x.e.v) and x.e.v.data.denominator == 1:
        raise PathRaise(TypeError("float used as an integer"))
    if isinstance(x, float) or isinstance(x, SF):
        raise PathRaise(TypeError("float used as an integer"))
    raise Unsupported(f"integer from {type(x).__name__}")


def isint(x):
    return isinstance(x, (SI, int)) and not isinstance(x, bool)


def arith(op, a, b):
    if not isnum(a) or not isnum(b):
        return NotImplemented
    if isinstance(a, SB):
        a = SI(ite(a.t, ONE, ZERO))
    if isinstance(b, SB):
        b = SI(ite(b.t, ONE, ZERO))
    if isinstance(a, (SI, int)) and isinstance(b, (SI, int)):
        x, y = toI(a), toI(b)
        if op == "add":
            return SI(add(x, y))
        if op == "sub":
            return SI(sub(x, y))
        if op == "mul":
            return SI(mul(x, y))
        if op == "floordiv":
            if isc(y) and y.data > 0:
                return SI(floor(scale(Fraction(1, y.data), toR(x))))
            raise Unsupported("integer division by a symbolic value")
        if op == "mod":
            if isc(y) and y.data > 0:
                return SI(sub(x, scale(y.data, floor(scale(Fraction(1, y.data), toR(x))))))
            raise Unsupported("modulus by a symbolic value")
        # true division of Python ints
        z = eq(y, ZERO)
        if z is not FALSE and ctx().decide(z):
            raise PathRaise(ZeroDivisionError("division by zero"))
        return SF(EF(mul(toR(x), inv(toR(y)))))
    x, y = toE(a), toE(b)
    if op == "add":
        return SF(e_add(x, y))
    if op == "sub":
        return SF(e_sub(x, y))
    if op == "mul":
        return SF(e_mul(x, y))
    if op == "div":
        return SF(e_div(x, y))
    if op == "floordiv":
        return SF(e_floor(e_div(x, y)))
    raise Unsupported(op)


def power(a, b):
    if isinstance(b, (SF,)) and b.e.simple and isc(b.e.v):
        b = b.e.v.data
    if isinstance(b, SI) and isc(b.t):
        b = b.t.data
    if isinstance(b, float):
        b = Fraction(repr(b))
    if isinstance(b, (int, Fraction)):
        b = Fraction(b)
        if b.denominator == 1:
            n = int(b)
            if isinstance(a, (SI, int)) and n >= 0:
                r = SI(ONE)
                for _ in range(n):
                    r = r * a
                return r
            x = toE(a)
            p = e_powi(x, abs(n))
            return SF(p if n >= 0 else e_div(num(1), p))
        if b == Fraction(1, 2):
            return SF(e_sqrt(toE(a)))
    raise Unsupported("power with a symbolic exponent")


def cmp_(a, b, op):
    if b is None or isinstance(b, str):
        return op == "ne" if op in ("eq", "ne") else NotImplemented
    if not isnum(a) or not isnum(b):
        return NotImplemented
    if isinstance(a, (SI, int)) and isinstance(b, (SI, int)):
        x, y = toI(a), toI(b)
        f = {"lt": lt, "le": le, "gt": gt, "ge": ge, "eq": eq, "ne": ne}[op]
        return mkb(f(x, y))
    if isinstance(a, (SB, bool)) and isinstance(b, (SB, bool)):
        x, y = asB(a), asB(b)
        if op == "eq":
            return mkb(iff(x, y))
        if op == "ne":
            return mkb(not_(iff(x, y)))
    x, y = toE(a), toE(b)
    return mkb(e_cmp(op, x, y))


def e_cmp(op, x, y):
    if op == "lt":
        return e_lt(x, y)
    if op == "le":
        return e_le(x, y)
    if op == "gt":
        return e_lt(y, x)
    if op == "ge":
        return e_le(y, x)
    if op == "eq":
        return e_eq(x, y)
    return not_(e_eq(x, y))


def mkb(t):
    return SB(t)


def sym_trunc(x):
    e = toE(x)
    bad = or_(e.nan, e.inf)
    if bad is not FALSE and ctx().decide(bad):
        raise PathRaise(ValueError("cannot convert float NaN/inf to integer"))
    lb, _ = bounds(e.v)
    if lb is not None and lb >= 0:
        return SI(floor(e.v))
    return SI(ite(ge(e.v, RZERO), floor(e.v), neg(floor(neg(e.v)))))


def sym_int_floor(x):
    return SI(floor(toE(x).v))


# ------------------------------------------------------------------ shadowed builtins
import builtins as _bi


class _ShadowMeta(type):
    def __instancecheck__(cls, x):
        return cls._check(x)

    def __eq__(cls, o):
        return cls is o or o is cls._real

    def __hash__(cls):
        return hash(cls._real)

    def __repr__(cls):
        return repr(cls._real)


class int_(metaclass=_ShadowMeta):
    _real = int

    @staticmethod
    def _check(x):
        return isinstance(x, (int, SI)) and not isinstance(x, SF)

    def __new__(cls, x=0, *a):
        if isinstance(x, (SF,)):
            return sym_trunc(x)
        if isinstance(x, SI):
            return x
        if isinstance(x, SB):
            return SI(ite(x.t, ONE, ZERO))
        if isinstance(x, Fraction):
            return int(x)
        return int(x, *a)


class float_(metaclass=_ShadowMeta):
    _real = float

    @staticmethod
    def _check(x):
        return isinstance(x, (float, SF))

    def __new__(cls, x=0):
        if isinstance(x, str):
            return SF(num(float(x)))
        return SF(toE(x))


class bool_(metaclass=_ShadowMeta):
    _real = bool

    @staticmethod
    def _check(x):
        return isinstance(x, (bool, SB))

    def __new__(cls, x=False):
        if isinstance(x, Num):
            return SB(asB(x))
        if isinstance(x, SB):
            return x
        return bool(x)


def len_(x):
    f = getattr(type(x), "_symlen", None)
    if f is not None:
        return f(x)
    return len(x)


def mkint(t):
    return t.data if isc(t) else SI(t)


class SymRange:
    """range with symbolic bounds and step 1 or -1"""

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = lo, hi, step

    def count(self):
        return imax(ZERO, sub(self.hi, self.lo) if self.step == 1 else sub(self.lo, self.hi))

    def _symlen(self):
        return mkint(self.count())

    def item(self, j):
        return SI(add(self.lo, j) if self.step == 1 else sub(self.lo, j))

    def bind(self, i):
        """value for loop variable when the iteration variable is the index itself"""
        return SI(i)

    def __iter__(self):
        raise Unsupported("iteration over a symbolic range outside a supported loop")

    def __getitem__(self, j):
        return self.item(toI(j))

    def __reversed__(self):
        raise Unsupported("reversed symbolic range")


def range_(*a):
    if len(a) == 1:
        lo, hi, st = 0, a[0], 1
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], 1
    else:
        lo, hi, st = a
    lo, hi = toI(lo), toI(hi)
    if isinstance(st, SI) and isc(st.t):
        st = st.t.data
    if isc(lo) and isc(hi) and isinstance(st, int):
        return range(lo.data, hi.data, st)
    if st not in (1, -1):
        raise Unsupported("symbolic range with a step")
    return SymRange(lo, hi, st)


class SymEnum:
    def __init__(self, xs, start):
        self.xs, self.start = xs, start


def enumerate_(xs, start=0):
    if isinstance(xs, (SymRange, SymZip, SymEnum)) or hasattr(type(xs), "_symlen") and not isc(toI(len_(xs))):
        return SymEnum(xs, start)
    if hasattr(type(xs), "_concrete_iter"):
        xs = xs._concrete_iter()
    return enumerate(xs, start)


class SymZip:
    def __init__(self, xs):
        self.xs = xs


def zip_(*xs):
    if any(hasattr(type(x), "_symlen") and not isc(toI(len_(x))) for x in xs) or any(isinstance(x, SymEnum) for x in xs):
        return SymZip(xs)
    return zip(*[x._concrete_iter() if hasattr(type(x), "_concrete_iter") else x for x in xs])


def abs_(x):
    return abs(x)


def _pick(a, b, less):
    """python min/max of two scalars: first wins ties"""
    if isinstance(a, (SI, int)) and isinstance(b, (SI, int)) and not isinstance(a, bool):
        return mkint((imin if less else imax)(toI(a), toI(b)))
    x, y = toE(a), toE(b)
    c = e_lt(y, x) if less else e_lt(x, y)
    return SF(e_ite(c, y, x))


def _minmax_(less):
    def f(*a, **k):
        if k:
            raise Unsupported("min/max with key")
        if len(a) == 1:
            x = a[0]
            m = getattr(type(x), "_pyminmax", None)
            if m:
                return m(x, less)
            a = list(x)
        if all(isinstance(x, (int, float, Fraction)) for x in a):
            return min(*a) if less else max(*a)
        r = a[0]
        for b in a[1:]:
            r = _pick(r, b, less)
        return r
    return f


min_ = _minmax_(True)
max_ = _minmax_(False)


def sum_(xs, start=0):
    f = getattr(type(xs), "_pysum", None)
    if f:
        return f(xs) + start
    r = start
    for x in xs:
        r = r + x
    return r


def round_(x, nd=None):
    if isinstance(x, Num):
        return x.__round__(nd)
    return round(x) if nd is None else round(x, nd)


def any_(xs):
    f = getattr(type(xs), "_pyany", None)
    if f:
        return f(xs)
    r = False
    for x in xs:
        r = SB(or_(asB(r), asB(x))) if isinstance(x, Sym) or isinstance(r, Sym) else (r or bool(x))
    return r


def all_(xs):
    r = True
    for x in xs:
        r = SB(and_(asB(r), asB(x))) if isinstance(x, Sym) or isinstance(r, Sym) else (r and bool(x))
    return r


def id_(x):
    if isinstance(x, Sym):
        raise Unsupported("identity of a symbolic value")
    return _bi.id(x)


SHADOW = {"id": id_, "int": int_, "float": float_, "bool": bool_, "len": len_, "range": range_, "enumerate": enumerate_,
          "zip": zip_, "abs": abs_, "min": min_, "max": max_, "sum": sum_, "round": round_, "any": any_, "all": all_}
