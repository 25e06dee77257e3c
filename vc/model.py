"""Inputs, parameters and execution of the real classes under the symbolic semantics."""
import inspect

from .load import Loader, explore, leaves, Series, Arr, Buf, Idx, SI, SF, SymList, Unsupported
from .lib import *
from . import sym
from spec.dsl import Q

N = declare(var("n", "I"), 1)


class Inputs:
    pass


PRICE = {}


def _mk():
    for nm in ("open", "high", "low", "close"):
        f = InputFn(nm, ["I"], "R")
        f.positive = True
        f.bnds = (Fraction(0), None)
        PRICE[nm] = f
    f = InputFn("volume", ["I"], "R")
    f.bnds = (Fraction(0), None)
    PRICE["volume"] = f


_mk()
IDX = Idx("input", N, "in")
IDX.caller = True


def spec_inputs():
    S = Inputs()
    S.n = N
    for nm, f in PRICE.items():
        setattr(S, nm, Q(N, (lambda f: lambda t: EF(f(t)))(f)))
    return S


def series(nm, kind="f"):
    f = PRICE[nm]
    s = Series.of(Arr(Buf(Seq(N, lambda t: EF(f(t))), kind, nm)), IDX, nm)
    s.caller = nm
    return s


def param(nm, spec):
    if spec.kind == "I":
        return declare(var(nm, "I"), spec.lo)
    if spec.kind == "R":
        v = var(nm, "R")
        POS.add(v)
        return v
    raise ValueError


def configs(entry):
    """all combinations of the flags; other parameters symbolic.  yields (label, spec params, code kwargs)"""
    out = [("", {}, {})]
    for nm, s in entry.params.items():
        nxt = []
        for lab, sp, cd in out:
            if s.kind == "flag":
                for v in s.values:
                    l2 = f"{lab}{nm}={v} "
                    if v == "window":
                        t = declare(var(nm, "I"), 1)
                        nxt.append((l2, {**sp, nm: t}, {**cd, nm: SI(t)}))
                    else:
                        nxt.append((l2, {**sp, nm: v}, {**cd, nm: v}))
            else:
                t = param(nm, s)
                nxt.append((lab, {**sp, nm: t}, {**cd, nm: SI(t) if s.kind == "I" else SF(EF(t))}))
        out = nxt
    return out


def run_class(loader, entry, cfg, fill, oracle, kind="f", accessors=None, pre=True):
    """explore construction and the accessors; returns the decision tree, leaves hold {accessor: result object}"""
    lab, sp, cd = cfg
    cls = getattr(loader.module("ta." + entry.module), entry.cls)
    hyps = entry.pre(N, sp) if pre else []

    def run():
        kw = {nm: series(nm, kind) for nm in entry.inputs}
        kw.update(cd)
        o = cls(**kw, fillna=fill)
        out = {}
        for a in accessors or entry.out:
            out[a] = freeze(getattr(o, a)())
        return out
    return explore(run, hyps=hyps, oracle=oracle)


class Res:
    """a returned Series, frozen: values at the generic row, index, name"""

    def __init__(self, r):
        if not isinstance(r, Series):
            raise Unsupported(f"accessor returns {type(r).__name__}")
        self.n, self.index, self.name, self.kind = r.n, r.index, r.name, r.kind
        self.seq = r.nseq()
        self.val = self.seq(TV)


def freeze(r):
    return Res(r)
