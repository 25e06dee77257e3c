"""The specification of an indicator, evaluated row by row on concrete data."""
import math

from vc.model import N, spec_inputs, configs
from vc.lib import TV, var
from vc.evalt import Env
from vc.ef import EF
from spec.ind import ENTRIES
from spec.dsl import fill_policy
from .errnum import V, Ambiguous, num

S = spec_inputs()
_cache = {}


def spec_terms(cls, params, fill):
    e = ENTRIES[cls]
    flags = {k: ("window" if isinstance(v, int) and not isinstance(v, bool) else v) for k, v in params.items() if e.params[k].kind == "flag"}
    key = (cls, tuple(sorted((k, str(v)) for k, v in flags.items())), fill)
    r = _cache.get(key)
    if r is None:
        for lab, sp, cd in configs(e):
            if all((sp[k] is v if v != "window" else getattr(sp[k], "op", None) == "v") for k, v in flags.items()):
                break
        else:
            raise KeyError(key)
        out = {}
        for a, q in e.fn(S, sp, fill).items():
            if fill and e.out[a] is not None:
                q = fill_policy(q, S.close if e.out[a] == "close" else e.out[a])
            out[a] = q(TV)
        r = out, e.pre(N, sp)
        _cache[key] = r
    return r


def env_of(case):
    e = ENTRIES[case["cls"]]
    n = len(case["data"]["close"])
    env = {N: n}
    for nm, v in case["params"].items():
        k = e.params[nm].kind
        if k == "I" or (k == "flag" and isinstance(v, int) and not isinstance(v, bool)):
            env[var(nm, "I")] = v
        elif k == "R":
            env[var(nm, "R")] = num(v)
    return Env(env, {k: [V(x) for x in xs] for k, xs in case["data"].items()}, "err")


def value(env, e, loc):
    """None (missing), a float, or V"""
    if env.ev(e.nan, loc):
        return None
    if env.ev(e.pi, loc):
        return math.inf
    if env.ev(e.ni, loc):
        return -math.inf
    return env.ev(e.v, loc)


class Spec:
    def __init__(self, case):
        self.terms, self.pre = spec_terms(case["cls"], case["params"], case["fill"])
        self.env = env_of(case)
        self.n = len(case["data"]["close"])
        self.ok = all(self.env(h) for h in self.pre)
        self.locs = [{TV: i, "$memo": {}} for i in range(self.n)]

    def at(self, a, i):
        """expected value; raises Ambiguous when rounding decides"""
        return value(self.env, self.terms[a], self.locs[i])


def agrees(want, got):
    """got: the float returned by the library"""
    if want is None:
        return math.isnan(got)
    if math.isnan(got):
        return False
    if isinstance(want, V):
        if not math.isfinite(want.f):
            raise Ambiguous
        if want.e > 1e-3 * max(abs(want.f), 1e-9) and want.e > 1e-9:
            raise Ambiguous
        return abs(got - want.f) <= 8 * want.e + 1e-11 * abs(want.f) + 1e-300
    if want in (math.inf, -math.inf):
        return got == want
    return got == want
