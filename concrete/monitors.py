"""Judging the real library on one case, property by property.  check(prop, case) -> (number of judgements, failures)."""
import copy
import json
import random
import importlib
import math

import numpy as np
import pandas as pd

from spec.ind import ENTRIES
from spec import laws, api
from . import real, oracle, gen
from .errnum import Ambiguous

FORMULA = {"C01", "C02", "C03", "C04", "C05", "C06", "C07"}


def fail(prop, case, what, accessor=None, row=None, got=None, want=None):
    return dict(property=prop, case=case, what=what, accessor=accessor, row=row,
                got=None if got is None else str(got), want=None if want is None else str(want))


def check(prop, case):
    if prop in FORMULA or prop == "C14":
        n, fs = formula(prop, case)
    else:
        n, fs = globals()["check_" + prop.lower()](prop, case)
    if fs and prop not in FORMULA and prop not in ("C14", "C11", "C12", "C13", "C15", "C16", "C17") and "cross" not in case:
        fs = [f for f in fs if f["row"] is None or steady(case, f)]
    return n, fs


def steady(case, f):
    """False when the row is decided by rounding: it changes when all prices are multiplied by 1 + a few 2^-40"""
    e = ENTRIES[case["cls"]]
    r = f["row"]
    try:
        flt = {k: v for k, v in case.items() if k != "dtype"}
        a = real.outputs(e, case)
        if case.get("dtype"):
            b = real.outputs(e, flt)
            if any(_same(f64(a[k])[r:r + 1], f64(b[k])[r:r + 1], 0.0) is not None for k in a):
                return True     # the integer columns themselves are treated differently
        for k in (1, 3, 7, -5):
            s = 1 + k * 2.0 ** -40
            d = {nm: (v if nm == "volume" else [x * s for x in v]) for nm, v in case["data"].items()}
            if len(case["labels"]) % 3 == 0:
                real.prime(e, {**flt, "data": d})
            b = real.outputs(e, {**flt, "data": d})
            for nm in ([f["accessor"]] if f["accessor"] in a else list(a)):
                x, y = f64(a[nm])[r], f64(b[nm])[r]
                if math.isnan(x) != math.isnan(y) or (not math.isnan(x) and x != y and not abs(x - y) <= 1e-6 * max(abs(x), abs(y), 1e-9)):
                    return False
    except Exception:
        pass
    return True


def run(prop, case, fails, **kw):
    """outputs of the real class; an exception on valid inputs is a failure"""
    e = ENTRIES[case["cls"]]
    try:
        return real.outputs(e, case, **kw)
    except Exception as ex:
        fails.append(fail(prop, case, f"raises {type(ex).__name__}: {str(ex)[:200]}"))
        return None


def valid(case):
    e = ENTRIES[case["cls"]]
    if e.cls in ("ADXIndicator",):
        return len(case["labels"]) >= 2 * case["params"]["window"]
    if e.cls == "AverageTrueRange":
        return len(case["labels"]) >= case["params"]["window"]
    if e.cls == "KeltnerChannel" and not case["params"]["original_version"]:
        return len(case["labels"]) >= case["params"]["window_atr"]
    return True


def formula(prop, case):
    fails, n = [], 0
    s = oracle.Spec(case)
    if not s.ok:
        return 0, []
    if len(case["labels"]) % 3 == 0:
        real.prime(ENTRIES[case["cls"]], case)
    out = run(prop, case, fails)
    if out is None:
        return 1, fails
    for a, r in out.items():
        xs = np.asarray(r, dtype="float64")
        n += 1
        if len(xs) != s.n:
            fails.append(fail(prop, case, "wrong number of rows", a, None, len(xs), s.n))
            continue
        want = []
        for i in range(s.n):
            try:
                want.append(s.at(a, i))
            except Ambiguous:
                want.append(Ambiguous)
        mag = max((abs(w.f) for w in want if hasattr(w, "f") and math.isfinite(w.f)), default=0.0)
        for i, w in enumerate(want):
            if w is Ambiguous:
                continue
            n += 1
            try:
                ok = oracle.agrees(w, float(xs[i]))
            except Ambiguous:
                continue
            if not ok and hasattr(w, "f") and abs(xs[i] - w.f) <= 1e-12 * mag:
                ok = True
            if not ok:
                f = fail(prop, case, "value differs from the specification", a, i, xs[i], "missing" if w is None else w)
                if steady(case, f):
                    fails.append(f)
                    break
    return n, fails


# ------------------------------------------------------------------ ranges and laws
def _tol(*xs):
    return 1e-9 * max([1e-12] + [abs(x) for x in xs if math.isfinite(x)])


def check_c08(prop, case):
    fails, n = [], 0
    rs = laws.ranges(case["cls"], case["params"])
    if not rs or not valid(case):
        return 0, []
    out = run(prop, case, fails)
    if out is None:
        return 0, []     # not this property's business
    for a, (lo, hi) in rs.items():
        xs = np.asarray(out[a], dtype="float64")
        n += len(xs)
        for i, x in enumerate(xs):
            if math.isnan(x):
                continue
            if (lo is not None and x < lo - 1e-7 * max(1, abs(lo))) or (hi is not None and x > hi + 1e-7 * max(1, abs(hi))):
                fails.append(fail(prop, case, f"outside the documented range [{lo}, {hi}]", a, i, x, (lo, hi)))
                break
    return n, fails


class Num(float):
    """float arithmetic with IEEE division"""
    def __truediv__(self, o): return Num(np.float64(self) / np.float64(o))
    def __rtruediv__(self, o): return Num(np.float64(o) / np.float64(self))
    def __add__(self, o): return Num(float(self) + o)
    __radd__ = __add__
    def __sub__(self, o): return Num(float(self) - o)
    def __rsub__(self, o): return Num(o - float(self))
    def __mul__(self, o): return Num(float(self) * o)
    __rmul__ = __mul__


def law_holds(kind, a, b, scale, still=False):
    if kind.startswith("flag"):
        x, y = b
        if still and x == y:
            return a == 0.0     # no rounding anywhere: on the band is not beyond it
        if abs(x - y) <= 1e-10 * scale:
            return True
        want = (x > y) if kind == "flag>" else (x < y)
        return a == (1.0 if want else 0.0)
    if kind == "same":
        if math.isnan(a) or math.isnan(b):
            return math.isnan(a) and math.isnan(b)
        if math.isinf(a) or math.isinf(b):
            return a == b
        return abs(a - b) <= 1e-9 * max(scale, abs(a), abs(b))
    if math.isnan(a) or math.isnan(b) or math.isinf(a) or math.isinf(b):
        return True
    if kind == "le":
        return a <= b + 1e-9 * scale
    return abs(a - b) <= 1e-9 * max(scale, abs(a), abs(b))


def _laws(prop, case, fn, classes):
    fails, n = [], 0
    if case["cls"] not in classes or case["fill"] or not valid(case):
        return 0, []
    out = run(prop, case, [])
    if out is None:
        return 0, []
    cols = {a: np.asarray(r, dtype="float64") for a, r in out.items()}
    if len({len(x) for x in cols.values()} | {len(case["labels"])}) != 1:
        return 0, []
    d = case["data"]
    for i in range(len(case["labels"])):
        still = all(d[k][j] == d["close"][0] for k in ("high", "low", "close") for j in range(i + 1)) and d["close"][0] * 8 == int(d["close"][0] * 8) \
            if i < 40 else False
        o = {a: Num(x[i]) for a, x in cols.items()}
        I = {k: Num(v[i]) for k, v in case["data"].items()}
        scale = max([abs(x) for x in o.values() if math.isfinite(x)] + [I["high"]])
        for nm, kind, a, b in fn(case["cls"], o, I, case["params"]):
            n += 1
            if kind.startswith("flag"):
                # compared in the unit of the prices; the widths and percentages have no unit
                top = max(max(d["high"]), *(abs(v) for v in b if math.isfinite(v)), 0.0)
                if not law_holds(kind, a, b, top, still):
                    fails.append(fail(prop, case, "law fails: " + nm, None, i, a, b))
                    return n, fails
                continue
            if not law_holds(kind, a, b, scale * (100 if "wband" in nm or "100" in nm else 1), still):
                fails.append(fail(prop, case, "law fails: " + nm, None, i, a, b))
                return n, fails
    return n, fails


def check_c09(prop, case):
    return _laws(prop, case, laws.c09, laws.C09)


def check_c20(prop, case):
    if "cross" in case:
        return cross(prop, case)
    return _laws(prop, case, laws.c20, laws.C20)


def cross(prop, case):
    nm, x, y, rel = laws.CROSS[case["cross"]]
    val = []
    for cls, a, ps in (x, y):
        p = {k: (case["params"][v] if isinstance(v, str) else v) for k, v in ps.items()}
        try:
            val.append(np.asarray(real.outputs(ENTRIES[cls], {**case, "params": p})[a], dtype="float64"))
        except Exception:
            return 0, []
    for i, (a, b) in enumerate(zip(*val)):
        a, b = rel(Num(a), Num(b))
        if not law_holds("same", a, b, 100.0 if "100" in nm or "return" in nm else max(case["data"]["high"])):
            return i + 1, [fail(prop, case, "identity fails: " + nm, None, i, a, b)]
    return len(val[0]), []


def check_c18(prop, case):
    fails, n = [], 0
    es = {a: v for (c, a), v in laws.ENVELOPE.items() if c == case["cls"]}
    if not es or case["fill"] or not valid(case):
        return 0, []
    p = case["params"]
    if case["cls"] == "DonchianChannel" and p["offset"]:
        return 0, []
    if p.get("visual"):
        return 0, []
    out = run(prop, case, [])
    if out is None:
        return 0, []
    d = case["data"]
    for a, (lo, hi, w) in es.items():
        xs = np.asarray(out[a], dtype="float64")
        if len(xs) != len(case["labels"]):
            continue
        for i, x in enumerate(xs):
            if math.isnan(x):
                continue
            n += 1
            s = 0 if w is None else max(0, i - p[w] + 1)
            m, M = min(d[lo][s:i + 1]), max(d[hi][s:i + 1])
            if not (m * (1 - 1e-9) <= x <= M * (1 + 1e-9)):
                fails.append(fail(prop, case, f"outside the range [{m}, {M}] of the values averaged", a, i, x, (m, M)))
                break
    return n, fails


# ------------------------------------------------------------------ relations between runs
def _same(xs, ys, tol=1e-9, rows=None):
    """first row where the two differ"""
    for i, (x, y) in enumerate(zip(xs, ys)):
        if rows is not None and i not in rows:
            continue
        if math.isnan(x) != math.isnan(y):
            return i
        if not math.isnan(x) and x != y and not abs(x - y) <= tol * max(abs(x), abs(y), 1e-12):
            return i
    return None


def f64(r):
    return np.asarray(r, dtype="float64")


def check_c10(prop, case):
    """outputs of the first rows do not change when the later rows are removed or replaced"""
    fails, n = [], 0
    if not valid(case):
        return 0, []
    N = len(case["labels"])
    cut = case["cut"]
    if not 0 < cut < N:
        return 0, []
    short = {**case, "data": {k: v[:cut] for k, v in case["data"].items()}, "labels": case["labels"][:cut]}
    other = {**case, "data": {k: v[:cut] + case["tail"][k][cut:] for k, v in case["data"].items()}}
    full = run(prop, case, [])
    if full is None:
        return 0, []
    e = ENTRIES[case["cls"]]
    for what, c in (("truncated", short), ("with other later rows", other)):
        if not valid(c):
            continue
        out = run(prop, c, fails)
        if out is None:
            return n, fails
        for a in out:
            x, y = f64(full[a])[:cut], f64(out[a])[:cut]
            if len(x) != len(y):
                continue
            rows = None
            if case["fill"] and e.out[a] == -1:
                # the leading gap is filled from later rows by documentation: rows without a value of their own are exempt
                raw = run(prop, {**c, "fill": False}, [])
                raw = f64(raw[a])
                k = next((i for i, v in enumerate(y) if i < len(raw) and math.isfinite(raw[i])), cut)
                rows = range(k, cut)
            i = _same(x, y, rows=rows)
            n += cut
            if i is not None:
                fails.append(fail(prop, case, f"row {i} changes when the series is {what} from row {cut}", a, i, y[i], x[i]))
    return n, fails


def check_c11(prop, case):
    """the output has the input's index; values do not depend on the labels"""
    fails, n = [], 0
    if not valid(case):
        return 0, []
    base = run(prop, {**case, "index": "range", "labels": list(range(len(case["labels"])))}, [])
    if base is None:
        return 0, []
    df = real.frame(case)
    out = run(prop, case, fails)
    if out is None:
        return 1, fails
    for a, r in out.items():
        n += 1
        if not isinstance(r, pd.Series):
            fails.append(fail(prop, case, f"returns {type(r).__name__}, not a Series", a))
            continue
        if len(r) != len(df):
            fails.append(fail(prop, case, "number of rows differs from the input", a, None, len(r), len(df)))
            continue
        if not r.index.equals(df.index):
            fails.append(fail(prop, case, "index differs from the input's", a, None, list(r.index[:3]), list(df.index[:3])))
            continue
        i = _same(f64(r), f64(base[a]), 0.0)
        if i is not None:
            fails.append(fail(prop, case, "value depends on the index labels", a, i, f64(r)[i], f64(base[a])[i]))
    return n, fails


def history(prop, case):
    """results after other indicators were computed, on the same and on other data, against a newly loaded package"""
    e = ENTRIES[case["cls"]]
    fails, n = [], 0
    rnd = random.Random(json.dumps([case["params"], case["data"]["close"][:8], len(case["labels"])]))
    C = real.cls_of(e)
    df = real.frame(case)
    new = lambda f, p: {**{nm: pd.Series(f[nm].to_numpy().copy(), index=f.index, name=nm) for nm in e.inputs}, **p}
    p, fill = case["params"], case["fill"]
    q = {k: v for k, v in gen.params(rnd, e, "small").items()}
    if not valid(dict(case, params=q)):
        q = p
    # other data that agree with these in length, index, end points and sums: two blocks of rows swapped
    m = len(df)
    other = df
    if m >= 4:
        j = rnd.randint(2, m - 2)
        order = [0] + list(range(j, m - 1)) + list(range(1, j)) + [m - 1]
        other = pd.DataFrame(df.to_numpy()[order], index=df.index, columns=df.columns).astype(df.dtypes)

    def read(o):
        return {a: getattr(o, a)().copy(deep=True) for a in e.out}
    try:
        F = real.fresh(e)
        want = [read(F(**new(df, p), fillna=fill)), None]
        want[1] = read(real.fresh(e)(**new(other, p), fillna=fill))
        objs = {nm: pd.Series(df[nm].to_numpy().copy(), index=df.index, name=nm) for nm in e.inputs}
        first = C(**objs, **p, fillna=fill)
        rest = [C(**objs, **pp, fillna=ff) for pp, ff in ((p, not fill), (q, fill), (q, not fill))]
        for o in rest:
            read(o)
        mid = read(first)
        got = [read(C(**objs, **p, fillna=fill)), None]
        if rnd.random() < 0.5:      # the caller overwrites his own series; otherwise he passes new ones
            for nm in e.inputs:
                objs[nm].to_numpy()[:] = other[nm].to_numpy()
        else:
            objs = new(other, {})
        got[1] = read(C(**objs, **p, fillna=fill))
    except Exception:
        return 0, []
    for what, g, w in (("while other instances are in use", mid, want[0]),
                       ("after the same series were used with other settings", got[0], want[0]),
                       ("after other data of the same length and end points were used", got[1], want[1])):
        for a in e.out:
            n += 1
            i = _same(f64(g[a]), f64(w[a]), 0.0) if len(g[a]) == len(w[a]) else -1
            if i is not None:
                fails.append(fail(prop, case, f"another result {what}", a, i, f64(g[a])[i], f64(w[a])[i]))
    return n, fails


def check_c12(prop, case):
    """inputs unchanged; outputs repeatable and independent of the order of calls"""
    fails, n = [], 0
    if not valid(case):
        return 0, []
    e = ENTRIES[case["cls"]]
    df = real.frame(case)
    keep = df.copy(deep=True)
    sers = {nm: df[nm].copy() for nm in e.inputs}
    kp = {nm: s.copy(deep=True) for nm, s in sers.items()}
    try:
        kw = {**sers, **case["params"]}
        o = real.cls_of(e)(**kw, fillna=case["fill"])
        first = {a: getattr(o, a)().copy(deep=True) for a in e.out}
        second = {a: getattr(o, a)() for a in reversed(list(e.out))}
        third = {}
        for a in e.out:
            third[a] = getattr(real.cls_of(e)(**kw, fillna=case["fill"]), a)()
    except Exception:
        return 0, []
    for nm in e.inputs:
        n += 1
        try:
            pd.testing.assert_series_equal(sers[nm], kp[nm], check_exact=True)
        except AssertionError:
            fails.append(fail(prop, case, f"the input {nm} was modified", None))
    # the same on columns of a frame
    try:
        o2 = real.construct(e, case, df)
        for a in e.out:
            getattr(o2, a)()
        pd.testing.assert_frame_equal(df, keep, check_exact=True)
    except AssertionError:
        fails.append(fail(prop, case, "the caller's frame was modified", None))
    except Exception:
        pass
    for what, other in (("a second call (reverse order)", second), ("an instance on which only it is called", third)):
        for a in e.out:
            n += 1
            i = _same(f64(first[a]), f64(other[a]), 0.0) if len(first[a]) == len(other[a]) else -1
            if i is not None:
                fails.append(fail(prop, case, f"{what} gives another result", a, i, f64(other[a])[i], f64(first[a])[i]))
    if not fails:
        k, fs = history(prop, case)
        n += k
        fails += fs
    return n, fails


def check_c13(prop, case):
    """fillna=True leaves no missing or infinite value"""
    fails, n = [], 0
    if not valid(case):
        return 0, []
    out = run(prop, {**case, "fill": True}, [])
    if out is None:
        return 0, []
    for a, r in out.items():
        x = f64(r)
        n += len(x)
        bad = np.flatnonzero(~np.isfinite(x))
        if len(bad):
            fails.append(fail(prop, {**case, "fill": True}, "gap left although gap filling is on", a, int(bad[0]), x[bad[0]]))
    return n, fails


def check_c19(prop, case):
    """change of the units of price and volume"""
    fails, n = [], 0
    if not valid(case) or case["fill"]:
        return 0, []
    base = run(prop, case, [])
    if base is None:
        return 0, []
    cp, cv = case["scale"]
    d2 = {k: [x * (cv if k == "volume" else cp) for x in v] for k, v in case["data"].items()}
    out = run(prop, {**case, "data": d2}, fails)
    if out is None:
        return 1, fails
    for a in out:
        dp, dv = laws.degree(case["cls"], a)
        f = cp ** dp * cv ** dv
        x, y = f64(base[a]) * f, f64(out[a])
        n += len(x)
        if len(x) != len(y):
            continue
        mag = np.nanmax(np.abs(np.where(np.isfinite(x), x, 0)), initial=0)
        for i in range(len(x)):
            if _same(x[i:i + 1], y[i:i + 1]) is not None and not abs(x[i] - y[i]) <= 1e-9 * mag:
                fails.append(fail(prop, case, f"prices x {cp}, volumes x {cv}: expected the value x {f}", a, i, y[i], x[i]))
                break
    return n, fails


# ------------------------------------------------------------------ function API and wrappers
def check_c15(prop, case):
    import inspect
    nm = case["fn"]
    spec = api.FUNCTIONS[nm]
    mod, cls, acc, defaults = spec[:4]
    fixed = spec[4] if len(spec) > 4 else {}
    e = ENTRIES[cls]
    df = real.frame(case)
    ins = {k: df[k] for k in e.inputs}
    ps = {k: v for k, v in case["params"].items()}       # explicitly given ones
    try:
        fn = getattr(importlib.import_module("ta." + mod), nm)
        c = real.cls_of(e)
    except AttributeError as ex:
        return 1, [fail(prop, case, f"missing from the API: {ex}", nm)]
    kw = {**defaults, **ps, **{k: v for k, v in fixed.items()}}
    r1 = r2 = ex1 = None
    try:
        r2 = getattr(c(**ins, **kw, fillna=case["fill"]), acc)()
    except Exception:
        return 0, []
    try:
        r1 = fn(**ins, **ps, fillna=case["fill"]) if case["fill"] or not case.get("omit_fill") else fn(**ins, **ps)
    except Exception as ex:
        return 1, [fail(prop, case, f"raises {type(ex).__name__}: {str(ex)[:160]} where the class does not", nm)]
    i = _same(f64(r1), f64(r2), 0.0) if len(r1) == len(r2) else -1
    if i is not None:
        return 1, [fail(prop, case, "differs from the class API", nm, i, f64(r1)[i], f64(r2)[i])]
    if not case.get("ctor_defaults"):
        return len(r1), []
    # published defaults of the constructor
    want = {k: s.default for k, s in e.params.items() if s.default is not None}
    need = {k: 3 for k, s in e.params.items() if s.default is None and s.kind != "flag"}
    try:
        a = getattr(c(**ins, **need), acc)()
    except Exception as ex:
        return 1, [fail(prop, case, f"constructor with defaults raises {type(ex).__name__}: {str(ex)[:160]}", nm)]
    b = getattr(c(**ins, **{**want, **need}, fillna=False), acc)()
    i = _same(f64(a), f64(b), 0.0)
    if i is not None:
        return 1, [fail(prop, case, "constructor defaults are not the published ones", cls + "." + acc, i, f64(a)[i], f64(b)[i])]
    return 2 * len(r1), []


GROUPS = {
    "add_volume_ta": (api.VOLUME, ("high", "low", "close", "volume")),
    "add_volatility_ta": (api.VOLATILITY, ("high", "low", "close")),
    "add_trend_ta": (api.TREND, ("high", "low", "close")),
    "add_momentum_ta": (api.MOMENTUM, ("high", "low", "close", "volume")),
    "add_others_ta": (api.OTHERS, ("close",)),
    "add_all_ta_features": ({**api.VOLUME, **api.VOLATILITY, **api.TREND, **api.MOMENTUM, **api.OTHERS},
                            ("open", "high", "low", "close", "volume")),
}


def check_c16(prop, case):
    import ta
    fails, n = [], 0
    nm = case["fn"]
    table, ins = GROUPS[nm]
    df = real.frame(case)
    names = case["names"]
    df = df.rename(columns=names)
    df["other"] = np.arange(len(df)) * 1.5
    keep = df.copy(deep=True)
    kw = dict(fillna=case["fill"], colprefix=case["prefix"])
    if nm != "add_others_ta":
        kw["vectorized"] = case["vectorized"]
    if case.get("omit"):
        kw = {k: v for k, v in kw.items() if v}
    try:
        fn = getattr(ta, nm)
        r = fn(df, **{k: names[k] for k in ins}, **kw)
    except Exception as ex:
        return 1, [fail(prop, case, f"{nm} raises {type(ex).__name__}: {str(ex)[:200]}", nm)]
    want = {case["prefix"] + c: v for c, v in table.items() if v[3] or not case["vectorized"]}
    got = [c for c in r.columns if c not in keep.columns]
    if set(got) != set(want):
        return 1, [fail(prop, case, f"columns added: missing {sorted(set(want) - set(got))[:4]}, unexpected {sorted(set(got) - set(want))[:4]}", nm)]
    if len(got) != len(set(got)) or list(r.columns[:keep.shape[1]]) != list(keep.columns):
        return 1, [fail(prop, case, "duplicate or reordered columns", nm)]
    try:
        pd.testing.assert_frame_equal(r[list(keep.columns)], keep, check_exact=True)
    except AssertionError:
        return 1, [fail(prop, case, "an original column or the index was changed", nm)]
    objs = {}
    for col, (cls, acc, ps, _) in want.items():
        e = ENTRIES[cls]
        key = (cls, str(ps))
        if key not in objs:
            objs[key] = real.cls_of(e)(**{k: keep[names[k]] for k in e.inputs}, **ps, fillna=case["fill"])
        x = f64(getattr(objs[key], acc)())
        n += len(x)
        i = _same(f64(r[col]), x, 0.0)
        if i is not None:
            fails.append(fail(prop, case, f"column {col} is not {cls}.{acc} with {ps}", col, i, f64(r[col])[i], x[i]))
            break
    return n, fails


def c17_frame(case):
    d = {}
    for name, kind, xs in case["columns"]:
        if kind in ("float", "float32"):
            d[name] = np.array([{"nan": np.nan, "inf": np.inf, "-inf": -np.inf}.get(x, x) if isinstance(x, str) else x for x in xs],
                               dtype="float32" if kind == "float32" else "float64")
        elif kind in ("int", "int32"):
            d[name] = np.array(xs, dtype="int64" if kind == "int" else "int32")
        elif kind == "date":
            d[name] = pd.to_datetime(pd.Series(xs, dtype=object), unit="s").to_numpy()
        elif kind == "bool":
            d[name] = np.array(xs, dtype=bool)
        else:
            d[name] = pd.Series(xs, dtype=object).to_numpy()
    return pd.DataFrame(d, index=real.make_index(case["labels"], case["index"]))


def check_c17(prop, case):
    from ta.utils import dropna
    df = c17_frame(case)
    keep = df.copy(deep=True)
    n = len(df)
    big = math.exp(709)
    ok = []
    for i in range(n):
        good = True
        for name, kind, xs in case["columns"]:
            v = xs[i]
            if kind in ("float", "int", "float32", "int32"):
                v = {"nan": math.nan, "inf": math.inf, "-inf": -math.inf}[v] if isinstance(v, str) else v
                good = good and not (math.isnan(v) or v == 0 or v >= big)
            elif kind in ("obj", "date"):
                good = good and v is not None
        ok.append(good)
    try:
        r = dropna(df)
    except Exception as ex:
        return 1, [fail(prop, case, f"raises {type(ex).__name__}: {str(ex)[:200]}", "dropna")]
    try:
        pd.testing.assert_frame_equal(df, keep, check_exact=True)
    except AssertionError:
        return 1, [fail(prop, case, "the caller's frame was modified", "dropna")]
    want = keep[np.array(ok, dtype=bool)]
    if list(r.columns) != list(want.columns):
        return 1, [fail(prop, case, "columns changed", "dropna")]
    if len(r) != len(want) or not r.index.equals(want.index):
        return 1, [fail(prop, case, "kept the wrong rows", "dropna", None, list(r.index), list(want.index))]
    for c in want.columns:
        a, b = list(r[c]), list(want[c])
        if any(not (x == y) for x, y in zip(a, b)):
            return 1, [fail(prop, case, f"values of column {c} changed", "dropna", None, a[:5], b[:5])]
    return n, []
