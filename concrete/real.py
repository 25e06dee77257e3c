"""Running the real library on a case."""
import os
import sys
import warnings

REPO = os.environ.get("VC_REPO", "/repo")
sys.dont_write_bytecode = True
if REPO not in sys.path:
    sys.path.insert(0, REPO)
warnings.simplefilter("ignore")

import importlib
import importlib.machinery
import numpy as np
import pandas as pd

np.seterr(all="ignore")


def make_index(labels, kind):
    if kind == "range":
        return pd.RangeIndex(len(labels))
    if kind == "date":
        return pd.to_datetime(labels, unit="s")
    return pd.Index(labels)


def frame(case):
    idx = make_index(case["labels"], case["index"])
    dt = case.get("dtype", "float64")
    return pd.DataFrame({k: np.array(v, dtype="float64").astype(dt) for k, v in case["data"].items()}, index=idx)


def cls_of(entry):
    return getattr(importlib.import_module("ta." + entry.module), entry.cls)


def construct(entry, case, df=None, fill=None):
    df = frame(case) if df is None else df
    kw = {nm: df[nm] for nm in entry.inputs}
    kw.update(case["params"])
    return cls_of(entry)(**kw, fillna=case["fill"] if fill is None else fill)


def outputs(entry, case, df=None, fill=None):
    o = construct(entry, case, df, fill)
    return {a: getattr(o, a)() for a in entry.out}


CODE = {}


def fresh(entry):
    """the class from a newly loaded copy of the package: no state left by earlier calls"""
    L = importlib.machinery.SourceFileLoader
    get = L.get_code

    def once(self, name):
        if not name.split(".")[0] == "ta":
            return get(self, name)
        if name not in CODE:
            CODE[name] = get(self, name)
        return CODE[name]
    mine = {k: m for k, m in sys.modules.items() if k == "ta" or k.startswith("ta.")}
    for k in mine:
        del sys.modules[k]
    L.get_code = once
    try:
        return getattr(importlib.import_module("ta." + entry.module), entry.cls)
    finally:
        L.get_code = get
        for k in [k for k in sys.modules if k == "ta" or k.startswith("ta.")]:
            del sys.modules[k]
        sys.modules.update(mine)


def prime(entry, case):
    """compute the indicator on other data of the same length and end points, as a caller may have done before"""
    df = frame(case)
    m = len(df)
    if m < 4:
        return
    j = 2 + (m * 7) // 11 % (m - 3)
    order = [0] + list(range(j, m - 1)) + list(range(1, j)) + [m - 1]
    other = pd.DataFrame(df.to_numpy()[order], index=df.index, columns=df.columns).astype(df.dtypes)
    try:
        outputs(entry, case, other)
    except Exception:
        pass
