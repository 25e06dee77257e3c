"""Idioms of pandas/numpy: each function is executed symbolically under the assumed contracts and on real pandas.

x, y: price series (positive), v: volume series (zeros and ties included), w: integer window."""
import math
import numpy as np
import pandas as pd


def gaps(x):
    """a series with missing values in the middle and zeros"""
    return (x.diff() / x.diff()) * x


# ---- shifts and differences
def shift1(x, y, v, w): return x.shift(1)
def shiftw(x, y, v, w): return x.shift(w)
def shift_fill(x, y, v, w): return x.shift(1, fill_value=0.0)
def shift_neg(x, y, v, w): return x.shift(-w)
def diff1(x, y, v, w): return x.diff()
def diffw(x, y, v, w): return x.diff(w)
def pct(x, y, v, w): return x.pct_change()
def pctw(x, y, v, w): return x.pct_change(w)
def npdiff(x, y, v, w): return pd.Series(np.append(np.nan, np.diff(x.values)), index=x.index)
def nproll(x, y, v, w): return pd.Series(np.roll(x, w), index=x.index)
# ---- rolling
def rsum(x, y, v, w): return x.rolling(w).sum()
def rsum0(x, y, v, w): return x.rolling(w, min_periods=0).sum()
def rsum1(x, y, v, w): return x.rolling(w, min_periods=1).sum()
def rmean(x, y, v, w): return x.rolling(w, min_periods=w).mean()
def rmean0(x, y, v, w): return gaps(x).rolling(w, min_periods=0).mean()
def rmeang(x, y, v, w): return gaps(x).rolling(w).mean()
def rmax(x, y, v, w): return x.rolling(w).max()
def rmin0(x, y, v, w): return gaps(x).rolling(w, min_periods=0).min()
def rmaxg(x, y, v, w): return gaps(x).rolling(w, min_periods=1).max()
def rstd(x, y, v, w): return x.rolling(w, min_periods=w).std(ddof=0)
def rstd1(x, y, v, w): return x.rolling(w, min_periods=0).std()
def rvar(x, y, v, w): return x.rolling(w, min_periods=1).var(ddof=0)
def rcount(x, y, v, w): return gaps(x).rolling(w).count()
def rapply(x, y, v, w): return x.rolling(w, min_periods=w).apply(lambda a: float(np.argmax(a) + 1), raw=True)
def rapplymin(x, y, v, w): return x.rolling(w, min_periods=w).apply(lambda a: float(np.argmin(a[::-1]) + 1), raw=True)
def rapplymean(x, y, v, w): return x.rolling(w, min_periods=w).apply(lambda a: a.mean(), raw=True)
def rapplymad(x, y, v, w): return x.rolling(w, min_periods=0).apply(lambda a: np.mean(np.abs(a - np.mean(a))), raw=True)
def expsum(x, y, v, w): return x.expanding().sum()
def expmax(x, y, v, w): return gaps(x).expanding().max()
# ---- exponential
def ewm_span(x, y, v, w): return x.ewm(span=w, adjust=False).mean()
def ewm_minp(x, y, v, w): return x.ewm(span=w, min_periods=w, adjust=False).mean()
def ewm_alpha(x, y, v, w): return x.ewm(alpha=1 / w, min_periods=0, adjust=False).mean()
def ewm_com(x, y, v, w): return x.ewm(com=w - 1, min_periods=w, adjust=False).mean()
def ewm_gaps(x, y, v, w): return gaps(x).ewm(span=w, min_periods=w, adjust=False).mean()
def ewm_lead(x, y, v, w): return x.diff().ewm(span=w, min_periods=w, adjust=False).mean()
def ewm_gaps_ign(x, y, v, w): return gaps(x).ewm(span=w, min_periods=0, adjust=False, ignore_na=True).mean()
# ---- running
def csum(x, y, v, w): return x.cumsum()
def csumg(x, y, v, w): return gaps(x).cumsum()
def cprod(x, y, v, w): return (x / x).cumprod()
def cmax(x, y, v, w): return x.cummax()
def cming(x, y, v, w): return gaps(x).cummin()
def npcsum(x, y, v, w): return pd.Series(np.cumsum(x.values), index=x.index)
def npmaxacc(x, y, v, w): return pd.Series(np.maximum.accumulate(x.values), index=x.index)
# ---- filling and selecting
def fillna0(x, y, v, w): return gaps(x).fillna(0)
def ffill(x, y, v, w): return gaps(x).ffill()
def bfill(x, y, v, w): return gaps(x).bfill()
def fbfill(x, y, v, w): return gaps(x).ffill().bfill()
def ffill_ser(x, y, v, w): return gaps(x).fillna(y)
def whr(x, y, v, w): return x.where(x > y)
def whr0(x, y, v, w): return x.where(x > x.shift(1), 0.0)
def whrs(x, y, v, w): return x.where(x > y, other=y)
def msk(x, y, v, w): return x.mask(x > y, 0.0)
def npwhere(x, y, v, w): return pd.Series(np.where(x > y, x, -y), index=x.index)
def npwhere_nan(x, y, v, w): return pd.Series(np.where(v == 0, np.nan, x / v), index=x.index)
def npwhere_nest(x, y, v, w): return pd.Series(np.where(x > y, 1, np.where(x < y, -1, 0)), index=x.index)
def npselect(x, y, v, w): return pd.Series(np.select([x > y, x < y], [x, y], default=0.0), index=x.index)
def clip0(x, y, v, w): return x.diff().clip(lower=0)
def clipu(x, y, v, w): return x.diff().clip(upper=0)
def clipb(x, y, v, w): return x.diff().clip(-1, 1)
def replace_inf(x, y, v, w): return (x / v).replace([np.inf, -np.inf], np.nan)
def replace_inf2(x, y, v, w): return (x.diff() / v).replace(np.inf, 0)
def replace0(x, y, v, w): return v.replace(0, np.nan)
def divinf(x, y, v, w): return x.diff() / v
def loc_bool(x, y, v, w):
    z = x.diff()
    z.loc[z < 0] = 0.0
    return z
def loc_bool2(x, y, v, w):
    z = x.copy()
    z[x > y] = np.nan
    return z
def iloc_set(x, y, v, w):
    z = x.copy()
    z.iloc[0] = 0.0
    return z
def iloc_slice(x, y, v, w):
    z = x.copy()
    z.iloc[:w] = np.nan
    return z
def iloc_get(x, y, v, w): return x - x.iloc[0]
def boolnum(x, y, v, w): return (x > y).astype(float)
def boolint(x, y, v, w): return (x > y).astype(int)
def boolmul(x, y, v, w): return x * (x > y)
def booland(x, y, v, w): return ((x > y) & (v > 0)).astype(int)
def boolor(x, y, v, w): return ((x > y) | ~(v > 0)).astype(int)
def isna(x, y, v, w): return gaps(x).isna().astype(int)
def notna(x, y, v, w): return gaps(x).notna() * 1.0
# ---- arithmetic
def addfill(x, y, v, w): return x.shift(1).add(y, fill_value=0)
def subfill(x, y, v, w): return x.shift(1).sub(y.shift(2), fill_value=0)
def radd(x, y, v, w): return 1 + x
def rdiv(x, y, v, w): return 1 / v
def rsubm(x, y, v, w): return x.rsub(10)
def divm(x, y, v, w): return x.div(v)
def mulm(x, y, v, w): return x.mul(y).add(v)
def powm(x, y, v, w): return x.diff() ** 2
def absm(x, y, v, w): return x.diff().abs()
def absf(x, y, v, w): return abs(x.diff())
def npabs(x, y, v, w): return np.abs(x.diff())
def npmax2(x, y, v, w): return np.maximum(x, y)
def npmax2g(x, y, v, w): return np.maximum(gaps(x), y)
def npfmax(x, y, v, w): return pd.Series(np.fmax(gaps(x), y), index=x.index)
def npsqrt(x, y, v, w): return np.sqrt(x)
def nplog(x, y, v, w): return np.log(x / x.shift(1))
def npsign(x, y, v, w): return np.sign(x.diff())
def signfill(x, y, v, w): return np.sign(x.diff()).fillna(0)
def npdivide(x, y, v, w): return pd.Series(np.divide(x.values, v.values, out=np.zeros(len(x)), where=v.values != 0), index=x.index)
def nan_to_num(x, y, v, w): return pd.Series(np.nan_to_num(gaps(x).values), index=x.index)
def cmp_eq(x, y, v, w): return (v == v.shift(1)).astype(int)
def cmp_ne(x, y, v, w): return (v.ne(v.shift(1))).astype(int)
def cmp_lt_nan(x, y, v, w): return (v < v.shift(1)).astype(int)
def cmp_not_ge_nan(x, y, v, w): return (~(v >= v.shift(1))).astype(int)
# ---- frames
def fmax(x, y, v, w): return pd.DataFrame({"a": x, "b": y}).max(axis=1)
def fmaxg(x, y, v, w): return pd.DataFrame({"a": gaps(x), "b": y.shift(1)}).max(axis=1)
def cmax3(x, y, v, w): return pd.concat([x, y, x.shift(1)], axis=1).max(axis=1)
def cmin3(x, y, v, w): return pd.concat([x - y, gaps(y)], axis=1).min(axis=1)
def fmean(x, y, v, w): return pd.DataFrame({"a": gaps(x), "b": y.shift(1)}).mean(axis=1)
def fsum(x, y, v, w): return pd.concat([gaps(x), y.shift(1)], axis=1).sum(axis=1)
def fnpmax(x, y, v, w): return pd.DataFrame(data={"a": x, "b": y}).apply(lambda r: r.max(), axis=1)
# ---- loops
def loop_ema(x, y, v, w):
    out = np.zeros(len(x))
    out[0] = x.iloc[0]
    for i in range(1, len(x)):
        out[i] = out[i - 1] + (x.iloc[i] - out[i - 1]) / w
    return pd.Series(out, index=x.index)
def loop_list(x, y, v, w):
    r = []
    p = 0.0
    for a, b in zip(x, y):
        p = p + a if a > b else p - b
        r.append(p)
    return pd.Series(r, index=x.index)
def loop_enum(x, y, v, w):
    out = np.full(len(x), np.nan)
    for i, a in enumerate(x.values):
        if i >= w:
            out[i] = a - x.values[i - w]
    return pd.Series(out, index=x.index)
def comp1(x, y, v, w): return pd.Series([a * 2 if a > 3 else a for a in x], index=x.index)
def while_(x, y, v, w):
    out = np.zeros(len(x))
    i = 1
    while i < len(x):
        out[i] = out[i - 1] + x.iloc[i]
        i += 1
    return pd.Series(out, index=x.index)
def sumgen(x, y, v, w): return pd.Series(sum(a for a in x), index=x.index)
def pymax(x, y, v, w): return x * 0 + max(x)
def smean(x, y, v, w): return x - x.mean()
def sstd(x, y, v, w): return x * 0 + gaps(x).sum() + gaps(x).max()
def smap(x, y, v, w): return x.apply(lambda a: a if a > 3 else 0.0)
def smap2(x, y, v, w): return x.map(lambda a: a + 1)
def combine(x, y, v, w): return x.combine(y, max)
def combine_first(x, y, v, w): return gaps(x).combine_first(y)
def rev(x, y, v, w): return pd.Series(x.values[::-1], index=x.index)
def revser(x, y, v, w): return pd.Series(x[::-1].values, index=x.index)
def npinsert(x, y, v, w): return pd.Series(np.insert(np.diff(x.values), 0, 0.0), index=x.index)
def npconcat(x, y, v, w): return pd.Series(np.concatenate([np.full(1, np.nan), x.values[1:] - x.values[:-1]]), index=x.index)
def npisnan(x, y, v, w): return pd.Series(np.where(np.isnan(gaps(x)), 0.0, x), index=x.index)
def npvectorloop(x, y, v, w): return pd.Series(np.array([x.iloc[max(0, i - w + 1): i + 1].sum() for i in range(len(x))]), index=x.index)
def convolve(x, y, v, w): return pd.Series(np.convolve(x, np.ones(w))[:len(x)], index=x.index)
def between(x, y, v, w): return x.between(y, y + 2).astype(int)
def rank_(x, y, v, w): return x.rolling(w).median()
def update(x, y, v, w):
    z = gaps(x)
    z[z.isna()] = 0.0
    return z
def dot(x, y, v, w): return x.rolling(w).apply(lambda a: np.dot(a, np.arange(1, len(a) + 1)), raw=True)
def eqzero(x, y, v, w): return x.diff().eq(0).astype(int)
def gtm(x, y, v, w): return x.gt(y).astype(int)
def le_fill(x, y, v, w): return x.le(y.shift(1)).astype(int)
def xfloor(x, y, v, w): return x // 2
def xmod(x, y, v, w): return x - y * (v > 0)
def addpref(x, y, v, w): return pd.Series(x.values - y.values, index=x.index, name="q")
def nposts(x, y, v, w): return x.rolling(window=w, min_periods=w).sum() / w
def truthy(x, y, v, w): return pd.Series(np.where((x - y).values, 1.0, 0.0), index=x.index)
def neg_index(x, y, v, w): return x - x.iloc[-1]
def series_scalar(x, y, v, w): return pd.Series(0.0, index=x.index)
def emptylike(x, y, v, w): return pd.Series(np.zeros_like(x), index=x.index)
def npcummax(x, y, v, w): return x.rolling(len(x), min_periods=1).max()
def any_none(x, y, v, w): return x if v.isna().any() else y
def first_valid(x, y, v, w): return x * 0 + gaps(x).notna().sum()
def shiftfill2(x, y, v, w): return x.shift(1).fillna(x.iloc[0])
def shiftfill3(x, y, v, w): return x.shift(1).fillna(x)
# ---- second batch
def items_loop(x, y, v, w):
    out = x.copy()
    p = 0.0
    k = 0
    for i, a in x.items():
        p += a
        out.iloc[k] = p
        k += 1
    return out
def enum_zip(x, y, v, w):
    out = np.zeros(len(x))
    for i, (a, b) in enumerate(zip(x, y)):
        out[i] = a - b if i else a
    return pd.Series(out, index=x.index)
def enum_start(x, y, v, w):
    out = np.zeros(len(x))
    for i, a in enumerate(x.values[1:], start=1):
        out[i] = out[i - 1] + a
    return pd.Series(out, index=x.index)
def list_reassign(x, y, v, w):
    vals = x.tolist()
    for i in range(1, len(vals)):
        vals[i] = vals[i - 1] * 0.5 + vals[i] * 0.5
    return pd.Series(vals, index=x.index)
def list_mul(x, y, v, w):
    out = [0.0] * len(x)
    for i in range(len(x)):
        out[i] = x.iloc[i]
    return pd.Series(out, index=x.index)
def loop_shape(x, y, v, w):
    out = np.empty(x.shape[0])
    out[:] = np.nan
    for i in range(w, x.shape[0]):
        out[i] = x.iloc[i] - x.iloc[i - w]
    return pd.Series(out, index=x.index)
def loop_size(x, y, v, w):
    a = x.to_numpy()
    out = np.full(a.size, 0.0)
    for i in range(a.size):
        if a[i] > 3:
            out[i] = 1.0
            continue
        out[i] = -1.0
    return pd.Series(out, index=x.index)
def nested_helper(x, y, v, w):
    def step(p, a):
        return p + (a - p) / w
    out = np.zeros(len(x))
    for i in range(1, len(x)):
        out[i] = step(out[i - 1], x.iloc[i])
    return pd.Series(out, index=x.index)
def while_gt(x, y, v, w):
    out = np.zeros(len(x))
    i = 0
    while i <= len(x) - 1:
        if x.iloc[i] > 3:
            out[i] = 1.0
        i += 1
    return pd.Series(out, index=x.index)
def while_np(x, y, v, w):
    out = np.zeros(len(x))
    i = 1
    n = len(x)
    while i < n:
        out[i] = out[i - 1] + x.iloc[i]
        i = i + 1
    return pd.Series(out, index=x.index)
def while_ne(x, y, v, w):
    out = np.zeros(len(x))
    i = 0
    while i != len(x):
        out[i] = x.iloc[i] * 2
        i += 1
    return pd.Series(out, index=x.index)
def rev_range(x, y, v, w):
    out = np.zeros(len(x))
    for i in range(len(x) - 1, -1, -1):
        out[i] = x.iloc[i]
    return pd.Series(out, index=x.index)
def rev_reversed(x, y, v, w):
    out = np.zeros(len(x))
    for i in reversed(range(len(x))):
        out[i] = x.iloc[i] - y.iloc[i]
    return pd.Series(out, index=x.index)
def fsum_loop(x, y, v, w):
    out = np.zeros(len(x))
    for i in range(len(x)):
        s = 0.0
        for j in range(max(0, i - w + 1), i + 1):
            s += x.iloc[j]
        out[i] = s
    return pd.Series(out, index=x.index)
def accumulate(x, y, v, w):
    import itertools
    return pd.Series(list(itertools.accumulate(x)), index=x.index)
def ternary(x, y, v, w): return x if len(x) > w else y
def apply_frame(x, y, v, w): return pd.DataFrame({"a": x, "b": y}).apply(lambda r: r["a"] - r["b"], axis=1)
def eval_frame(x, y, v, w):
    d = pd.DataFrame({"a": x, "b": y})
    d["c"] = d["a"] - d["b"]
    return d["c"]
def frame_attr(x, y, v, w):
    d = pd.DataFrame({"a": x, "b": y})
    return d.a + d.b
def frame_pd_max(x, y, v, w): return pd.concat([x, y], axis=1).max(axis="columns")
def frame_npmax(x, y, v, w): return pd.Series(np.max(np.array([x, y]), axis=0), index=x.index)
def frame_vals(x, y, v, w): return pd.Series(np.column_stack([x, y]).max(axis=1), index=x.index)
def np3(x, y, v, w): return pd.Series(np.maximum(np.maximum(x, y), v), index=x.index)
def np_reduce(x, y, v, w): return pd.Series(np.maximum.reduce([x.values, y.values, v.values]), index=x.index)
def npnanmax(x, y, v, w): return pd.Series(np.nanmax(np.vstack([x, gaps(y)]), axis=0), index=x.index)
def where_chain(x, y, v, w): return x.where(x > y, y).where(v > 0, 0.0)
def mulbool(x, y, v, w): return (x > y).astype("float64") - (x < y).astype("float64")
def assign_op(x, y, v, w):
    z = x.copy()
    z += y
    z *= 2
    z -= 1
    z /= w
    return z
def astype_f(x, y, v, w): return x.astype("float64") / v.astype(float)
def round_(x, y, v, w): return (x > 3).map({True: 1.0, False: 0.0})
def fillmethod(x, y, v, w): return gaps(x).bfill().fillna(-1)
def limit(x, y, v, w): return gaps(x).ffill(limit=1)
def mean_of(x, y, v, w): return (x + y) / 2
def std_np(x, y, v, w): return x.rolling(w).apply(np.std, raw=True)
def rolling_sum_np(x, y, v, w): return x.rolling(w).apply(np.sum, raw=True)
def rolling_apply_min(x, y, v, w): return x.rolling(w).apply(lambda a: a[-1] - a[0], raw=True)
def rolling_apply_ser(x, y, v, w): return x.rolling(w).apply(lambda a: a.iloc[-1] - a.min())
def rolling_apply_w(x, y, v, w):
    k = np.array([i * 2 / (w * (w + 1)) for i in range(1, w + 1)])
    return x.rolling(w).apply(lambda a: (k * a).sum(), raw=True)
def rolling_argmax_idx(x, y, v, w): return x.rolling(w).apply(lambda a: a.argmax(), raw=True)
def rolling_rev(x, y, v, w): return x.rolling(w).apply(lambda a: len(a) - 1 - np.argmax(a[::-1]), raw=True)
def ewm_call(x, y, v, w): return x.ewm(alpha=2 / (w + 1), adjust=False).mean()
def ewm_adj(x, y, v, w): return x.ewm(span=w).mean()
def ewm_half(x, y, v, w): return x.ewm(com=w, min_periods=1, adjust=False, ignore_na=False).mean()
def ewm_inf(x, y, v, w): return (x / v).ewm(span=w, adjust=False).mean()
def rmean_inf(x, y, v, w): return (x / v).rolling(w, min_periods=1).mean()
def rmax_inf(x, y, v, w): return (x / v).rolling(w, min_periods=1).max()
def cumsum_inf(x, y, v, w): return (x.diff() / v).cumsum()
def std_gaps(x, y, v, w): return gaps(x).rolling(w, min_periods=0).std(ddof=0)
def pos_neg(x, y, v, w):
    d = x.diff()
    up, dn = d.copy(), d.copy()
    up[up < 0] = 0
    dn[dn > 0] = 0
    return up.rolling(w).mean() + dn.rolling(w).mean()
def whr_call(x, y, v, w): return x.where(lambda s: s > 3, 0.0)
def series_list(x, y, v, w): return pd.Series([0.0] * len(x), index=x.index) + x
def hypot(x, y, v, w): return np.sqrt(x ** 2 + y ** 2)
def power(x, y, v, w): return np.power(x, 2) + np.square(y)
def pow_half(x, y, v, w): return x ** 0.5
def floor_div(x, y, v, w): return x - x.shift(w // 2 + 1)
def int_half(x, y, v, w): return x - x.shift(int(0.5 * w) + 1)
def pct_fill(x, y, v, w): return (x - x.shift(w)) / x.shift(w) * 100
def expm(x, y, v, w): return np.log(x) - np.log(y)
def log1p(x, y, v, w): return np.log(x).diff()
def xor(x, y, v, w): return ((x > y) ^ (v > 0)).astype(int)
def logical(x, y, v, w): return pd.Series(np.where(np.logical_and(x > y, v > 0), 1, 0), index=x.index)
def logical_or(x, y, v, w): return pd.Series(np.where(np.logical_or(x > y, np.logical_not(v > 0)), 1, 0), index=x.index)
def sign_mul(x, y, v, w): return (np.sign(x.diff()) * v).fillna(0).cumsum()
def locrow(x, y, v, w):
    d = pd.DataFrame({"a": x, "b": y})
    d.loc[d["a"] > d["b"], "c"] = 1.0
    return d["c"].fillna(0.0)
def isin(x, y, v, w): return v.isin([0, 1]).astype(int)
def idxmax(x, y, v, w): return x * 0 + x.max() - x.min()
def nans(x, y, v, w): return pd.Series(np.nan, index=x.index)
def npones(x, y, v, w): return pd.Series(np.ones(len(x)), index=x.index) * x
def np_full_like(x, y, v, w): return pd.Series(np.full_like(x, np.nan), index=x.index)
def iat(x, y, v, w): return x - x.iat[0]
def npclip(x, y, v, w): return np.clip(x.diff(), 0, None)
def np_maximum0(x, y, v, w): return np.maximum(x.diff(), 0)
def cumcount(x, y, v, w): return pd.Series(np.arange(len(x)), index=x.index) * x
def groupby(x, y, v, w): return x.groupby((x > y).cumsum()).cumsum()
def lastval(x, y, v, w): return x * 0 + x.values[-1]
# ---- tolerances, limits, centred windows
def iscl(x, y, v, w): return pd.Series(np.isclose(v, v.shift(1)), index=x.index).astype(float)
def iscl_tol(x, y, v, w): return pd.Series(np.isclose(x, y, rtol=0.01, atol=0.5), index=x.index).astype(float)
def iscl_nan(x, y, v, w): return pd.Series(np.isclose(gaps(v), gaps(v).shift(1), equal_nan=True), index=x.index).astype(float)
def iscl_inf(x, y, v, w): return pd.Series(np.isclose(x / v, x / v.shift(1)), index=x.index).astype(float)
def miscl(x, y, v, w): return x * 0 + (1.0 if math.isclose(v.iloc[0], v.iloc[-1], abs_tol=1.0) else 0.0)
def ff_limit1(x, y, v, w): return gaps(v).ffill(limit=1)
def ff_limit2(x, y, v, w): return gaps(v).ffill(limit=2)
def rcenter(x, y, v, w): return x.rolling(w, min_periods=1, center=True).sum()
def rcenter_mean(x, y, v, w): return x.rolling(w, center=True).mean()
def rcenter_max(x, y, v, w): return gaps(v).rolling(w, min_periods=1, center=True).max()
def rcenter_std(x, y, v, w): return x.rolling(w, center=True, min_periods=0).std(ddof=0)
def ewm_flag(x, y, v, w): return x.ewm(span=w, adjust=w > 3).mean()
def frame_abs(x, y, v, w): return pd.DataFrame({"a": x.diff(), "b": y.diff()}).abs().max(axis=1)
def frame_neg(x, y, v, w): return (-pd.DataFrame({"a": x, "b": y})).min(axis=1)
def frame_gt(x, y, v, w):
    d = pd.DataFrame({"a": x, "b": y})
    return d[d.gt(10.0)]["a"]
def eps(x, y, v, w): return x / (v + np.finfo(float).eps)
