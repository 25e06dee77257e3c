"""Specifications of the indicators: one entry per class, written from the documentation.

entry.fn(S, p, fill) -> {accessor: sequence}; S: input sequences (close, high, low, volume) and n;
p: parameters (terms or flags); fill: True when gap filling is on (partial windows are then used).
entry.out: accessor -> neutral value of the gap filling (None: no gap filling).
"""
from .dsl import *

ENTRIES = {}


class W:
    """integer parameter, at least lo"""
    kind = "I"

    def __init__(self, default, lo=1):
        self.default, self.lo = default, lo


class P:
    """positive real parameter"""
    kind = "R"

    def __init__(self, default):
        self.default = default


class Flag:
    kind = "flag"

    def __init__(self, default, values=(False, True)):
        self.default, self.values = default, values


class Entry:
    pass


def ind(module, cls, inputs, params, out, funcs=None, prop=None, pre=None):
    def deco(fn):
        e = Entry()
        e.module, e.cls, e.inputs, e.params, e.out, e.fn = module, cls, inputs.split(), params, out, fn
        e.funcs = funcs or {}
        e.prop = prop
        e.pre = pre or (lambda n, p: [])
        ENTRIES[cls] = e
        return fn
    return deco


# ================================================================== momentum
@ind("momentum", "RSIIndicator", "close", dict(window=W(14)), dict(rsi=50), prop="C01")
def _rsi(S, p, fill):
    w = p["window"]
    m = 0 if fill else w
    up = S.close - S.close.prev()
    gain = iff_(up > 0, up, 0)
    loss = iff_(up < 0, -up, 0)
    g, l = gain.wilder(w, m), loss.wilder(w, m)
    return dict(rsi=iff_(l.same(0), 100, 100 - 100 / (1 + g / l)))


@ind("momentum", "TSIIndicator", "close", dict(window_slow=W(25), window_fast=W(13)), dict(tsi=0), prop="C01")
def _tsi(S, p, fill):
    r, s = p["window_slow"], p["window_fast"]
    mr, ms = (0, 0) if fill else (r, s)
    m = S.close - S.close.prev()
    return dict(tsi=100 * (m.ema(r, mr).ema(s, ms) / abs(m).ema(r, mr).ema(s, ms)))


def true_range(S):
    pc = S.close.prev()
    return largest(S.high - S.low, abs(S.high - pc), abs(S.low - pc))


@ind("momentum", "UltimateOscillator", "high low close",
     dict(window1=W(7), window2=W(14), window3=W(28), weight1=P(4.0), weight2=P(2.0), weight3=P(1.0)),
     dict(ultimate_oscillator=50), prop="C01")
def _uo(S, p, fill):
    pc = S.close.prev()
    bp = S.close - S.low._b(pc, min_np)
    tr = true_range(S)

    def avg(w):
        m = 0 if fill else w
        return bp.sum(w, m) / tr.sum(w, m)
    a = [p["weight%d" % i] for i in (1, 2, 3)]
    num_ = avg(p["window1"]) * a[0] + avg(p["window2"]) * a[1] + avg(p["window3"]) * a[2]
    return dict(ultimate_oscillator=100 * num_ / add(R(a[0]), R(a[1]), R(a[2])))


@ind("momentum", "StochasticOscillator", "high low close", dict(window=W(14), smooth_window=W(3)),
     dict(stoch=50, stoch_signal=50), prop="C01")
def _stoch(S, p, fill):
    w, s = p["window"], p["smooth_window"]
    m, ms = (0, 0) if fill else (w, s)
    lo, hi = S.low.min(w, m), S.high.max(w, m)
    k = 100 * (S.close - lo) / (hi - lo)
    return dict(stoch=k, stoch_signal=k.mean(s, ms))


@ind("momentum", "KAMAIndicator", "close", dict(window=W(10), pow1=W(2), pow2=W(30)), dict(kama="close"), prop="C01")
def _kama(S, p, fill):
    w = p["window"]
    n, c = S.n, S.close
    change = lambda t: r_abs(sub(c(t).v, c(imax(ZERO, sub(t, w))).v))
    vol = Q(n, lambda t: EF(r_abs(sub(c(t).v, c(imax(ZERO, sub(t, ONE))).v))))
    m = 0 if fill else w
    den = vol.sum(w, m)
    er = lambda t: ite(eq(den(t).v, RZERO), RZERO, mul(change(t), inv(den(t).v)))
    fast = mul(R(2), inv(add(toR(I(p["pow1"])), RONE)))
    slow = mul(R(2), inv(add(toR(I(p["pow2"])), RONE)))

    def sc(t):
        x = add(mul(er(t), sub(fast, slow)), slow)
        return mul(x, x)
    start = ZERO if fill else sub(w, ONE)
    r = scan(n, start, {"k": ("R", c(start).v, lambda q, i: add(q["k"], mul(sc(i), sub(c(i).v, q["k"]))))})
    return dict(kama=at_or_after(n, start, Q(n, lambda t: EF(r["k"](t)))))


@ind("momentum", "ROCIndicator", "close", dict(window=W(12)), dict(roc=0), prop="C01")
def _roc(S, p, fill):
    past = S.close.shift(p["window"])
    return dict(roc=(S.close - past) / past * 100)


@ind("momentum", "AwesomeOscillatorIndicator", "high low", dict(window1=W(5), window2=W(34)),
     dict(awesome_oscillator=0), prop="C01")
def _ao(S, p, fill):
    a, b = p["window1"], p["window2"]
    med = (S.high + S.low) / 2
    return dict(awesome_oscillator=med.mean(a, 0 if fill else a) - med.mean(b, 0 if fill else b))


@ind("momentum", "WilliamsRIndicator", "high low close", dict(lbp=W(14)), dict(williams_r=-50), prop="C01")
def _wr(S, p, fill):
    w = p["lbp"]
    m = 0 if fill else w
    hi, lo = S.high.max(w, m), S.low.min(w, m)
    return dict(williams_r=-100 * (hi - S.close) / (hi - lo))


@ind("momentum", "StochRSIIndicator", "close", dict(window=W(14), smooth1=W(3), smooth2=W(3)),
     dict(stochrsi=0, stochrsi_k=0, stochrsi_d=0), prop="C01")
def _stochrsi(S, p, fill):
    w, a, b = p["window"], p["smooth1"], p["smooth2"]
    r = _rsi(S, dict(window=w), fill)["rsi"]
    if fill:
        r = fill_policy(r, 50)
    lo = r.min(w, w)
    x = (r - lo) / (r.max(w, w) - lo)
    k = x.mean(a, a)
    return dict(stochrsi=x, stochrsi_k=k, stochrsi_d=k.mean(b, b))


def _price_osc(x, p, fill):
    f, s, g = p["window_fast"], p["window_slow"], p["window_sign"]
    mf, ms, mg = (0, 0, 0) if fill else (f, s, g)
    ef, es = x.ema(f, mf), x.ema(s, ms)
    o = (ef - es) / es * 100
    sig = o.ema(g, mg)
    return o, sig, o - sig


@ind("momentum", "PercentagePriceOscillator", "close", dict(window_slow=W(26), window_fast=W(12), window_sign=W(9)),
     dict(ppo=0, ppo_signal=0, ppo_hist=0), prop="C01")
def _ppo(S, p, fill):
    return dict(zip(("ppo", "ppo_signal", "ppo_hist"), _price_osc(S.close, p, fill)))


@ind("momentum", "PercentageVolumeOscillator", "volume", dict(window_slow=W(26), window_fast=W(12), window_sign=W(9)),
     dict(pvo=0, pvo_signal=0, pvo_hist=0), prop="C01")
def _pvo(S, p, fill):
    return dict(zip(("pvo", "pvo_signal", "pvo_hist"), _price_osc(S.volume, p, fill)))


# ================================================================== trend
@ind("trend", "AroonIndicator", "high low", dict(window=W(25)), dict(aroon_up=0, aroon_down=0, aroon_indicator=0), prop="C02")
def _aroon(S, p, fill):
    w = p["window"]
    m = 1 if fill else add(w, ONE)

    def side(x, kind):
        # position, counted from the oldest of the w+1 rows, of the (first) extreme
        def at(t):
            lo = lib._lo(t, add(w, ONE))
            k = gfold(kind, lo, t, lambda k: TRUE, lambda k: x(k).v)
            return EF(mul(R(100), toR(sub(k, lo)), inv(toR(w))), lt(lib.count(x, lo, t), toR(I(m))))
        return Q(S.n, at)
    up, dn = side(S.high, "argmax"), side(S.low, "argmin")
    return dict(aroon_up=up, aroon_down=dn, aroon_indicator=up - dn)


@ind("trend", "MACD", "close", dict(window_slow=W(26), window_fast=W(12), window_sign=W(9)),
     dict(macd=0, macd_signal=0, macd_diff=0), prop="C02")
def _macd(S, p, fill):
    f, s, g = p["window_fast"], p["window_slow"], p["window_sign"]
    mf, ms, mg = (0, 0, 0) if fill else (f, s, g)
    m = S.close.ema(f, mf) - S.close.ema(s, ms)
    sig = m.ema(g, mg)
    return dict(macd=m, macd_signal=sig, macd_diff=m - sig)


@ind("trend", "EMAIndicator", "close", dict(window=W(14)), dict(ema_indicator=None), prop="C02")
def _emai(S, p, fill):
    return dict(ema_indicator=S.close.ema(p["window"], 0 if fill else p["window"]))


@ind("trend", "SMAIndicator", "close", dict(window=W(None)), dict(sma_indicator=None), prop="C02")
def _smai(S, p, fill):
    return dict(sma_indicator=S.close.mean(p["window"], 0 if fill else p["window"]))


@ind("trend", "WMAIndicator", "close", dict(window=W(9)), dict(wma=0), prop="C02")
def _wma(S, p, fill):
    w = p["window"]
    wr = toR(w)
    # weights 1, 2, ..., w (newest heaviest) divided by their sum w(w+1)/2
    return dict(wma=window_fold(S.close, w, w, lambda k, lo, t: mul(S.close(k).v, add(wr, neg(toR(sub(t, k))))),
                                lambda s, lo, t: EF(mul(s, R(2), inv(wr), inv(add(wr, RONE))))))


@ind("trend", "TRIXIndicator", "close", dict(window=W(15)), dict(trix=0), prop="C02")
def _trix(S, p, fill):
    w = p["window"]
    m = 0 if fill else w
    e = S.close.ema(w, m).ema(w, m).ema(w, m)
    return dict(trix=(e - e.prev()) / e.prev() * 100)


@ind("trend", "MassIndex", "high low", dict(window_fast=W(9), window_slow=W(25)), dict(mass_index=0), prop="C02")
def _mass(S, p, fill):
    f, s = p["window_fast"], p["window_slow"]
    mf, ms = (0, 0) if fill else (f, s)
    e1 = (S.high - S.low).ema(f, mf)
    return dict(mass_index=(e1 / e1.ema(f, mf)).sum(s, ms))


@ind("trend", "IchimokuIndicator", "high low", dict(window1=W(9), window2=W(26), window3=W(52), visual=Flag(False)),
     dict(ichimoku_conversion_line=-1, ichimoku_base_line=-1, ichimoku_a=-1, ichimoku_b=-1), prop="C02")
def _ichimoku(S, p, fill):
    def mid(w, m):
        return (S.high.max(w, m) + S.low.min(w, m)) / 2
    a, b = p["window1"], p["window2"]
    conv, base = mid(a, 0 if fill else a), mid(b, 0 if fill else b)
    sa, sb = (conv + base) / 2, mid(p["window3"], 0)
    if p["visual"]:
        sa, sb = sa.shift(b), sb.shift(b)
    return dict(ichimoku_conversion_line=conv, ichimoku_base_line=base, ichimoku_a=sa, ichimoku_b=sb)


@ind("trend", "KSTIndicator", "close",
     dict(roc1=W(10), roc2=W(15), roc3=W(20), roc4=W(30), window1=W(10), window2=W(10), window3=W(10), window4=W(15),
          nsig=W(9)), dict(kst=0, kst_sig=0, kst_diff=0), prop="C02")
def _kst(S, p, fill):
    tot = None
    for i in (1, 2, 3, 4):
        past = S.close.shift(p[f"roc{i}"])
        w = p[f"window{i}"]
        x = ((S.close - past) / past).mean(w, 0 if fill else w) * i
        tot = x if tot is None else tot + x
    k = 100 * tot
    s = k.mean(p["nsig"], 0)
    return dict(kst=k, kst_sig=s, kst_diff=k - s)


@ind("trend", "DPOIndicator", "close", dict(window=W(20)), dict(dpo=0), prop="C02")
def _dpo(S, p, fill):
    w = p["window"]
    k = add(floor(scale(Fraction(1, 2), toR(w))), ONE)
    return dict(dpo=S.close.shift(k) - S.close.mean(w, 0 if fill else w))


@ind("trend", "CCIIndicator", "high low close", dict(window=W(20), constant=P(0.015)), dict(cci=0), prop="C02")
def _cci(S, p, fill):
    w = p["window"]
    m = 0 if fill else w
    tp = (S.high + S.low + S.close) / 3
    mean = tp.mean(w, m)

    def mad(k, lo, t):
        rows = toR(add(t, neg(lo), ONE))
        mu = mul(gfold("sum", lo, t, lambda j: TRUE, lambda j: tp(j).v), inv(rows))
        return r_abs(sub(tp(k).v, mu))
    d = window_fold(tp, w, m, mad, lambda s, lo, t: EF(mul(s, inv(toR(add(t, neg(lo), ONE))))))
    return dict(cci=(tp - mean) / (d * p["constant"]))


@ind("trend", "ADXIndicator", "high low close", dict(window=W(14)), dict(adx=20, adx_pos=20, adx_neg=20), prop="C06",
     pre=lambda n, p: [ge(n, scale(2, p["window"]))])
def _adx(S, p, fill):
    w, n = p["window"], S.n
    wr = toR(w)
    H, L, C = S.high, S.low, S.close
    v = lambda q, t: q(t).v
    span = lambda t: sub(ite(lt(v(H, t), v(C, sub(t, ONE))), v(C, sub(t, ONE)), v(H, t)),
                         ite(lt(v(C, sub(t, ONE)), v(L, t)), v(C, sub(t, ONE)), v(L, t)))
    upm = lambda t: sub(v(H, t), v(H, sub(t, ONE)))
    dnm = lambda t: sub(v(L, sub(t, ONE)), v(L, t))
    zero = lambda t: or_(lt(t, ONE))
    plus = lambda t: ite(and_(lt(dnm(t), upm(t)), gt(upm(t), RZERO)), upm(t), RZERO)
    minus = lambda t: ite(and_(lt(upm(t), dnm(t)), gt(dnm(t), RZERO)), dnm(t), RZERO)

    def smooth(f):
        # Wilder sum of f at row w + i (i >= 1), started from the plain sum of rows 1..w (i = 0)
        s0 = gfold("sum", ONE, w, lambda k: TRUE, lambda k: f(k))
        return scan(sub(n, w), ZERO, {"s": ("R", s0, lambda q, i: add(q["s"], neg(mul(q["s"], inv(wr))), f(add(w, i))))})["s"]
    tr, dp, dm = smooth(span), smooth(plus), smooth(minus)
    last = sub(n, w)  # the smoothed arrays have one more slot than there are rows; the last one stays 0

    def di(d, i):
        return ite(or_(ge(i, last), eq(tr(i), RZERO)), RZERO, mul(R(100), d(i), inv(tr(i))))

    def dx(i):
        a, b = di(dp, i), di(dm, i)
        return ite(eq(add(a, b), RZERO), RZERO, mul(R(100), r_abs(mul(sub(a, b), inv(add(a, b))))))
    first = mul(gfold("sum", ZERO, sub(w, ONE), lambda k: TRUE, dx), inv(wr))
    ad = scan(add(last, ONE), w, {"a": ("R", first, lambda q, i: mul(add(mul(q["a"], sub(wr, RONE)), dx(sub(i, ONE))), inv(wr)))})["a"]
    off = sub(w, ONE)

    def adx(t):
        i = sub(t, off)
        return EF(ite(lt(i, w), RZERO, ad(i)))

    def dis(d):
        return Q(n, lambda t: EF(ite(lt(t, add(w, ONE)), RZERO, di(d, sub(t, w)))))
    return dict(adx=Q(n, adx), adx_pos=dis(dp), adx_neg=dis(dm))


@ind("trend", "VortexIndicator", "high low close", dict(window=W(14)),
     dict(vortex_indicator_pos=1, vortex_indicator_neg=1, vortex_indicator_diff=0), prop="C02")
def _vortex(S, p, fill):
    w = p["window"]
    m = 0 if fill else w
    tr = true_range(S).sum(w, m)
    vp = abs(S.high - S.low.prev()).sum(w, m) / tr
    vm = abs(S.low - S.high.prev()).sum(w, m) / tr
    return dict(vortex_indicator_pos=vp, vortex_indicator_neg=vm, vortex_indicator_diff=vp - vm)


@ind("trend", "PSARIndicator", "high low close", dict(step=P(0.02), max_step=P(0.2)),
     dict(psar=-1, psar_up=-1, psar_down=-1, psar_up_indicator=None, psar_down_indicator=None), prop="C07")
def _psar(S, p, fill):
    """Wilder's parabolic stop and reverse, starting in an up-trend at row 2 with the closes of rows 0 and 1 as stops"""
    n = S.n
    step, top = R(p["step"]), R(p["max_step"])
    H, L, C = (lambda t: S.high(t).v), (lambda t: S.low(t).v), (lambda t: S.close(t).v)
    one, two = ONE, I(2)

    def parts(q, i):
        up = q["up"]
        raw = add(q["sar"], mul(q["af"], sub(ite(up, q["hi"], q["lo"]), q["sar"])))
        rev = ite(up, lt(L(i), raw), gt(H(i), raw))
        h1, h2, l1, l2 = H(sub(i, one)), H(sub(i, two)), L(sub(i, one)), L(sub(i, two))
        clamp = ite(up, ite(lt(l2, raw), l2, ite(lt(l1, raw), l1, raw)), ite(gt(h2, raw), h2, ite(gt(h1, raw), h1, raw)))
        newhi = and_(up, gt(H(i), q["hi"]))
        newlo = and_(not_(up), lt(L(i), q["lo"]))
        faster = add(q["af"], step)
        faster = ite(lt(top, faster), top, faster)
        return dict(
            sar=ite(rev, ite(up, q["hi"], q["lo"]), clamp),
            af=ite(rev, step, ite(or_(newhi, newlo), faster, q["af"])),
            hi=ite(up, ite(and_(not_(rev), newhi), H(i), q["hi"]), ite(rev, H(i), q["hi"])),
            lo=ite(up, ite(rev, L(i), q["lo"]), ite(and_(not_(rev), newlo), L(i), q["lo"])),
            up=ite(rev, not_(up), up))
    init = dict(sar=C(one), af=step, hi=H(ZERO), lo=L(ZERO), up=TRUE)
    i2 = parts(init, two)
    sorts = dict(sar="R", af="R", hi="R", lo="R", up="B")
    r = scan(n, two, {k: (sorts[k], i2[k], (lambda k: lambda q, i: parts(q, i)[k])(k)) for k in sorts})
    sar = lambda t: ite(lt(t, two), C(t), r["sar"](t))
    up = lambda t: r["up"](t)
    pu = Q(n, lambda t: EF(r["sar"](t), or_(lt(t, two), not_(up(t)))))
    pd_ = Q(n, lambda t: EF(r["sar"](t), or_(lt(t, two), up(t))))

    def flip(x):
        # 1 exactly in the first row of a run of that trend
        prev_missing = lambda t: or_(lt(t, one), x(sub(t, one)).nan)
        return Q(n, lambda t: EF(ite(and_(not_(x(t).nan), prev_missing(t)), RONE, RZERO)))
    return dict(psar=Q(n, lambda t: EF(sar(t))), psar_up=pu, psar_down=pd_, psar_up_indicator=flip(pu),
                psar_down_indicator=flip(pd_))


@ind("trend", "STCIndicator", "close",
     dict(window_slow=W(50), window_fast=W(23), cycle=W(10), smooth1=W(3), smooth2=W(3)), dict(stc=0), prop="C02")
def _stc(S, p, fill):
    e = lambda x, w: x.ema(w, 0 if fill else w)
    c = p["cycle"]
    m = e(S.close, p["window_fast"]) - e(S.close, p["window_slow"])

    def stoch(x):
        lo = x.min(c, c)
        return 100 * (x - lo) / (x.max(c, c) - lo)
    return dict(stc=e(stoch(e(stoch(m), p["smooth1"])), p["smooth2"]))


# ================================================================== volatility
def _atr_seq(S, w):
    n, wr = S.n, toR(w)
    tr = true_range(S)
    first = sub(w, ONE)
    s0 = mul(gfold("sum", ZERO, first, lambda k: TRUE, lambda k: tr(k).v), inv(wr))
    r = scan(n, first, {"a": ("R", s0, lambda q, i: mul(add(mul(q["a"], sub(wr, RONE)), tr(i).v), inv(wr)))})["a"]
    return Q(n, lambda t: EF(ite(lt(t, first), RZERO, r(t))))


@ind("volatility", "AverageTrueRange", "high low close", dict(window=W(14)), dict(average_true_range=0), prop="C03",
     pre=lambda n, p: [ge(n, p["window"])])
def _atr(S, p, fill):
    return dict(average_true_range=_atr_seq(S, p["window"]))


@ind("volatility", "BollingerBands", "close", dict(window=W(20), window_dev=P(2)),
     dict(bollinger_mavg=-1, bollinger_hband=-1, bollinger_lband=-1, bollinger_wband=0, bollinger_pband=0,
          bollinger_hband_indicator=0, bollinger_lband_indicator=0), prop="C03")
def _bb(S, p, fill):
    w, k = p["window"], p["window_dev"]
    m = 0 if fill else w
    c = S.close
    mu, sd = c.mean(w, m), c.std(w, m)
    hi, lo = mu + sd * k, mu - sd * k
    width = hi - lo
    return dict(bollinger_mavg=mu, bollinger_hband=hi, bollinger_lband=lo, bollinger_wband=width / mu * 100,
                bollinger_pband=iff_(width.same(0), NAN, (c - lo) / width),
                bollinger_hband_indicator=iff_(c > hi, 1, 0), bollinger_lband_indicator=iff_(c < lo, 1, 0))


@ind("volatility", "KeltnerChannel", "high low close",
     dict(window=W(20), window_atr=W(10), original_version=Flag(True), multiplier=P(2)),
     dict(keltner_channel_mband=-1, keltner_channel_hband=-1, keltner_channel_lband=-1, keltner_channel_wband=0,
          keltner_channel_pband=0, keltner_channel_hband_indicator=0, keltner_channel_lband_indicator=0), prop="C03",
     pre=lambda n, p: [] if p["original_version"] else [ge(n, p["window_atr"])])
def _kc(S, p, fill):
    w = p["window"]
    m = 1 if fill else w
    H, L, C = S.high, S.low, S.close
    if p["original_version"]:
        mid = ((H + L + C) / 3).mean(w, m)
        hi = ((4 * H - 2 * L + C) / 3).mean(w, 0)
        lo = ((-2 * H + 4 * L + C) / 3).mean(w, 0)
    else:
        mid = C.ema(w, m)
        atr = _atr_seq(S, p["window_atr"]) * p["multiplier"]
        hi, lo = mid + atr, mid - atr
    return dict(keltner_channel_mband=mid, keltner_channel_hband=hi, keltner_channel_lband=lo,
                keltner_channel_wband=(hi - lo) / mid * 100, keltner_channel_pband=(C - lo) / (hi - lo),
                keltner_channel_hband_indicator=iff_(C > hi, 1, 0), keltner_channel_lband_indicator=iff_(C < lo, 1, 0))


@ind("volatility", "DonchianChannel", "high low close", dict(window=W(20), offset=W(0, 0)),
     dict(donchian_channel_hband=-1, donchian_channel_lband=-1, donchian_channel_mband=-1, donchian_channel_wband=0,
          donchian_channel_pband=0), prop="C03")
def _dc(S, p, fill):
    w, o = p["window"], p["offset"]
    m = 1 if fill else w
    hi, lo, mean = S.high.max(w, m), S.low.min(w, m), S.close.mean(w, m)
    sh = lambda q: q.shift(o)
    return dict(donchian_channel_hband=sh(hi), donchian_channel_lband=sh(lo), donchian_channel_mband=sh((hi + lo) / 2),
                donchian_channel_wband=sh((hi - lo) / mean * 100), donchian_channel_pband=sh((S.close - lo) / (hi - lo)))


@ind("volatility", "UlcerIndex", "close", dict(window=W(14)), dict(ulcer_index=0), prop="C03")
def _ui(S, p, fill):
    w = p["window"]
    mx = S.close.max(w, 1)
    dd = 100 * (S.close - mx) / mx
    return dict(ulcer_index=window_fold(dd, w, w, lambda k, lo, t: mul(dd(k).v, dd(k).v),
                                        lambda s, lo, t: e_sqrt(EF(mul(s, inv(toR(w)))))))


# ================================================================== volume
def _clv(S):
    """close location value, 0 when the bar has no range"""
    return (((S.close - S.low) - (S.high - S.close)) / (S.high - S.low)).or_zero()


@ind("volume", "AccDistIndexIndicator", "high low close volume", {}, dict(acc_dist_index=0), prop="C04")
def _adi(S, p, fill):
    return dict(acc_dist_index=(_clv(S) * S.volume).cumsum())


@ind("volume", "OnBalanceVolumeIndicator", "close volume", {}, dict(on_balance_volume=0), prop="C04")
def _obv(S, p, fill):
    pc = S.close.prev()
    return dict(on_balance_volume=iff_(S.close < pc, -S.volume, iff_(S.close.same(pc), 0, S.volume)).cumsum())


@ind("volume", "ChaikinMoneyFlowIndicator", "high low close volume", dict(window=W(20)), dict(chaikin_money_flow=0), prop="C04")
def _cmf(S, p, fill):
    w = p["window"]
    m = 0 if fill else w
    return dict(chaikin_money_flow=(_clv(S) * S.volume).sum(w, m) / S.volume.sum(w, m))


@ind("volume", "ForceIndexIndicator", "close volume", dict(window=W(13)), dict(force_index=0), prop="C04")
def _fi(S, p, fill):
    w = p["window"]
    return dict(force_index=((S.close - S.close.prev()) * S.volume).ema(w, 0 if fill else w))


@ind("volume", "EaseOfMovementIndicator", "high low volume", dict(window=W(14)),
     dict(ease_of_movement=0, sma_ease_of_movement=0), prop="C04")
def _eom(S, p, fill):
    w = p["window"]
    move = (S.high - S.high.prev()) + (S.low - S.low.prev())
    e = (move * (S.high - S.low)) / (2 * S.volume) * 100000000
    return dict(ease_of_movement=e, sma_ease_of_movement=e.mean(w, 0 if fill else w))


@ind("volume", "VolumePriceTrendIndicator", "close volume",
     dict(smoothing_factor=Flag(None, (None, "window")), dropnans=Flag(False, (False,))), dict(volume_price_trend=0), prop="C04")
def _vpt(S, p, fill):
    pc = S.close.prev()
    v = ((S.close / pc - 1) * S.volume).cumsum()
    sf = p["smoothing_factor"]
    if sf is not None:
        v = v.mean(sf, 0 if fill else sf)
    return dict(volume_price_trend=v)


@ind("volume", "NegativeVolumeIndexIndicator", "close volume", {}, dict(negative_volume_index=1000), prop="C04")
def _nvi(S, p, fill):
    c, v = (lambda t: S.close(t).v), (lambda t: S.volume(t).v)
    r = scan(S.n, ZERO, {"x": ("R", R(1000), lambda q, i: ite(lt(v(i), v(sub(i, ONE))),
             mul(q["x"], c(i), inv(c(sub(i, ONE)))), q["x"]))})["x"]
    return dict(negative_volume_index=Q(S.n, lambda t: EF(r(t))))


@ind("volume", "MFIIndicator", "high low close volume", dict(window=W(14)), dict(money_flow_index=50), prop="C04")
def _mfi(S, p, fill):
    w = p["window"]
    m = 0 if fill else w
    tp = (S.high + S.low + S.close) / 3
    flow = tp * S.volume
    pos = iff_(tp > tp.prev(), flow, 0).sum(w, m)
    neg_ = iff_(tp < tp.prev(), flow, 0).sum(w, m)
    return dict(money_flow_index=100 - 100 / (1 + pos / neg_))


@ind("volume", "VolumeWeightedAveragePrice", "high low close volume", dict(window=W(14)),
     dict(volume_weighted_average_price=0), prop="C04")
def _vwap(S, p, fill):
    w = p["window"]
    m = 0 if fill else w
    tp = (S.high + S.low + S.close) / 3
    return dict(volume_weighted_average_price=(tp * S.volume).sum(w, m) / S.volume.sum(w, m))


# ================================================================== returns
@ind("others", "DailyReturnIndicator", "close", {}, dict(daily_return=0), prop="C05")
def _dr(S, p, fill):
    return dict(daily_return=(S.close / S.close.prev() - 1) * 100)


@ind("others", "DailyLogReturnIndicator", "close", {}, dict(daily_log_return=0), prop="C05")
def _dlr(S, p, fill):
    l = Q(S.n, lambda t: e_log(S.close(t)))
    return dict(daily_log_return=(l - l.prev()) * 100)


@ind("others", "CumulativeReturnIndicator", "close", {}, dict(cumulative_return=-1), prop="C05")
def _cr(S, p, fill):
    return dict(cumulative_return=Q(S.n, lambda t: e_mul(e_sub(e_div(S.close(t), S.close(ZERO)), num(1)), num(100))))
