"""Laws over the outputs of one row: ranges, orderings, identities, scaling degrees.

They are used twice: as proof obligations over the terms extracted from the library, and as a monitor on real runs.
A law says nothing about a row in which one of the values it mentions is missing, unless it says so."""
from fractions import Fraction as Fr

# ---------------------------------------------------------------- C08: documented ranges (class, output) -> (lo, hi)
RANGES = {
    ("RSIIndicator", "rsi"): (0, 100),
    ("TSIIndicator", "tsi"): (-100, 100),
    ("UltimateOscillator", "ultimate_oscillator"): (0, 100),
    ("StochasticOscillator", "stoch"): (0, 100),
    ("StochasticOscillator", "stoch_signal"): (0, 100),
    ("WilliamsRIndicator", "williams_r"): (-100, 0),
    ("StochRSIIndicator", "stochrsi"): (0, 1),
    ("StochRSIIndicator", "stochrsi_k"): (0, 1),
    ("StochRSIIndicator", "stochrsi_d"): (0, 1),
    ("AroonIndicator", "aroon_up"): (0, 100),
    ("AroonIndicator", "aroon_down"): (0, 100),
    ("AroonIndicator", "aroon_indicator"): (-100, 100),
    ("ADXIndicator", "adx"): (0, 100),
    ("ADXIndicator", "adx_pos"): (0, 100),
    ("ADXIndicator", "adx_neg"): (0, 100),
    ("VortexIndicator", "vortex_indicator_pos"): (0, None),
    ("VortexIndicator", "vortex_indicator_neg"): (0, None),
    ("STCIndicator", "stc"): (0, 100),
    ("MassIndex", "mass_index"): (0, None),
    ("PSARIndicator", "psar_up_indicator"): (0, 1),
    ("PSARIndicator", "psar_down_indicator"): (0, 1),
    ("AverageTrueRange", "average_true_range"): (0, None),
    ("BollingerBands", "bollinger_wband"): (0, None),
    ("BollingerBands", "bollinger_hband_indicator"): (0, 1),
    ("BollingerBands", "bollinger_lband_indicator"): (0, 1),
    ("KeltnerChannel", "keltner_channel_wband"): (0, None),
    ("KeltnerChannel", "keltner_channel_hband_indicator"): (0, 1),
    ("KeltnerChannel", "keltner_channel_lband_indicator"): (0, 1),
    ("DonchianChannel", "donchian_channel_wband"): (0, None),
    ("DonchianChannel", "donchian_channel_pband"): (0, 1),
    ("UlcerIndex", "ulcer_index"): (0, 100),
    ("ChaikinMoneyFlowIndicator", "chaikin_money_flow"): (-1, 1),
    ("MFIIndicator", "money_flow_index"): (0, 100),
    ("NegativeVolumeIndexIndicator", "negative_volume_index"): (0, None),
    ("DailyReturnIndicator", "daily_return"): (-100, None),
    ("CumulativeReturnIndicator", "cumulative_return"): (-100, None),
    ("ROCIndicator", "roc"): (-100, None),
}


def ranges(cls, p):
    return {a: b for (c, a), b in RANGES.items() if c == cls}


# ---------------------------------------------------------------- laws: (name, kind, left, right)
def channel(o, lo, mid, hi):
    return [(f"{lo} <= {mid}", "le", o[lo], o[mid]), (f"{mid} <= {hi}", "le", o[mid], o[hi])]


def bands(o, pre, x, lo, hi, width_of, names=("hband_indicator", "lband_indicator")):
    """%B, width and the two band flags of a channel; x: close"""
    h, l, w, p = o[pre + hi], o[pre + lo], o[pre + "wband"], o[pre + "pband"]
    out = [(f"{pre}wband * middle == 100 * (upper - lower)", "eq", w * width_of, 100 * (h - l)),
           (f"{pre}pband * (upper - lower) == close - lower", "eq", p * (h - l), x - l)]
    if names:
        out += [(f"{pre}{names[0]} is 1 exactly above the upper band", "flag>", o[pre + names[0]], (x, h)),
                (f"{pre}{names[1]} is 1 exactly below the lower band", "flag<", o[pre + names[1]], (x, l))]
    return out


def c09(cls, o, I, p):
    x = I["close"]
    if cls == "BollingerBands":
        return channel(o, "bollinger_lband", "bollinger_mavg", "bollinger_hband") + \
            bands(o, "bollinger_", x, "lband", "hband", o["bollinger_mavg"])
    if cls == "KeltnerChannel":
        return channel(o, "keltner_channel_lband", "keltner_channel_mband", "keltner_channel_hband") + \
            bands(o, "keltner_channel_", x, "lband", "hband", o["keltner_channel_mband"])
    if cls == "DonchianChannel":
        r = channel(o, "donchian_channel_lband", "donchian_channel_mband", "donchian_channel_hband") + \
            [("middle is halfway", "eq", 2 * o["donchian_channel_mband"], o["donchian_channel_lband"] + o["donchian_channel_hband"])]
        if p.get("offset") == 0:
            r += [("close is inside the channel (below)", "le", o["donchian_channel_lband"], x),
                  ("close is inside the channel (above)", "le", x, o["donchian_channel_hband"]),
                  ("%B * (upper - lower) == close - lower", "eq",
                   o["donchian_channel_pband"] * (o["donchian_channel_hband"] - o["donchian_channel_lband"]), x - o["donchian_channel_lband"])]
        return r
    return []


C09 = ("BollingerBands", "KeltnerChannel", "DonchianChannel")


def c20(cls, o, I, p):
    """identities between outputs of the same indicator, including which values are missing"""
    d = {
        "MACD": ("macd_diff", "macd", "macd_signal"),
        "PercentagePriceOscillator": ("ppo_hist", "ppo", "ppo_signal"),
        "PercentageVolumeOscillator": ("pvo_hist", "pvo", "pvo_signal"),
        "KSTIndicator": ("kst_diff", "kst", "kst_sig"),
        "AroonIndicator": ("aroon_indicator", "aroon_up", "aroon_down"),
        "VortexIndicator": ("vortex_indicator_diff", "vortex_indicator_pos", "vortex_indicator_neg"),
    }
    if cls in d:
        a, b, c = d[cls]
        return [(f"{a} == {b} - {c}", "same", o[a], o[b] - o[c])]
    if cls == "IchimokuIndicator":
        return [("span A == (conversion + base) / 2", "same", o["ichimoku_a"], (o["ichimoku_conversion_line"] + o["ichimoku_base_line"]) / 2)] \
            if not p.get("visual") else []
    if cls == "BollingerBands":
        return [("bands are symmetric about the average", "same", o["bollinger_hband"] - o["bollinger_mavg"],
                 o["bollinger_mavg"] - o["bollinger_lband"])]
    return []


C20 = ("MACD", "PercentagePriceOscillator", "PercentageVolumeOscillator", "KSTIndicator", "AroonIndicator",
       "VortexIndicator", "IchimokuIndicator", "BollingerBands")

# pairs of indicators: (class, output, params), (class, output, params), relation of the two values of a row
CROSS = [
    ("%K == 100 + %R of the same window", ("StochasticOscillator", "stoch", {"window": "w", "smooth_window": "s"}),
     ("WilliamsRIndicator", "williams_r", {"lbp": "w"}), lambda x, y: (x, 100 + y)),
    ("daily return == one-row rate of change", ("DailyReturnIndicator", "daily_return", {}),
     ("ROCIndicator", "roc", {"window": 1}), lambda x, y: (x, y)),
    ("middle Bollinger band == simple moving average", ("BollingerBands", "bollinger_mavg", {"window": "w", "window_dev": "d"}),
     ("SMAIndicator", "sma_indicator", {"window": "w"}), lambda x, y: (x, y)),
]

# ---------------------------------------------------------------- C18: averages stay within the range of what they average
# (class, output): (low input, high input, rows back from the current one that can contribute: parameter or None = all rows so far)
ENVELOPE = {
    ("SMAIndicator", "sma_indicator"): ("close", "close", "window"),
    ("EMAIndicator", "ema_indicator"): ("close", "close", None),
    ("WMAIndicator", "wma"): ("close", "close", "window"),
    ("KAMAIndicator", "kama"): ("close", "close", None),
    ("BollingerBands", "bollinger_mavg"): ("close", "close", "window"),
    ("KeltnerChannel", "keltner_channel_mband"): ("low", "high", None),
    ("DonchianChannel", "donchian_channel_mband"): ("low", "high", None),
    ("VolumeWeightedAveragePrice", "volume_weighted_average_price"): ("low", "high", "window"),
    ("IchimokuIndicator", "ichimoku_conversion_line"): ("low", "high", "window1"),
    ("IchimokuIndicator", "ichimoku_base_line"): ("low", "high", "window2"),
    ("IchimokuIndicator", "ichimoku_a"): ("low", "high", None),
    ("IchimokuIndicator", "ichimoku_b"): ("low", "high", None),
}

# ---------------------------------------------------------------- C19: degree in (price, volume)
D0, DP, DV, DPV = (0, 0), (1, 0), (0, 1), (1, 1)
DEGREE = {
    "RSIIndicator": D0, "TSIIndicator": D0, "UltimateOscillator": D0, "StochasticOscillator": D0, "KAMAIndicator": DP,
    "ROCIndicator": D0, "AwesomeOscillatorIndicator": DP, "WilliamsRIndicator": D0, "StochRSIIndicator": D0,
    "PercentagePriceOscillator": D0, "PercentageVolumeOscillator": D0, "AroonIndicator": D0, "MACD": DP,
    "EMAIndicator": DP, "SMAIndicator": DP, "WMAIndicator": DP, "TRIXIndicator": D0, "MassIndex": D0,
    "IchimokuIndicator": DP, "KSTIndicator": D0, "DPOIndicator": DP, "CCIIndicator": D0, "ADXIndicator": D0,
    "VortexIndicator": D0, "PSARIndicator": {"psar": DP, "psar_up": DP, "psar_down": DP, None: D0}, "STCIndicator": D0,
    "AverageTrueRange": DP,
    "BollingerBands": {"bollinger_mavg": DP, "bollinger_hband": DP, "bollinger_lband": DP, None: D0},
    "KeltnerChannel": {"keltner_channel_mband": DP, "keltner_channel_hband": DP, "keltner_channel_lband": DP, None: D0},
    "DonchianChannel": {"donchian_channel_hband": DP, "donchian_channel_lband": DP, "donchian_channel_mband": DP, None: D0},
    "UlcerIndex": D0, "AccDistIndexIndicator": DV, "OnBalanceVolumeIndicator": DV, "ChaikinMoneyFlowIndicator": D0,
    "ForceIndexIndicator": DPV, "EaseOfMovementIndicator": (2, -1), "VolumePriceTrendIndicator": DV,
    "NegativeVolumeIndexIndicator": D0, "MFIIndicator": D0, "VolumeWeightedAveragePrice": DP,
    "DailyReturnIndicator": D0, "DailyLogReturnIndicator": D0, "CumulativeReturnIndicator": D0,
}


def degree(cls, a):
    d = DEGREE[cls]
    return d.get(a, d[None]) if isinstance(d, dict) else d
