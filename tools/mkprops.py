"""Writes properties.jsonl (kept as a program so that the lines stay valid JSON)."""
import json, os
P = []
W_TESTS = "The unit tests compare the last rows of a few fixed spreadsheets, with one or two window settings each; "


def p(id, title, statement, over, text, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                               state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               observe_at=observe, hook_needed=None)))


DOM = "every price/volume history of every length (prices positive and finite, low <= close <= high, volume >= 0) and every admissible window/parameter setting"
ALL = ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/others.py", "ta/utils.py"]
p("C01", "Momentum indicators equal their published formulas on every row",
  "With gap filling off, every value of RSI, TSI, ultimate oscillator, stochastic %K and its signal, Kaufman's adaptive average, rate of change, awesome oscillator, Williams %R, stochastic RSI (with %K, %D), PPO and PVO (line, signal, histogram) equals the documented formula evaluated on the input, on every row, for every parameter setting. Rows before enough observations exist are missing exactly where the formula has no value (each smoothing needs as many observations as its window; a rolling mean, sum, minimum or maximum needs a full window).",
  ["inputs", "configurations"], DOM, W_TESTS + "a formula that differs only on ties, flat stretches, particular windows or early rows passes them.",
  ["ta/momentum.py", "ta/utils.py"],
  [("ewm/rolling pipelines of each class", "ta/momentum.py: _run and the accessor methods"), ("smoothing helpers", "ta/utils.py: _sma, _ema, _get_min_max")],
  ["accessor methods of the momentum classes, fillna=False"])
p("C02", "Trend indicators equal their published formulas on every row",
  "With gap filling off, every value of Aroon, MACD, SMA, EMA, WMA, TRIX, mass index, Ichimoku, KST, DPO, CCI, vortex and STC equals the documented formula evaluated on the input, on every row, for every parameter setting (Ichimoku's visual spans are displaced by the configured number of rows). Rows before enough observations exist are missing exactly where the formula has no value.",
  ["inputs", "configurations"], DOM, W_TESTS + "a weighting, tie or off-by-one error visible only for other windows or on early rows passes them.",
  ["ta/trend.py", "ta/utils.py"],
  [("ewm/rolling/apply pipelines of each class", "ta/trend.py: _run and the accessor methods"), ("smoothing helpers", "ta/utils.py: _sma, _ema, _get_min_max")],
  ["accessor methods of the trend classes, fillna=False"])
p("C03", "Volatility indicators equal their published formulas on every row",
  "With gap filling off, every value of the average true range, Bollinger bands, Keltner channels (both versions), Donchian channels and the ulcer index, with their band width, percentage and band-crossing flags, equals the documented formula evaluated on the input, on every row, for every parameter setting. The average true range is Wilder's: the mean of the first window of true ranges, then the recursive average; rows before enough observations exist are missing (zero for the average true range).",
  ["inputs", "configurations"], DOM + " (the average true range needs at least one window of rows)", W_TESTS + "multipliers, offsets and divisor conventions are sampled at one point.",
  ["ta/volatility.py", "ta/utils.py"],
  [("true range and Wilder recursion", "ta/volatility.py: AverageTrueRange._run; ta/utils.py: _true_range"), ("band construction", "ta/volatility.py: BollingerBands, KeltnerChannel, DonchianChannel, UlcerIndex")],
  ["accessor methods of the volatility classes, fillna=False"])
p("C04", "Volume indicators equal their published formulas on every row",
  "With gap filling off, every value of accumulation/distribution, on-balance volume, Chaikin money flow, force index, ease of movement (raw and smoothed), volume-price trend, negative volume index, money flow index and VWAP equals the documented formula evaluated on the whole history up to that row. In particular an unchanged close adds nothing to on-balance volume, an unchanged or higher volume leaves the negative volume index alone, and a zero-range bar moves no money.",
  ["inputs", "histories", "configurations"], DOM, W_TESTS + "cumulative indicators depend on the whole history, and ties, zero ranges and zero volumes do not occur in the samples.",
  ["ta/volume.py", "ta/utils.py"],
  [("cumulative sums and loops", "ta/volume.py: _run of each class"), ("negative volume recursion", "ta/volume.py: NegativeVolumeIndexIndicator._run")],
  ["accessor methods of the volume classes, fillna=False"])
p("C05", "Return indicators equal their published formulas on every row",
  "With gap filling off, the daily return is 100 times the relative change from the previous close, the daily log return is 100 times the difference of the logarithms, and the cumulative return is 100 times the relative change from the first close. The first daily values are missing and every other row has its value.",
  ["inputs"], "every close history of every length", W_TESTS + "three numbers are compared.",
  ["ta/others.py"], [("return formulas", "ta/others.py: DailyReturnIndicator, DailyLogReturnIndicator, CumulativeReturnIndicator")],
  ["daily_return, daily_log_return, cumulative_return"])
p("C06", "Directional indicators follow Wilder's smoothing for every history and window",
  "With gap filling off, +DI, -DI and ADX equal Wilder's construction on every row with a value: directional movements that keep only the larger positive move, sums over the first window continued by the recursive smoothing, percentages of the smoothed true range, and the average of the first window of directional indexes continued recursively. Leading rows are zero, and a zero smoothed true range gives zero.",
  ["inputs", "histories", "configurations"], "every history of at least two windows, every window", W_TESTS + "one window, last rows only; recursions hide errors in the seed rows.",
  ["ta/trend.py"], [("directional movement, Wilder loops", "ta/trend.py: ADXIndicator._run"), ("final average", "ta/trend.py: ADXIndicator.adx")],
  ["ADXIndicator.adx, adx_pos, adx_neg"], [("smoothed sums", "Wilder's running sums of TR, +DM and -DM", "ta/trend.py: ADXIndicator._trs, _dip, _din")])
p("C07", "Parabolic SAR follows the documented state machine over the whole history",
  "With gap filling off, the stop-and-reverse value, the up-trend and down-trend columns and their flip indicators equal Wilder's state machine run from the first row: the stop moves by the acceleration factor towards the extreme point, is clamped by the two previous lows (highs), reverses when penetrated, and the factor restarts at the step and grows by it on each new extreme up to the maximum. Each row after the second belongs to exactly one of the two columns and a flip indicator is one exactly on the first row of a new trend.",
  ["inputs", "histories", "configurations"], "every price history of every length and every positive step and maximum step", W_TESTS + "one history exercises a handful of state-machine transitions.",
  ["ta/trend.py"], [("state machine", "ta/trend.py: PSARIndicator._run"), ("flip indicators", "ta/trend.py: PSARIndicator.psar_up_indicator, psar_down_indicator")],
  ["PSARIndicator accessors, fillna=False"], [("trend direction, acceleration factor, extreme points", "carried from row to row by the state machine", "ta/trend.py: PSARIndicator._run locals")])
p("C08", "Bounded oscillators stay inside their documented ranges",
  "Every value produced by an oscillator lies in its documented range: RSI, MFI, stochastic %K and its signal, ultimate oscillator, Aroon, STC, +DI, -DI, ADX in 0 to 100; stochastic RSI and its lines in 0 to 1; Williams %R in -100 to 0; TSI in -100 to 100; Chaikin money flow in -1 to 1; true-range averages, ulcer index, mass index, band widths and vortex lines never negative. This holds with gap filling on or off.",
  ["inputs", "configurations"], DOM, "A range is a statement about all inputs; the tests only sample values that happen to be in it.",
  ALL[:4], [("ratios of a part to a whole, clamps and guards against zero denominators", "the _run methods of the classes listed")],
  ["accessor methods of the oscillators"])
p("C09", "Channels stay ordered and flags, widths and percentages agree with the bands",
  "For Bollinger, Keltner and Donchian channels the lower band never exceeds the middle and the middle never exceeds the upper (for the centred-moving-average Keltner channel: with non-negative range), on every row where they have a value. Flag columns are one exactly when the close is strictly beyond the band, the band width is the band distance relative to the middle (times 100), and the percentage is the position of the close between the bands.",
  ["inputs", "configurations"], DOM, "An ordering and a strict-comparison flag need every input, including closes exactly on a band; the tests sample one series.",
  ["ta/volatility.py"], [("band and flag construction", "ta/volatility.py: BollingerBands, KeltnerChannel, DonchianChannel")],
  ["band, flag, width and percentage accessors, fillna=False"])
p("C10", "No look-ahead: a row depends only on rows up to it",
  "Removing or replacing later rows of the input never changes any value already produced for the earlier rows, for every indicator and parameter setting. Only gaps that the documentation fills from later rows are exempt (leading rows when the published fill value asks for back-filling), as is the final row of the directional indicators.",
  ["inputs", "histories", "configurations"], "every pair of histories that agree on the first rows", "Tests never run an indicator on a prefix; wrap-around, back-fill and whole-series statistics go unnoticed.",
  ALL, [("causal pipelines: shift, rolling, ewm, cumulative loops", "all classes"), ("gap filling", "ta/utils.py: IndicatorMixin._check_fillna")],
  ["every accessor, on a prefix and on the whole series"])
p("C11", "Results keep the caller's index and never depend on its labels",
  "Every result is a series with exactly the input's index, one value per input row. The values depend on row positions only: relabelling the index (dates, strings, a shifted, reversed or duplicated range) changes no value.",
  ["inputs", "configurations"], "every index (unique or not, sorted or not) and every history", "All test fixtures have one default or date index.",
  ALL, [("Series construction with the input's index, positional access", "all classes; loops in ta/trend.py, ta/volatility.py, ta/volume.py, ta/momentum.py")],
  ["every accessor"])
p("C12", "Inputs are never modified and results are repeatable",
  "Constructing an indicator and reading its results leaves the caller's series and frame unchanged. Reading a result again, in any order relative to the other results, gives the same values. Other indicators constructed or read before or in between, with other settings or on other data, change nothing.",
  ["inputs", "histories", "configurations"], "every input and every order of accessor calls", "Tests call each accessor once on a private fixture.",
  ALL, [("intermediate series are new objects; accessors do not write shared state", "all classes")],
  ["caller's series/frame before and after, repeated accessor calls"])
p("C13", "Gap filling leaves no missing or infinite value",
  "With gap filling on, no indicator result contains a missing or infinite value, on any row, however short the history or degenerate the data (flat prices, zero volume, zero range). Average true range and directional indicators are required only for histories at least as long as their windows.",
  ["inputs", "configurations"], DOM, W_TESTS + "gap filling is only compared on ordinary data.",
  ALL, [("gap filling policy", "ta/utils.py: IndicatorMixin._check_fillna"), ("numpy.where guards, min_periods", "the _run methods")],
  ["every accessor, fillna=True"])
p("C14", "Gap filling follows the published policy and changes nothing else",
  "With gap filling on, windows that are not yet full use the observations available; then a missing or infinite value takes the last value before it, and leading gaps take the indicator's published fill value (or the first value after them where the published policy is back-filling). Rows that had a finite value in that computation keep it.",
  ["inputs", "configurations"], DOM, W_TESTS + "only the tails are compared, where gap filling has no effect.",
  ALL, [("gap filling policy", "ta/utils.py: IndicatorMixin._check_fillna"), ("min_periods selection", "ta/utils.py: _sma, _ema and the _run methods")],
  ["every accessor, fillna=True"])
p("C15", "The functional interface equals the class interface",
  "Every convenience function returns exactly what constructing the corresponding indicator with the same arguments and reading the corresponding result gives, for every argument including the gap-filling switch. Arguments left out take the published default values.",
  ["inputs", "configurations"], "every function, every argument setting", "Tests compare functions on a few arguments and mostly at the defaults.",
  ALL[:5], [("module-level functions", "ta/momentum.py, ta/trend.py, ta/volatility.py, ta/volume.py, ta/others.py")],
  ["module-level functions"])
p("C16", "Adding all features puts the right indicator in every documented column",
  "The bulk-adding functions return a frame that keeps the caller's columns and rows and adds, under the caller's prefix, each documented column with the values of the corresponding indicator at its published parameters and the requested gap filling. In vectorised mode exactly the documented subset is added.",
  ["inputs", "configurations"], "every frame with the required columns, any column names, prefix, gap-filling and vectorised setting", "Tests only check that the call succeeds or count columns.",
  ["ta/wrapper.py"], [("bulk-adding functions", "ta/wrapper.py: add_volume_ta, add_volatility_ta, add_trend_ta, add_momentum_ta, add_others_ta, add_all_ta_features")],
  ["add_*_ta"])
p("C17", "Dropping missing rows removes exactly the unusable rows",
  "The row-dropping helper returns the rows of the frame, in order and unchanged, in which no column is missing and every numeric column holds a non-zero value below the documented bound (e to the 709). No other row is lost and the caller's frame is unchanged.",
  ["inputs"], "every frame", "One frame is tested.",
  ["ta/utils.py"], [("row filter", "ta/utils.py: dropna")], ["ta.utils.dropna"])
p("C18", "Averages stay inside the envelope of the values averaged",
  "With gap filling off, every moving average and channel midpoint (simple, exponential, weighted and adaptive averages, Bollinger, Keltner and Donchian middles, Ichimoku lines, VWAP) lies between the smallest and largest input it averages. For rolling averages that means the values in the window, for recursive ones all rows so far.",
  ["inputs", "configurations"], DOM, "An envelope is a statement about all inputs and windows.",
  ["ta/momentum.py", "ta/trend.py", "ta/volatility.py", "ta/volume.py", "ta/utils.py"],
  [("weights that are non-negative and sum to one", "ta/utils.py: _sma, _ema; ta/trend.py: WMAIndicator; ta/momentum.py: KAMAIndicator")],
  ["moving-average and midpoint accessors"])
p("C19", "Price and volume units only rescale results",
  "With gap filling off, multiplying all prices by a positive constant leaves every dimensionless indicator unchanged and multiplies every price-valued indicator by that constant. Multiplying all volumes by a positive constant multiplies volume-valued indicators by it and leaves the others unchanged (force index is price times volume, ease of movement price squared over volume).",
  ["inputs", "configurations"], DOM + ", every positive scale", "Tests run one price scale; an absolute threshold or epsilon in the code passes them.",
  ALL[:5], [("formulas are homogeneous; comparisons are between quantities of one unit", "all classes")],
  ["every accessor on an input and on its rescaling"])
p("C20", "Differences, complements and derived lines agree with each other",
  "With gap filling off, a histogram is exactly its line minus its signal (MACD, PPO, PVO), the Aroon indicator is up minus down, a vortex or KST difference is the difference of its lines, leading span A is the mean of the conversion and base lines, and Bollinger bands are symmetric about their average. Stochastic %K and Williams %R of one window differ by exactly 100, the daily return is the one-row rate of change, and the Bollinger average is the simple moving average; a value is missing on one side exactly when it is on the other.",
  ["inputs", "configurations"], DOM, W_TESTS + "each column is compared alone.",
  ["ta/momentum.py", "ta/trend.py", "ta/others.py"], [("difference accessors", "ta/trend.py: MACD, AroonIndicator, VortexIndicator, KSTIndicator; ta/momentum.py: PPO, PVO, Stochastic, Williams")],
  ["the accessors named"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
open(out, "w").write("".join(json.dumps(x) + "\n" for x in P))
