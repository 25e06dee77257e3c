"""The published function API and the feature tables: which indicator (class, output, parameters) each one is."""

# name -> (module, class, output, {parameter: default})
FUNCTIONS = {
    "rsi": ("momentum", "RSIIndicator", "rsi", {'window': 14}),
    "tsi": ("momentum", "TSIIndicator", "tsi", {'window_slow': 25, 'window_fast': 13}),
    "ultimate_oscillator": ("momentum", "UltimateOscillator", "ultimate_oscillator", {'window1': 7, 'window2': 14, 'window3': 28, 'weight1': 4.0, 'weight2': 2.0, 'weight3': 1.0}),
    "stoch": ("momentum", "StochasticOscillator", "stoch", {'window': 14, 'smooth_window': 3}),
    "stoch_signal": ("momentum", "StochasticOscillator", "stoch_signal", {'window': 14, 'smooth_window': 3}),
    "williams_r": ("momentum", "WilliamsRIndicator", "williams_r", {'lbp': 14}),
    "awesome_oscillator": ("momentum", "AwesomeOscillatorIndicator", "awesome_oscillator", {'window1': 5, 'window2': 34}),
    "kama": ("momentum", "KAMAIndicator", "kama", {'window': 10, 'pow1': 2, 'pow2': 30}),
    "roc": ("momentum", "ROCIndicator", "roc", {'window': 12}),
    "stochrsi": ("momentum", "StochRSIIndicator", "stochrsi", {'window': 14, 'smooth1': 3, 'smooth2': 3}),
    "stochrsi_k": ("momentum", "StochRSIIndicator", "stochrsi_k", {'window': 14, 'smooth1': 3, 'smooth2': 3}),
    "stochrsi_d": ("momentum", "StochRSIIndicator", "stochrsi_d", {'window': 14, 'smooth1': 3, 'smooth2': 3}),
    "ppo": ("momentum", "PercentagePriceOscillator", "ppo", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "ppo_signal": ("momentum", "PercentagePriceOscillator", "ppo_signal", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "ppo_hist": ("momentum", "PercentagePriceOscillator", "ppo_hist", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "pvo": ("momentum", "PercentageVolumeOscillator", "pvo", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "pvo_signal": ("momentum", "PercentageVolumeOscillator", "pvo_signal", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "pvo_hist": ("momentum", "PercentageVolumeOscillator", "pvo_hist", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "ema_indicator": ("trend", "EMAIndicator", "ema_indicator", {'window': 12}),
    "sma_indicator": ("trend", "SMAIndicator", "sma_indicator", {'window': 12}),
    "wma_indicator": ("trend", "WMAIndicator", "wma", {'window': 9}),
    "macd": ("trend", "MACD", "macd", {'window_slow': 26, 'window_fast': 12}, {'window_sign': 9}),
    "macd_signal": ("trend", "MACD", "macd_signal", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "macd_diff": ("trend", "MACD", "macd_diff", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}),
    "adx": ("trend", "ADXIndicator", "adx", {'window': 14}),
    "adx_pos": ("trend", "ADXIndicator", "adx_pos", {'window': 14}),
    "adx_neg": ("trend", "ADXIndicator", "adx_neg", {'window': 14}),
    "vortex_indicator_pos": ("trend", "VortexIndicator", "vortex_indicator_pos", {'window': 14}),
    "vortex_indicator_neg": ("trend", "VortexIndicator", "vortex_indicator_neg", {'window': 14}),
    "trix": ("trend", "TRIXIndicator", "trix", {'window': 15}),
    "mass_index": ("trend", "MassIndex", "mass_index", {'window_fast': 9, 'window_slow': 25}),
    "cci": ("trend", "CCIIndicator", "cci", {'window': 20, 'constant': 0.015}),
    "dpo": ("trend", "DPOIndicator", "dpo", {'window': 20}),
    "kst": ("trend", "KSTIndicator", "kst", {'roc1': 10, 'roc2': 15, 'roc3': 20, 'roc4': 30, 'window1': 10, 'window2': 10, 'window3': 10, 'window4': 15}, {'nsig': 9}),
    "stc": ("trend", "STCIndicator", "stc", {'window_slow': 50, 'window_fast': 23, 'cycle': 10, 'smooth1': 3, 'smooth2': 3}),
    "kst_sig": ("trend", "KSTIndicator", "kst_sig", {'roc1': 10, 'roc2': 15, 'roc3': 20, 'roc4': 30, 'window1': 10, 'window2': 10, 'window3': 10, 'window4': 15, 'nsig': 9}),
    "ichimoku_conversion_line": ("trend", "IchimokuIndicator", "ichimoku_conversion_line", {'window1': 9, 'window2': 26, 'visual': False}, {'window3': 52}),
    "ichimoku_base_line": ("trend", "IchimokuIndicator", "ichimoku_base_line", {'window1': 9, 'window2': 26, 'visual': False}, {'window3': 52}),
    "ichimoku_a": ("trend", "IchimokuIndicator", "ichimoku_a", {'window1': 9, 'window2': 26, 'visual': False}, {'window3': 52}),
    "ichimoku_b": ("trend", "IchimokuIndicator", "ichimoku_b", {'window2': 26, 'window3': 52, 'visual': False}, {'window1': 9}),
    "aroon_up": ("trend", "AroonIndicator", "aroon_up", {'window': 25}),
    "aroon_down": ("trend", "AroonIndicator", "aroon_down", {'window': 25}),
    "psar_up": ("trend", "PSARIndicator", "psar_up", {'step': 0.02, 'max_step': 0.2}),
    "psar_down": ("trend", "PSARIndicator", "psar_down", {'step': 0.02, 'max_step': 0.2}),
    "psar_up_indicator": ("trend", "PSARIndicator", "psar_up_indicator", {'step': 0.02, 'max_step': 0.2}),
    "psar_down_indicator": ("trend", "PSARIndicator", "psar_down_indicator", {'step': 0.02, 'max_step': 0.2}),
    "average_true_range": ("volatility", "AverageTrueRange", "average_true_range", {'window': 14}),
    "bollinger_mavg": ("volatility", "BollingerBands", "bollinger_mavg", {'window': 20}),
    "bollinger_hband": ("volatility", "BollingerBands", "bollinger_hband", {'window': 20, 'window_dev': 2}),
    "bollinger_lband": ("volatility", "BollingerBands", "bollinger_lband", {'window': 20, 'window_dev': 2}),
    "bollinger_wband": ("volatility", "BollingerBands", "bollinger_wband", {'window': 20, 'window_dev': 2}),
    "bollinger_pband": ("volatility", "BollingerBands", "bollinger_pband", {'window': 20, 'window_dev': 2}),
    "bollinger_hband_indicator": ("volatility", "BollingerBands", "bollinger_hband_indicator", {'window': 20, 'window_dev': 2}),
    "bollinger_lband_indicator": ("volatility", "BollingerBands", "bollinger_lband_indicator", {'window': 20, 'window_dev': 2}),
    "keltner_channel_mband": ("volatility", "KeltnerChannel", "keltner_channel_mband", {'window': 20, 'window_atr': 10, 'original_version': True}),
    "keltner_channel_hband": ("volatility", "KeltnerChannel", "keltner_channel_hband", {'window': 20, 'window_atr': 10, 'original_version': True}),
    "keltner_channel_lband": ("volatility", "KeltnerChannel", "keltner_channel_lband", {'window': 20, 'window_atr': 10, 'original_version': True}),
    "keltner_channel_wband": ("volatility", "KeltnerChannel", "keltner_channel_wband", {'window': 20, 'window_atr': 10, 'original_version': True}),
    "keltner_channel_pband": ("volatility", "KeltnerChannel", "keltner_channel_pband", {'window': 20, 'window_atr': 10, 'original_version': True}),
    "keltner_channel_hband_indicator": ("volatility", "KeltnerChannel", "keltner_channel_hband_indicator", {'window': 20, 'window_atr': 10, 'original_version': True}),
    "keltner_channel_lband_indicator": ("volatility", "KeltnerChannel", "keltner_channel_lband_indicator", {'window': 20, 'window_atr': 10, 'original_version': True}),
    "donchian_channel_hband": ("volatility", "DonchianChannel", "donchian_channel_hband", {'window': 20, 'offset': 0}),
    "donchian_channel_lband": ("volatility", "DonchianChannel", "donchian_channel_lband", {'window': 20, 'offset': 0}),
    "donchian_channel_mband": ("volatility", "DonchianChannel", "donchian_channel_mband", {'window': 10, 'offset': 0}),
    "donchian_channel_wband": ("volatility", "DonchianChannel", "donchian_channel_wband", {'window': 10, 'offset': 0}),
    "donchian_channel_pband": ("volatility", "DonchianChannel", "donchian_channel_pband", {'window': 10, 'offset': 0}),
    "ulcer_index": ("volatility", "UlcerIndex", "ulcer_index", {'window': 14}),
    "acc_dist_index": ("volume", "AccDistIndexIndicator", "acc_dist_index", {}),
    "on_balance_volume": ("volume", "OnBalanceVolumeIndicator", "on_balance_volume", {}),
    "chaikin_money_flow": ("volume", "ChaikinMoneyFlowIndicator", "chaikin_money_flow", {'window': 20}),
    "force_index": ("volume", "ForceIndexIndicator", "force_index", {'window': 13}),
    "ease_of_movement": ("volume", "EaseOfMovementIndicator", "ease_of_movement", {'window': 14}),
    "sma_ease_of_movement": ("volume", "EaseOfMovementIndicator", "sma_ease_of_movement", {'window': 14}),
    "volume_price_trend": ("volume", "VolumePriceTrendIndicator", "volume_price_trend", {'smoothing_factor': None, 'dropnans': False}),
    "negative_volume_index": ("volume", "NegativeVolumeIndexIndicator", "negative_volume_index", {}),
    "money_flow_index": ("volume", "MFIIndicator", "money_flow_index", {'window': 14}),
    "volume_weighted_average_price": ("volume", "VolumeWeightedAveragePrice", "volume_weighted_average_price", {'window': 14}),
    "daily_return": ("others", "DailyReturnIndicator", "daily_return", {}),
    "daily_log_return": ("others", "DailyLogReturnIndicator", "daily_log_return", {}),
    "cumulative_return": ("others", "CumulativeReturnIndicator", "cumulative_return", {}),
}

# column -> (class, output, parameters, also when vectorized)
VOLUME = {
    "volume_adi": ("AccDistIndexIndicator", "acc_dist_index", {}, True),
    "volume_obv": ("OnBalanceVolumeIndicator", "on_balance_volume", {}, True),
    "volume_cmf": ("ChaikinMoneyFlowIndicator", "chaikin_money_flow", {}, True),
    "volume_fi": ("ForceIndexIndicator", "force_index", {'window': 13}, True),
    "volume_em": ("EaseOfMovementIndicator", "ease_of_movement", {'window': 14}, True),
    "volume_sma_em": ("EaseOfMovementIndicator", "sma_ease_of_movement", {'window': 14}, True),
    "volume_vpt": ("VolumePriceTrendIndicator", "volume_price_trend", {}, True),
    "volume_vwap": ("VolumeWeightedAveragePrice", "volume_weighted_average_price", {'window': 14}, True),
    "volume_mfi": ("MFIIndicator", "money_flow_index", {'window': 14}, False),
    "volume_nvi": ("NegativeVolumeIndexIndicator", "negative_volume_index", {}, False),
}

# column -> (class, output, parameters, also when vectorized)
VOLATILITY = {
    "volatility_bbm": ("BollingerBands", "bollinger_mavg", {'window': 20, 'window_dev': 2}, True),
    "volatility_bbh": ("BollingerBands", "bollinger_hband", {'window': 20, 'window_dev': 2}, True),
    "volatility_bbl": ("BollingerBands", "bollinger_lband", {'window': 20, 'window_dev': 2}, True),
    "volatility_bbw": ("BollingerBands", "bollinger_wband", {'window': 20, 'window_dev': 2}, True),
    "volatility_bbp": ("BollingerBands", "bollinger_pband", {'window': 20, 'window_dev': 2}, True),
    "volatility_bbhi": ("BollingerBands", "bollinger_hband_indicator", {'window': 20, 'window_dev': 2}, True),
    "volatility_bbli": ("BollingerBands", "bollinger_lband_indicator", {'window': 20, 'window_dev': 2}, True),
    "volatility_kcc": ("KeltnerChannel", "keltner_channel_mband", {'window': 10}, True),
    "volatility_kch": ("KeltnerChannel", "keltner_channel_hband", {'window': 10}, True),
    "volatility_kcl": ("KeltnerChannel", "keltner_channel_lband", {'window': 10}, True),
    "volatility_kcw": ("KeltnerChannel", "keltner_channel_wband", {'window': 10}, True),
    "volatility_kcp": ("KeltnerChannel", "keltner_channel_pband", {'window': 10}, True),
    "volatility_kchi": ("KeltnerChannel", "keltner_channel_hband_indicator", {'window': 10}, True),
    "volatility_kcli": ("KeltnerChannel", "keltner_channel_lband_indicator", {'window': 10}, True),
    "volatility_dcl": ("DonchianChannel", "donchian_channel_lband", {'window': 20, 'offset': 0}, True),
    "volatility_dch": ("DonchianChannel", "donchian_channel_hband", {'window': 20, 'offset': 0}, True),
    "volatility_dcm": ("DonchianChannel", "donchian_channel_mband", {'window': 20, 'offset': 0}, True),
    "volatility_dcw": ("DonchianChannel", "donchian_channel_wband", {'window': 20, 'offset': 0}, True),
    "volatility_dcp": ("DonchianChannel", "donchian_channel_pband", {'window': 20, 'offset': 0}, True),
    "volatility_atr": ("AverageTrueRange", "average_true_range", {'window': 10}, False),
    "volatility_ui": ("UlcerIndex", "ulcer_index", {'window': 14}, False),
}

# column -> (class, output, parameters, also when vectorized)
TREND = {
    "trend_macd": ("MACD", "macd", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "trend_macd_signal": ("MACD", "macd_signal", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "trend_macd_diff": ("MACD", "macd_diff", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "trend_sma_fast": ("SMAIndicator", "sma_indicator", {'window': 12}, True),
    "trend_sma_slow": ("SMAIndicator", "sma_indicator", {'window': 26}, True),
    "trend_ema_fast": ("EMAIndicator", "ema_indicator", {'window': 12}, True),
    "trend_ema_slow": ("EMAIndicator", "ema_indicator", {'window': 26}, True),
    "trend_vortex_ind_pos": ("VortexIndicator", "vortex_indicator_pos", {'window': 14}, True),
    "trend_vortex_ind_neg": ("VortexIndicator", "vortex_indicator_neg", {'window': 14}, True),
    "trend_vortex_ind_diff": ("VortexIndicator", "vortex_indicator_diff", {'window': 14}, True),
    "trend_trix": ("TRIXIndicator", "trix", {'window': 15}, True),
    "trend_mass_index": ("MassIndex", "mass_index", {'window_fast': 9, 'window_slow': 25}, True),
    "trend_dpo": ("DPOIndicator", "dpo", {'window': 20}, True),
    "trend_kst": ("KSTIndicator", "kst", {'roc1': 10, 'roc2': 15, 'roc3': 20, 'roc4': 30, 'window1': 10, 'window2': 10, 'window3': 10, 'window4': 15, 'nsig': 9}, True),
    "trend_kst_sig": ("KSTIndicator", "kst_sig", {'roc1': 10, 'roc2': 15, 'roc3': 20, 'roc4': 30, 'window1': 10, 'window2': 10, 'window3': 10, 'window4': 15, 'nsig': 9}, True),
    "trend_kst_diff": ("KSTIndicator", "kst_diff", {'roc1': 10, 'roc2': 15, 'roc3': 20, 'roc4': 30, 'window1': 10, 'window2': 10, 'window3': 10, 'window4': 15, 'nsig': 9}, True),
    "trend_ichimoku_conv": ("IchimokuIndicator", "ichimoku_conversion_line", {'window1': 9, 'window2': 26, 'window3': 52, 'visual': False}, True),
    "trend_ichimoku_base": ("IchimokuIndicator", "ichimoku_base_line", {'window1': 9, 'window2': 26, 'window3': 52, 'visual': False}, True),
    "trend_ichimoku_a": ("IchimokuIndicator", "ichimoku_a", {'window1': 9, 'window2': 26, 'window3': 52, 'visual': False}, True),
    "trend_ichimoku_b": ("IchimokuIndicator", "ichimoku_b", {'window1': 9, 'window2': 26, 'window3': 52, 'visual': False}, True),
    "trend_stc": ("STCIndicator", "stc", {'window_slow': 50, 'window_fast': 23, 'cycle': 10, 'smooth1': 3, 'smooth2': 3}, True),
    "trend_adx": ("ADXIndicator", "adx", {'window': 14}, False),
    "trend_adx_pos": ("ADXIndicator", "adx_pos", {'window': 14}, False),
    "trend_adx_neg": ("ADXIndicator", "adx_neg", {'window': 14}, False),
    "trend_cci": ("CCIIndicator", "cci", {'window': 20, 'constant': 0.015}, False),
    "trend_visual_ichimoku_a": ("IchimokuIndicator", "ichimoku_a", {'window1': 9, 'window2': 26, 'window3': 52, 'visual': True}, False),
    "trend_visual_ichimoku_b": ("IchimokuIndicator", "ichimoku_b", {'window1': 9, 'window2': 26, 'window3': 52, 'visual': True}, False),
    "trend_aroon_up": ("AroonIndicator", "aroon_up", {'window': 25}, False),
    "trend_aroon_down": ("AroonIndicator", "aroon_down", {'window': 25}, False),
    "trend_aroon_ind": ("AroonIndicator", "aroon_indicator", {'window': 25}, False),
    "trend_psar_up": ("PSARIndicator", "psar_up", {'step': 0.02, 'max_step': 0.2}, False),
    "trend_psar_down": ("PSARIndicator", "psar_down", {'step': 0.02, 'max_step': 0.2}, False),
    "trend_psar_up_indicator": ("PSARIndicator", "psar_up_indicator", {'step': 0.02, 'max_step': 0.2}, False),
    "trend_psar_down_indicator": ("PSARIndicator", "psar_down_indicator", {'step': 0.02, 'max_step': 0.2}, False),
}

# column -> (class, output, parameters, also when vectorized)
MOMENTUM = {
    "momentum_rsi": ("RSIIndicator", "rsi", {'window': 14}, True),
    "momentum_stoch_rsi": ("StochRSIIndicator", "stochrsi", {'window': 14, 'smooth1': 3, 'smooth2': 3}, True),
    "momentum_stoch_rsi_k": ("StochRSIIndicator", "stochrsi_k", {'window': 14, 'smooth1': 3, 'smooth2': 3}, True),
    "momentum_stoch_rsi_d": ("StochRSIIndicator", "stochrsi_d", {'window': 14, 'smooth1': 3, 'smooth2': 3}, True),
    "momentum_tsi": ("TSIIndicator", "tsi", {'window_slow': 25, 'window_fast': 13}, True),
    "momentum_uo": ("UltimateOscillator", "ultimate_oscillator", {'window1': 7, 'window2': 14, 'window3': 28, 'weight1': 4.0, 'weight2': 2.0, 'weight3': 1.0}, True),
    "momentum_stoch": ("StochasticOscillator", "stoch", {'window': 14, 'smooth_window': 3}, True),
    "momentum_stoch_signal": ("StochasticOscillator", "stoch_signal", {'window': 14, 'smooth_window': 3}, True),
    "momentum_wr": ("WilliamsRIndicator", "williams_r", {'lbp': 14}, True),
    "momentum_ao": ("AwesomeOscillatorIndicator", "awesome_oscillator", {'window1': 5, 'window2': 34}, True),
    "momentum_roc": ("ROCIndicator", "roc", {'window': 12}, True),
    "momentum_ppo": ("PercentagePriceOscillator", "ppo", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "momentum_ppo_signal": ("PercentagePriceOscillator", "ppo_signal", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "momentum_ppo_hist": ("PercentagePriceOscillator", "ppo_hist", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "momentum_pvo": ("PercentageVolumeOscillator", "pvo", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "momentum_pvo_signal": ("PercentageVolumeOscillator", "pvo_signal", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "momentum_pvo_hist": ("PercentageVolumeOscillator", "pvo_hist", {'window_slow': 26, 'window_fast': 12, 'window_sign': 9}, True),
    "momentum_kama": ("KAMAIndicator", "kama", {'window': 10, 'pow1': 2, 'pow2': 30}, False),
}

# column -> (class, output, parameters, also when vectorized)
OTHERS = {
    "others_dr": ("DailyReturnIndicator", "daily_return", {}, True),
    "others_dlr": ("DailyLogReturnIndicator", "daily_log_return", {}, True),
    "others_cr": ("CumulativeReturnIndicator", "cumulative_return", {}, True),
}
