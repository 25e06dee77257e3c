From 11b9d2fca6f9dde5e75a422003a75762e7617772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 01/13] fix: PSAR writes the clamped down-trend value by
 position, not by index label

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index 553afad..8cd8623 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1027,7 +1027,7 @@ class PSARIndicator(IndicatorMixin):
                     high1 = self._high.iloc[i - 1]
                     high2 = self._high.iloc[i - 2]
                     if high2 > self._psar.iloc[i]:
-                        self._psar[i] = high2
+                        self._psar.iloc[i] = high2
                     elif high1 > self._psar.iloc[i]:
                         self._psar.iloc[i] = high1
 
-- 
2.43.0


From 933664131ea62328fa5485bb60cb44c52ffe3d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:30 +0000
Subject: [PATCH 02/13] fix: KAMA efficiency ratio is not truncated to integers
 for integer closes

---
 ta/momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 69a4cda..6b533b5 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -322,7 +322,7 @@ class KAMAIndicator(IndicatorMixin):
         er_num = abs(close_values - np.roll(close_values, self._window))
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
-            er_num, er_den, out=np.zeros_like(er_num), where=er_den != 0
+            er_num, er_den, out=np.zeros_like(er_num, dtype=float), where=er_den != 0
         )
 
         smoothing_constant = (
-- 
2.43.0


From dfc4d112f9b18c6bf45033df4eda188798a3170b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:35 +0000
Subject: [PATCH 03/13] fix: KAMA no longer wraps the last closes round into
 the first rows

---
 ta/momentum.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ta/momentum.py b/ta/momentum.py
index 6b533b5..e556977 100644
--- a/ta/momentum.py
+++ b/ta/momentum.py
@@ -316,10 +316,13 @@ class KAMAIndicator(IndicatorMixin):
 
     def _run(self):
         close_values = self._close.values
-        vol = pd.Series(abs(self._close - np.roll(self._close, 1)))
+        row = np.arange(len(close_values))
+        prev_values = close_values[np.maximum(row - 1, 0)]
+        past_values = close_values[np.maximum(row - self._window, 0)]
+        vol = pd.Series(abs(self._close - prev_values))
 
         min_periods = 0 if self._fillna else self._window
-        er_num = abs(close_values - np.roll(close_values, self._window))
+        er_num = abs(close_values - past_values)
         er_den = vol.rolling(self._window, min_periods=min_periods).sum()
         efficiency_ratio = np.divide(
             er_num, er_den, out=np.zeros_like(er_num, dtype=float), where=er_den != 0
-- 
2.43.0


From fb5789fc9c0351b4b9c0ec9d0b42cee1cf2c5ba2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:38 +0000
Subject: [PATCH 04/13] fix: TRIX does not compare its first value with the
 mean of the whole series

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 8cd8623..788aaa7 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -270,9 +270,7 @@ class TRIXIndicator(IndicatorMixin):
         ema1 = _ema(self._close, self._window, self._fillna)
         ema2 = _ema(ema1, self._window, self._fillna)
         ema3 = _ema(ema2, self._window, self._fillna)
-        self._trix = (ema3 - ema3.shift(1, fill_value=ema3.mean())) / ema3.shift(
-            1, fill_value=ema3.mean()
-        )
+        self._trix = (ema3 - ema3.shift(1)) / ema3.shift(1)
         self._trix *= 100
 
     def trix(self) -> pd.Series:
-- 
2.43.0


From b85013f0af7e5538b4ae93543e30ffaaff2aecb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:16 +0000
Subject: [PATCH 05/13] fix: displaced Ichimoku spans do not start with the
 mean of the whole series

---
 ta/trend.py | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 788aaa7..2b5e983 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -408,11 +408,7 @@ class IchimokuIndicator(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         spana = 0.5 * (self._conv + self._base)
-        spana = (
-            spana.shift(self._window2, fill_value=spana.mean())
-            if self._visual
-            else spana
-        )
+        spana = spana.shift(self._window2) if self._visual else spana
         spana = self._check_fillna(spana, value=-1)
         return pd.Series(spana, name=f"ichimoku_a_{self._window1}_{self._window2}")
 
@@ -426,11 +422,7 @@ class IchimokuIndicator(IndicatorMixin):
             self._high.rolling(self._window3, min_periods=0).max()
             + self._low.rolling(self._window3, min_periods=0).min()
         )
-        spanb = (
-            spanb.shift(self._window2, fill_value=spanb.mean())
-            if self._visual
-            else spanb
-        )
+        spanb = spanb.shift(self._window2) if self._visual else spanb
         spanb = self._check_fillna(spanb, value=-1)
         return pd.Series(spanb, name=f"ichimoku_b_{self._window1}_{self._window2}")
 
-- 
2.43.0


From 5ddb97ff955e9d36ba9e862d7994af2d019c762b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:21 +0000
Subject: [PATCH 06/13] fix: KST rates of change do not use the mean of the
 whole series

---
 ta/trend.py | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index 2b5e983..f336bda 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -485,44 +485,32 @@ class KSTIndicator(IndicatorMixin):
         min_periods_n4 = 0 if self._fillna else self._window4
         rocma1 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r1, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r1, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r1))
+                / self._close.shift(self._r1)
             )
             .rolling(self._window1, min_periods=min_periods_n1)
             .mean()
         )
         rocma2 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r2, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r2, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r2))
+                / self._close.shift(self._r2)
             )
             .rolling(self._window2, min_periods=min_periods_n2)
             .mean()
         )
         rocma3 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r3, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r3, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r3))
+                / self._close.shift(self._r3)
             )
             .rolling(self._window3, min_periods=min_periods_n3)
             .mean()
         )
         rocma4 = (
             (
-                (
-                    self._close
-                    - self._close.shift(self._r4, fill_value=self._close.mean())
-                )
-                / self._close.shift(self._r4, fill_value=self._close.mean())
+                (self._close - self._close.shift(self._r4))
+                / self._close.shift(self._r4)
             )
             .rolling(self._window4, min_periods=min_periods_n4)
             .mean()
-- 
2.43.0


From 70fd196ff822675e2aadb0b9c0c422c27168af01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:27 +0000
Subject: [PATCH 07/13] fix: DPO does not use the mean of the whole series for
 missing past closes

---
 ta/trend.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index f336bda..a17ab45 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -574,9 +574,7 @@ class DPOIndicator(IndicatorMixin):
     def _run(self):
         min_periods = 0 if self._fillna else self._window
         self._dpo = (
-            self._close.shift(
-                int((0.5 * self._window) + 1), fill_value=self._close.mean()
-            )
+            self._close.shift(int((0.5 * self._window) + 1))
             - self._close.rolling(self._window, min_periods=min_periods).mean()
         )
 
-- 
2.43.0


From 80bf3f11278a434a240f60241d6b3c67dab3e0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:32 +0000
Subject: [PATCH 08/13] fix: Vortex true range of the first row does not use
 the mean of the whole series

---
 ta/trend.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/trend.py b/ta/trend.py
index a17ab45..fff8b9f 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -869,7 +869,7 @@ class VortexIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        close_shift = self._close.shift(1, fill_value=self._close.mean())
+        close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         min_periods = 0 if self._fillna else self._window
         trn = true_range.rolling(self._window, min_periods=min_periods).sum()
-- 
2.43.0


From d9fe5485e8e6eea5ac81177df049ec97ac64896b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 09/13] fix: fillna=True leaves no gap in a series that has no
 value to backfill from

---
 ta/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/utils.py b/ta/utils.py
index 9f93bab..3a727ed 100644
--- a/ta/utils.py
+++ b/ta/utils.py
@@ -30,7 +30,7 @@ class IndicatorMixin:
             series_output = series.copy(deep=False)
             series_output = series_output.replace([np.inf, -np.inf], np.nan)
             if isinstance(value, int) and value == -1:
-                series = series_output.ffill().bfill()
+                series = series_output.ffill().bfill().fillna(value)
             else:
                 series = series_output.ffill().fillna(value)
         return series
-- 
2.43.0


From 3af85cc555a8cac393a2aa191d205ef0137f3646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:41 +0000
Subject: [PATCH 10/13] fix: Donchian offset is applied before gaps are filled

---
 ta/volatility.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index 3bbf57e..a5739ae 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -376,9 +376,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        hband = self._check_fillna(self._hband, value=-1)
+        hband = self._hband
         if self._offset != 0:
             hband = hband.shift(self._offset)
+        hband = self._check_fillna(hband, value=-1)
         return pd.Series(hband, name="dchband")
 
     def donchian_channel_lband(self) -> pd.Series:
@@ -387,9 +388,10 @@ class DonchianChannel(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        lband = self._check_fillna(self._lband, value=-1)
+        lband = self._lband
         if self._offset != 0:
             lband = lband.shift(self._offset)
+        lband = self._check_fillna(lband, value=-1)
         return pd.Series(lband, name="dclband")
 
     def donchian_channel_mband(self) -> pd.Series:
@@ -399,9 +401,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         mband = ((self._hband - self._lband) / 2.0) + self._lband
-        mband = self._check_fillna(mband, value=-1)
         if self._offset != 0:
             mband = mband.shift(self._offset)
+        mband = self._check_fillna(mband, value=-1)
         return pd.Series(mband, name="dcmband")
 
     def donchian_channel_wband(self) -> pd.Series:
@@ -412,9 +414,9 @@ class DonchianChannel(IndicatorMixin):
         """
         mavg = self._close.rolling(self._window, min_periods=self._min_periods).mean()
         wband = ((self._hband - self._lband) / mavg) * 100
-        wband = self._check_fillna(wband, value=0)
         if self._offset != 0:
             wband = wband.shift(self._offset)
+        wband = self._check_fillna(wband, value=0)
         return pd.Series(wband, name="dcwband")
 
     def donchian_channel_pband(self) -> pd.Series:
@@ -424,9 +426,9 @@ class DonchianChannel(IndicatorMixin):
             pandas.Series: New feature generated.
         """
         pband = (self._close - self._lband) / (self._hband - self._lband)
-        pband = self._check_fillna(pband, value=0)
         if self._offset != 0:
             pband = pband.shift(self._offset)
+        pband = self._check_fillna(pband, value=0)
         return pd.Series(pband, name="dcpband")
 
 
-- 
2.43.0


From cb5a6a05ec527af66051dad29ac71ca62fcbed8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:45 +0000
Subject: [PATCH 11/13] fix: OBV does not add the volume of a bar whose close
 is unchanged

---
 ta/volume.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ta/volume.py b/ta/volume.py
index eabf4d2..718b850 100644
--- a/ta/volume.py
+++ b/ta/volume.py
@@ -83,7 +83,9 @@ class OnBalanceVolumeIndicator(IndicatorMixin):
         self._run()
 
     def _run(self):
-        obv = np.where(self._close < self._close.shift(1), -self._volume, self._volume)
+        prev_close = self._close.shift(1)
+        obv = np.where(self._close < prev_close, -self._volume, self._volume)
+        obv = np.where(self._close == prev_close, 0, obv)
         self._obv = pd.Series(obv, index=self._close.index).cumsum()
 
     def on_balance_volume(self) -> pd.Series:
-- 
2.43.0


From 72155015217f132f1763c723c91237257e83d835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:50 +0000
Subject: [PATCH 12/13] fix: ATR seed takes the first rows by position for
 float-valued indexes

---
 ta/volatility.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ta/volatility.py b/ta/volatility.py
index a5739ae..254a783 100644
--- a/ta/volatility.py
+++ b/ta/volatility.py
@@ -47,7 +47,7 @@ class AverageTrueRange(IndicatorMixin):
         close_shift = self._close.shift(1)
         true_range = self._true_range(self._high, self._low, close_shift)
         atr = np.zeros(len(self._close))
-        atr[self._window - 1] = true_range[0 : self._window].mean()
+        atr[self._window - 1] = true_range.iloc[0 : self._window].mean()
         for i in range(self._window, len(atr)):
             atr[i] = (atr[i - 1] * (self._window - 1) + true_range.iloc[i]) / float(
                 self._window
-- 
2.43.0


From cd268d2ce223be4b4b2b52615d8b779223983333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:51 +0000
Subject: [PATCH 13/13] fix: PSAR up flip indicator is kept when the stop is
 exactly zero

---
 ta/trend.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ta/trend.py b/ta/trend.py
index fff8b9f..6d36f6c 100644
--- a/ta/trend.py
+++ b/ta/trend.py
@@ -1047,10 +1047,8 @@ class PSARIndicator(IndicatorMixin):
         Returns:
             pandas.Series: New feature generated.
         """
-        indicator = self._psar_up.where(
-            self._psar_up.notnull() & self._psar_up.shift(1).isnull(), 0
-        )
-        indicator = indicator.where(indicator == 0, 1)
+        indicator = self._psar_up.notnull() & self._psar_up.shift(1).isnull()
+        indicator = indicator.astype("float64")
         return pd.Series(indicator, index=self._close.index, name="psariup")
 
     def psar_down_indicator(self) -> pd.Series:
-- 
2.43.0

