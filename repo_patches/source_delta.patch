From 3b0a7e913c47bd43e5137d44bdb28c2902511c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:31 +0000
Subject: [PATCH 01/60] fix: extrapolate the documented number of samples for
 quarterly, monthly and yearly series

---
 anticipy/model_utils.py | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index a87c88f..6f392ca 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -105,15 +105,6 @@ dict_freq_units_per_year = dict(
     H=24 * 365.0
 )
 
-dict_dateoffset_input = dict(
-    Y='years',
-    A='years',
-    M='months',
-    W='weeks',
-    D='days',
-    H='hours'
-)
-
 
 def get_normalized_x_from_date(s_date):
     """Get column of days since Monday of first date"""
@@ -186,15 +177,17 @@ def get_s_x_extrapolate(
         # freq_units_per_year = 52.0 if freq_short=='W' else 365.0
         # Todo: change to dict to support more frequencies
         freq_units_per_year = dict_freq_units_per_year.get(freq_short, 365.0)
-        extrapolate_units = extrapolate_years * freq_units_per_year
-        offset_input = {dict_dateoffset_input.get(freq_short):
-                            extrapolate_units}
-        date_end_forecast = date_end_actuals + \
-                            pd.DateOffset(**offset_input)
+        # Number of additional samples, rounded down. We count samples instead
+        # of adding a date offset because offsets don't support quarters or
+        # fractional months/years, and miss samples if end of month varies
+        extrapolate_units = math.floor(
+            round(extrapolate_years * freq_units_per_year, 6))
+        n_samples_actuals = pd.date_range(
+            date_start_actuals, date_end_actuals, freq=freq).size
 
         i_date = pd.date_range(
             date_start_actuals,
-            date_end_forecast,
+            periods=n_samples_actuals + extrapolate_units,
             freq=freq,
             name='date')
         s_date = pd.Series(i_date)
-- 
2.43.0


From ff503957eeac04ed995714440dc90d6b46e02e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:36 +0000
Subject: [PATCH 02/60] fix: detect start of period and month of quarterly and
 yearly series

---
 anticipy/forecast.py    |  4 +++-
 anticipy/model_utils.py | 22 ++++++++++++++++++----
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0a4143a..4899936 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1563,8 +1563,10 @@ class ForecastInput:
 
 
 def _get_days_from_freq(freq):
-    if freq.startswith('Y'):
+    if freq.startswith(('Y', 'A')):
         return 365
+    elif freq.startswith('Q'):
+        return 91
     elif freq.startswith('M'):
         return 30
     elif freq.startswith('W'):
diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 6f392ca..e493a52 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -36,6 +36,10 @@ dict_wday_name = {
     6: 'W-SUN',
 }
 
+l_month_name = [
+    'JAN', 'FEB', 'MAR', 'APR', 'MAY', 'JUN',
+    'JUL', 'AUG', 'SEP', 'OCT', 'NOV', 'DEC']
+
 
 # -- Exception classes
 
@@ -316,15 +320,25 @@ def detect_freq(a_date):
             return 'M'
     elif min_date_delta >= pd.Timedelta(89, unit='d') and \
             min_date_delta <= pd.Timedelta(92, unit='d'):
-        return 'Q'
+        # QS is quarter start, Q is quarter end, with an optional suffix if
+        # quarters don't match those of the calendar year
+        i_quarter_month = s_date.dt.month.min() % 3
+        if s_date.dt.day.max() == 1:
+            return {1: 'QS', 2: 'QS-FEB', 0: 'QS-MAR'}[i_quarter_month]
+        else:
+            return {0: 'Q', 1: 'Q-JAN', 2: 'Q-FEB'}[i_quarter_month]
     elif min_date_delta >= pd.Timedelta(365, unit='d') and \
             min_date_delta <= pd.Timedelta(366, unit='d'):
         # YS is month start, Y is month end. We use MS if all dates match first
         # of month
-        if s_date.dt.day.max() == 1 and s_date.dt.month.max() == 1:
-            return 'YS'
+        # If year doesn't match the calendar year, we add the month as suffix
+        i_month = s_date.dt.month.max()
+        if s_date.dt.day.max() == 1:
+            return 'YS' if i_month == 1 else \
+                'AS-{}'.format(l_month_name[i_month - 1])
         else:
-            return 'Y'
+            return 'Y' if i_month == 12 else \
+                'A-{}'.format(l_month_name[i_month - 1])
     elif min_date_delta >= pd.Timedelta(23, unit='h'):
         # and min_date_delta <= pd.Timedelta(1, unit='d')\
         return 'D'
-- 
2.43.0


From a58373a51ba3f0366692d5211f7c681d886a7ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:01 +0000
Subject: [PATCH 03/60] fix: numeric index of extrapolated series counted its
 offset twice

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index e493a52..3cd66a2 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -212,7 +212,7 @@ def get_s_x_extrapolate(
             index=index,
             data=np.arange(
                 x_start_actuals,
-                x_start_actuals + index.size)) + x_start_actuals
+                x_start_actuals + index.size))
     if model_requires_scaling(model):
         s_x = s_x / scaling_factor
     return s_x
-- 
2.43.0


From de3c7207a809a782b1450ebac2c316476fd84d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 04/60] fix: numeric forecast must include the last actuals
 sample and 100 samples per year

---
 anticipy/model_utils.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 3cd66a2..f3d6344 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -205,9 +205,8 @@ def get_s_x_extrapolate(
         index = pd.Index(
             np.arange(
                 date_start_actuals,
-                date_end_actuals +
-                100 *
-                extrapolate_years))
+                date_end_actuals + 1 +
+                math.floor(round(100 * extrapolate_years, 6))))
         s_x = pd.Series(
             index=index,
             data=np.arange(
-- 
2.43.0


From ffdedfc4bd65c1d4acbeea7c65102285ec4b605b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 05/60] fix: float numeric indexes could crash extrapolation

---
 anticipy/model_utils.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index f3d6344..b0734bd 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -202,16 +202,14 @@ def get_s_x_extrapolate(
     else:
         # Otherwise, use numeric index
         # we extrapolate future samples equal to 100*extrapolate_years
-        index = pd.Index(
-            np.arange(
-                date_start_actuals,
-                date_end_actuals + 1 +
-                math.floor(round(100 * extrapolate_years, 6))))
+        # Count samples first - np.arange(start, end) is not reliable with
+        # float indexes, and can generate x and index with different lengths
+        n_samples = (
+            math.floor(round(date_end_actuals - date_start_actuals, 6)) + 1 +
+            math.floor(round(100 * extrapolate_years, 6)))
         s_x = pd.Series(
-            index=index,
-            data=np.arange(
-                x_start_actuals,
-                x_start_actuals + index.size))
+            index=pd.Index(date_start_actuals + np.arange(n_samples)),
+            data=x_start_actuals + np.arange(n_samples))
     if model_requires_scaling(model):
         s_x = s_x / scaling_factor
     return s_x
-- 
2.43.0


From 24e2ff3d0138f7da4ac394c389ca2e3a2d99da90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:35 +0000
Subject: [PATCH 06/60] fix: apply numeric date_start_actuals to series without
 dates

---
 anticipy/forecast.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 4899936..c7a6376 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1192,8 +1192,10 @@ def run_forecast_single(df_y,
     df_y_unfiltered = df_y.copy()
 
     # Filter: only actuals after date_start_actuals
-    if date_start_actuals is not None and 'date' in df_y.columns:
-        df_y = df_y.loc[df_y.date >= date_start_actuals]
+    # (or after that numeric index, if input has no dates)
+    if date_start_actuals is not None:
+        col_start = 'date' if 'date' in df_y.columns else 'x'
+        df_y = df_y.loc[df_y[col_start] >= date_start_actuals]
 
     date_start_actuals = df_y.date.min() \
         if 'date' in df_y.columns else df_y.x.min()
-- 
2.43.0


From 6cc82e1864adb8942d994d3b374a3bef727b2008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:57 +0000
Subject: [PATCH 07/60] fix: get_model_outliers crashed on series without
 outliers

---
 anticipy/forecast_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index a15ac6f..b1c24b4 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1338,6 +1338,8 @@ def get_model_outliers(df, window=3):
     # Now identify the changes
     dfo['ischange'] = ((dfo.dif < thr_low) | (dfo.dif > thr_hi)).astype(int)
 
+    if not dfo['ischange'].any():  # No outliers - nothing to do
+        return np.full(dfo.index.size, False), np.full(dfo.index.size, False)
     # Whenever there are two or more consecutive changes
     # (that is, within `window` samples), we group them together
     dfo['ischange_group'] = (
-- 
2.43.0


From 970c15e5f98f7c0b98321badbb457d13ba358574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:18 +0000
Subject: [PATCH 08/60] fix: models with equal min and max bounds crashed, or
 were extrapolated with the wrong parameters

---
 anticipy/forecast.py        | 8 ++++++--
 anticipy/forecast_models.py | 2 +-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index c7a6376..9e4a022 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1369,8 +1369,12 @@ def run_forecast_single(df_y,
             # date_start_actuals = df_y.date.min()
             # date_end_actuals = df_y.date.max()
 
+            # We extrapolate with the model used for the fit, it may be a
+            # simplified version of model, with some fixed parameters
+            model_fit = df_metadata_tmp.model_obj.iloc[0]
+
             df_data_tmp = extrapolate_model(
-                model,
+                model_fit,
                 params,
                 date_start_actuals,
                 date_end_actuals,
@@ -1380,7 +1384,7 @@ def run_forecast_single(df_y,
                 df_actuals=df_actuals_interpolated)
 
             df_data_tmp = _get_df_fcast_clean(
-                df_data_tmp, source_id, source_long, model.name)
+                df_data_tmp, source_id, source_long, model_fit.name)
 
             l_df_data += [df_data_tmp]
 
diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index b1c24b4..619029c 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1901,7 +1901,7 @@ def simplify_model(f_model, a_x=None, a_y=None, a_date=None):
         return f_model
     else:  # We make parameters fixed if their min and max bounds are equal
         params_fixed = np.full(f_model.n_params, np.NaN)
-        params_fixed[i_diff_zero, ] = bounds_max[i_diff_zero, ]
+        params_fixed[i_diff_zero] = np.array(bounds_max)[i_diff_zero]
         f_model = fix_params_fmodel(f_model, params_fixed)
         logger.info(
             'Some min and max bounds are equal - generating fixed model: %s',
-- 
2.43.0


From 8c49a23692dc6ea739b8d50c86d6ce28ccb2f484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:58 +0000
Subject: [PATCH 09/60] fix: initial guess of sigmoid step model could fall out
 of bounds and crash

---
 anticipy/forecast_models.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 619029c..925c950 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1024,6 +1024,13 @@ def _f_init_params_sigmoid_step(
         c = df.nlargest(1, 'diff').index[0]
         b = df.loc[c, 'y']
         d = b * b
+        if a_x is not None:
+            if a_x.ndim > 1:
+                a_x = a_x[:, 0]
+            # c is a position in the x axis, and b must be within bounds
+            c = a_x[c]
+            bounds_min, bounds_max = _f_init_bounds_sigmoid_step(a_x, a_y)
+            b = np.clip(b, bounds_min[0], bounds_max[0])
         return b, c, d
 
 
-- 
2.43.0


From fa94b19bc04e807ac07509de610ae91d5ecdde3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:45 +0000
Subject: [PATCH 10/60] fix: spike model crashed when fitted, use the
 documented formula

---
 anticipy/forecast_models.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 925c950..3ef5edc 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -674,11 +674,7 @@ def _f_model_spike(a_x, a_date, params, is_mult=False, **kwargs):
         c = 1
     else:
         c = 0
-    y = np.concatenate((
-        np.full(int(x_min), c),
-        np.full(int(x_max - x_min), A),
-        np.full(len(a_x) - int(x_max), c)
-    ))
+    y = np.where((a_x >= x_min) & (a_x < x_max), A, c)
     return y
 
 
-- 
2.43.0


From 718c886028cf73b8bd380887716f80c381842dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:43 +0000
Subject: [PATCH 11/60] fix: ramp model crashed on series with multiple values
 per sample

---
 anticipy/forecast_models.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 3ef5edc..486af7a 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1119,6 +1119,9 @@ def _f_init_bounds_ramp(a_x=None, a_y=None, a_date=None):
         a_max = np.inf
     else:
         # a_min = np.min(a_x)
+        # We ignore duplicates, as with parameter initialisation. Otherwise,
+        # we can get bounds that don't include the initial parameters
+        a_x = np.unique(a_x)
         nfirst_last = int(np.ceil(0.15 * a_x.size))
         a_min = a_x[nfirst_last]
         a_max = a_x[-nfirst_last]
@@ -1142,12 +1145,18 @@ def _f_init_bounds_ramp(a_x=None, a_y=None, a_date=None):
     return ([a_min, b_min], [a_max, b_max])
 
 
+def _f_validate_input_ramp(a_x, a_y, a_date):
+    # Parameter initialisation requires 4+ different samples in x axis
+    assert np.unique(a_x).size >= 4
+
+
 model_ramp = ForecastModel(
     'ramp',
     2,
     _f_ramp,
     _f_init_params_ramp,
-    _f_init_bounds_ramp)
+    _f_init_bounds_ramp,
+    l_f_validate_input=_f_validate_input_ramp)
 
 
 # - Weekday seasonality
-- 
2.43.0


From de8edba47a8762635bef144317167d89571d3b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:33 +0000
Subject: [PATCH 12/60] fix: naive models with no output for any actuals sample
 were selected as a perfect fit

---
 anticipy/forecast.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 9e4a022..a883212 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -564,7 +564,10 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
                 a_weights,
                 df_actuals=df_actuals)
             fit_time = (datetime.now() - time_start).total_seconds()
-            cost = 0.5 * np.nansum(a_residuals ** 2)
+            # With no valid residuals we have no cost, so that a model with no
+            # output for the actuals is not mistaken for a perfect fit
+            cost = np.NaN if np.isnan(a_residuals).all() \
+                else 0.5 * np.nansum(a_residuals ** 2)
             is_fit = True
             params = np.array([])
             status = 'FIT'
-- 
2.43.0


From 123dc7d018e16331386deb8d92143d5521bfdea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:00 +0000
Subject: [PATCH 13/60] fix: forecast crashed for dated series with no
 detectable frequency, such as single samples

---
 anticipy/forecast.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index a883212..c3b4748 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1694,7 +1694,8 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
         freq_days = 1
     else:
         freq = detect_freq(df_forecast)
-        freq_days = _get_days_from_freq(freq)
+        # Frequency can't be detected in some series, e.g. with 1 sample
+        freq_days = _get_days_from_freq(freq) if freq is not None else 1
     # Adjust n_cum by sampling frequency
     n_cum_raw = n_cum  # For debugging purposes
     n_cum = int(n_cum / freq_days)
-- 
2.43.0


From 1392678538b6855e0437013661f8036b73ce3ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 14/60] fix: linear model crashed if all samples share the same
 x value

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 486af7a..566cb76 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -761,7 +761,8 @@ def _f_init_params_linear(a_x=None, a_y=None, a_date=None, is_mult=False):
             a_x_size = np.unique(a_x).size - 1
         else:
             a_x_size = a_y.size - 1
-        A = (a_y[-1] - a_y[0]) / a_x_size
+        # Slope is undefined if all samples share the same x value
+        A = (a_y[-1] - a_y[0]) / a_x_size if a_x_size > 0 else 0.
         B = a_y[0]
         # Uniform low= 0*m, high = 1*m
         return np.array([A, B])
-- 
2.43.0


From ca9080a8984338cde63749e5555ec1ffcff85f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 15/60] fix: input validation ignored functions that return
 False

---
 anticipy/forecast_models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 566cb76..b607899 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -510,7 +510,8 @@ class ForecastModel:
                         for f_validate_input in self.l_f_validate_input]
         except AssertionError:
             return False
-        return True
+        # Validators that raise AssertionError may not return any value
+        return all(result is None or result for result in l_result)
 
     def init_cache(self, a_x, a_date):
         dict_cache_vars = dict()
-- 
2.43.0


From 63170ad202c37a1be2c0d4c73473be4ad320a02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:40 +0000
Subject: [PATCH 16/60] fix: x axis depended on the order of input rows

---
 anticipy/model_utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index b0734bd..f24ef16 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -112,7 +112,7 @@ dict_freq_units_per_year = dict(
 
 def get_normalized_x_from_date(s_date):
     """Get column of days since Monday of first date"""
-    date_start = s_date.iloc[0]
+    date_start = s_date.min()
     # Convert to Monday
     date_start = date_start - pd.to_timedelta(date_start.weekday(), unit='D')
     s_x = (s_date - date_start).dt.days
-- 
2.43.0


From 108570417a039c5c21f1a1ce84eae5e042b12d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:18 +0000
Subject: [PATCH 17/60] fix: models with fixed parameters shared state between
 calls, and ignored actuals

---
 anticipy/forecast_models.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index b607899..6ab1feb 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1301,7 +1301,8 @@ def get_fixed_model(forecast_model, params_fixed, is_mult=False):
         forecast_model.name + '_fixed', 0,
         f_model=lambda a_x, a_date, params, is_mult=is_mult, **kwargs:
         forecast_model.f_model(
-            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult))
+            a_x=a_x, a_date=a_date, params=params_fixed, is_mult=is_mult,
+            **kwargs))
 
 
 def get_iqr_thresholds(s_diff, low=0.25, high=0.75):
@@ -1863,9 +1864,11 @@ def fix_params_fmodel(forecast_model, l_params_fixed):
     n_params = len(i_null[0])
 
     def f_model_fixed(a_x, a_date, params, is_mult=False, **kwargs):
-        params_long = l_params_fixed
+        # Copy, so that calls don't overwrite state shared by other calls
+        params_long = l_params_fixed.copy()
         params_long[i_null] = params
-        return forecast_model.f_model(a_x, a_date, params_long, is_mult)
+        return forecast_model.f_model(
+            a_x, a_date, params_long, is_mult, **kwargs)
 
     def f_init_params_fixed(a_x=None, a_y=None, a_date=None, is_mult=False):
         # return params short
-- 
2.43.0


From 6349c2d2bc57dc1872ad444f8b10f237b53f4cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:03 +0000
Subject: [PATCH 18/60] fix: naive models crashed when composed with models
 that use a cache

---
 anticipy/forecast_models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 6ab1feb..afacd99 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -570,7 +570,8 @@ model_constant = ForecastModel(
 # regression. We still pass it to forecast.fit_model() for consistency
 # with the rest of the library
 
-def _f_model_naive(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_naive(
+        a_x, a_date, params, is_mult=False, df_actuals=None, **kwargs):
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
     df_out_tmp = pd.DataFrame({'date': a_date, 'x': a_x})
@@ -620,7 +621,8 @@ def _fillna_wday(df):
     return df_out
 
 
-def _f_model_snaive_wday(a_x, a_date, params, is_mult=False, df_actuals=None):
+def _f_model_snaive_wday(
+        a_x, a_date, params, is_mult=False, df_actuals=None, **kwargs):
     """Naive model - takes last valid weekly sample"""
     if df_actuals is None:
         raise ValueError('model_snaive_wday requires a df_actuals argument')
-- 
2.43.0


From 1c33f3fee218180cd538cb49e778118c7edea0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:00 +0000
Subject: [PATCH 19/60] fix: composed dummy models with the same name shared a
 cached mask

---
 anticipy/forecast_models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index afacd99..55226b5 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1630,9 +1630,11 @@ def get_model_dummy(name, dummy, **kwargs):
 
 
     """
-    mask_name = 'mask_' + name
     f_dummy = _get_f_dummy(dummy)
     _validate_f_dummy(f_dummy)
+    # Cached mask needs an unique name, otherwise different dummies with the
+    # same model name would share one mask when composed
+    mask_name = 'mask_{}_{}'.format(name, id(f_dummy))
     f_model_dummy = _get_f_model_dummy(f_dummy, mask_name)
     dict_f_cache = {mask_name: f_dummy}
     return ForecastModel(
-- 
2.43.0


From b8b613e6cfb7290de80431e34fee67121db97edc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 20/60] fix: UK August bank holiday is the last Monday in
 August, which can be August 31st

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 55226b5..884fd77 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1669,7 +1669,7 @@ class CalendarBankHolUK(AbstractHolidayCalendar):
                 offset=DateOffset(weekday=MO(-1))
                 ),
         # August Bank holiday - Last Monday in August
-        Holiday('August Bank Holiday', month=8, day=30,
+        Holiday('August Bank Holiday', month=8, day=31,
                 offset=DateOffset(weekday=MO(-1))
                 )
     ]
-- 
2.43.0


From 7a7c4b0fe9db00f680ab6fd5db2a4a7e5559b0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 21/60] fix: app wrote its output in the parent of path_out if
 it had no trailing slash

---
 anticipy/app.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/anticipy/app.py b/anticipy/app.py
index 05511cc..509dc1a 100644
--- a/anticipy/app.py
+++ b/anticipy/app.py
@@ -56,7 +56,8 @@ def run_forecast_app(path_in, path_out=None, forecast_years=2.0,
         path_out = path_in
     assert os.path.exists(path_out)
 
-    path_folder = os.path.dirname(path_out)
+    path_folder = path_out if os.path.isdir(path_out) \
+        else os.path.dirname(path_out)
 
     logger_info('dir name', path_folder)
 
-- 
2.43.0


From aea21edddf34d45bdb7fed817e3e05291e559bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 22/60] fix: png plots crashed with default width or height

---
 anticipy/forecast_plot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index a8df364..f6755cd 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -93,7 +93,10 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     act_col = '#00BFC4'
     for_col = '#F8766D'
     plt.style.use('ggplot')
-    figsize = (width / dpi, height / dpi)
+    # Use matplotlib's default size if width or height are not set
+    default_width, default_height = plt.rcParams['figure.figsize']
+    figsize = (width / dpi if width is not None else default_width,
+               height / dpi if height is not None else default_height)
 
     # Clean actuals - weights do not get plotted
     df_fcast = df_fcast.loc[df_fcast.model != 'weight']
-- 
2.43.0


From 237e73e1cc7023eeecc63d0ddeba420c5c26eaaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:24 +0000
Subject: [PATCH 23/60] fix: html plots crashed if folder was missing, or with
 many sources

---
 anticipy/forecast_plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index f6755cd..446f2a6 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -223,6 +223,8 @@ def _plotly_forecast_create(df_fcast, subplots, sources, nrows, ncols,
                              'install plotly, then import the library'
 
     vertical_spacing = 50. / height if height is not None else 0.1
+    if nrows > 1:  # Limit spacing, to leave some space for the plots
+        vertical_spacing = min(vertical_spacing, 0.5 / (nrows - 1))
 
     if subplots:
         titles = map(str, sources)
@@ -458,6 +460,10 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
                                           add_rangeslider,
                                           include_interval, pi_q1, pi_q2)
             path = '{}.html'.format(path)
+            dirname, fname = os.path.split(path)
+            if dirname != '' and not os.path.exists(dirname):
+                logger.error('Path missing {}'.format(path))
+                os.makedirs(dirname)
             py.offline.plot(fig, filename=path, show_link=False,
                             auto_open=auto_open, include_plotlyjs='cdn')
         else:
-- 
2.43.0


From f03f26ebe7b304fb2b6e14c06750994a2432635f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:01 +0000
Subject: [PATCH 24/60] fix: forecast crashed for series with no usable samples

---
 anticipy/forecast.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index c3b4748..0a0f201 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -492,11 +492,12 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
     is_fit = False
     params = []
     # Get first and last actuals date, for metadata. If no a_date, use a_x
-    # instead.
+    # instead. With no samples, we get null values.
+    s_x = pd.Series(a_x)
     date_start_actuals = i_date.min().date()\
-        if i_date is not None else a_x.min()
+        if i_date is not None else s_x.min()
     date_end_actuals = i_date.max().date()\
-        if i_date is not None else a_x.max()
+        if i_date is not None else s_x.max()
     actuals_x_range = '{}::{}'.format(date_start_actuals, date_end_actuals)
 
     if df_y.empty:
@@ -1745,7 +1746,7 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     if df_residuals.empty:  # May happen if no forecast could be generated
         logger.warning(
             'No forecast data for source %s',
-            df_forecast.source.head(1).iloc[0])
+            df_forecast.source.iloc[0] if not df_forecast.empty else None)
         return df_actuals_unfiltered[l_cols + ['is_actuals', 'model', 'y']]
 
     # Generate table with prediction interval
-- 
2.43.0


From c550792e52b2c5ae872aafe2db7926553026a5c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 25/60] fix: models in both naive and trend lists were fitted
 twice and duplicated the forecast

---
 anticipy/forecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 0a0f201..e79c144 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1317,7 +1317,9 @@ def run_forecast_single(df_y,
         # Default naive model. To force no naive models, use l_model_naive=[]
         l_model_naive = [forecast_models.model_snaive_wday] if freq == 'D' \
             else [forecast_models.model_naive]
-    l_model = l_model_naive + l_model
+    # Remove duplicates - a model may be both in l_model_naive and l_model
+    l_model = pd.Series(
+        l_model_naive + l_model, dtype=object).drop_duplicates().tolist()
 
     # exclude samples with weight = 0
     df_y = df_y.loc[df_y.weight > 0]
-- 
2.43.0


From 94a3e263242159405471d3feded8de183f2fca81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:30 +0000
Subject: [PATCH 26/60] fix: x axis ignored part of the days in series with
 time zones or different times of day

---
 anticipy/model_utils.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index f24ef16..61aefdd 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -110,12 +110,18 @@ dict_freq_units_per_year = dict(
 )
 
 
+def _get_days_since(s_date, date_start):
+    # Calendar days since date_start. We ignore time of day and time zone,
+    # otherwise day count depends on time of day and daylight saving changes
+    date_start = date_start.tz_localize(None).normalize()
+    return (s_date.dt.tz_localize(None).dt.normalize() - date_start).dt.days
+
+
 def get_normalized_x_from_date(s_date):
     """Get column of days since Monday of first date"""
     date_start = s_date.min()
     # Convert to Monday
-    date_start = date_start - pd.to_timedelta(date_start.weekday(), unit='D')
-    s_x = (s_date - date_start).dt.days
+    s_x = _get_days_since(s_date, date_start) + date_start.weekday()
     return s_x
 
 
@@ -197,7 +203,7 @@ def get_s_x_extrapolate(
         s_date = pd.Series(i_date)
 
         # Get days passed since date_start, then add x_start_actuals
-        s_x = (s_date - date_start_actuals).dt.days + x_start_actuals
+        s_x = _get_days_since(s_date, date_start_actuals) + x_start_actuals
         s_x.index = i_date
     else:
         # Otherwise, use numeric index
-- 
2.43.0


From 0db243a2d70f9f04d1411850a889c54594990000 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:53 +0000
Subject: [PATCH 27/60] fix: prediction interval of hourly series widened 24
 times too often

---
 anticipy/forecast.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index e79c144..29f0ea6 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1583,6 +1583,8 @@ def _get_days_from_freq(freq):
         return 30
     elif freq.startswith('W'):
         return 7
+    elif freq.startswith('H'):
+        return 1 / 24
     else:
         return 1
 
@@ -1701,7 +1703,7 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
         freq_days = _get_days_from_freq(freq) if freq is not None else 1
     # Adjust n_cum by sampling frequency
     n_cum_raw = n_cum  # For debugging purposes
-    n_cum = int(n_cum / freq_days)
+    n_cum = int(round(n_cum / freq_days, 6))
     if n_cum < 1:  # Avoid divide by 0
         n_cum = 1
 
-- 
2.43.0


From ac5d55793b9dea0e92dc980d60a02c29c56a6831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:33 +0000
Subject: [PATCH 28/60] fix: samples with weight 0 or null value affected
 detection of multiplicative composition

---
 anticipy/model_utils.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 61aefdd..5d36796 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -476,6 +476,10 @@ def is_multiplicative(df, freq='M'):
     - If date information is unavailable (only x column), use additive
     - If less than 2 periods worth of data are available, use additive
     """
+    # Ignore null samples, and samples with weight 0
+    df = df.loc[~df.y.pipe(pd.isna)]
+    if 'weight' in df.columns:
+        df = df.loc[df.weight > 0]
     if (df.y <= 0).any():
         return False
     if 'date' not in df.columns:
@@ -483,10 +487,7 @@ def is_multiplicative(df, freq='M'):
     if (df.date.max() - df.date.min()) < pd.Timedelta('60 days'):
         return False
     # Check for series size
-    df_filtered = df.loc[~df.y.pipe(pd.isna)]
-    if 'weight' in df_filtered.columns:
-        df_filtered = df_filtered.loc[df_filtered.weight > 0]
-    if df_filtered.index.size < 4:  # Not enough samples to fit a linear model
+    if df.index.size < 4:  # Not enough samples to fit a linear model
         return False
     df_stats = _get_mult_sum_stats(df, freq)
     # Column corr_mean_to_var is constant
-- 
2.43.0


From 0ddfc8208c060eeb6e3292a72c3baa3eb77bb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:06 +0000
Subject: [PATCH 29/60] fix: AICc of a perfect fit crashed on long series

---
 anticipy/model_utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 5d36796..c2d4b37 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -273,12 +273,12 @@ def get_aic_c(fit_error, n, n_params):
             # multiple perfect fits - we use a patch instead
             # aicc = -float("inf")
             fit_error = 10 ** -320
-            aicc = n * math.log(fit_error / n) + 2 * n_params + \
+            aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
                 (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     else:
         # Actual calculation of the AICc
-        aicc = n * math.log(fit_error / n) + 2 * n_params + \
+        aicc = n * (math.log(fit_error) - math.log(n)) + 2 * n_params + \
             (2 * n_params * (n_params + 1) / (n - n_params - 1))
 
     return aicc
-- 
2.43.0


From ed88d9c11c3b3b4de30f71430d5e0a24466e40cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:30 +0000
Subject: [PATCH 30/60] fix: best AICc key was a position instead of a key, and
 crashed with several perfect fits

---
 anticipy/model_utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index c2d4b37..dc9778a 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -290,10 +290,10 @@ def get_s_aic_c_best_result_key(s_aic_c):
     if s_aic_c.empty or s_aic_c.isnull().all():
         return None
     if (s_aic_c.values == -np.inf).any():
-        (key_best_result,) = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
-        key_best_result = s_aic_c.index[key_best_result.min()]
+        a_best_result = (s_aic_c == -np.inf).to_numpy().nonzero()[0]
+        key_best_result = s_aic_c.index[a_best_result.min()]
     else:
-        key_best_result = s_aic_c.argmin()
+        key_best_result = s_aic_c.idxmin()
     return key_best_result
 
 
-- 
2.43.0


From 09e5d49ce788d898ec65ccfeb68b8375c35a19a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:44 +0000
Subject: [PATCH 31/60] fix: numeric index of input was ignored, x is
 documented to be taken from it

---
 anticipy/forecast.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 29f0ea6..804edce 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -372,6 +372,12 @@ def normalize_df(df_y,
             df_y_tmp[col_name_date] = df_y_tmp[col_name_date].pipe(
                 pd.to_datetime)
 
+        # With no date, extract column x from a numeric index
+        if col_name_x not in df_y_tmp.columns and \
+                col_name_date not in df_y_tmp.columns and \
+                pd.api.types.is_numeric_dtype(df_y_tmp.index):
+            df_y_tmp[col_name_x] = df_y_tmp.index
+
         # if isinstance(df_y_tmp.index, pd.DatetimeIndex):
         # We don't need a date index after this point
         df_y_tmp = df_y_tmp.reset_index(drop=True)
@@ -380,7 +386,7 @@ def normalize_df(df_y,
             if col_name_date in df_y_tmp.columns:
                 df_y_tmp[col_name_x] = model_utils.get_normalized_x_from_date(
                     df_y_tmp[col_name_date])
-            else:  # With no date, extract column x from a numeric index
+            else:  # Other indexes - use row position
                 df_y_tmp[col_name_x] = df_y_tmp.index
 
         l_df_results += [df_y_tmp]
-- 
2.43.0


From 50555daba8ed85cd64e8b2003c7725925ca6767e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 32/60] fix: series without a name were rejected, y is
 documented to be the values of the series

---
 anticipy/forecast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 804edce..2e07d13 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -328,7 +328,7 @@ def normalize_df(df_y,
         return None
 
     if isinstance(df_y, pd.Series):
-        df_y = df_y.to_frame()
+        df_y = df_y.to_frame(name=col_name_y)
     assert isinstance(df_y, pd.DataFrame)
     assert col_name_y in df_y.columns, \
         'Dataframe needs to have a column named "{}"'.format(
-- 
2.43.0


From 32e6212ca78451cee4e4c652cbfd34f40c101c8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 33/60] fix: unused input columns with default names clashed
 with renamed columns

---
 anticipy/forecast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 2e07d13..afcfff3 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -343,6 +343,11 @@ def normalize_df(df_y,
         col_name_date: 'date',
         col_name_source: 'source'
     }
+    # Drop unused columns that would be mixed up with the renamed ones
+    df_y = df_y.drop(columns=[
+        c_new for c_old, c_new in rename_col_dict.items()
+        if c_old in df_y.columns and c_new not in rename_col_dict],
+        errors='ignore')
     df_y = df_y.copy().rename(rename_col_dict, axis=1)
 
     # Placeholder - need to replace all references to col_name_z with z
-- 
2.43.0


From 4b3da776d445221054703a219030530b9bf2a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:31 +0000
Subject: [PATCH 34/60] fix: prediction interval used residuals of samples with
 null weight, or weight 0 and repeated dates

---
 anticipy/forecast.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index afcfff3..edb414d 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1723,20 +1723,15 @@ def _get_pi_single_source(df_forecast, n_sims=100, n_cum=1,
     else:
         l_cols = ['date']
 
-    if 'weight' in df_forecast.columns and (df_forecast.weight == 0).any():
+    if 'weight' in df_forecast.columns and \
+            not (df_forecast.weight > 0).all():
 
-        # Filter out dates for outliers with weight=0
-        df_filtered_dates = (
-            df_forecast.loc[(df_forecast.weight > 0) &
-                            (df_forecast.is_actuals)]
-            [['date', 'source']]
-        )
-
-        # Take filtered actuals
+        # Take filtered actuals - ignore samples with weight 0 or null
         df_actuals_unfiltered = df_forecast.loc[df_forecast.is_actuals &
                                                 ~df_forecast.y.isnull()]
-        df_actuals = (df_actuals_unfiltered[['date', 'y']]
-                      .merge(df_filtered_dates, how='inner')
+        df_actuals = (df_actuals_unfiltered
+                      .loc[df_actuals_unfiltered.weight > 0]
+                      [['date', 'y']]
                       .rename({'y': 'actuals'}, axis=1)
                       )
         date_last_actuals = df_actuals.date.max()
-- 
2.43.0


From 21ec13072ec9710d4d4e239a419d0b44ce8d3785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:45 +0000
Subject: [PATCH 35/60] fix: naive models failed for hourly series with ignored
 samples

---
 anticipy/forecast.py        | 5 ++++-
 anticipy/forecast_models.py | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index edb414d..a451ce5 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1338,6 +1338,9 @@ def run_forecast_single(df_y,
         if 'date' in df_y.columns else df_y.x.min()
     x_start_actuals = df_y.x.min()
 
+    # Samples are identified by date, x is not unique in e.g. hourly series
+    col_sample = 'date' if 'date' in df_y.columns else 'x'
+
     # Actuals table with filled x-axis gaps,
     #  used for extrapolation, naive model fitting
     df_actuals_interpolated = (
@@ -1347,7 +1350,7 @@ def run_forecast_single(df_y,
             .reset_index(drop=True)
             # Update weight column in df_actuals_interpolated
             .drop(columns=['weight'], errors='ignore')
-            .merge(df_y[['x', 'weight']], how='left')
+            .merge(df_y[[col_sample, 'weight']], how='left')
     )
     df_actuals_interpolated['weight'] = \
         df_actuals_interpolated.weight.fillna(0)
diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 884fd77..72d5f34 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -575,18 +575,21 @@ def _f_model_naive(
     if df_actuals is None:
         raise ValueError('model_naive requires a df_actuals argument')
     df_out_tmp = pd.DataFrame({'date': a_date, 'x': a_x})
+    # Samples are identified by date if available - x is a number of days, so
+    # it is not unique in e.g. hourly series
+    col_sample = 'date' if 'date' in df_actuals.columns else 'x'
     df_out = (
         # This is not really intended to work with multiple values per sample
-        df_actuals.drop_duplicates('x')
+        df_actuals.drop_duplicates(col_sample)[[col_sample, 'y']]
         .merge(df_out_tmp, how='outer')
-        .sort_values('x')
+        .sort_values(col_sample)
     )
     df_out['y'] = (
         df_out.y.shift(1)
         .fillna(method='ffill')
         .fillna(method='bfill')
     )
-    df_out = df_out.loc[df_out.x.isin(a_x)]
+    df_out = df_out.loc[df_out[col_sample].isin(df_out_tmp[col_sample])]
     # df_out = df_out_tmp.merge(df_out, how='left')
     # TODO: CHECK THAT X,DATE order is preserved
     # TODO: df_out = df_out.merge(df_out_tmp, how='right')
-- 
2.43.0


From e14cbf11cac6f62234fda64e2db6f16bee3c5c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:55 +0000
Subject: [PATCH 36/60] fix: seasonal naive model crashed or was misaligned
 with gaps in monthly or hourly series

---
 anticipy/forecast_models.py | 36 ++++++++++++------------------------
 1 file changed, 12 insertions(+), 24 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 72d5f34..6e0fcd1 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -616,9 +616,10 @@ def _fillna_wday(df):
 
     df_out = (
         df
+        .sort_values('date')
         .assign(wday=df.date.dt.weekday)
         .groupby('wday', as_index=False).apply(add_col_y_out)
-        .sort_values(['x'])
+        .sort_values(['date'])
         .reset_index(drop=True)
     )
     return df_out
@@ -632,7 +633,7 @@ def _f_model_snaive_wday(
 
     # df_actuals_model - table with actuals samples,
     #  adding y_out column with naive model values
-    df_actuals_model = _fillna_wday(df_actuals.drop_duplicates('x'))
+    df_actuals_model = _fillna_wday(df_actuals.drop_duplicates('date'))
 
     # df_last_week - table with naive model values from last actuals week,
     #  to use in extrapolation
@@ -645,28 +646,15 @@ def _f_model_snaive_wday(
         .rename(columns=dict(y='y_out'))
     )
 
-    # Generate table with extrapolated samples
-    df_out_tmp = pd.DataFrame({'date': a_date, 'x': a_x})
-    df_out_tmp['wday'] = df_out_tmp.date.dt.weekday
-    df_out_extrapolated = (
-        df_out_tmp
-        .loc[~df_out_tmp.date.isin(df_actuals_model.date)]
-        .merge(df_last_week, how='left')
-        .sort_values('x')
-    )
-    # Filter actuals table - only samples in a_x, a_date
-    df_out_actuals_filtered = (
-        # df_actuals_model.loc[df_actuals_model.x.isin(a_x)]
-        # Using merge rather than simple filtering to account for
-        #  dates with multiple samples
-        df_actuals_model.merge(df_out_tmp, how='inner')
-        .sort_values('x')
-    )
-    df_out = (
-        pd.concat(
-            [df_out_actuals_filtered, df_out_extrapolated],
-            sort=False, ignore_index=True)
-    )
+    # Generate output table, in the order of a_date - using merge rather than
+    # simple filtering to account for dates with multiple samples.
+    # Samples are identified by date, x may differ in filled gaps
+    df_out = pd.DataFrame({'date': a_date})
+    df_out['wday'] = df_out.date.dt.weekday
+    is_actuals = df_out.date.isin(df_actuals_model.date)
+    s_y_last_week = df_out.wday.map(df_last_week.set_index('wday').y_out)
+    df_out = df_out.merge(df_actuals_model[['date', 'y_out']], how='left')
+    df_out['y_out'] = df_out.y_out.where(is_actuals, s_y_last_week)
     return df_out.y_out.values
 
 
-- 
2.43.0


From eeee3754def0fe9c2bf69b6d096ef887a639ba15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:14 +0000
Subject: [PATCH 37/60] fix: samples with the same x, e.g. in hourly series,
 were sorted randomly

---
 anticipy/forecast.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index a451ce5..124fdcf 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -410,8 +410,11 @@ def normalize_df(df_y,
     # Sort columns, filter unused columns
     df_result = df_result[[c for c in [
         'date', 'source', 'x', 'y', 'weight'] if c in df_result.columns]]
-    sort_columns = ['source', 'x'] if 'source' in df_result.columns else ['x']
-    df_result = df_result.sort_values(sort_columns).reset_index(drop=True)
+    # Sort by x and date, x is not unique in e.g. hourly series
+    sort_columns = [c for c in ['source', 'x', 'date']
+                    if c in df_result.columns]
+    df_result = df_result.sort_values(
+        sort_columns, kind='stable').reset_index(drop=True)
     return df_result
 
 
@@ -1346,7 +1349,7 @@ def run_forecast_single(df_y,
     df_actuals_interpolated = (
         df_y_unfiltered
             .pipe(model_utils.interpolate_df, interpolate_y=False)
-            .sort_values(['x'])
+            .sort_values([col_sample])
             .reset_index(drop=True)
             # Update weight column in df_actuals_interpolated
             .drop(columns=['weight'], errors='ignore')
-- 
2.43.0


From 10c2435a0998aa4579346723f1270f3a52326380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:45 +0000
Subject: [PATCH 38/60] fix: monthly, quarterly and yearly series with multiple
 values per sample crashed

---
 anticipy/model_utils.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index dc9778a..0afa03f 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -391,6 +391,11 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
         # We need to check if there are duplicate samples
         # - if that is the case, we crash b.c. scenario not supported by asfreq
         if df.date.duplicated().any():
+            # Intervals of e.g. monthly series are irregular without any gaps
+            i_date = pd.DatetimeIndex(df.date.drop_duplicates()).sort_values()
+            if freq is not None and i_date.equals(
+                    pd.date_range(i_date.min(), i_date.max(), freq=freq)):
+                return df
             raise ValueError('Cannot fill gaps on series with multiple '
                              'samples per date')
         df_result = (
-- 
2.43.0


From 04077190345fcdd0c4c85eb3d6b9db39f478f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:11 +0000
Subject: [PATCH 39/60] fix: model_spike had one initial value instead of three
 without input data

---
 anticipy/forecast_models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 6e0fcd1..6137236 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -676,7 +676,7 @@ def _f_init_params_spike(a_x=None, a_y=None, a_date=None, is_mult=False):
     """ params are spike height, x start, x end """
     # if not a_y.any():
     if a_y is None:
-        return [1] + np.random.uniform(0, 1, 1) + [2]
+        return np.concatenate([[1.], np.random.uniform(0, 1, 1), [2.]])
     else:
         diffs = np.diff(a_y)
         # if diffs:
-- 
2.43.0


From 2378acf168e067080600e20924ce8187c3740c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:33 +0000
Subject: [PATCH 40/60] fix: initial values of model_season_month were null for
 months without samples

---
 anticipy/forecast_models.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 6137236..6834553 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1192,13 +1192,18 @@ def _f_init_params_season_month(
     if a_y is None or a_date is None:
         return np.random.uniform(low=-1, high=1, size=11)
     else:  # TODO: Improve this
-        l_params_long = [np.mean(a_y[a_date.month == i])
-                         for i in np.arange(1, 13)]
+        # Months without samples use the mean of the series
+        l_params_long = np.array([
+            np.mean(a_y[a_date.month == i])
+            if (a_date.month == i).any() else np.mean(a_y)
+            for i in np.arange(1, 13)])
         l_baseline = l_params_long[-1]
         l_params = l_params_long[:-1]
         if not is_mult:
             l_params_add = l_params - l_baseline
             return l_params_add
+        elif l_baseline == 0:
+            return np.ones(11)
         else:
             l_params_mult = l_params / l_baseline
             return l_params_mult
-- 
2.43.0


From 41b3d77df103c9e70eb80b82740b183b2001b796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:58 +0000
Subject: [PATCH 41/60] fix: naive model looked ahead for samples with multiple
 values

---
 anticipy/forecast_models.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 6834553..7bd9a4c 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -581,7 +581,7 @@ def _f_model_naive(
     df_out = (
         # This is not really intended to work with multiple values per sample
         df_actuals.drop_duplicates(col_sample)[[col_sample, 'y']]
-        .merge(df_out_tmp, how='outer')
+        .merge(df_out_tmp.drop_duplicates(col_sample), how='outer')
         .sort_values(col_sample)
     )
     df_out['y'] = (
@@ -589,11 +589,8 @@ def _f_model_naive(
         .fillna(method='ffill')
         .fillna(method='bfill')
     )
-    df_out = df_out.loc[df_out[col_sample].isin(df_out_tmp[col_sample])]
-    # df_out = df_out_tmp.merge(df_out, how='left')
-    # TODO: CHECK THAT X,DATE order is preserved
-    # TODO: df_out = df_out.merge(df_out_tmp, how='right')
-    return df_out.y.values
+    # A sample may be requested several times, all with the same result
+    return df_out_tmp[col_sample].map(df_out.set_index(col_sample).y).values
 
 
 model_naive = ForecastModel('naive', 0, _f_model_naive)
-- 
2.43.0


From f21762cbe3b44b350c652a78f88dc2b13d4a22c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 42/60] fix: ignored values of samples with multiple values
 leaked into naive models

---
 anticipy/forecast.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 124fdcf..1360a54 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -1206,7 +1206,7 @@ def run_forecast_single(df_y,
     else:
         freq = None
 
-    df_y = df_y.copy()
+    df_y = df_y.reset_index(drop=True)
     df_y_unfiltered = df_y.copy()
 
     # Filter: only actuals after date_start_actuals
@@ -1346,21 +1346,18 @@ def run_forecast_single(df_y,
 
     # Actuals table with filled x-axis gaps,
     #  used for extrapolation, naive model fitting
+    # Update weight column, set all 0-weight samples to null
+    s_weight = df_y.weight.reindex(df_y_unfiltered.index).fillna(0)
     df_actuals_interpolated = (
         df_y_unfiltered
+            .assign(weight=s_weight,
+                    y=df_y_unfiltered.y.where(s_weight > 0., np.NaN))
             .pipe(model_utils.interpolate_df, interpolate_y=False)
-            .sort_values([col_sample])
-            .reset_index(drop=True)
-            # Update weight column in df_actuals_interpolated
-            .drop(columns=['weight'], errors='ignore')
-            .merge(df_y[[col_sample, 'weight']], how='left')
+            # With multiple values per sample, use the first known value
+            .groupby(col_sample, as_index=False).first()
     )
     df_actuals_interpolated['weight'] = \
         df_actuals_interpolated.weight.fillna(0)
-    # Set all 0-weight samples to null
-    df_actuals_interpolated['y'] = \
-        df_actuals_interpolated['y'].where(
-            df_actuals_interpolated.weight > 0., np.NaN)
 
     # Note - In the above steps, we first remove any samples with weight = 0
     # from df_y, the data used for fitting
-- 
2.43.0


From 99448fdd8acba187e1c9ee70cf72ccd14f710900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:36 +0000
Subject: [PATCH 43/60] fix: outliers in the last samples were not detected as
 such

---
 anticipy/forecast_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 7bd9a4c..958aa55 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1353,8 +1353,9 @@ def get_model_outliers(df, window=3):
     # Whenever there are two or more consecutive changes
     # (that is, within `window` samples), we group them together
     dfo['ischange_group'] = (
-        dfo.ischange.rolling(window, win_type=None, center=True).max().fillna(
-            0).astype(int)
+        dfo.ischange.rolling(
+            window, win_type=None, center=True, min_periods=1
+        ).max().astype(int)
     )
 
     # We now have to calculate the difference within the
-- 
2.43.0


From 79296dd741bb2db74c3437fe1e6fbe9813dc4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:37 +0000
Subject: [PATCH 44/60] fix: mask of filled gaps was missing without gaps, and
 wrong for hourly series

---
 anticipy/model_utils.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 0afa03f..0e382b1 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -351,9 +351,11 @@ def detect_freq(a_date):
 
 def interpolate_df(df, include_mask=False, interpolate_y=True):
     # In a dataframe with date gaps, replace x-axis gaps with interpolation
+    # Output for series without gaps
+    df_no_gaps = df.assign(is_gap_filled=False) if include_mask else df
     if 'date' not in df.columns:  # interpolate by x column
         if df.x.drop_duplicates().diff().nunique() <= 1:  # Regular intervals - no gaps
-            return df
+            return df_no_gaps
         else:
             # With duplicate samples, gap filling not supported
             if df.x.duplicated().any():
@@ -385,7 +387,7 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
                  s_date_diff_first > pd.to_timedelta(1, 'day')):
             # TODO: Add additional check for
             #  e.g. 2-sample series with 8-day gap
-            return df
+            return df_no_gaps
 
         # At this point, we know there are irregular intervals
         # We need to check if there are duplicate samples
@@ -395,7 +397,7 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
             i_date = pd.DatetimeIndex(df.date.drop_duplicates()).sort_values()
             if freq is not None and i_date.equals(
                     pd.date_range(i_date.min(), i_date.max(), freq=freq)):
-                return df
+                return df_no_gaps
             raise ValueError('Cannot fill gaps on series with multiple '
                              'samples per date')
         df_result = (
@@ -406,8 +408,11 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
         )
     if 'x' in df.columns:
         df_result['x'] = df_result['x'].interpolate().astype(df.x.dtype)
-        if include_mask:
-            df_result['is_gap_filled'] = ~df_result.x.isin(df.x)
+    if include_mask:
+        # x is a number of days, so it is not unique in e.g. hourly series
+        col_sample = 'date' if 'date' in df.columns else 'x'
+        df_result['is_gap_filled'] = ~df_result[col_sample].isin(
+            df[col_sample])
     return df_result
 
 
-- 
2.43.0


From 16b19fea20c8a8d43ff22e30914adba4a6221e3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:06 +0000
Subject: [PATCH 45/60] fix: calendars only applied at midnight in hourly
 series, and crashed with time zones

---
 anticipy/forecast_models.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 958aa55..7793681 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1547,6 +1547,8 @@ def _get_f_dummy_from_calendar(calendar):
 
         # TODO: If we can guarantee sorted dates,
         #       change this to a_date[0], a_date[-1] for performance
+        # Holidays apply to any time of the day, in any time zone
+        a_date = pd.DatetimeIndex(a_date).tz_localize(None).normalize()
         list_check_date = calendar.holidays(a_date.min(), a_date.max())
         return np.isin(a_date, list_check_date).astype(float)
 
@@ -1563,6 +1565,8 @@ def _get_f_dummy_from_holiday(holiday):
 
         # TODO: If we can guarantee sorted dates,
         #       change this to a_date[0], a_date[-1] for performance
+        # Holidays apply to any time of the day, in any time zone
+        a_date = pd.DatetimeIndex(a_date).tz_localize(None).normalize()
         list_check_date = holiday.dates(a_date.min(), a_date.max())
         return np.isin(a_date, list_check_date).astype(float)
 
-- 
2.43.0


From cab068b4debc0782729c26550019d88ff827ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 46/60] fix: models from lists of dates had no effect on series
 with time zones

---
 anticipy/forecast_models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 7793681..b43e2d2 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1529,6 +1529,9 @@ def _get_f_dummy_from_list(list_check):
 
             def f_dummy_list_date(a_x, a_date):
                 # return a_x in check_numeric
+                if getattr(list_check_date.dtype, 'tz', None) is None:
+                    # Dates without time zone are compared to local time
+                    a_date = pd.DatetimeIndex(a_date).tz_localize(None)
                 return np.isin(a_date, list_check_date).astype(float)
 
             return f_dummy_list_date
-- 
2.43.0


From 342466d4bb534c93093e28297ef25429349aace4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:32 +0000
Subject: [PATCH 47/60] fix: yearly seasonality crashed on series with time
 zones

---
 anticipy/forecast_models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index b43e2d2..f95473f 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -165,8 +165,9 @@ def _f_init_cache_a_weekday(a_x, a_date):
 
 
 def _f_init_cache_a_t_fourier(a_x, a_date):
-    # convert to days since epoch
-    t = (a_date - _FOURIER_DATE_ORIGIN).days.values
+    # convert to days since epoch, in local time
+    t = (pd.DatetimeIndex(a_date).tz_localize(None) -
+         _FOURIER_DATE_ORIGIN).days.values
     i = np.arange(1, _FOURIER_HARMONICS + 1)
     a_tmp = _FOURIER_K * i.reshape(i.size, 1) * t
     y = np.concatenate([np.sin(a_tmp), np.cos(a_tmp)])
-- 
2.43.0


From 9a93ed7d963c10c35064198a189694fb03f85f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 48/60] fix: numeric derivatives of absolute residuals failed,
 fits of small values were not optimal

---
 anticipy/forecast.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 1360a54..ab99c33 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -55,6 +55,26 @@ def is_null_model(f_model):
     return f_model.name == 'null'
 
 
+def _get_signed_residuals(
+        params,
+        model,
+        a_x,
+        a_y,
+        a_date,
+        a_weights=None,
+        df_actuals=None,
+        **kwargs
+):
+    # Residuals with sign, as required for optimization - absolute values
+    # aren't differentiable, their numeric derivatives fail for small residuals
+    y_predicted = model(a_x, a_date, params, df_actuals=df_actuals,
+                        **kwargs)
+    residuals = (a_y - y_predicted)
+    if a_weights is not None:  # Do this only if different residual weights
+        residuals = residuals * a_weights
+    return residuals
+
+
 def get_residuals(
         params,
         model,
@@ -93,11 +113,8 @@ def get_residuals(
     # We do not check this with asserts due to performance - this function is
     # in the optimization loop
 
-    y_predicted = model(a_x, a_date, params, df_actuals=df_actuals,
-                        **kwargs)
-    residuals = (a_y - y_predicted)
-    if a_weights is not None:  # Do this only if different residual weights
-        residuals = residuals * a_weights
+    residuals = _get_signed_residuals(
+        params, model, a_x, a_y, a_date, a_weights, df_actuals, **kwargs)
     result = np.abs(residuals)
     return result
 
@@ -173,7 +190,7 @@ def optimize_least_squares(
     f_model_args = (model, a_x, a_y, a_date)
     try:
         result = scipy.optimize.least_squares(
-            get_residuals, initial_guess,
+            _get_signed_residuals, initial_guess,
             args=f_model_args,
             kwargs=dict_kwargs,
             # method='lm',
-- 
2.43.0


From fa5f94d4dc09344683163cf7b732a8007e65713e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:23 +0000
Subject: [PATCH 49/60] fix: fits of series with small values stopped at the
 initial guess

---
 anticipy/forecast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index ab99c33..c34027b 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -196,6 +196,9 @@ def optimize_least_squares(
             # method='lm',
             method='trf',
             x_scale='jac',
+            # Default is an absolute threshold for gradients, that is always
+            # met by series with small values
+            gtol=None,
             # verbose=1,
             bounds=bounds
         )
-- 
2.43.0


From 39c19477553dc023ecce7f6b86bf6c1af723a4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:51 +0000
Subject: [PATCH 50/60] fix: dates were not given to initial guess and bounds
 of models when fitting

---
 anticipy/forecast.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index c34027b..61eb644 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -165,9 +165,9 @@ def optimize_least_squares(
     assert a_y.ndim == 1
 
     # Ask the model to provide an initial guess
-    initial_guess = model.f_init_params(a_x, a_y)
+    initial_guess = model.f_init_params(a_x, a_y, a_date)
 
-    bounds = model.f_bounds(a_x, a_y)
+    bounds = model.f_bounds(a_x, a_y, a_date)
 
     assert forecast_models.validate_initial_guess(initial_guess, bounds), \
         'Initial guess outside of bounds: {} - {}, {}'.format(
-- 
2.43.0


From 1e2a04645571219ef9563a11d6d2049c810f1d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 51/60] fix: additive weekly seasonality was not fitted for
 series with large values

---
 anticipy/forecast_models.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index f95473f..729a002 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1172,10 +1172,24 @@ def _f_validate_input_season_wday(a_x, a_y, a_date):
     assert a_date.weekday.drop_duplicates().size == 7
 
 
+def _f_init_params_season_wday(
+        a_x=None,
+        a_y=None,
+        a_date=None,
+        is_mult=False):
+    params = np.random.uniform(low=0.001, high=1, size=6)
+    if a_y is not None and not is_mult:
+        # The guess needs to scale with the series - otherwise, numeric
+        # derivatives round to zero for series with large values
+        params = params * max(1., np.nanmax(a_y) - np.nanmin(a_y))
+    return params
+
+
 model_season_wday = ForecastModel(
     'season_wday',
     6,
     _f_model_season_wday,
+    _f_init_params_season_wday,
     l_f_validate_input=_f_validate_input_season_wday,
     l_cache_vars=['a_weekday']
 )
-- 
2.43.0


From d69ad455e5520e067968baf2be9218b115826d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:25 +0000
Subject: [PATCH 52/60] fix: detect frequency of weekly, monthly and other
 series with clock changes in their time zone

---
 anticipy/model_utils.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 0e382b1..9977981 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -307,7 +307,11 @@ def detect_freq(a_date):
     min_date_delta = s_date.diff().min()
     if pd.isnull(min_date_delta):
         return None
-    elif min_date_delta == pd.Timedelta(1, unit='h'):
+    if isinstance(s_date.dtype, pd.DatetimeTZDtype) and \
+            min_date_delta >= pd.Timedelta(23, unit='h'):
+        # Clock changes affect the length of days - use local time instead
+        min_date_delta = s_date.dt.tz_localize(None).diff().min()
+    if min_date_delta == pd.Timedelta(1, unit='h'):
         return 'H'
     elif min_date_delta == pd.Timedelta(7, unit='D'):
         # Weekly seasonality - need to determine day of week
-- 
2.43.0


From b8902fe0ef4fb6f90ec1751d7f5ab8421f22b818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:05 +0000
Subject: [PATCH 53/60] fix: models with all parameters fixed shared the values
 given with the caller

---
 anticipy/forecast_models.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 729a002..56a5db4 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1307,6 +1307,8 @@ def get_fixed_model(forecast_model, params_fixed, is_mult=False):
     if len(params_fixed) != forecast_model.n_params:
         err = 'Wrong number of fixed parameters'
         raise ValueError(err)
+    # Copy, so that later changes to the input don't change the model
+    params_fixed = np.array(params_fixed)
     return ForecastModel(
         forecast_model.name + '_fixed', 0,
         f_model=lambda a_x, a_date, params, is_mult=is_mult, **kwargs:
-- 
2.43.0


From a527f8e8631567efeaf8ac2f983b87b4eca202d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:59 +0000
Subject: [PATCH 54/60] fix: png plots ignored the percentiles of the
 prediction interval

---
 anticipy/forecast_plot.py | 44 +++++++++++++++++++--------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 446f2a6..57dbdf6 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -54,7 +54,9 @@ except ImportError:
 def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
                                 width=None, height=None, title=None, dpi=70,
                                 show_legend=True,
-                                include_interval=False):
+                                include_interval=False,
+                                pi_q1=5,
+                                pi_q2=20):
     """
     Creates matplotlib plot from forecast dataframe
 
@@ -83,6 +85,10 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     :type dpi: int
     :param show_legend: Indicates whether legends will be displayed
     :type show_legend: bool
+    :param pi_q1: Percentile for outer prediction interval (defaults to 5%-95%)
+    :type pi_q1: int
+    :param pi_q2: Percentile for inner prediction interval (defaults to 20%-80%)
+    :type pi_q2: int
 
     :return: The plot
     :rtype: matplotlib plot instance
@@ -126,27 +132,19 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
             df_fcast.loc[source_filt & ~df_fcast['is_actuals'], 'y'],
             color=for_col, marker='None', linestyle='solid', label='Forecast')
 
-        # Fill area between 5th and 95th prediction interval
-        if include_interval and \
-                ('q5' in df_fcast.columns) and ('q95' in df_fcast.columns):
-            where_to_fill = (source_filt &
-                             (~df_fcast['is_actuals']) &
-                             (~df_fcast['q5'].isnull()) &
-                             (~df_fcast['q95'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q5'], df_fcast['q95'],
-                            where=where_to_fill,
-                            facecolor=for_col, alpha=0.2)
-
-        if include_interval and\
-                ('q20' in df_fcast.columns) and ('q80' in df_fcast.columns):
-            # Fill area between 20th and 80th prediction interval
-            where_to_fill_2 = (source_filt &
-                               (~df_fcast['is_actuals']) &
-                               (~df_fcast['q20'].isnull()) &
-                               (~df_fcast['q80'].isnull()))
-            ax.fill_between(df_fcast.index, df_fcast['q20'], df_fcast['q80'],
-                            where=where_to_fill_2,
-                            facecolor=for_col, alpha=0.2)
+        # Fill prediction interval areas
+        for pi_q in [pi_q1, pi_q2]:
+            str_q_low = 'q{}'.format(pi_q)
+            str_q_hi = 'q{}'.format(100 - pi_q)
+            if include_interval and \
+                    (str_q_low in df_fcast.columns) and \
+                    (str_q_hi in df_fcast.columns):
+                df_pi = df_fcast.loc[source_filt & ~df_fcast['is_actuals'], :]
+                where_to_fill = (~df_pi[str_q_low].isnull() &
+                                 ~df_pi[str_q_hi].isnull())
+                ax.fill_between(
+                    df_pi.index, df_pi[str_q_low], df_pi[str_q_hi],
+                    where=where_to_fill, facecolor=for_col, alpha=0.2)
 
         if subplots:
             # Set the title of each subplot as per source name
@@ -437,7 +435,7 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
             fig = _matplotlib_forecast_create(df_fcast, subplots, sources,
                                               nrows, ncols, width, height,
                                               title, dpi, show_legend,
-                                              include_interval)
+                                              include_interval, pi_q1, pi_q2)
 
             path = '{}.png'.format(path)
             dirname, fname = os.path.split(path)
-- 
2.43.0


From 128d2787696c02c417c4d39f569befbe74063744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:05 +0000
Subject: [PATCH 55/60] fix: report the range of x values of the input in the
 metadata

With no dates, the range was that of the x axis after the scaling applied for
sigmoid models.
---
 anticipy/forecast.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 61eb644..2022ef6 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -525,9 +525,9 @@ def fit_model(model, df_y, freq='W', source='test', df_actuals=None,
     cost = np.NaN
     is_fit = False
     params = []
-    # Get first and last actuals date, for metadata. If no a_date, use a_x
-    # instead. With no samples, we get null values.
-    s_x = pd.Series(a_x)
+    # Get first and last actuals date, for metadata. If no a_date, use x
+    # instead, as in the input. With no samples, we get null values.
+    s_x = df_y[col_name_x]
     date_start_actuals = i_date.min().date()\
         if i_date is not None else s_x.min()
     date_end_actuals = i_date.max().date()\
-- 
2.43.0


From a0603c10cdfa925c6d64db6c29fff40bc03828ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:00 +0000
Subject: [PATCH 56/60] fix: png plots leave no figure open and keep the plot
 style of the user

The style was set globally, and each plot stayed in memory after it was saved.
---
 anticipy/forecast_plot.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 57dbdf6..92b5850 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -98,7 +98,6 @@ def _matplotlib_forecast_create(df_fcast, subplots, sources, nrows, ncols,
     # Default palette from ggplot
     act_col = '#00BFC4'
     for_col = '#F8766D'
-    plt.style.use('ggplot')
     # Use matplotlib's default size if width or height are not set
     default_width, default_height = plt.rcParams['figure.figsize']
     figsize = (width / dpi if width is not None else default_width,
@@ -432,17 +431,20 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
 
     if output == 'png':
         if _matplotlib_imported:
-            fig = _matplotlib_forecast_create(df_fcast, subplots, sources,
-                                              nrows, ncols, width, height,
-                                              title, dpi, show_legend,
-                                              include_interval, pi_q1, pi_q2)
-
-            path = '{}.png'.format(path)
-            dirname, fname = os.path.split(path)
-            if dirname != '' and not os.path.exists(dirname):
-                logger.error('Path missing {}'.format(path))
-                os.makedirs(dirname)
-            plt.savefig(path, dpi=dpi)
+            # Use the style for this plot only, it is a global setting
+            with plt.style.context('ggplot'):
+                _matplotlib_forecast_create(
+                    df_fcast, subplots, sources, nrows, ncols, width, height,
+                    title, dpi, show_legend, include_interval, pi_q1, pi_q2)
+
+                path = '{}.png'.format(path)
+                dirname, fname = os.path.split(path)
+                if dirname != '' and not os.path.exists(dirname):
+                    logger.error('Path missing {}'.format(path))
+                    os.makedirs(dirname)
+                plt.savefig(path, dpi=dpi)
+            # Figures stay in memory until closed
+            plt.close()
 
             if auto_open:
                 fileurl = 'file://{}'.format(path)
-- 
2.43.0


From d78899e905a99a3e17b7c97d43db603bd78fe626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:24 +0000
Subject: [PATCH 57/60] fix: numeric series with fractional x axis crashed,
 regular ones due to rounding

Intervals like 0.1, 1.1, 2.1... are not exactly equal as floats, and gaps were
filled with a range of integers.
---
 anticipy/model_utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/anticipy/model_utils.py b/anticipy/model_utils.py
index 9977981..f4cfb7a 100644
--- a/anticipy/model_utils.py
+++ b/anticipy/model_utils.py
@@ -358,7 +358,8 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
     # Output for series without gaps
     df_no_gaps = df.assign(is_gap_filled=False) if include_mask else df
     if 'date' not in df.columns:  # interpolate by x column
-        if df.x.drop_duplicates().diff().nunique() <= 1:  # Regular intervals - no gaps
+        # Regular intervals - no gaps. Intervals of float indexes aren't exact
+        if df.x.drop_duplicates().diff().round(6).nunique() <= 1:
             return df_no_gaps
         else:
             # With duplicate samples, gap filling not supported
@@ -366,10 +367,15 @@ def interpolate_df(df, include_mask=False, interpolate_y=True):
                 raise ValueError(
                     'Cannot fill gaps on series with multiple '
                     'samples per x')
+            # Steps of 1 without samples. Float indexes aren't exact steps
+            a_x = df.x.min() + np.arange(
+                math.floor(round(df.x.max() - df.x.min(), 6)) + 1)
+            a_x_gap = a_x[~np.isin(np.round(a_x, 6), np.round(df.x, 6))]
             df_result = (
                 df.set_index('x')
                     .reindex(
-                    pd.RangeIndex(df.x.min(), df.x.max() + 1, name='x'))
+                    pd.Index(np.sort(np.concatenate([df.x, a_x_gap])),
+                             name='x'))
                     .pipe(lambda x: x.interpolate() if interpolate_y else x)
                     .reset_index()
             )
-- 
2.43.0


From e3fa6230369056b8b2e45f183b0fd3630dd5836e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:21 +0000
Subject: [PATCH 58/60] fix: numeric x axes and weights of types such as
 float32 gave wrong fits or crashed

Derivatives of models with float32 values are zero or noise.
---
 anticipy/forecast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/anticipy/forecast.py b/anticipy/forecast.py
index 2022ef6..4f1dd52 100644
--- a/anticipy/forecast.py
+++ b/anticipy/forecast.py
@@ -379,6 +379,11 @@ def normalize_df(df_y,
 
     # Ensure y column is float
     df_y[col_name_y] = df_y[col_name_y].astype(float)
+    # Other numeric columns can be integer, but not of smaller types such as
+    # float32: derivatives of models need double precision
+    for col_name in (col_name_x, col_name_weight):
+        if col_name in df_y.columns and df_y[col_name].dtype != np.int64:
+            df_y[col_name] = df_y[col_name].astype(float)
 
     multiple_sources = col_name_source in df_y.columns
     l_sources = df_y[col_name_source].drop_duplicates()\
-- 
2.43.0


From 175791f62a05984a672ac2b01f25d7cebee018e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:09 +0000
Subject: [PATCH 59/60] fix: outliers of series with fractional x axis were
 missed or flagged at other samples

Start and end of outliers were rounded down to integers.
---
 anticipy/forecast_models.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/anticipy/forecast_models.py b/anticipy/forecast_models.py
index 56a5db4..adeab92 100644
--- a/anticipy/forecast_models.py
+++ b/anticipy/forecast_models.py
@@ -1445,9 +1445,9 @@ def get_model_outliers(df, window=3):
                             (dfo.date >= pd.to_datetime(dfo.outl_start)) &
                             (dfo.date <= pd.to_datetime(dfo.outl_end)))
     else:
-        # For non-date x values, we fill na's and convert to int
-        dfo['outl_start'] = dfo.outl_start.fillna(0).astype(int)
-        dfo['outl_end'] = dfo.outl_end.fillna(0).astype(int)
+        # For non-date x values, we fill na's
+        dfo['outl_start'] = dfo.outl_start.fillna(0)
+        dfo['outl_end'] = dfo.outl_end.fillna(0)
         # Create the mask for spikes and steps
         dfo['mask_spike'] = (dfo['is_spike'] &
                              (dfo.x >= dfo.outl_start) &
-- 
2.43.0


From 746fe5ec58b3bfae09711e3d504ef1edff123ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:26 +0000
Subject: [PATCH 60/60] fix: png plots that fail left their figure open

---
 anticipy/forecast_plot.py | 34 ++++++++++++++++++++--------------
 1 file changed, 20 insertions(+), 14 deletions(-)

diff --git a/anticipy/forecast_plot.py b/anticipy/forecast_plot.py
index 92b5850..71bbc09 100644
--- a/anticipy/forecast_plot.py
+++ b/anticipy/forecast_plot.py
@@ -431,20 +431,26 @@ def plot_forecast(df_fcast, output='html', path=None, width=None, height=None,
 
     if output == 'png':
         if _matplotlib_imported:
-            # Use the style for this plot only, it is a global setting
-            with plt.style.context('ggplot'):
-                _matplotlib_forecast_create(
-                    df_fcast, subplots, sources, nrows, ncols, width, height,
-                    title, dpi, show_legend, include_interval, pi_q1, pi_q2)
-
-                path = '{}.png'.format(path)
-                dirname, fname = os.path.split(path)
-                if dirname != '' and not os.path.exists(dirname):
-                    logger.error('Path missing {}'.format(path))
-                    os.makedirs(dirname)
-                plt.savefig(path, dpi=dpi)
-            # Figures stay in memory until closed
-            plt.close()
+            # Figures stay in memory until closed, also after errors
+            l_fig = plt.get_fignums()
+            try:
+                # Use the style for this plot only, it is a global setting
+                with plt.style.context('ggplot'):
+                    _matplotlib_forecast_create(
+                        df_fcast, subplots, sources, nrows, ncols, width,
+                        height, title, dpi, show_legend, include_interval,
+                        pi_q1, pi_q2)
+
+                    path = '{}.png'.format(path)
+                    dirname, fname = os.path.split(path)
+                    if dirname != '' and not os.path.exists(dirname):
+                        logger.error('Path missing {}'.format(path))
+                        os.makedirs(dirname)
+                    plt.savefig(path, dpi=dpi)
+            finally:
+                for i_fig in plt.get_fignums():
+                    if i_fig not in l_fig:
+                        plt.close(i_fig)
 
             if auto_open:
                 fileurl = 'file://{}'.format(path)
-- 
2.43.0

