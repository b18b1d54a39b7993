From c3f630b5b536345bb913a7cd3c5aeb2101b30c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 01/10] fix: ordered_split_series failed when frac hits an
 exact multiple of 1/n

int(frac * n) points one case too far whenever frac * n is an integer (e.g., 0.8
of 10 cases), which tripped the function's own assertion.
---
 mlpaper/data_splitter.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 2785a2c..1a94a0d 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -213,7 +213,9 @@ def ordered_split_series(S, frac, assume_sorted=False, assume_unique=False):
     else:
         all_cases = np.unique(S.values)
 
-    idx = min(int(frac * len(all_cases)), len(all_cases) - 1)
+    # Smallest idx s.t. the share of cases up to and including idx is >= frac
+    cum_frac = np.arange(1, len(all_cases) + 1) / len(all_cases)
+    idx = min(int(np.searchsorted(cum_frac, frac, side="left")), len(all_cases) - 1)
     assert 0 <= idx  # Should never happen due to frac check earlier
     pivotal_case = all_cases[idx]
     # Check we rounded to err just on side of putting more data in train
-- 
2.43.0


From 1e83fffac85143af31b62682e15005dae041a802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 02/10] fix: build_lag_df crashed on Python 3

range() + list is a TypeError, and with ordered dicts lag L0 came out last rather
than first as documented.
---
 mlpaper/data_splitter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mlpaper/data_splitter.py b/mlpaper/data_splitter.py
index 1a94a0d..8d76e63 100644
--- a/mlpaper/data_splitter.py
+++ b/mlpaper/data_splitter.py
@@ -56,12 +56,12 @@ def build_lag_df(df, n_lags, stride=1, features=None):
          3    3  5  6   8   4   2   9
     """
     df_sub = df if features is None else df[list(features)]  # Take all if None
-    D = {(SFT_FMT % nn): df_sub.shift(stride * nn) for nn in range(1, n_lags)}
-    D[SFT_FMT % 0] = df
+    D = {SFT_FMT % 0: df}
+    D.update({(SFT_FMT % nn): df_sub.shift(stride * nn) for nn in range(1, n_lags)})
 
     df = pd.concat(D, axis=1, names=["lag"])
     # Re-order the levels so there are the same as before but lag at end
-    df = df.reorder_levels(range(1, len(df.columns.names)) + [0], axis=1)
+    df = df.reorder_levels(list(range(1, len(df.columns.names))) + [0], axis=1)
     return df
 
 
-- 
2.43.0


From c4dd4b19567c94d5eddf6f93fa3b3ec5fe0a7469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 03/10] fix: t_test crashed on constant zero data

np.float no longer exists in numpy.
---
 mlpaper/mlpaper.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index 6247e1f..ce15bd2 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -88,7 +88,7 @@ def t_test(x):
         assert np.var(x, ddof=1) <= 1e-100
         # It is debatable if the condition should be ``np.mean(x) == 0.0`` or
         # ``np.all(x == 0.0)``. Should not matter in practice.
-        pval = np.float(np.mean(x) == 0.0)
+        pval = float(np.mean(x) == 0.0)
     assert 0.0 <= pval and pval <= 1.0
     return pval
 
-- 
2.43.0


From 6481df4d109641af85bdc148cae03e2fd696b725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 04/10] fix: loss_summary_table crashed when the float mean
 rounds past a limit

For instance, losses [0.1, 0.1, 0.1] with limits (0, 0.1): get_mean_and_EB clips
the mean while the table did not, which tripped the assertion that they agree.
---
 mlpaper/mlpaper.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index ce15bd2..e3283e3 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -518,7 +518,8 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
             assert not np.any(np.isnan(loss))  # Would let method cheat
             assert np.all(lower <= loss) and np.all(loss <= upper)
 
-            mu = np.mean(loss)  # This is the same in all cases
+            # This is the same in all cases, mean can round past the limits
+            mu = clip_chk(np.mean(loss), lower, upper)
 
             deltas = loss - loss_ref
             range_ = upper - lower
-- 
2.43.0


From fcbee9381fa4d59854f04b7ec7ed2a50748425b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 05/10] fix: pass joblib Memory location by position

The cachedir keyword was removed from joblib, so get_pred_log_prob and
get_gauss_pred (and hence just_benchmark) always crashed.
---
 mlpaper/classification.py | 2 +-
 mlpaper/regression.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 0b2157c..d996060 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -712,7 +712,7 @@ def get_pred_log_prob(
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_log_prob < 0.0  # Ensure is a log-prob
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 7b0cc5f..9de5f4e 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -255,7 +255,7 @@ def get_gauss_pred(X_train, y_train, X_test, methods, min_std=0.0, verbose=False
     assert X_train.dtype.kind == X_test.dtype.kind  # Would be weird otherwise
     assert min_std >= 0.0
 
-    memory = Memory(cachedir=checkpointdir, verbose=0)
+    memory = Memory(checkpointdir, verbose=0)
 
     @memory.cache
     def train_predict(method_obj, X_train, y_train, X_test):
-- 
2.43.0


From 1cff207dc1982b0d4c47a72b24dd06b428bae4ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 06/10] fix: classification JustNoise crashed on bool labels

---
 mlpaper/classification.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index d996060..2a1f63b 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -642,7 +642,7 @@ class JustNoise:
         n_labels = len(self.pred)
         n_points, = np.shape(y_train)
 
-        counts = self.pseudo_count + np.sum(one_hot(y_train, n_labels), axis=0)
+        counts = self.pseudo_count + np.sum(one_hot(y_train.astype(int), n_labels), axis=0)
         n_total = n_points + n_labels * self.pseudo_count
         self.pred = np.log(counts / n_total)
         assert self.pred.shape == (n_labels,)
-- 
2.43.0


From ce787f2149653ad02786d88e5ac18e470c53bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:06:59 +0000
Subject: [PATCH 07/10] fix: TeX header contained a tab instead of \times

---
 mlpaper/sciprint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3df8349..b079453 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -830,7 +830,7 @@ def adjust_headers(headers, shifts, unit_dict, use_prefix=True, use_tex=False):
     dictionaries in Python do not guarantee order.
     """
     prefix_dict = _PREFIX_TEX if use_tex else _PREFIX
-    fmt_shift = "%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
+    fmt_shift = r"%s $\times 10^{%d}$" if use_tex else "%s x 1e%d"
     fmt_unit = "%s (%s)"
     fmt_shift_unit = fmt_shift + " (%s)"
 
-- 
2.43.0


From 0fef16f1995214adf7265072898a5edcb44808d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:07:25 +0000
Subject: [PATCH 08/10] fix: decimalize and print_estimate failed when more
 than 28 digits are needed

The default decimal context has 28 digits: quantize raised InvalidOperation when
the mean is over 1e26 times its error bar (or pval_digits > 28).
---
 mlpaper/sciprint.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index b079453..6f56625 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -30,6 +30,8 @@ NAN_STR = str(np.nan)  # Our string rep of NaN
 # Constants of Decimal type
 D_INF = decimal.Decimal("Infinity")
 D_NINF = decimal.Decimal("-Infinity")
+# Enough digits to represent any float in decimal at the precision of any other
+EXACT_CTX = decimal.Context(prec=2500)
 
 # ============================================================================
 # General utils
@@ -358,7 +360,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
 
             if EB.is_finite() and (not EB.is_zero()):
                 mu = decimal.Decimal(perf_tbl.loc[method, (metric, MEAN_COL)])
-                mu = mu.quantize(EB, rounding=decimal.ROUND_HALF_UP)
+                mu = mu.quantize(EB, rounding=decimal.ROUND_HALF_UP, context=EXACT_CTX)
             else:
                 # If EB is nan, inf, or 0 just round to default # of digits:
                 mu = create_decimal(perf_tbl.loc[method, (metric, MEAN_COL)], default_digits, decimal.ROUND_HALF_UP)
@@ -366,7 +368,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             # Could use create_decimal to ensure full 17 digits prec, but
             # default is probably good enough.
             pval = decimal.Decimal(perf_tbl.loc[method, (metric, PVAL_COL)])
-            pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING)
+            pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING, context=EXACT_CTX)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
             perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
@@ -441,7 +443,7 @@ def print_estimate(
         # Default to float string rep if no instructions
         return non_finite_fmt.get(mu_str, mu_str)
 
-    mu_shifted = mu.scaleb(shift)
+    mu_shifted = mu.scaleb(shift, context=EXACT_CTX)
     if not decimal_to_dot(mu_shifted):
         raise ValueError("Shifting mu too far left for its precision.")
 
-- 
2.43.0


From 52511fb1f4fda7901194ce52755afb5c26e7281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 09/10] fix: decimalize mixed up the stats when not ordered as
 mean, error, p

---
 mlpaper/sciprint.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 6f56625..3629c87 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -371,7 +371,10 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
             pval = pval.quantize(decimal_1ek(-pval_digits), rounding=decimal.ROUND_CEILING, context=EXACT_CTX)
             assert pval.is_nan() or (0 <= pval and pval <= 1)
 
-            perf_tbl_dec.loc[method, metric] = (mu, EB, pval)
+            # By name since the stats can be in any order in perf_tbl
+            perf_tbl_dec.loc[method, (metric, MEAN_COL)] = mu
+            perf_tbl_dec.loc[method, (metric, ERR_COL)] = EB
+            perf_tbl_dec.loc[method, (metric, PVAL_COL)] = pval
     return perf_tbl_dec
 
 
-- 
2.43.0


From d70ad9bd87eb7361c0d0bc2d09a0e57bec6bb430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:07 +0000
Subject: [PATCH 10/10] fix: tables with some methods or metrics selected
 crashed on the unused column levels

---
 mlpaper/classification.py | 4 ++--
 mlpaper/mlpaper.py        | 2 +-
 mlpaper/regression.py     | 2 +-
 mlpaper/sciprint.py       | 4 ++--
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/mlpaper/classification.py b/mlpaper/classification.py
index 2a1f63b..d8b695f 100644
--- a/mlpaper/classification.py
+++ b/mlpaper/classification.py
@@ -246,7 +246,7 @@ def loss_table(log_pred_prob_table, y, metrics_dict, assume_normalized=False):
         method foo's prediction of ``y[5]`` according to loss function bar is
         stored in ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     n_samples, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (n_samples,)
     assert n_samples >= 1 and n_labels >= 1 and len(methods) >= 1
@@ -480,7 +480,7 @@ def curve_summary_table(
         `x_grid`, the curve value, the lower end of confidence envelope,
         and the upper end of the confidence envelope.
     """
-    methods, labels = log_pred_prob_table.columns.levels
+    methods, labels = log_pred_prob_table.columns.remove_unused_levels().levels
     N, n_labels = len(log_pred_prob_table), len(labels)
     assert y.shape == (N,)
     assert ref_method in methods  # ==> len(methods) >= 1
diff --git a/mlpaper/mlpaper.py b/mlpaper/mlpaper.py
index e3283e3..a9df9a1 100644
--- a/mlpaper/mlpaper.py
+++ b/mlpaper/mlpaper.py
@@ -497,7 +497,7 @@ def loss_summary_table(loss_table, ref_method, pairwise_CI=PAIRWISE_DEFAULT, con
         reference method `ref_method`.
     """
     assert loss_table.columns.names == (METRIC, METHOD)
-    metrics, methods = loss_table.columns.levels
+    metrics, methods = loss_table.columns.remove_unused_levels().levels
     assert ref_method in methods  # ==> len(methods) >= 1
     assert len(loss_table) >= 1 and len(metrics) >= 1
     # Could also test these are cartesian product if we wanted to be exhaustive
diff --git a/mlpaper/regression.py b/mlpaper/regression.py
index 9de5f4e..bea19b5 100644
--- a/mlpaper/regression.py
+++ b/mlpaper/regression.py
@@ -156,7 +156,7 @@ def loss_table(pred_tbl, y, metrics_dict):
         prediction of ``y[5]`` according to loss function bar is stored in
         ``loss_tbl.loc[5, ('bar', 'foo')]``.
     """
-    methods, moments = pred_tbl.columns.levels
+    methods, moments = pred_tbl.columns.remove_unused_levels().levels
     assert "mu" in moments and "std" in moments
     n_samples = len(pred_tbl)
     assert y.shape == (n_samples,)
diff --git a/mlpaper/sciprint.py b/mlpaper/sciprint.py
index 3629c87..48781b7 100644
--- a/mlpaper/sciprint.py
+++ b/mlpaper/sciprint.py
@@ -338,7 +338,7 @@ def decimalize(perf_tbl, err_digits=2, pval_digits=4, default_digits=5, EB_limit
     """
     assert pval_digits >= 1
     assert perf_tbl.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl.columns.levels
+    metrics, stats = perf_tbl.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl.index.name == METHOD
@@ -746,7 +746,7 @@ def format_table(perf_tbl_dec, shift_mod=None, pad=True, crap_limit_max={}, crap
     """
     # For now, require perf_tbl to be all finite, might relax later.
     assert perf_tbl_dec.columns.names == (METRIC, STAT)
-    metrics, stats = perf_tbl_dec.columns.levels
+    metrics, stats = perf_tbl_dec.columns.remove_unused_levels().levels
     assert sorted(stats) == sorted(STD_STATS)
 
     assert perf_tbl_dec.index.name == METHOD
-- 
2.43.0

