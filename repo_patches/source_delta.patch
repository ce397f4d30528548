From 9d158cef789ac2292eb0001fc9ec1f841ff6475d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:47 +0000
Subject: [PATCH 01/71] fix: accept correctly binned large magnitudes in
 binning_test

---
 seismostats/utils/binning.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 03e1fc5..88feac1 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -146,6 +146,9 @@ def binning_test(
     # filter out NaN values
     x = x[~np.isnan(x)]
 
+    # rounding error that the magnitude of the values brings into the shift
+    rounding = 2 * np.spacing(np.max(np.abs(x)))
+
     # shift the array to the smallest value (to avoid that the bin-center has
     # an effect on the test)
     x = x - np.min(x)
@@ -165,6 +168,8 @@ def binning_test(
     else:
         if delta_x < tolerance:
             return True
+        # rounding of the values is not a deviation from the binning
+        tolerance = max(tolerance, min(rounding, 1e-3 * delta_x))
         x_binned = bin_to_precision(x, delta_x)
 
         # This test checks if the bins are equal or larger than delta_x.
-- 
2.43.0


From 5f3521b258f9873dd14f984047d150af37e502df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 02/71] fix: weighted positive b-value without positive
 differences is NaN

---
 seismostats/analysis/bvalue/classic.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/bvalue/classic.py b/seismostats/analysis/bvalue/classic.py
index bc37b49..d4f66fa 100644
--- a/seismostats/analysis/bvalue/classic.py
+++ b/seismostats/analysis/bvalue/classic.py
@@ -12,6 +12,9 @@ def _mle_estimator(magnitudes: np.ndarray,
     Internal function for the classic b-value estimator. For b-value
     estimation use `ClassicBValueEstimator` instead.
     '''
+    if len(magnitudes) == 0:
+        return np.nan
+
     if delta_m > 0:
         p = 1 + delta_m / np.average(magnitudes - mc, weights=weights)
         beta = 1 / delta_m * np.log(p)
-- 
2.43.0


From 95644223198a8b95e5350990e1ce3676781c88c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 03/71] fix: b-more-positive for continuous magnitudes
 (delta_m=0)

---
 seismostats/analysis/bvalue/more_positive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 638ff86..749fcd1 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -130,7 +130,8 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         idx_next_larger = find_next_larger(
             self.magnitudes, self.delta_m, self.dmc)
         mag_diffs = self.magnitudes[idx_next_larger] - self.magnitudes
-        mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
+        if self.delta_m > 0:
+            mag_diffs = bin_to_precision(mag_diffs, self.delta_m)
 
         idx_no_next = idx_next_larger == 0
         self.magnitudes = mag_diffs[~idx_no_next]
-- 
2.43.0


From 12413f5f4dae967fa96559c6f8ed0570dc2dce34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:24 +0000
Subject: [PATCH 04/71] fix: a-more-positive truncated waiting times to the
 unit of the times

---
 seismostats/analysis/avalue/more_positive.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/avalue/more_positive.py b/seismostats/analysis/avalue/more_positive.py
index bacd299..b14afa3 100644
--- a/seismostats/analysis/avalue/more_positive.py
+++ b/seismostats/analysis/avalue/more_positive.py
@@ -152,11 +152,12 @@ class AMorePositiveAValueEstimator(AValueEstimator):
         # estimate the number of events within the time interval
         total_time = self.times[-1] - self.times[0]
 
-        # scale the time
-        tau = time_diffs * 10**(-self.b_value
-                                * (self.magnitudes + self.dmc - self.mc))
+        # scale the time (relative to the total time, as time differences
+        # with a coarse unit would be truncated)
+        tau = time_diffs / total_time * 10**(
+            -self.b_value * (self.magnitudes + self.dmc - self.mc))
 
-        time_factor = sum(tau / total_time)
+        time_factor = sum(tau)
         n_more_pos = sum(~idx_no_next) / time_factor
 
         # make sure that all attributes are consistent
-- 
2.43.0


From 902590fb9186c46891c2a8b456cbb943f1baa2f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:46 +0000
Subject: [PATCH 05/71] fix: a-positive reports no times when no event is used

---
 seismostats/analysis/avalue/positive.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/seismostats/analysis/avalue/positive.py b/seismostats/analysis/avalue/positive.py
index 75ae4a7..f0743a2 100644
--- a/seismostats/analysis/avalue/positive.py
+++ b/seismostats/analysis/avalue/positive.py
@@ -131,6 +131,8 @@ class APositiveAValueEstimator(AValueEstimator):
         time_diffs = time_diffs[is_larger]
         self.magnitudes = self.magnitudes[1:][is_larger]
         self.idx = self.idx[1:][is_larger]
+        total_time = self.times[-1] - self.times[0]
+        self.times = self.times[1:][is_larger]
 
         # check if there are enough events
         if len(time_diffs) == 0:
@@ -139,9 +141,6 @@ class APositiveAValueEstimator(AValueEstimator):
             return np.nan
 
         # estimate the number of events within the time interval
-        total_time = self.times[-1] - self.times[0]
-        self.times = self.times[1:][is_larger]
-
         time_factor = sum(time_diffs / total_time)
         n_pos = sum(is_larger) / time_factor
 
-- 
2.43.0


From 5dd28088ef82dddb7280c198ff03d6a55a05f10e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 06/71] fix: b-stability completeness of zero was returned as
 None

---
 seismostats/analysis/estimate_mc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 6e92c79..ef75538 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -578,5 +578,6 @@ def estimate_mc_b_stability(
     }
     if verbose:
         print(f'return_vals: {return_vals}')
-    return (bin_to_precision(best_mc, delta_m) if best_mc else None,
+    return (bin_to_precision(best_mc, delta_m)
+            if best_mc is not None else None,
             return_vals)
-- 
2.43.0


From ae0e5ed229becc2c50b8ad1b72dae5a054be0de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 07/71] fix: b-stability with a range of one bin tested no
 completeness

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index ef75538..9cd9dc2 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -501,7 +501,7 @@ def estimate_mc_b_stability(
         if len(mcs_test) <= steps:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
-        mcs_test = mcs_test[:-steps + 1]
+        mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
         mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
-- 
2.43.0


From b0896ec45535ca3d8bb9f1f51e73d98660d19158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:53 +0000
Subject: [PATCH 08/71] fix: b-stability range no longer depends on
 floating-point rounding

For some completeness magnitudes (0.6, 1.7 with the default range)
np.arange returned one value too many, which was summed but not counted.
---
 seismostats/analysis/estimate_mc.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 9cd9dc2..9244c96 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -493,10 +493,12 @@ def estimate_mc_b_stability(
             np.float64(0.9457747650207581)])
 
     """
-    steps = len(np.arange(0, stability_range, delta_m))
+    # tolerance, so that rounding does not change the number of bins
+    steps = len(np.arange(0, stability_range - 1e-6 * delta_m, delta_m))
 
     if mcs_test is None:
-        mcs_test = np.arange(np.min(magnitudes), np.max(magnitudes), delta_m)
+        mcs_test = np.arange(
+            np.min(magnitudes), np.max(magnitudes) - delta_m / 2, delta_m)
         mcs_test = bin_to_precision(mcs_test, delta_m)
         if len(mcs_test) <= steps:
             raise ValueError(
@@ -504,7 +506,9 @@ def estimate_mc_b_stability(
         mcs_test = mcs_test[:len(mcs_test) - steps + 1]
     else:
         mcs_test = np.array(mcs_test)
-        mcs_test = mcs_test[mcs_test + stability_range <= np.max(magnitudes)]
+        mcs_test = mcs_test[
+            mcs_test + stability_range
+            <= np.max(magnitudes) + 1e-6 * delta_m]
         if len(mcs_test) < 1:
             raise ValueError(
                 "The range of magnitudes is smaller than the stability range.")
@@ -541,8 +545,8 @@ def estimate_mc_b_stability(
         std = estimator.std
         b_values_test.append(b)
 
-        mc_plus = np.arange(mc, mc + stability_range, delta_m)
-        mc_plus = mc_plus[mc_plus <= np.max(magnitudes)]
+        mc_plus = mc + np.arange(steps) * delta_m
+        mc_plus = mc_plus[mc_plus <= np.max(magnitudes) + delta_m / 2]
         b_ex = []
         for mc_p in mc_plus:
             sample_selected = magnitudes[magnitudes >= mc_p - delta_m / 2]
-- 
2.43.0


From 7b02bc8e5747f6f2c50c59696a8b2920f7fcecfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:11 +0000
Subject: [PATCH 09/71] fix: times and weights given to estimate_mc stay with
 their events

---
 seismostats/analysis/estimate_mc.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 9244c96..9a82085 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -268,8 +268,10 @@ def estimate_mc_ks(
 
         # if no b_value is given, estimate b_value
         if b_value is None:
+            # the estimator removes events below mc itself, together with their
+            # times and weights
             estimator.calculate(
-                mc_sample, mc=mc, delta_m=delta_m, **kwargs)
+                magnitudes, mc=mc, delta_m=delta_m, **kwargs)
             mc_b_value = estimator.b_value
         else:
             mc_b_value = b_value
@@ -540,7 +542,7 @@ def estimate_mc_b_stability(
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-        estimator.calculate(sample_selected, mc, delta_m, **kwargs)
+        estimator.calculate(magnitudes, mc, delta_m, **kwargs)
         b = estimator.b_value
         std = estimator.std
         b_values_test.append(b)
@@ -549,8 +551,7 @@ def estimate_mc_b_stability(
         mc_plus = mc_plus[mc_plus <= np.max(magnitudes) + delta_m / 2]
         b_ex = []
         for mc_p in mc_plus:
-            sample_selected = magnitudes[magnitudes >= mc_p - delta_m / 2]
-            estimator.calculate(sample_selected, mc_p, delta_m, **kwargs)
+            estimator.calculate(magnitudes, mc_p, delta_m, **kwargs)
             b_ex.append(estimator.b_value)
         b_avg = np.sum(b_ex) / steps
         diff_b = np.abs(b_avg - b) / std
-- 
2.43.0


From 7f7d3e812827cd77c53d71bfcf7c3ac9703458fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 10/71] fix: ks_test_gr gave another result, or failed, with
 warnings off

Empty samples also failed with warnings on, before they were recognised.
---
 seismostats/analysis/estimate_mc.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 9a82085..7ba332e 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -76,17 +76,19 @@ def ks_test_gr(
         ks_d_obs:   KS distance of the sample.
         ks_ds:      Array of KS distances.
     """
+    if len(magnitudes) == 0:
+        if get_option("warnings") is True:
+            warnings.warn("No sample given.")
+        return 0, 1, []
+
     if get_option("warnings") is True:
         if np.min(magnitudes) < mc - delta_m / 2:
             warnings.warn("Sample contains values below mc.")
 
-        if len(magnitudes) == 0:
-            warnings.warn("No sample given.")
-            return 0, 1, []
-
-        if len(np.unique(magnitudes)) == 1:
+    if len(np.unique(magnitudes)) == 1:
+        if get_option("warnings") is True:
             warnings.warn("Sample contains only one value.")
-            return 0, 1, []
+        return 0, 1, []
 
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
-- 
2.43.0


From 412bc31730e3e183c80554620c950547165b8696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 11/71] fix: ks_test_gr ignored large events of the tested
 sample

---
 seismostats/analysis/estimate_mc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 7ba332e..8c59335 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -99,6 +99,8 @@ def ks_test_gr(
         # max considered magnitude: less than 1e-3 probability of
         # exceedance within the  samples
         max_considered_mag = 1 / b_value * np.log10(n_sample * n * 1e3) + mc
+        # the sample itself has to be considered completely
+        max_considered_mag = max(max_considered_mag, np.max(magnitudes))
 
         x_bins = bin_to_precision(
             np.arange(mc, max_considered_mag + 3
-- 
2.43.0


From fce39aff2d7626a0d720a732c610756f7d45a6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 12/71] fix: completeness without a defined b-value does not
 pass the KS test

np.arange raised on the undefined b-value, e.g. for b-positive samples
without positive differences.
---
 seismostats/analysis/estimate_mc.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 8c59335..e0641e1 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -90,6 +90,11 @@ def ks_test_gr(
             warnings.warn("Sample contains only one value.")
         return 0, 1, []
 
+    if np.isnan(b_value):
+        if get_option("warnings") is True:
+            warnings.warn("No b-value given.")
+        return 0, 1, []
+
     beta = b_value_to_beta(b_value)
     n_sample = len(magnitudes)
 
-- 
2.43.0


From b8888ffdc8ee994dd08bc9f66bd497e6b7e61d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:13 +0000
Subject: [PATCH 13/71] fix: b-stability warned although warnings are switched
 off

---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index e0641e1..650604e 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -547,7 +547,7 @@ def estimate_mc_b_stability(
 
         sample_selected = magnitudes[magnitudes >= mc - delta_m / 2]
 
-        if len(sample_selected) < 30:
+        if len(sample_selected) < 30 and get_option("warnings") is True:
             warnings.warn("Number of events above tested Mc is less than 30. "
                           "This might affect the stability test.")
 
-- 
2.43.0


From decd49c6b4d5d3c4e7c7d5674e9c6c4dbb2ee050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 14/71] fix: Kijko-Smit and Weichert estimates failed for
 b_parameter='beta'

---
 seismostats/analysis/bvalue/kijko_smit.py | 1 +
 seismostats/analysis/bvalue/weichert.py   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index 9e98b18..e31bcd7 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -125,6 +125,7 @@ def estimate_b_kijko_smit(
     # standard deviation of b/beta (Equation 8)
     std_b = beta / np.sqrt(ncomplete)
 
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index babdfb7..fbe90b9 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -205,6 +205,7 @@ def estimate_b_weichert(
         / (denominator_term1 - denominator_term2)
     )
     std_b = np.sqrt(var_beta)
+    b = beta
     if b_parameter == "b_value":
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
-- 
2.43.0


From 8286f5a0f397b34497fcc48b8a6c5820001ef487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 15/71] fix: Kijko-Smit estimate was undefined if one period
 had no events

---
 seismostats/analysis/bvalue/kijko_smit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index e31bcd7..eefcff4 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -115,6 +115,8 @@ def estimate_b_kijko_smit(
     # Equation (7) from Kijko, Smit (2012)
     estimator_terms = []
     for ii, subcat_magnitudes in enumerate(sub_catalogues):
+        if len(subcat_magnitudes) == 0:
+            continue
         # get sub-catalogue beta-value as per Aki-Utsu
         sub_beta = 1 / (
             np.average(subcat_magnitudes) - completeness_magnitudes[ii]
-- 
2.43.0


From 544c87c05199a042f5fbefeae92fe8915102e845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:15 +0000
Subject: [PATCH 16/71] fix: Kijko-Smit rate counted overlapping periods more
 than once

The sub-catalogues are disjoint in time, so are their durations (eq. 10).
---
 seismostats/analysis/bvalue/kijko_smit.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/bvalue/kijko_smit.py b/seismostats/analysis/bvalue/kijko_smit.py
index eefcff4..e57a395 100644
--- a/seismostats/analysis/bvalue/kijko_smit.py
+++ b/seismostats/analysis/bvalue/kijko_smit.py
@@ -132,10 +132,13 @@ def estimate_b_kijko_smit(
         b = beta_to_b_value(beta)
         std_b = beta_to_b_value(std_b)
 
-    # get rate assuming Poisson process (Equation 10)
+    # get rate assuming Poisson process (Equation 10), the duration of a
+    # sub-catalogue ends where the one with lower completeness starts
+    period_ends = np.append(last_year, completeness_years[:-1])
     denominator_rate = 0
     for idx in range(len(completeness_magnitudes)):
-        denominator_rate += (last_year - completeness_years[idx]) * np.exp(
+        denominator_rate += (
+            period_ends[idx] - completeness_years[idx]) * np.exp(
             (-beta)
             * (completeness_magnitudes[idx] - completeness_magnitudes[0])
         )
-- 
2.43.0


From d2a7757b291ceb69168f014fb2e7e8ac99d584c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:36 +0000
Subject: [PATCH 17/71] fix: Weichert estimate ignored magnitude bins without
 events

Empty bins belong to the likelihood; leaving them out biases b-value and
rate to low values for catalogs with few large events.
---
 seismostats/analysis/bvalue/weichert.py | 39 +++++++++----------------
 1 file changed, 13 insertions(+), 26 deletions(-)

diff --git a/seismostats/analysis/bvalue/weichert.py b/seismostats/analysis/bvalue/weichert.py
index fbe90b9..f9cd73a 100644
--- a/seismostats/analysis/bvalue/weichert.py
+++ b/seismostats/analysis/bvalue/weichert.py
@@ -120,32 +120,19 @@ def estimate_b_weichert(
     # get number of "complete" events in each magnitude bin
     # and associated year of completeness
     idxcomp = (completeness_starts > 0) & (years - completeness_starts >= 0)
-    complete_events = (
-        pd.DataFrame.groupby(
-            pd.DataFrame(
-                data={
-                    "mag_left_edge": np.array(
-                        [
-                            i.left
-                            for i in pd.cut(
-                                magnitudes[idxcomp],
-                                bins=np.arange(
-                                    completeness_table_magnitudes[0],
-                                    mag_max + 0.01,
-                                    delta_m,
-                                ),
-                                right=False,
-                            )
-                        ]
-                    ),
-                    "completeness_start": completeness_starts[idxcomp],
-                }
-            ),
-            by=["mag_left_edge", "completeness_start"],
-        )
-        .size()
-        .to_frame("num")
-        .reset_index()
+    # (bins without events are part of the likelihood as well)
+    bins = np.arange(
+        completeness_table_magnitudes[0], mag_max + 0.01, delta_m)
+    complete_events = pd.DataFrame(
+        data={
+            "mag_left_edge": bins[:-1],
+            "completeness_start": completeness_table_years[
+                np.searchsorted(
+                    completeness_table_magnitudes, bins[:-1] + delta_m * 0.5
+                ) - 1
+            ],
+            "num": np.histogram(magnitudes[idxcomp], bins=bins)[0],
+        }
     )
     assert np.all(
         complete_events.completeness_start > 0
-- 
2.43.0


From b948c99e685a825d2efbcab5a077ad85029b182b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 18/71] fix: simulate_magnitudes ignored a maximum magnitude of
 zero

Dithering magnitudes whose upper bin edge is zero was affected as well.
---
 seismostats/utils/simulate_distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 7d55dc6..21e6714 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -35,7 +35,7 @@ def simulate_magnitudes(
         :func:`~seismostats.utils.simulate_distributions.simulate_magnitudes_binned`
 
     """
-    if mag_max:
+    if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
         lower_cdf = 1 - np.exp(-beta * mc)
         upper_cdf = 1 - np.exp(-beta * mag_max)
-- 
2.43.0


From d5137c6dad64de00433d8d2c1a3d0071edffaf55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 19/71] fix: truncated magnitudes were infinite or imprecise
 for large mc and b

---
 seismostats/utils/simulate_distributions.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 21e6714..3139639 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -37,10 +37,9 @@ def simulate_magnitudes(
     """
     if mag_max is not None:
         u = np.random.uniform(0, 1, size=n)
-        lower_cdf = 1 - np.exp(-beta * mc)
-        upper_cdf = 1 - np.exp(-beta * mag_max)
-        scaled_u = lower_cdf + u * (upper_cdf - lower_cdf)
-        mags = -(1 / beta) * np.log(1 - scaled_u)
+        # cdf relative to mc, the absolute one is rounded to 1 for large mc
+        upper_cdf = 1 - np.exp(-beta * (mag_max - mc))
+        mags = mc - (1 / beta) * np.log(1 - u * upper_cdf)
     else:
         mags = np.random.exponential(1 / beta, n) + mc
 
-- 
2.43.0


From 81ffcd0c893ce1a7bc1aaac114cf40f4238aaa37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:32 +0000
Subject: [PATCH 20/71] fix: dither_magnitudes returned the magnitudes in
 another order

---
 seismostats/utils/simulate_distributions.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seismostats/utils/simulate_distributions.py b/seismostats/utils/simulate_distributions.py
index 3139639..6f74ec2 100644
--- a/seismostats/utils/simulate_distributions.py
+++ b/seismostats/utils/simulate_distributions.py
@@ -137,4 +137,8 @@ def dither_magnitudes(magnitudes: np.ndarray,
         for bin, count in zip(bins, counts)
     ]
 
-    return np.concatenate(dithered_list)
+    # bins are in ascending order, the given magnitudes may not be
+    dithered = np.empty(len(magnitudes))
+    dithered[np.argsort(magnitudes, kind="stable")] = np.concatenate(
+        dithered_list)
+    return dithered
-- 
2.43.0


From e105f38b824c0f59cf32987d0cf9f416fc36ec4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 21/71] fix: declustering mixed up row labels and positions

Catalogs with another index than 0..n-1 (e.g. filtered or sorted ones)
got wrong labels or an error.
---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 32368f5..94be1d5 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -67,6 +67,9 @@ class GardnerKnopoffType1(Declusterer):
                 "catalog must contain the following columns: " + ", ".join(cols)
             )
 
+        # rows are referred to by position, whatever the index of the catalog
+        catalog = catalog[list(cols)].reset_index(drop=True)
+
         # each cluster of events is assigned a non-negative integer id
         cluster_ids = np.zeros(len(catalog), dtype=int)
         cluster_id = 1
-- 
2.43.0


From f0d536e2f3c99723b19fec726e729ac88312bf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:01 +0000
Subject: [PATCH 22/71] fix: declustering ignored a time cutoff of zero

---
 seismostats/analysis/declustering/distance_time_windows.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/distance_time_windows.py b/seismostats/analysis/declustering/distance_time_windows.py
index 49f94c6..f1aaf62 100644
--- a/seismostats/analysis/declustering/distance_time_windows.py
+++ b/seismostats/analysis/declustering/distance_time_windows.py
@@ -54,7 +54,7 @@ class BaseDistanceTimeWindow(abc.ABC):
             sw_time:    Array of time windows.
         """
         sw_space, sw_time = self._calc(magnitude)
-        if self.time_cutoff:
+        if self.time_cutoff is not None:
             sw_time = np.clip(sw_time, a_min=0, a_max=self.time_cutoff)
         sw_time = np.array([pd.Timedelta(days=t) for t in sw_time])
         return sw_space, sw_time
-- 
2.43.0


From 7bde05ede802178a6105c53b35624a42298bc04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 23/71] fix: b_significant_1D did not sort the completeness
 with the events

---
 seismostats/analysis/b_significant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/analysis/b_significant.py b/seismostats/analysis/b_significant.py
index 66271f8..9eda0f6 100644
--- a/seismostats/analysis/b_significant.py
+++ b/seismostats/analysis/b_significant.py
@@ -384,6 +384,7 @@ def b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
 
     idx = magnitudes >= mc - delta_m / 2
-- 
2.43.0


From f93237d7d79845d34d257c72846dd8efd8bb4632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 24/71] fix: plot_b_significant_1D did not sort the
 completeness with the events

---
 seismostats/plots/statistical.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 08a8e07..105e253 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -292,6 +292,8 @@ def plot_b_significant_1D(
 
     if isinstance(mc, (float, int)):
         mc = np.ones(len(magnitudes)) * mc
+    else:
+        mc = np.array(mc)
     if x_variable is None:
         x_variable = np.arange(len(magnitudes))
     else:
@@ -303,6 +305,7 @@ def plot_b_significant_1D(
         srt = np.argsort(x_variable)
         magnitudes = magnitudes[srt]
         times = times[srt]
+        mc = mc[srt]
         x_variable = x_variable[srt]
     if ax is None:
         _, ax = plt.subplots()
-- 
2.43.0


From 3bd2415a7d53abfef73c90eec7e5cb75efc0da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:23 +0000
Subject: [PATCH 25/71] fix: plot_b_significant_1D failed to mark significant
 values for a list of n_ms

---
 seismostats/plots/statistical.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seismostats/plots/statistical.py b/seismostats/plots/statistical.py
index 105e253..8dee0d5 100644
--- a/seismostats/plots/statistical.py
+++ b/seismostats/plots/statistical.py
@@ -321,6 +321,7 @@ def plot_b_significant_1D(
                 15, len(magnitudes) / 15, 10).astype(int))
         else:
             raise ValueError("Not enough events to estimate significance.")
+    n_ms = np.array(n_ms)
 
     # estimate the MAC for each n_m
     p = np.zeros(len(n_ms))
-- 
2.43.0


From 4f497b3baab73229f19b62ee37c12216206d807b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:00 +0000
Subject: [PATCH 26/71] fix: b-more-positive uncertainty raised for an
 undefined b-value

---
 seismostats/analysis/bvalue/more_positive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/seismostats/analysis/bvalue/more_positive.py b/seismostats/analysis/bvalue/more_positive.py
index 749fcd1..5570ab9 100644
--- a/seismostats/analysis/bvalue/more_positive.py
+++ b/seismostats/analysis/bvalue/more_positive.py
@@ -154,6 +154,10 @@ class BMorePositiveBValueEstimator(BValueEstimator):
         Bootstrap uncertainty of the b-value estimate. Depending on the number
         of the magnitudes, this can take a while to compute.
         '''
+        # an undefined b-value has no uncertainty
+        if not np.isfinite(self.b_value):
+            return np.nan
+
         estimator = self.__class__()
 
         # Define the function for the bootstrap.
-- 
2.43.0


From 0ff66acae6f839be9a261bffa286417e6a10ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:38 +0000
Subject: [PATCH 27/71] fix: a refused a-value calculation left an unscaled
 a-value behind

---
 seismostats/analysis/avalue/base.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/seismostats/analysis/avalue/base.py b/seismostats/analysis/avalue/base.py
index 2e58219..31efd3d 100644
--- a/seismostats/analysis/avalue/base.py
+++ b/seismostats/analysis/avalue/base.py
@@ -80,8 +80,7 @@ class AValueEstimator(ABC):
             self.__a_value = np.nan
             return self.__a_value
 
-        self.__a_value = self._estimate()
-        self.__a_value = self._reference_scaling(self.__a_value)
+        self.__a_value = self._reference_scaling(self._estimate())
 
         return self.__a_value
 
-- 
2.43.0


From 8fb72ab7e008a9973fe5a5c8584701249efdeb5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:50 +0000
Subject: [PATCH 28/71] fix: estimate_b with return_n failed without return_std

---
 seismostats/analysis/bvalue/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/bvalue/__init__.py b/seismostats/analysis/bvalue/__init__.py
index 4699e80..949a861 100644
--- a/seismostats/analysis/bvalue/__init__.py
+++ b/seismostats/analysis/bvalue/__init__.py
@@ -114,6 +114,6 @@ def estimate_b(
             out = (out, estimator.std_beta)
 
     if return_n:
-        out = (*tuple(out), estimator.n)
+        out = (*out, estimator.n) if return_std else (out, estimator.n)
 
     return out
-- 
2.43.0


From f785161bb1647695696c5d400851d6b3539623bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:12 +0000
Subject: [PATCH 29/71] fix: b-more-positive uncertainty failed at random with
 a zero weight

---
 seismostats/analysis/bvalue/classic.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seismostats/analysis/bvalue/classic.py b/seismostats/analysis/bvalue/classic.py
index d4f66fa..70af1e5 100644
--- a/seismostats/analysis/bvalue/classic.py
+++ b/seismostats/analysis/bvalue/classic.py
@@ -14,6 +14,8 @@ def _mle_estimator(magnitudes: np.ndarray,
     '''
     if len(magnitudes) == 0:
         return np.nan
+    if weights is not None and np.sum(weights) == 0:
+        return np.nan
 
     if delta_m > 0:
         p = 1 + delta_m / np.average(magnitudes - mc, weights=weights)
-- 
2.43.0


From dd9d2d760c4e3f706bc3282ca09bb606041c134a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 30/71] fix: estimate_mc_ks refused inputs only with warnings
 switched on

---
 seismostats/analysis/estimate_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index 650604e..b374662 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -251,10 +251,12 @@ def estimate_mc_ks(
         raise ValueError('Magnitudes are not binned correctly.')
 
     if get_option("warnings") is True:
-        if not binning_test(magnitudes, delta_m, check_larger_binning=False):
+        if len(magnitudes) > 0 and not binning_test(
+                magnitudes, delta_m, check_larger_binning=False):
             warnings.warn("Magnitudes are not binned correctly. "
                           "Test might fail because of this.")
-        if not binning_test(mcs_test, delta_m, check_larger_binning=False):
+        if len(mcs_test) > 0 and not binning_test(
+                mcs_test, delta_m, check_larger_binning=False):
             warnings.warn("Mcs to test are not binned correctly. "
                           "Test might fail because of this.")
 
-- 
2.43.0


From 4dd5bb6ad9839d6b57b1204a8a49c781c18f272d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:15 +0000
Subject: [PATCH 31/71] fix: writing a catalog as text ignored the number, date
 and missing formats

---
 seismostats/catalogs/catalog.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 350cc88..89450b7 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -202,6 +202,11 @@ class Catalog(pd.DataFrame):
                                 'null', 'Null', 'NULL'],
                     value=None)
 
+    def to_csv(self, *args, **kwargs):
+        # pandas collects the formatted cells in an object of the same class,
+        # which would convert times and numbers back again.
+        return pd.DataFrame(self).to_csv(*args, **kwargs)
+
     @classmethod
     def from_quakeml(cls,
                      quakeml: str,
-- 
2.43.0


From dcf3cd44f51c211e8d02266ac83daa618f94a561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:48 +0000
Subject: [PATCH 32/71] fix: transposing, pivoting, correlating or combining a
 catalog raised an AttributeError

---
 seismostats/catalogs/catalog.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 89450b7..502175f 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -47,12 +47,14 @@ _PD_TIME_COLS = ['year', 'month', 'day',
                  'hour', 'minute', 'second', 'microsecond']
 
 
-def _catalog_constructor_with_fallback(df, **kwargs):
+def _catalog_constructor_with_fallback(*args, **kwargs):
+    # pandas passes tables as well as bare values with index and columns
+    df = pd.DataFrame(*args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
     if not _check_required_cols(df, ['catalog_id']):
-        return Catalog(df, **kwargs)
-    return ForecastCatalog(df, **kwargs)
+        return Catalog(df)
+    return ForecastCatalog(df)
 
 
 class Catalog(pd.DataFrame):
-- 
2.43.0


From a03231f18c814c67d42477d5ddb351dbed021b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:41 +0000
Subject: [PATCH 33/71] fix: masks, counts, ranks and differences of a catalog
 with times raised errors

---
 seismostats/catalogs/catalog.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 502175f..5f81003 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -52,6 +52,11 @@ def _catalog_constructor_with_fallback(*args, **kwargs):
     df = pd.DataFrame(*args, **kwargs)
     if not _check_required_cols(df, ['magnitude']):
         return df
+    # masks, counts, ranks and differences are no dates and make no catalog
+    if 'time' in df.columns:
+        kind = df['time'].dtype.kind
+        if kind in 'bm' or kind in 'iuf' and df['time'].notna().any():
+            return df
     if not _check_required_cols(df, ['catalog_id']):
         return Catalog(df)
     return ForecastCatalog(df)
-- 
2.43.0


From 48a3bca40e6ad72ce10e2509db0b35f78526e540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:41 +0000
Subject: [PATCH 34/71] fix: stripping a table that had become a forecast
 catalog removed its catalog ids

---
 seismostats/catalogs/catalog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 5f81003..3fb20c2 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -128,7 +128,7 @@ class Catalog(pd.DataFrame):
         :ivar logger:       Logger for the catalog.
     '''
 
-    _metadata = ['name', '_required_cols', 'mc', 'a_value',
+    _metadata = ['name', 'mc', 'a_value',
                  'delta_m', 'b_value', 'starttime', 'endtime',
                  'bounding_polygon', 'depth_min', 'depth_max',
                  'logger']
-- 
2.43.0


From 50f85a618744d78e9277cc50f51572ba23695ff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 35/71] fix: a magnitude without a type made the whole QuakeML
 document unreadable

---
 seismostats/io/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 3019f16..137c21a 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -70,8 +70,10 @@ def _select_magnitude_by_id(magnitudes: list, id: str | None) \
     preferred = next((m for m in magnitudes if id
                      == m['magnitudepublicID']), DUMMY_MAGNITUDE)
 
-    magnitudes = [m for m in magnitudes if m['magnitudetype']
-                  != preferred['magnitudetype'] or id == m['magnitudepublicID']]
+    # magnitudes without a type cannot be told apart by their type
+    magnitudes = [m for m in magnitudes if m.get('magnitudetype') is not None
+                  and (m['magnitudetype'] != preferred.get('magnitudetype')
+                       or id == m['magnitudepublicID'])]
 
     return preferred, magnitudes
 
-- 
2.43.0


From 4265f1287a99ad18e6021c897e4df392ce054686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:07 +0000
Subject: [PATCH 36/71] fix: the latest magnitude was chosen without regard to
 fractional seconds and time zones

---
 seismostats/io/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 137c21a..a814921 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -1,7 +1,7 @@
 import xml.sax
-from datetime import datetime
 from xml.sax._exceptions import SAXParseException
 
+import pandas as pd
 from requests import Response
 
 
@@ -119,7 +119,7 @@ def _select_secondary_magnitudes(magnitudes: list) -> list:
         key2[0] = all(key2[1] in m for m in mags)
         mags = sorted(mags, key=lambda x: (
             float(x[key1[1]]) if key1[0] else None,
-            datetime.strptime(x[key2[1]][:19], '%Y-%m-%dT%H:%M:%S')
+            pd.to_datetime(x[key2[1]], utc=True)
             if key2[0] else None),
             reverse=True)
 
-- 
2.43.0


From 8d415156cf53c7e63f8cd38c3328d8fc5ea3adf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:21 +0000
Subject: [PATCH 37/71] fix: white space inside a QuakeML text was lost where
 the parser splits it

---
 seismostats/io/parser.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index a814921..9c95629 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -232,6 +232,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
 
         self.parent = ''
         self.location = ''
+        self.text = ''
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -240,6 +241,8 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.text = ''
+
         if tagName in ['event', 'origin', 'magnitude']:
 
             self.parent = tagName
@@ -253,6 +256,11 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location += tagName
 
     def endElement(self, tagName):
+        # the parser may deliver a text in several pieces
+        if self.text.strip() and self.parent:
+            self.setter(self.parent, self.text.strip())
+        self.text = ''
+
         if tagName == 'event':
             self.catalog.append(_parse_to_dict(
                 self.event[-1], self.origin, self.magnitude,
@@ -271,8 +279,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             self.location = self.location[:-len(tagName)]
 
     def characters(self, chars):
-        if chars.strip() and self.parent:
-            self.setter(self.parent, chars.strip())
+        self.text += chars
 
     def startDocument(self):
         pass
-- 
2.43.0


From d45ae0550aebed2e4b12d9d39b6c985741856ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:23 +0000
Subject: [PATCH 38/71] fix: a QuakeML file or response that breaks off was
 read as a shorter catalog

---
 seismostats/io/parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/io/parser.py b/seismostats/io/parser.py
index 9c95629..e525795 100644
--- a/seismostats/io/parser.py
+++ b/seismostats/io/parser.py
@@ -233,6 +233,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
         self.parent = ''
         self.location = ''
         self.text = ''
+        self.empty = True
 
     def setter(self, key, value, additional_key=''):
         if self.location in getattr(self, key)[-1]:
@@ -241,6 +242,7 @@ class QuakeMLHandler(xml.sax.ContentHandler):
             getattr(self, key)[-1][self.location + additional_key] = value
 
     def startElement(self, tagName, attrs):
+        self.empty = False
         self.text = ''
 
         if tagName in ['event', 'origin', 'magnitude']:
@@ -308,7 +310,7 @@ def parse_quakeml_file(file_path: str,
     try:
         parser.parse(file_path)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if handler.empty and 'no element found' in str(e):
             return data
         raise e
     return data
@@ -359,7 +361,7 @@ def parse_quakeml_response(response: Response,
     try:
         parser.parse(response.raw)
     except SAXParseException as e:
-        if 'no element found' in str(e):
+        if handler.empty and 'no element found' in str(e):
             return data
         raise e
     return data
-- 
2.43.0


From 826b73dc781fd7c616e56e221131adc4e4460062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:20 +0000
Subject: [PATCH 39/71] fix: get_events returned secondary magnitudes when told
 to leave them out

---
 seismostats/catalogs/client.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 5dc0ac9..96e333d 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -123,12 +123,16 @@ class FDSNWSEventClient():
         self.params.update(kwargs)
 
         catalog = []
+        # services may send all magnitudes even if asked not to
+        parse_options = {
+            'include_all_magnitudes': include_all_magnitudes is not False,
+            'include_quality': include_quality}
 
         if batch_size is not None:
-            catalog = self._get_events_batched(batch_size, include_quality)
+            catalog = self._get_events_batched(batch_size, **parse_options)
         else:
             r = requests.get(self.url, stream=True, params=self.params)
-            catalog = parse_quakeml_response(r, include_quality=include_quality)
+            catalog = parse_quakeml_response(r, **parse_options)
 
         catalog = Catalog.from_dict(
             catalog, include_uncertainty, include_ids)
@@ -148,7 +152,7 @@ class FDSNWSEventClient():
             batch_params.append(params)
         return batch_params
 
-    def _get_events_batched(self, batch_size: int, include_quality: bool
+    def _get_events_batched(self, batch_size: int, **parse_options
                             ) -> list[dict]:
         """
         Download the events in batches of `batch_size` in order to avoid
@@ -158,7 +162,7 @@ class FDSNWSEventClient():
         batch_params = self._get_batch_params(batch_size)
         for params in batch_params:
             r = requests.get(self.url, stream=True, params=params)
-            batch = parse_quakeml_response(r, include_quality=include_quality)
+            batch = parse_quakeml_response(r, **parse_options)
             catalog.extend(batch)
 
         return catalog
-- 
2.43.0


From 3ad6a4356e58c61be557b6d360b9256e1f2c6f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:04 +0000
Subject: [PATCH 40/71] fix: a batch size of zero sent requests without end

---
 seismostats/catalogs/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 96e333d..bb4eac7 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -95,6 +95,9 @@ class FDSNWSEventClient():
 
         """
 
+        if batch_size is not None and batch_size < 1:
+            raise ValueError('batch_size must be at least 1')
+
         date_format = "%Y-%m-%dT%H:%M:%S"
         self.params = {}
 
-- 
2.43.0


From 923faab4443224c36f7ed04daf4a3e6079ed950b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 41/71] fix: get_events dropped the fraction of a second and
 the time zone of the requested period

---
 seismostats/catalogs/client.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index bb4eac7..6aff86b 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -1,4 +1,4 @@
-from datetime import datetime
+from datetime import datetime, timezone
 
 import pandas as pd
 import requests
@@ -7,6 +7,13 @@ from seismostats import Catalog
 from seismostats.io.parser import parse_quakeml_response
 
 
+def _format_time(time: datetime) -> str:
+    # the service expects UTC without a time zone
+    if getattr(time, 'tzinfo', None) is not None:
+        time = time.astimezone(timezone.utc).replace(tzinfo=None)
+    return time.isoformat()
+
+
 class FDSNWSEventClient():
     """
     Client for downloading earthquake catalogs from the
@@ -72,7 +79,7 @@ class FDSNWSEventClient():
             .. code-block:: python
 
                 >>> from seismostats import FDSNWSEventClient
-                >>> from datetime import datetime
+                >>> from datetime import datetime, timezone
                 >>> url = 'http://eida.ethz.ch/fdsnws/event/1/query'
                 >>> client = FDSNWSEventClient(url)
                 >>> df = client.get_events(
@@ -98,13 +105,12 @@ class FDSNWSEventClient():
         if batch_size is not None and batch_size < 1:
             raise ValueError('batch_size must be at least 1')
 
-        date_format = "%Y-%m-%dT%H:%M:%S"
         self.params = {}
 
         if start_time is not None:
-            self.params['starttime'] = start_time.strftime(date_format)
+            self.params['starttime'] = _format_time(start_time)
         if end_time is not None:
-            self.params['endtime'] = end_time.strftime(date_format)
+            self.params['endtime'] = _format_time(end_time)
         if min_latitude is not None:
             self.params['minlatitude'] = min_latitude
         if max_latitude is not None:
-- 
2.43.0


From dc910627f3a03227a166bd6129f3c7b03801a5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:17 +0000
Subject: [PATCH 42/71] fix: failed requests made a downloaded catalog shorter
 without an error

---
 seismostats/catalogs/client.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/seismostats/catalogs/client.py b/seismostats/catalogs/client.py
index 6aff86b..6bfc620 100644
--- a/seismostats/catalogs/client.py
+++ b/seismostats/catalogs/client.py
@@ -140,7 +140,7 @@ class FDSNWSEventClient():
         if batch_size is not None:
             catalog = self._get_events_batched(batch_size, **parse_options)
         else:
-            r = requests.get(self.url, stream=True, params=self.params)
+            r = self._request(self.params, stream=True)
             catalog = parse_quakeml_response(r, **parse_options)
 
         catalog = Catalog.from_dict(
@@ -153,6 +153,16 @@ class FDSNWSEventClient():
 
         return catalog
 
+    def _request(self, params: dict, **kwargs) -> requests.Response:
+        """
+        Send a request. Services may use the status code 404, and 400 for
+        an offset which is too large, to tell that there are no events.
+        """
+        r = requests.get(self.url, params=params, **kwargs)
+        if r.status_code not in (400, 404):
+            r.raise_for_status()
+        return r
+
     def _get_batch_params(self, batch_size: int) -> dict:
         batch_params = []
         for i in range(0, self._get_batch_count(batch_size)):
@@ -170,7 +180,7 @@ class FDSNWSEventClient():
         catalog = []
         batch_params = self._get_batch_params(batch_size)
         for params in batch_params:
-            r = requests.get(self.url, stream=True, params=params)
+            r = self._request(params, stream=True)
             batch = parse_quakeml_response(r, **parse_options)
             catalog.extend(batch)
 
@@ -182,7 +192,7 @@ class FDSNWSEventClient():
         to find the number of events available.
         """
         params = self.params | {'limit': limit, 'offset': offset}
-        r = requests.get(self.url, params=params)
+        r = self._request(params)
         return (r.status_code == 200 and r.content)
 
     def _get_batch_count(self, batch_size: int) -> int:
-- 
2.43.0


From 35246163884755e641c6c9f638a883f9ceee00f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 43/71] fix: markup characters in texts made exported QuakeML
 unreadable

---
 .../catalogs/catalog_templates/quakeml.j2     | 42 +++++++++----------
 seismostats/utils/__init__.py                 |  4 +-
 2 files changed, 23 insertions(+), 23 deletions(-)

diff --git a/seismostats/catalogs/catalog_templates/quakeml.j2 b/seismostats/catalogs/catalog_templates/quakeml.j2
index 1445dba..322d585 100644
--- a/seismostats/catalogs/catalog_templates/quakeml.j2
+++ b/seismostats/catalogs/catalog_templates/quakeml.j2
@@ -14,8 +14,8 @@
                     <author>{{ author }}</author>
                 </creationInfo>
                 <mag>
-                    {{'<value>{}</value>'.format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
+                    {{('<value>{}</value>'|safe).format(event.magnitude) if not event.magnitude is nan and event.magnitude is defined else '' -}}
+                    {{('<uncertainty>{}</uncertainty>'|safe).format(event.magnitude_uncertainty) if not event.magnitude_uncertainty is nan and event.magnitude_uncertainty is defined else '' -}}
                 </mag>
                 <type>{{ event.magnitude_type }}</type>
                 <originID>{{ event.originID }}</originID>
@@ -28,8 +28,8 @@
                     <author>{{ author }}</author>
                 </creationInfo>
                 <mag>
-                    {{'<value>{}</value>'.format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
+                    {{('<value>{}</value>'|safe).format(magnitude.magnitude) if not magnitude.magnitude is nan and magnitude.magnitude is defined else '' -}}
+                    {{('<uncertainty>{}</uncertainty>'|safe).format(magnitude.magnitude_uncertainty) if not magnitude.magnitude_uncertainty is nan and magnitude.magnitude_uncertainty is defined else '' -}}
                 </mag>
                 <type>{{ type }}</type>
                 <originID>{{ event.originID }}</originID>
@@ -41,12 +41,12 @@
                     <value>{{ event.time.strftime('%Y-%m-%dT%H:%M:%S.%fZ') }}</value>
                 </time>
                 <longitude>
-                    {{'<value>{}</value>'.format(event.longitude) if not event.longitude is nan and event.longitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.longitude_uncertainty) if not event.longitude_uncertainty is nan and event.longitude_uncertainty is defined else '' -}}
+                    {{('<value>{}</value>'|safe).format(event.longitude) if not event.longitude is nan and event.longitude is defined else '' -}}
+                    {{('<uncertainty>{}</uncertainty>'|safe).format(event.longitude_uncertainty) if not event.longitude_uncertainty is nan and event.longitude_uncertainty is defined else '' -}}
                 </longitude>
                 <latitude>
-                    {{'<value>{}</value>'.format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
+                    {{('<value>{}</value>'|safe).format(event.latitude) if not event.latitude is nan and event.latitude is defined else '' -}}
+                    {{('<uncertainty>{}</uncertainty>'|safe).format(event.latitude_uncertainty) if not event.latitude_uncertainty is nan and event.latitude_uncertainty is defined else '' -}}
                 </latitude>
                 <evaluationMode>{{ event.evaluationmode }}</evaluationMode>
                 <creationInfo>
@@ -54,21 +54,21 @@
                     <author>{{ author }}</author>
                 </creationInfo>
                 <depth>
-                    {{'<value>{}</value>'.format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
-                    {{'<uncertainty>{}</uncertainty>'.format(event.depth_uncertainty) if not event.depth_uncertainty is nan and event.depth_uncertainty is defined else '' -}}
+                    {{('<value>{}</value>'|safe).format(event.depth) if not event.depth is nan and event.depth is defined else '' -}}
+                    {{('<uncertainty>{}</uncertainty>'|safe).format(event.depth_uncertainty) if not event.depth_uncertainty is nan and event.depth_uncertainty is defined else '' -}}
                 </depth>
                 <quality>
-                    {{'<associatedPhaseCount>{}</associatedPhaseCount>'.format(event.associatedphasecount|int) if not event.associatedphasecount is nan and event.associatedphasecount is defined else '' -}}
-                    {{'<usedPhaseCount>{}</usedPhaseCount>'.format(event.usedphasecount|int) if not event.usedphasecount is nan and event.usedphasecount is defined else ''-}}
-                    {{'<associatedStationCount>{}</associatedStationCount>'.format(event.associatedstationcount|int) if not event.associatedstationcount is nan and event.associatedstationcount is defined else ''-}}
-                    {{'<usedStationCount>{}</usedStationCount>'.format(event.usedstationcount|int) if not event.usedstationcount is nan and event.usedstationcount is defined else ''-}}
-                    {{'<depthPhaseCount>{}</depthPhaseCount>'.format(event.depthphasecount|int) if not event.depthphasecount is nan and event.depthphasecount is defined else ''-}}
-                    {{'<standardError>{}</standardError>'.format(event.standarderror) if not event.standarderror is nan and event.standarderror is defined else ''-}}
-                    {{'<azimuthalGap>{}</azimuthalGap>'.format(event.azimuthalgap) if not event.azimuthalgap is nan and event.azimuthalgap is defined else ''-}}
-                    {{'<secondaryAzimuthalGap>{}</secondaryAzimuthalGap>'.format(event.secondaryazimuthalgap) if not event.secondaryazimuthalgap is nan and event.secondaryazimuthalgap is defined else ''-}}
-                    {{'<maximumDistance>{}</maximumDistance>'.format(event.maximumdistance) if not event.maximumdistance is nan and event.maximumdistance is defined else ''-}}
-                    {{'<minimumDistance>{}</minimumDistance>'.format(event.minimumdistance) if not event.minimumdistance is nan and event.minimumdistance is defined else ''-}}
-                    {{'<medianDistance>{}</medianDistance>'.format(event.mediandistance) if not event.mediandistance is nan and event.mediandistance is defined else ''-}}
+                    {{('<associatedPhaseCount>{}</associatedPhaseCount>'|safe).format(event.associatedphasecount|int) if not event.associatedphasecount is nan and event.associatedphasecount is defined else '' -}}
+                    {{('<usedPhaseCount>{}</usedPhaseCount>'|safe).format(event.usedphasecount|int) if not event.usedphasecount is nan and event.usedphasecount is defined else ''-}}
+                    {{('<associatedStationCount>{}</associatedStationCount>'|safe).format(event.associatedstationcount|int) if not event.associatedstationcount is nan and event.associatedstationcount is defined else ''-}}
+                    {{('<usedStationCount>{}</usedStationCount>'|safe).format(event.usedstationcount|int) if not event.usedstationcount is nan and event.usedstationcount is defined else ''-}}
+                    {{('<depthPhaseCount>{}</depthPhaseCount>'|safe).format(event.depthphasecount|int) if not event.depthphasecount is nan and event.depthphasecount is defined else ''-}}
+                    {{('<standardError>{}</standardError>'|safe).format(event.standarderror) if not event.standarderror is nan and event.standarderror is defined else ''-}}
+                    {{('<azimuthalGap>{}</azimuthalGap>'|safe).format(event.azimuthalgap) if not event.azimuthalgap is nan and event.azimuthalgap is defined else ''-}}
+                    {{('<secondaryAzimuthalGap>{}</secondaryAzimuthalGap>'|safe).format(event.secondaryazimuthalgap) if not event.secondaryazimuthalgap is nan and event.secondaryazimuthalgap is defined else ''-}}
+                    {{('<maximumDistance>{}</maximumDistance>'|safe).format(event.maximumdistance) if not event.maximumdistance is nan and event.maximumdistance is defined else ''-}}
+                    {{('<minimumDistance>{}</minimumDistance>'|safe).format(event.minimumdistance) if not event.minimumdistance is nan and event.minimumdistance is defined else ''-}}
+                    {{('<medianDistance>{}</medianDistance>'|safe).format(event.mediandistance) if not event.mediandistance is nan and event.mediandistance is defined else ''-}}
                 </quality>
             </origin>
 
diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index f0d5343..09bfd19 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -4,7 +4,7 @@ import math
 from datetime import datetime
 
 import pandas as pd
-from jinja2 import Environment, FileSystemLoader, select_autoescape
+from jinja2 import Environment, FileSystemLoader
 
 from seismostats.utils._config import get_option, set_option
 from seismostats.utils.binning import (bin_to_precision, binning_test,
@@ -98,7 +98,7 @@ def _render_template(data: dict, template_path: str) -> str:
     """
     env = Environment(
         loader=FileSystemLoader("/"),  # Base directory for templates
-        autoescape=select_autoescape(),
+        autoescape=True,
     )
     env.tests["nan"] = is_nan
 
-- 
2.43.0


From 675adf9bf96c14a38dbb897495fab1ba578f0bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:20 +0000
Subject: [PATCH 44/71] fix: missing values were exported to QuakeML as text
 and empty catalogs could not be exported

---
 seismostats/catalogs/catalog.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 3fb20c2..159af93 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1450,19 +1450,18 @@ class Catalog(pd.DataFrame):
         df = self.copy()
 
         for col in ['eventID', 'originID', 'magnitudeID']:
-            if col not in df.columns:
-                df[col] = df.apply(lambda _: uuid.uuid4().hex, axis=1)
+            df[col] = [uuid.uuid4().hex if pd.isna(x) else x
+                       for x in df.get(col, [None] * len(df))]
 
         mag_types = set([mag.split('_')[1]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
             if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
-                df[f'magnitude_{mag_type}_magnitudeID'] = \
-                    df.apply(
-                        lambda x: uuid.uuid4().hex
-                        if not mag_type == x['magnitude_type']
-                        else x['magnitudeID'], axis=1)
+                df[f'magnitude_{mag_type}_magnitudeID'] = [
+                    uuid.uuid4().hex if mag_type != preferred else mag_id
+                    for preferred, mag_id
+                    in zip(df['magnitude_type'], df['magnitudeID'])]
 
         return df
 
@@ -1525,6 +1524,11 @@ class Catalog(pd.DataFrame):
                         event[mag]
                 del event[mag]
 
+            # leave out what is missing
+            for key in [k for k, v in event.items()
+                        if pd.api.types.is_scalar(v) and pd.isna(v)]:
+                del event[key]
+
         return _render_template(data, QML_TEMPLATE)
 
     def __finalize__(self, other, method=None, **kwargs) -> Catalog:
-- 
2.43.0


From e523a88d5c26ea20f964d74adf731fc3ffe052a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:27 +0000
Subject: [PATCH 45/71] fix: secondary magnitudes were left out of QuakeML when
 their type contains the preferred type, or the preferred type is missing

---
 seismostats/catalogs/catalog.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 159af93..1b53453 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1436,11 +1436,24 @@ class Catalog(pd.DataFrame):
                 '_type']
 
         secondary_mags = [mag for mag in self.columns if
-                          'magnitude_' in mag
+                          str(mag).startswith('magnitude_')
                           and not any(['magnitude' + val
-                                       in mag for val in vals])]
+                                       == mag for val in vals])]
         return secondary_mags
 
+    @staticmethod
+    def _split_magnitudekey(key: str) -> tuple[str, str]:
+        '''
+        Split the key of a secondary magnitude into the magnitude type and
+        the corresponding key of the preferred magnitude.
+        '''
+        mag_type = key.removeprefix('magnitude_')
+        for val in ['_uncertainty', '_lowerUncertainty', '_upperUncertainty',
+                    '_confidenceLevel', '_magnitudeID']:
+            if mag_type.endswith(val):
+                return mag_type.removesuffix(val), 'magnitude' + val
+        return mag_type, 'magnitude'
+
     def _create_ids(self) -> Catalog:
         '''
         Create missing event, origin, and magnitude IDs for the catalog.
@@ -1453,7 +1466,7 @@ class Catalog(pd.DataFrame):
             df[col] = [uuid.uuid4().hex if pd.isna(x) else x
                        for x in df.get(col, [None] * len(df))]
 
-        mag_types = set([mag.split('_')[1]
+        mag_types = set([self._split_magnitudekey(mag)[0]
                         for mag in df._secondary_magnitudekeys()])
 
         for mag_type in mag_types:
@@ -1506,7 +1519,7 @@ class Catalog(pd.DataFrame):
             self.logger.info(
                 f"Dropped {len(self) - len(df)} rows with missing values")
 
-        secondary_mags = self._secondary_magnitudekeys()
+        secondary_mags = df._secondary_magnitudekeys()
 
         data = dict(events=df.to_dict(orient='records'),
                     agencyID=agencyID, author=author)
@@ -1514,14 +1527,13 @@ class Catalog(pd.DataFrame):
         for event in data['events']:
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
-                if pd.notna(event[mag]) and pd.notna(event['magnitude_type']) \
-                        and event['magnitude_type'] not in mag:
-
-                    mag_type = mag.split('_')[1]
-                    mag_key = mag.replace('_' + mag_type, '')
-
+                mag_type, mag_key = self._split_magnitudekey(mag)
+                if mag_type != event['magnitude_type'] \
+                        and pd.notna(event[mag]) \
+                        and pd.notna(event.get(f'magnitude_{mag_type}')):
                     event['sec_mags'][mag_type][mag_key] = \
                         event[mag]
+            for mag in secondary_mags:
                 del event[mag]
 
             # leave out what is missing
-- 
2.43.0


From 6de36c4d13f4632af3ffdeb605f1a2b1d97fdd07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:25 +0000
Subject: [PATCH 46/71] fix: time zones were dropped without conversion, and
 columns with historic years lost fractions of seconds or were refused

---
 seismostats/catalogs/catalog.py |  6 +++--
 seismostats/utils/__init__.py   | 43 +++++++++++++++++----------------
 2 files changed, 26 insertions(+), 23 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 1b53453..a94cbaf 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -194,9 +194,11 @@ class Catalog(pd.DataFrame):
             if tc in self.columns:
                 try:
                     self[tc] = pd.to_datetime(
-                        self[tc], format='ISO8601').dt.tz_localize(None)
+                        self[tc], format='ISO8601', utc=True) \
+                        .dt.tz_localize(None)
                 except (ValueError, OutOfBoundsDatetime):
-                    self[tc] = self[tc].apply(_robust_parse_datetime)
+                    self[tc] = self[tc].apply(_robust_parse_datetime) \
+                        .astype('datetime64[us]')
 
         # make sure empty rows in string columns are NoneType
         for strc in string_cols:
diff --git a/seismostats/utils/__init__.py b/seismostats/utils/__init__.py
index 09bfd19..8676c13 100644
--- a/seismostats/utils/__init__.py
+++ b/seismostats/utils/__init__.py
@@ -1,7 +1,8 @@
 # flake8: noqa
 import functools
 import math
-from datetime import datetime
+import re
+from datetime import datetime, timedelta, timezone
 
 import pandas as pd
 from jinja2 import Environment, FileSystemLoader
@@ -108,23 +109,17 @@ def _render_template(data: dict, template_path: str) -> str:
     return qml
 
 
-def _pad_year(val):
-    # Extract year part and pad with zeros if necessary
-    if 'T' in val:
-        date_part, time_part = val.split('T')
-        parts = date_part.split('-')
-        if len(parts[0]) < 4:
-            parts[0] = parts[0].zfill(4)  # Pad year to 4 digits
-        date_part = '-'.join(parts)
-        val = f"{date_part}T{time_part}"
-    return val
+_DATE = re.compile(
+    r'\s*(\d{1,4})-(\d{1,2})-(\d{1,2})'
+    r'(?:[T ](\d{1,2}):(\d{2})(?::(\d{2})(?:[.,](\d+))?)?)?'
+    r'\s*(?:Z|([+-])(\d{2}):?(\d{2})?)?\s*', re.IGNORECASE)
 
 
 def _robust_parse_datetime(date: str) -> datetime:
     """
     Used to convert datetime strings which in general follow
-    the ISO 8601 format to datetime objects, ignoring timezone
-    and nanosecond information.
+    the ISO 8601 format to datetime objects in UTC without timezone,
+    ignoring nanosecond information.
     Mainly for the use of converting a pd.DataFrame column
     which has formats which are incompatible with pd.Timestamp.
 
@@ -137,14 +132,20 @@ def _robust_parse_datetime(date: str) -> datetime:
     if pd.isna(date):
         return pd.NaT
 
-    if isinstance(date, datetime):
-        return date
+    if not isinstance(date, datetime):
+        match = _DATE.fullmatch(str(date))
+        if match is None:
+            return pd.to_datetime(date, format='ISO8601', utc=True) \
+                .tz_localize(None)
 
-    if isinstance(date, pd.Timestamp):
-        return date.to_pydatetime()
+        *fields, fraction, sign, hours, minutes = match.groups()
+        date = datetime(*[int(f or 0) for f in fields],
+                        int((fraction or '0')[:6].ljust(6, '0')))
+        if sign:
+            offset = timedelta(hours=int(hours), minutes=int(minutes or 0))
+            date += offset if sign == '-' else -offset
 
-    date = date.split('Z')[0]
-    date = date.split('.')[0]
-    date = _pad_year(date)
+    if date.tzinfo is not None:
+        date = date.astimezone(timezone.utc).replace(tzinfo=None)
 
-    return datetime.strptime(date, "%Y-%m-%dT%H:%M:%S")
+    return date
-- 
2.43.0


From d03a613683822633a92e46b8f18d4cad00acf60f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:33 +0000
Subject: [PATCH 47/71] fix: an event time without a zone was read in the zone
 of the event before it

---
 seismostats/catalogs/catalog.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index a94cbaf..9f78b41 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -192,12 +192,18 @@ class Catalog(pd.DataFrame):
 
         for tc in time_cols:
             if tc in self.columns:
+                times = self[tc]
+                # pandas extends the offset of a text to those after it
+                if not pd.api.types.is_datetime64_any_dtype(times) and \
+                        times.astype(str).str.contains(
+                            r':\d.*[+-]\d\d').any():
+                    times = times.apply(_robust_parse_datetime)
                 try:
                     self[tc] = pd.to_datetime(
-                        self[tc], format='ISO8601', utc=True) \
+                        times, format='ISO8601', utc=True) \
                         .dt.tz_localize(None)
                 except (ValueError, OutOfBoundsDatetime):
-                    self[tc] = self[tc].apply(_robust_parse_datetime) \
+                    self[tc] = times.apply(_robust_parse_datetime) \
                         .astype('datetime64[us]')
 
         # make sure empty rows in string columns are NoneType
-- 
2.43.0


From 74b06e9e0786ee48e4ba4b3570f605ae62a01ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:50 +0000
Subject: [PATCH 48/71] fix: catalog periods outside the years 1677 to 2262
 were refused

---
 seismostats/catalogs/catalog.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index 9f78b41..f98dfe0 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -62,6 +62,14 @@ def _catalog_constructor_with_fallback(*args, **kwargs):
     return ForecastCatalog(df)
 
 
+def _to_timestamp(date: Any) -> pd.Timestamp | None:
+    try:
+        return pd.to_datetime(date)
+    except OutOfBoundsDatetime:
+        # years which do not fit into nanoseconds
+        return pd.Timestamp(date)
+
+
 class Catalog(pd.DataFrame):
     '''
     A catalog of seismic events represented in tabular form, where
@@ -171,8 +179,8 @@ class Catalog(pd.DataFrame):
         self.b_value = b_value
         self.a_value = a_value
         self.delta_m = delta_m
-        self.starttime = pd.to_datetime(starttime)
-        self.endtime = pd.to_datetime(endtime)
+        self.starttime = _to_timestamp(starttime)
+        self.endtime = _to_timestamp(endtime)
         self.bounding_polygon = bounding_polygon
         self.depth_min = depth_min
         self.depth_max = depth_max
-- 
2.43.0


From 836206daf4b2eb45706fc41f8d04308e7cb3b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:08 +0000
Subject: [PATCH 49/71] fix: a missing magnitude type of a text column could
 not be exported to QuakeML

---
 seismostats/catalogs/catalog.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index f98dfe0..bccbecb 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -1488,7 +1488,8 @@ class Catalog(pd.DataFrame):
         for mag_type in mag_types:
             if f'magnitude_{mag_type}_magnitudeID' not in df.columns:
                 df[f'magnitude_{mag_type}_magnitudeID'] = [
-                    uuid.uuid4().hex if mag_type != preferred else mag_id
+                    mag_id if pd.notna(preferred)
+                    and mag_type == preferred else uuid.uuid4().hex
                     for preferred, mag_id
                     in zip(df['magnitude_type'], df['magnitudeID'])]
 
@@ -1544,7 +1545,8 @@ class Catalog(pd.DataFrame):
             event['sec_mags'] = defaultdict(dict)
             for mag in secondary_mags:
                 mag_type, mag_key = self._split_magnitudekey(mag)
-                if mag_type != event['magnitude_type'] \
+                if (pd.isna(event['magnitude_type'])
+                        or mag_type != event['magnitude_type']) \
                         and pd.notna(event[mag]) \
                         and pd.notna(event.get(f'magnitude_{mag_type}')):
                     event['sec_mags'][mag_type][mag_key] = \
-- 
2.43.0


From d6df2acf4c61a42516d82c68164919bef07abffa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 50/71] fix: OpenQuake catalogues with historic years lost
 fractions of seconds or were refused

---
 seismostats/catalogs/catalog.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index bccbecb..a2eb602 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -5,7 +5,7 @@ import logging
 import os
 import uuid
 from collections import defaultdict
-from datetime import datetime
+from datetime import datetime, timedelta
 from typing import Any, Callable
 
 import cartopy
@@ -378,12 +378,8 @@ class Catalog(pd.DataFrame):
             raise ImportError("the optional openquake package is not available")
 
         def _convert_to_datetime(row):
-            return datetime(row.year,
-                            row.month,
-                            row.day,
-                            row.hour,
-                            row.minute,
-                            row.second)
+            return datetime(*row[_PD_TIME_COLS[:-1]].astype(int)) \
+                + timedelta(microseconds=int(row.microsecond))
         data = oq_catalogue.data
         # not all items of the data have necessarily the same length
         length = max((len(c) for c in data.values()), default=0)
@@ -400,9 +396,9 @@ class Catalog(pd.DataFrame):
             cat.loc[:, "time"] = pd.to_datetime(cat[_PD_TIME_COLS])
         except ValueError:
             # if the time is out of bounds, we have to store
-            # datetime with a resolution of seconds.
+            # datetime with a resolution of microseconds.
             dt = cat.apply(_convert_to_datetime, axis=1)
-            cat['time'] = dt.astype('datetime64[s]')
+            cat['time'] = dt.astype('datetime64[us]')
         if not keep_time_cols:
             cat.drop(columns=_PD_TIME_COLS, inplace=True)
         return cat
-- 
2.43.0


From c062bdb5b9da07549c5eb4ff13f77213872583ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:40 +0000
Subject: [PATCH 51/71] fix: columns of nullable numbers could not be converted
 to OpenQuake

---
 seismostats/catalogs/catalog.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/catalog.py b/seismostats/catalogs/catalog.py
index a2eb602..231ff7b 100644
--- a/seismostats/catalogs/catalog.py
+++ b/seismostats/catalogs/catalog.py
@@ -441,7 +441,12 @@ class Catalog(pd.DataFrame):
             return OQCatalogue()
         data = dict()
         for col, dtype in zip(self.columns, self.dtypes):
-            if pd.api.types.is_numeric_dtype(dtype):
+            if pd.api.types.is_extension_array_dtype(dtype) and \
+                    pd.api.types.is_numeric_dtype(dtype):
+                data[col] = self[col].to_numpy(
+                    dtype=float if self[col].hasnans else dtype.numpy_dtype,
+                    na_value=np.nan, copy=True)
+            elif pd.api.types.is_numeric_dtype(dtype):
                 data[col] = self[col].to_numpy(dtype=dtype, copy=True)
             else:
                 data[col] = self[col].to_list()
-- 
2.43.0


From 28f39c1f80a59b07f416c80792cd82565dcc4599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:06 +0000
Subject: [PATCH 52/71] fix: numbering the cells of rate grids removed a column
 called cell and told cells with unknown bounds apart

---
 seismostats/catalogs/rategrid.py | 27 ++++++++++++---------------
 1 file changed, 12 insertions(+), 15 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 007801b..7a269fb 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -2,18 +2,18 @@ from __future__ import annotations
 
 from typing import Callable
 
-import numpy as np
 import pandas as pd
 
 from seismostats.utils import _check_required_cols, require_cols
 
-REQUIRED_COLS_RATEGRID = [
+CELL_BOUNDS = [
     'longitude_min', 'longitude_max',
     'latitude_min', 'latitude_max',
-    'depth_min', 'depth_max',
-    'a', 'b', 'mc'
+    'depth_min', 'depth_max'
 ]
 
+REQUIRED_COLS_RATEGRID = CELL_BOUNDS + ['a', 'b', 'mc']
+
 
 def _rategrid_constructor_with_fallback(*args, **kwargs):
     df = GRRateGrid(*args, **kwargs)
@@ -270,17 +270,14 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            cell_bounds = self[['longitude_min', 'longitude_max',
-                                'latitude_min', 'latitude_max',
-                                'depth_min', 'depth_max']]
-
-            self['cell'] = np.unique(
-                cell_bounds, axis=0, return_inverse=True, equal_nan=True)[1]
-
-            self.set_index('cell', append=True, drop=True, inplace=True)
-            self.index = self.index.droplevel('cell_id')
-
-            self.index.set_names('cell_id', level='cell', inplace=True)
+            cells = pd.DataFrame(self)[CELL_BOUNDS].reset_index(drop=True)
+            cell_ids = cells.groupby(CELL_BOUNDS, dropna=False).ngroup()
+
+            levels = [i for i, name in enumerate(self.index.names)
+                      if name != 'cell_id']
+            self.index = pd.MultiIndex.from_arrays(
+                [self.index.get_level_values(i) for i in levels] + [cell_ids],
+                names=[self.index.names[i] for i in levels] + ['cell_id'])
 
         if 'starttime' in self.index.names:
             self.starttime = self.index.get_level_values('starttime').min()
-- 
2.43.0


From 661d67925fa0feac3451332162f944ebe5cf87d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:37 +0000
Subject: [PATCH 53/71] fix: combining rate grids lost their name and number of
 grids

---
 seismostats/catalogs/rategrid.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 7a269fb..2bb096d 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -156,14 +156,20 @@ class GRRateGrid(pd.DataFrame):
         """
         if all((g.index.nlevels == 1 for g in grids)):
             endtime = all(not pd.isna(g.endtime) for g in grids)
-            return cls(pd.concat([g.add_time_index(endtime) for g in grids]))
+            rategrid = cls(
+                pd.concat([g.add_time_index(endtime) for g in grids]))
         elif all((g.index.nlevels == 2 for g in grids)) or \
                 all((g.index.nlevels == 3 for g in grids)):
-            return cls(pd.concat(grids, axis=0))
+            rategrid = cls(pd.concat(grids, axis=0))
         else:
             raise ValueError("All grids must have the same number "
                              "of index levels (1, 2 or 3).")
 
+        # the period is the one of all grids
+        for name in set(cls._metadata) - {'starttime', 'endtime'}:
+            setattr(rategrid, name, getattr(grids[0], name, None))
+        return rategrid
+
     @require_cols(require=_required_cols)
     def strip(self, inplace: bool = False) -> GRRateGrid | None:
         """
-- 
2.43.0


From c32ab2026f99cfc0ac15dec21b2485fafc0185c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:59 +0000
Subject: [PATCH 54/71] fix: rate grid statistics left out cells with unknown
 bounds and aggregated the bounds of the cells

---
 seismostats/catalogs/rategrid.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 2bb096d..110b513 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -455,15 +455,17 @@ class ForecastGRRateGrid(GRRateGrid):
         """
         # Base columns to compute statistics on
         rategrid = self.copy()
-        rategrid = rategrid.dropna(axis=1, how='all')
+        empty_cols = rategrid.columns[rategrid.isna().all()]
+        rategrid = rategrid.drop(columns=empty_cols.difference(CELL_BOUNDS))
 
         # get available columns
         base_cols = ['number_events', 'b', 'mc', 'a', 'alpha']
         base_cols = [col for col in base_cols if col in rategrid.columns]
         numeric_cols = rategrid.select_dtypes(include='number').columns
 
-        # Apply agg_func to all numeric columns
-        agg_dict = {col: agg_func for col in numeric_cols}
+        # Apply agg_func to all numeric columns, but the bounds of the cells
+        agg_dict = {col: 'first' if col in CELL_BOUNDS else agg_func
+                    for col in numeric_cols}
 
         # Add extra metrics for base_cols (if not already present)
         for suffix, func in extra_stats.items():
@@ -475,13 +477,11 @@ class ForecastGRRateGrid(GRRateGrid):
 
         # Perform the groupby and aggregation
         if rategrid.index.nlevels == 1:
-            agg = {'by': ['longitude_min', 'longitude_max',
-                          'latitude_min', 'latitude_max',
-                          'depth_min', 'depth_max']}
+            agg = {'by': CELL_BOUNDS}
         else:  # aggregate by all levels
             agg = {'level': list(range(rategrid.index.nlevels))}
 
-        statistics = rategrid.groupby(**agg).agg(agg_dict)
+        statistics = rategrid.groupby(**agg, dropna=False).agg(agg_dict)
 
         if 'by' in agg:
             statistics.reset_index(inplace=True, drop=True)
-- 
2.43.0


From c55972a132e302dccdc8e5aaf6baa7d4373730c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:10 +0000
Subject: [PATCH 55/71] fix: selecting, comparing or calculating with
 time-indexed rate grids renumbered their cells

---
 seismostats/catalogs/rategrid.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 110b513..d75cc7a 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -16,12 +16,17 @@ REQUIRED_COLS_RATEGRID = CELL_BOUNDS + ['a', 'b', 'mc']
 
 
 def _rategrid_constructor_with_fallback(*args, **kwargs):
-    df = GRRateGrid(*args, **kwargs)
+    df = pd.DataFrame(*args, **kwargs)
     if not _check_required_cols(df, REQUIRED_COLS_RATEGRID):
-        return pd.DataFrame(*args, **kwargs)
-    if not _check_required_cols(df, required_cols=['grid_id']):
         return df
-    return ForecastGRRateGrid(*args, **kwargs)
+    if not _check_required_cols(df, required_cols=['grid_id']):
+        grid = GRRateGrid(df)
+    else:
+        grid = ForecastGRRateGrid(df)
+    # cells keep their number when only some of them, or a comparison or
+    # calculation on them, is left
+    grid.index = df.index
+    return grid
 
 
 class GRRateGrid(pd.DataFrame):
@@ -308,6 +313,10 @@ class GRRateGrid(pd.DataFrame):
 
         # concat operation: using metadata of the first object
         if method == "concat":
+            try:
+                self._reindex_cell_id()
+            except AttributeError:
+                pass
             for name in self._metadata:
                 object.__setattr__(self, name, getattr(
                     other.objs[0], name, None))
-- 
2.43.0


From b48f79ef57aa4553006f7e034cae3e2680fb09e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:22 +0000
Subject: [PATCH 56/71] fix: stripping a rate grid that had become a forecast
 grid removed its grid ids

---
 seismostats/catalogs/rategrid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index d75cc7a..e4e7438 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -81,7 +81,7 @@ class GRRateGrid(pd.DataFrame):
         :ivar starttime:    Start time of the GRRateGrid.
         :ivar endtime:      End time of the GRRateGrid.
     """
-    _metadata = ['name', '_required_cols', 'starttime', 'endtime']
+    _metadata = ['name', 'starttime', 'endtime']
     _required_cols = REQUIRED_COLS_RATEGRID
 
     def __init__(self, data=None, *args, name=None,
-- 
2.43.0


From f2ad6a71bb7d8a12b1efafc2845d5b8d3c034c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:34 +0000
Subject: [PATCH 57/71] fix: merging a rate grid with another table lost its
 metadata

---
 seismostats/catalogs/rategrid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index e4e7438..60f17b9 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -311,8 +311,12 @@ class GRRateGrid(pd.DataFrame):
         """
         self = super().__finalize__(other, method=method, **kwargs)
 
+        # merge operation: using metadata of the left object
+        if method == "merge":
+            for name in self._metadata:
+                object.__setattr__(self, name, getattr(other.left, name, None))
         # concat operation: using metadata of the first object
-        if method == "concat":
+        elif method == "concat":
             try:
                 self._reindex_cell_id()
             except AttributeError:
-- 
2.43.0


From 46b4fffa5b88695763dd33e83d799c3c1a13c1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:08 +0000
Subject: [PATCH 58/71] fix: joining columns to a time-indexed rate grid
 renumbered its cells

---
 seismostats/catalogs/rategrid.py | 36 +++++++++++++++++++++-----------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/seismostats/catalogs/rategrid.py b/seismostats/catalogs/rategrid.py
index 60f17b9..cac11cc 100644
--- a/seismostats/catalogs/rategrid.py
+++ b/seismostats/catalogs/rategrid.py
@@ -269,9 +269,27 @@ class GRRateGrid(pd.DataFrame):
         df.index.name = 'cell_id'
 
         df = pd.concat({index: df}, names=names)
+        df._set_cell_ids(df._number_cells())
 
         return df
 
+    def _number_cells(self) -> pd.Series:
+        """
+        Number the cells, such that equal cells have equal numbers.
+        """
+        cells = pd.DataFrame(self)[CELL_BOUNDS].reset_index(drop=True)
+        return cells.groupby(CELL_BOUNDS, dropna=False).ngroup()
+
+    def _set_cell_ids(self, cell_ids: pd.Series) -> None:
+        """
+        Replace the level `cell_id` of the index.
+        """
+        levels = [i for i, name in enumerate(self.index.names)
+                  if name != 'cell_id']
+        self.index = pd.MultiIndex.from_arrays(
+            [self.index.get_level_values(i) for i in levels] + [cell_ids],
+            names=[self.index.names[i] for i in levels] + ['cell_id'])
+
     @require_cols(require=_required_cols)
     def _reindex_cell_id(self) -> None:
         """
@@ -281,14 +299,7 @@ class GRRateGrid(pd.DataFrame):
         """
 
         if 'cell_id' in self.index.names:
-            cells = pd.DataFrame(self)[CELL_BOUNDS].reset_index(drop=True)
-            cell_ids = cells.groupby(CELL_BOUNDS, dropna=False).ngroup()
-
-            levels = [i for i, name in enumerate(self.index.names)
-                      if name != 'cell_id']
-            self.index = pd.MultiIndex.from_arrays(
-                [self.index.get_level_values(i) for i in levels] + [cell_ids],
-                names=[self.index.names[i] for i in levels] + ['cell_id'])
+            self._set_cell_ids(self._number_cells())
 
         if 'starttime' in self.index.names:
             self.starttime = self.index.get_level_values('starttime').min()
@@ -317,10 +328,11 @@ class GRRateGrid(pd.DataFrame):
                 object.__setattr__(self, name, getattr(other.left, name, None))
         # concat operation: using metadata of the first object
         elif method == "concat":
-            try:
-                self._reindex_cell_id()
-            except AttributeError:
-                pass
+            # the operands may have numbered their cells differently
+            if len(self) > max(len(obj) for obj in other.objs) and \
+                    'cell_id' in self.index.names and \
+                    _check_required_cols(self, REQUIRED_COLS_RATEGRID):
+                self._set_cell_ids(self._number_cells())
             for name in self._metadata:
                 object.__setattr__(self, name, getattr(
                     other.objs[0], name, None))
-- 
2.43.0


From 82dfa5ee86eb56bbd8056a714b46c12843ce442e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:36 +0000
Subject: [PATCH 59/71] fix: selecting events in a polygon dropped a column
 called inside_polygon and failed for nullable coordinates

---
 seismostats/utils/filtering.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/seismostats/utils/filtering.py b/seismostats/utils/filtering.py
index 2454560..9237dc5 100644
--- a/seismostats/utils/filtering.py
+++ b/seismostats/utils/filtering.py
@@ -1,3 +1,4 @@
+import numpy as np
 import pandas as pd
 from shapely.geometry import Point, Polygon
 
@@ -20,23 +21,16 @@ def cat_intersect_polygon(
                         inside the polygon.
 
     """
-    # Make a copy of the DataFrame
-    cat_copy = cat.copy()
-    # Add a new column to the DataFrame
-    # indicating whether each point is inside the polygon
-    cat_copy["inside_polygon"] = cat_copy.apply(
-        lambda row: Polygon(polygon_vertices).intersects(
-            Point(row["latitude"], row["longitude"])
-        ),
-        axis=1,
-    )
+    polygon = Polygon(polygon_vertices)
+    latitudes = cat["latitude"].to_numpy(dtype=float, na_value=np.nan)
+    longitudes = cat["longitude"].to_numpy(dtype=float, na_value=np.nan)
 
-    # Filter the DataFrame to only include rows where
-    # the point is inside the polygon
-    filtered_cat = (
-        cat_copy.query("inside_polygon")
-        .drop("inside_polygon", axis=True)
-        .copy()
+    # Indicate whether each point is inside the polygon, events without
+    # coordinates are not
+    inside = np.array(
+        [polygon.intersects(Point(lat, lon))
+         for lat, lon in zip(latitudes, longitudes)],
+        dtype=bool,
     )
 
-    return filtered_cat
+    return cat[inside].copy()
-- 
2.43.0


From 98e31455f23d805004803ea5218bdbb440dd1cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 60/71] fix: weighted frequency-magnitude plots failed for
 missing magnitudes and lists

---
 seismostats/plots/basics.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index ba291f7..02aa575 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -27,6 +27,19 @@ def gutenberg_richter(
     return n_mc * 10 ** (-b_value * (magnitudes - mc))
 
 
+def _known_magnitudes(
+    magnitudes: np.ndarray, weights: np.ndarray | None
+) -> tuple[np.ndarray, np.ndarray | None]:
+    """
+    Leaves out the missing magnitudes, together with their weights.
+    """
+    magnitudes = np.asarray(magnitudes)
+    known = ~np.isnan(magnitudes)
+    if weights is not None:
+        weights = np.asarray(weights)[known]
+    return magnitudes[known], weights
+
+
 def plot_cum_fmd(
     magnitudes: np.ndarray,
     mc: float | None = None,
@@ -80,7 +93,7 @@ def plot_cum_fmd(
     if fmd_bin is None:
         fmd_bin = 0
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    magnitudes, weights = _known_magnitudes(magnitudes, weights)
     bins, c_counts, magnitudes = get_cum_fmd(
         magnitudes, fmd_bin, weights=weights, bin_position=bin_position
     )
@@ -172,7 +185,7 @@ def plot_fmd(
         ax: The ax object that was plotted on.
     """
 
-    magnitudes = magnitudes[~np.isnan(magnitudes)]
+    magnitudes, weights = _known_magnitudes(magnitudes, weights)
 
     bins, counts, magnitudes = get_fmd(
         magnitudes,
-- 
2.43.0


From 6c5e1a22c3f812a0fe134ce61eba3705431ab259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 61/71] fix: plot_fmd without label was called False in the
 legend of its axis

---
 seismostats/plots/basics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 02aa575..901a00b 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -199,6 +199,8 @@ def plot_fmd(
 
     if label is True:
         label = "non cumulative"
+    elif label is False:
+        label = "_nolegend_"
 
     ax.scatter(bins, counts, s=size, color=color, marker="^", label=label)
     ax.set_yscale("log")
@@ -209,7 +211,7 @@ def plot_fmd(
         ax.grid(True)
         ax.grid(which="minor", alpha=0.3)
 
-    if label is not False:
+    if label != "_nolegend_":
         ax.legend()
 
     return ax
-- 
2.43.0


From 250ccce23998a487040038ecc5fc48cab9e84f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 62/71] fix: Gutenberg-Richter line of weighted magnitudes was
 off the weighted counts

---
 seismostats/plots/basics.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 901a00b..4e1e9b0 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -125,10 +125,12 @@ def plot_cum_fmd(
         if color_line is None:
             color_line = scatter1.get_facecolor()[0]
 
-        n_mc = len(magnitudes[magnitudes >= mc - fmd_bin / 2])
         if bin_position == "left":
             mc -= fmd_bin / 2
-        x = bins[bins >= mc - fmd_bin / 2]
+        above_mc = bins >= mc - fmd_bin / 2
+        x = bins[above_mc]
+        # number of events (or sum of their weights) above mc
+        n_mc = max(c_counts[above_mc])
         y = gutenberg_richter(x, b_value, min(x), n_mc)
 
         ax.plot(x, y, color=color_line, label=label_line)
-- 
2.43.0


From 63d22fe8ddd020942bef4426f3912bae079749a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:24 +0000
Subject: [PATCH 63/71] fix: cumulative count without given completeness was
 empty if a magnitude is missing

---
 seismostats/plots/basics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 4e1e9b0..fe183c0 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -264,7 +264,7 @@ def plot_cum_count(
     if delta_m is None:
         delta_m = 0
     if mcs is None:
-        mcs = np.array([min(magnitudes)])
+        mcs = np.array([np.nanmin(magnitudes)])
     if weights is None:
         weights = np.ones(n_events)
     else:
-- 
2.43.0


From da9129fe09e0ffbaa1bb79fa8095a8b34da20e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 64/71] fix: plot_mags_in_time changed the given completeness
 lists, refused arrays, and drew back in time

---
 seismostats/plots/basics.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index fe183c0..270cb06 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -1,5 +1,6 @@
 import matplotlib.pyplot as plt
 from matplotlib.colors import is_color_like
+from matplotlib.dates import date2num
 import numpy as np
 import datetime as dt
 
@@ -375,12 +376,14 @@ def plot_mags_in_time(
     )
 
     if mc_change_times is not None and mcs is not None:
-        if isinstance(mc_change_times[0], int):
+        if isinstance(mc_change_times[0], (int, np.integer)):
             mc_change_times = [dt.datetime(x, 1, 1) for x in mc_change_times]
 
-        mc_change_times.append(np.max(times))
-        mcs.append(mcs[-1])
-        ax.step(mc_change_times, mcs, where="post", c=color_line)
+        # the last completeness is valid until the last event
+        step_times = date2num(mc_change_times)
+        end_time = max(step_times[-1], np.nanmax(date2num(times)))
+        ax.step([*step_times, end_time], [*mcs, mcs[-1]], where="post",
+                c=color_line)
 
     ax.set_xlabel("Time")
     ax.set_ylabel("Magnitude")
-- 
2.43.0


From adca05ee23db53b62e9e888b4220140c7ce17feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:48 +0000
Subject: [PATCH 65/71] fix: dots were invisible if magnitudes are equal or one
 is missing

---
 seismostats/plots/basics.py     | 14 +++++++++++---
 seismostats/plots/seismicity.py |  4 ++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/seismostats/plots/basics.py b/seismostats/plots/basics.py
index 270cb06..75e559c 100644
--- a/seismostats/plots/basics.py
+++ b/seismostats/plots/basics.py
@@ -422,10 +422,14 @@ def dot_size(
             "setting it to whatever I think is better"
         )
         largest = 50 * max(smallest, 2)
-    smallest_mag = np.min(magnitudes)
-    largest_mag = np.max(magnitudes)
+    magnitudes = np.asarray(magnitudes)
+    smallest_mag = np.nanmin(magnitudes)
+    largest_mag = np.nanmax(magnitudes)
 
-    mag_norm = (magnitudes - smallest_mag) / (largest_mag - smallest_mag)
+    # events without magnitude are as small as the smallest ones
+    mag_norm = np.where(np.isnan(magnitudes), 0, magnitudes - smallest_mag)
+    if largest_mag > smallest_mag:
+        mag_norm = mag_norm / (largest_mag - smallest_mag)
     mag_powered = np.power(mag_norm, interpolation_power)
     sizes = mag_powered * (largest - smallest) + smallest
 
@@ -461,6 +465,10 @@ def reverse_dot_size(
     if interpolation_power == 0:
         raise ValueError("interpolation_power cannot be 0")
 
+    if max(sizes) == min(sizes):
+        # all magnitudes are equal
+        return np.full(len(sizes), min_mag, dtype=float)
+
     size_norm = (sizes - min(sizes)) / (max(sizes) - min(sizes))
     size_powered = np.power(size_norm, 1 / interpolation_power)
     magnitudes = size_powered * (max_mag - min_mag) + min_mag
diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index d30fed5..fd41622 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -193,8 +193,8 @@ def plot_in_space(
             alpha=0.5,
             func=lambda x: reverse_dot_size(
                 x,
-                min(magnitudes),
-                max(magnitudes),
+                np.nanmin(magnitudes),
+                np.nanmax(magnitudes),
                 dot_interpolation_power,
             ),
         )
-- 
2.43.0


From fa653fde452bef5b2a48fa116b83e1309573bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:02 +0000
Subject: [PATCH 66/71] fix: plot_in_space failed if the location of an event
 is missing

---
 seismostats/plots/seismicity.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index fd41622..7a6c73d 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -123,13 +123,15 @@ def plot_in_space(
         )
     else:
         # create box around the data points
-        pad_lat = abs(max(latitudes) - min(latitudes)) * 0.05
-        pad_lon = abs(max(longitudes) - min(longitudes)) * 0.05
+        min_lon, max_lon = np.nanmin(longitudes), np.nanmax(longitudes)
+        min_lat, max_lat = np.nanmin(latitudes), np.nanmax(latitudes)
+        pad_lat = abs(max_lat - min_lat) * 0.05
+        pad_lon = abs(max_lon - min_lon) * 0.05
         exts = [
-            min(longitudes) - pad_lon,
-            max(longitudes) + pad_lon,
-            min(latitudes) - pad_lat,
-            max(latitudes) + pad_lat,
+            min_lon - pad_lon,
+            max_lon + pad_lon,
+            min_lat - pad_lat,
+            max_lat + pad_lat,
         ]
 
     if ax_temp is not None:
-- 
2.43.0


From 459894407556a6f86acd6f6f2d9e38cb5e76f0ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:29 +0000
Subject: [PATCH 67/71] fix: plot_in_space left events outside of the map on
 axes with other projections

---
 seismostats/plots/seismicity.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/seismostats/plots/seismicity.py b/seismostats/plots/seismicity.py
index 7a6c73d..3548f56 100644
--- a/seismostats/plots/seismicity.py
+++ b/seismostats/plots/seismicity.py
@@ -125,8 +125,9 @@ def plot_in_space(
         # create box around the data points
         min_lon, max_lon = np.nanmin(longitudes), np.nanmax(longitudes)
         min_lat, max_lat = np.nanmin(latitudes), np.nanmax(latitudes)
-        pad_lat = abs(max_lat - min_lat) * 0.05
-        pad_lon = abs(max_lon - min_lon) * 0.05
+        # a single location has no extent of its own
+        pad_lat = abs(max_lat - min_lat) * 0.05 or 0.05
+        pad_lon = abs(max_lon - min_lon) * 0.05 or 0.05
         exts = [
             min_lon - pad_lon,
             max_lon + pad_lon,
@@ -135,15 +136,15 @@ def plot_in_space(
         ]
 
     if ax_temp is not None:
-        # Get current extent and union with new extent
-        current_extent = ax.get_extent(crs=ll_proj)
-        new_extent = [
-            min(current_extent[0], exts[0]),
-            max(current_extent[1], exts[1]),
-            min(current_extent[2], exts[2]),
-            max(current_extent[3], exts[3]),
-        ]
-        ax.set_extent(new_extent, crs=ll_proj)
+        # Get current extent and union with new extent, in the projection of
+        # the axis (where the extent is a rectangle)
+        current_extent = ax.get_extent()
+        ax.set_extent(exts, crs=ll_proj)
+        new_extent = ax.get_extent()
+        ax.set_xlim(min(current_extent[0], new_extent[0]),
+                    max(current_extent[1], new_extent[1]))
+        ax.set_ylim(min(current_extent[2], new_extent[2]),
+                    max(current_extent[3], new_extent[3]))
     else:
         ax.set_extent(exts, crs=ll_proj)
 
-- 
2.43.0


From d8afd025c91af64c8a22a4097d31747efec95e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:08 +0000
Subject: [PATCH 68/71] fix: b-stability returns a passing mc after an
 undefined difference

When the first tested mc had no defined difference (NaN), no later mc could
be equal to the minimum of the differences, so None was returned although an
mc passed the test.
---
 seismostats/analysis/estimate_mc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index b374662..d63028d 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -573,7 +573,7 @@ def estimate_mc_b_stability(
 
         if diff_b <= 1:
             value = True
-            if diff_b == min(diff_bs):
+            if diff_b == np.nanmin(diff_bs):
                 best_mc = mc
                 best_b_value = b_values_test[-1]
             if stop_when_passed:
-- 
2.43.0


From 8da2fec82c6d5cec984932d937b7c721e786c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:07 +0000
Subject: [PATCH 69/71] fix: KS completeness keeps given distances with their
 mc

The mcs to test were sorted but ks_ds_list was not, so that unsorted mcs were
compared with the distances of another mc.
---
 seismostats/analysis/estimate_mc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/seismostats/analysis/estimate_mc.py b/seismostats/analysis/estimate_mc.py
index d63028d..4f0a574 100644
--- a/seismostats/analysis/estimate_mc.py
+++ b/seismostats/analysis/estimate_mc.py
@@ -242,8 +242,10 @@ def estimate_mc_ks(
             np.arange(np.min(magnitudes), np.max(magnitudes), delta_m), delta_m
         )
     else:
-        # sort mcs
-        mcs_test = np.sort(np.unique(mcs_test))
+        # sort mcs, the distances belong to the mc at the same position
+        mcs_test, order = np.unique(mcs_test, return_index=True)
+        if ks_ds_list is not None:
+            ks_ds_list = [ks_ds_list[i] for i in order]
 
     # if magnitude binning is incorrect, b-value calculation will fail anyway
     if b_value is None and not binning_test(magnitudes, delta_m,
-- 
2.43.0


From c0c8b8c364c3ef80691b410a9982ca70e8a1b906 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:13 +0000
Subject: [PATCH 70/71] fix: testing the binning for width zero failed by
 default and accepted values a power of ten apart

---
 seismostats/utils/binning.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/seismostats/utils/binning.py b/seismostats/utils/binning.py
index 88feac1..d86821e 100644
--- a/seismostats/utils/binning.py
+++ b/seismostats/utils/binning.py
@@ -154,15 +154,21 @@ def binning_test(
     x = x - np.min(x)
 
     if delta_x == 0 and check_larger_binning is True:
-        range = np.max(x) - np.min(x)
+        # powers of ten which are larger than the tolerance (as far as values
+        # can be binned to them), up to the range of the values
+        range = np.max(x)
         power = np.arange(
-            np.floor(np.log10(tolerance)) + 1, np.ceil(np.log10(range)), 1
+            max(np.floor(np.log10(tolerance)) + 1, np.log10(EPSILON) + 1),
+            np.ceil(np.log10(range)) + 1 if range > 0 else 1, 1
         )
         delta_x_test = 10**power
         test = True
         tolerance = 10 ** (np.floor(np.log10(tolerance)) - 1)
         for delta_x_loop in delta_x_test:
-            if binning_test(x, delta_x_loop, tolerance):
+            # the shifted values keep the rounding of the original ones
+            tolerance_loop = max(tolerance, min(rounding, 1e-3 * delta_x_loop))
+            if binning_test(x, delta_x_loop, tolerance_loop,
+                            check_larger_binning=False):
                 return False
 
     else:
-- 
2.43.0


From b1f9b1c1211c22d49cb5fe73afaf2a63821b6473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:20:41 +0000
Subject: [PATCH 71/71] fix: compare event times in declustering to the
 microsecond, not to the second

---
 seismostats/analysis/declustering/dec_gardner_knopoff.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seismostats/analysis/declustering/dec_gardner_knopoff.py b/seismostats/analysis/declustering/dec_gardner_knopoff.py
index 94be1d5..4c13ae9 100644
--- a/seismostats/analysis/declustering/dec_gardner_knopoff.py
+++ b/seismostats/analysis/declustering/dec_gardner_knopoff.py
@@ -77,7 +77,7 @@ class GardnerKnopoffType1(Declusterer):
         longitude = catalog["longitude"]
         latitude = catalog["latitude"]
 
-        time = catalog["time"].astype("datetime64[s]", errors="ignore").values
+        time = catalog["time"].astype("datetime64[us]", errors="ignore").values
         space_windows, time_windows = self.time_distance_window(magnitude)
         ordered = catalog[list(cols)].sort_values(
             by=["magnitude", "time"], ascending=[False, True], kind="mergesort"
-- 
2.43.0

