From 7ad2c6fd533a57bb7da9dedcb9329f333e8438bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:47 +0000
Subject: [PATCH 01/32] fix: count signals that have fewer than two reversals

findtp() returned no turning points when the signal had only one interior
peak or valley, or none at all. The rainflow of [0, 3, 0] was therefore
empty, and CycleCount.from_timeseries() and solve_lffd() raised "zero-size
array" on such signals. Only constant signals have no cycles to count.
---
 py_fatigue/cycle_count/rainflow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 7d823f8..8a6a9aa 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -76,7 +76,7 @@ def findtp(x: np.ndarray) -> np.ndarray:
 
     ind = findextrema(x)
 
-    if ind.size < 2:
+    if ind.size == 0 and (len(x) == 0 or x[0] == x[-1]):
         return np.empty(0, dtype=np.int64)
 
     # # the Nieslony approach always put the first loading point as the first
-- 
2.43.0


From b923bf65c8593832829bf4a22f5b02f1d2638731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:47 +0000
Subject: [PATCH 02/32] fix: drop the empty rows rainflow returns for flat
 signal starts

A signal starting with repeated values produced an extra all-zero row with
count 0. The row was then reported as one more small cycle by as_dict().
---
 py_fatigue/cycle_count/rainflow.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index 8a6a9aa..b00dabe 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -399,7 +399,9 @@ def findrfc_astm(tp: np.ndarray, t: Optional[np.ndarray] = None) -> np.ndarray:
     # the sig_rfc was constructed too big in rainflow.rf3, so
     # reduce the sig_rfc array as done originally by a matlab mex c function
     # n = len(sig_rfc)
-    return sig_rfc[: n - cnr[0]]
+    sig_rfc = sig_rfc[: n - cnr[0]]
+    # zero-amplitude pairs are not counted and leave empty rows at the end
+    return sig_rfc[sig_rfc[:, 2] > 0]
 
 
 def rainflow(
-- 
2.43.0


From 97cdf26f2d012d1a2f975a9806efa9892147fef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:47 +0000
Subject: [PATCH 03/32] fix: keep the stress unit when deriving a new
 cycle-count

Adding, scaling, resolving residuals and mean stress correction all returned
a CycleCount with the default "MPa" unit whatever the unit of the operands,
so the unit checks of the damage functions passed or failed wrongly.
---
 py_fatigue/cycle_count/cycle_count.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index d8ddc3a..8c9d88f 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -951,6 +951,7 @@ class CycleCount:
             mean_stress_corrected="No",
             stress_concentration_factor=float(added_scf),
             timestamp=min(self.timestamp, other.timestamp),
+            unit=self.unit,
             name=self.name,
             _time_sequence=np.unique(
                 np.hstack([self.time_sequence, other.time_sequence])
@@ -1184,6 +1185,7 @@ class CycleCount:
             stress_range=stress_ranges_corr,
             mean_stress=mean_stress_corr,
             timestamp=self_.timestamp,
+            unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
             _mean_bin_lower_bound=self_.mean_bin_lower_bound,
@@ -1516,6 +1518,7 @@ def _multiplication_by_scalar(
         mean_stress_corrected=self_.mean_stress_corrected,
         stress_concentration_factor=mul_scf,
         timestamp=self_.timestamp,
+        unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
     )
 
@@ -1734,6 +1737,7 @@ def _solve_lffd(
         stress_range=2 * res_rf[:, 0],
         mean_stress=res_rf[:, 1],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
@@ -1760,6 +1764,7 @@ def _solve_lffd(
         stress_range=self_.stress_range[self_.count_cycle > 0.5],
         mean_stress=self_.mean_stress[self_.count_cycle > 0.5],
         timestamp=self_.timestamp,
+        unit=self_.unit,
         _mean_bin_lower_bound=self_.mean_bin_lower_bound,
         mean_bin_width=self_.mean_bin_width,
         range_bin_lower_bound=self_.range_bin_lower_bound,
-- 
2.43.0


From 293a5f4908d08c5888e1a33207b986902f0e2887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:17:47 +0000
Subject: [PATCH 04/32] fix: keep small cycles and time sequence when applying
 an SCF

Multiplying a CycleCount by a stress concentration factor reset the number
of small cycles to zero and the time sequence to the first timestamp. A sum
scaled this way could then be added to a count it overlaps in time.
---
 py_fatigue/cycle_count/cycle_count.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8c9d88f..8896bbe 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1512,6 +1512,7 @@ def _multiplication_by_scalar(
         range_bin_width=other_ * self_.range_bin_width,
         _mean_bin_lower_bound=mul_mean_bin,
         mean_bin_width=other_ * self_.mean_bin_width,
+        nr_small_cycles=self_.nr_small_cycles,
         residuals_sequence=mul_res_seq,
         _min_max_sequence=mul_min_max,
         lffd_solved=self_.lffd_solved,
@@ -1520,6 +1521,7 @@ def _multiplication_by_scalar(
         timestamp=self_.timestamp,
         unit=self_.unit,
         name=str(self_.name) + ", SCF=" + str(other_),
+        _time_sequence=self_.time_sequence,
     )
 
     # mul_cc.stress_concentration_factor = (
-- 
2.43.0


From d9f02796a45d583328e5429b4304ff0cb10d4ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:48 +0000
Subject: [PATCH 05/32] fix: resolve residuals of a count without residuals
 sequence

solve_lffd() warned that there was nothing to do and then raised
UnboundLocalError when the residuals sequence was missing, as in data saved
without 'res_sig'. It now returns the count unchanged, as the warning says.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 8896bbe..e74e427 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1837,7 +1837,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
         w_msg = "'residuals_sequence' is not available. Nothing to do."
         warnings.formatwarning = py_fatigue_formatwarning
         warnings.warn(w_msg, UserWarning)
-        return_self = True
+        return True, np.empty(0)
     if len(res_sequence) < 3:
         w_msg = "".join(
             (
-- 
2.43.0


From 3a90353ffe73e421e543c1340dbe991b81b4a223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:48 +0000
Subject: [PATCH 06/32] fix: accept the time argument in binned_rainflow

Passing the sampled times raised "too many values to unpack", because the
rainflow also returns the times of the residuals in that case.
---
 py_fatigue/cycle_count/histogram.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/histogram.py b/py_fatigue/cycle_count/histogram.py
index 2d4e42d..0617b71 100644
--- a/py_fatigue/cycle_count/histogram.py
+++ b/py_fatigue/cycle_count/histogram.py
@@ -585,7 +585,7 @@ def binned_rainflow(  # pylint: disable=too-many-arguments
     calc_rainflow
     rainflow_binner
     """
-    rfs, res_seq, _ = calc_rainflow(
+    rfs, res_seq, *_ = calc_rainflow(
         data=data,
         time=time,
         extended_output=True,
-- 
2.43.0


From 7dc56993997f9ad70b9a299625a893edcaa8c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:48 +0000
Subject: [PATCH 07/32] fix: invert the first and last branches of a Paris
 curve

ParisCurve.get_sif() returned the threshold for every growth rate on the
first branch and the critical value for every growth rate on the last one.
A curve with a single branch was never inverted at all.
---
 py_fatigue/material/crack_growth_curve.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 354cf14..2f1d4e0 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -787,10 +787,10 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
     the_sif = np.empty(growth_rate.size, dtype=np.float64)
     nr_knees = intercept.size - 1
     for i in nb.prange(growth_rate.size):
-        if idx[i] <= 0:  # below threshold
+        if idx[i] < 0:  # below threshold
             the_sif[i] = threshold
             continue
-        if idx[i] >= nr_knees:  # above threshold
+        if idx[i] > nr_knees:  # above threshold
             the_sif[i] = critical
             continue
         the_sif[i] = (growth_rate[i] / intercept[idx[i]]) ** (
-- 
2.43.0


From a11035977c6eda2c3aad8adce9ebf14311ce5d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:48 +0000
Subject: [PATCH 08/32] fix: do not alter the count given to mean stress
 correction

When the residuals could not be resolved, enforcing a pulsating load
overwrote the mean stresses of the original CycleCount.
---
 py_fatigue/cycle_count/cycle_count.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index e74e427..0158126 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1114,7 +1114,7 @@ class CycleCount:
             warnings.warn(w_msg, UserWarning)
             return self
 
-        self_ = copy.deepcopy(self) if self.lffd_solved else self.solve_lffd()
+        self_ = copy.deepcopy(self if self.lffd_solved else self.solve_lffd())
 
         if np.all((self_.mean_stress == 0)) and not enforce_pulsating_load:
             e_msg = "".join(
-- 
2.43.0


From e54ecd2da4721c0290dd8c18897f822b4d7b9e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:18:48 +0000
Subject: [PATCH 09/32] fix: plot the maximum stress in the min-max histogram

The maximum stress was computed from the already updated minimum stress, so
the vertical axis showed the mean stress instead.
---
 py_fatigue/cycle_count/cycle_count.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 0158126..60e18e4 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1312,8 +1312,7 @@ class CycleCount:
             e_msg = f"Invalid plot type. Must be one of {plot_types}."
             raise ValueError(e_msg)
         if plot_type == "min-max":
-            x = x - y / 2
-            y = x + y / 2
+            x, y = x - y / 2, x + y / 2
             bins = bins if bins is not None else 50
         if "counts-range" in plot_type:
             sor = sorted(
-- 
2.43.0


From a8e644493ccdb88299ba9bdd517039fa1104817f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 10/32] fix: export counts whose full cycles are all below the
 first bin

CycleCount.as_dict() raised "Number of samples must be non-negative" when
every full cycle was smaller than the lower bound of the range bins. Bin
edges now start and end at the lower bound when there is nothing to bin.
---
 py_fatigue/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index a027dac..bfa3379 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -359,7 +359,7 @@ def calc_bin_edges(
     np.ndarray
         Bin edges
     """
-    bin_ub = bin_upper_bound(bin_lb, bin_width, bin_ub)
+    bin_ub = max(bin_upper_bound(bin_lb, bin_width, bin_ub), bin_lb)
 
     n_bins = int(np.round((bin_ub + bin_width - bin_lb) / bin_width))
 
-- 
2.43.0


From 1c9eb537c1ecb23f9ab9ecac7d61c909e37bcff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 11/32] fix: bin values that sit on a rounded bin edge

Bin edges are rounded to five decimals but the values were not, so a maximum
lying exactly on the last edge could fall outside of all bins and raise
IndexError, e.g. when exporting counts multiplied by an SCF of 1/3.
---
 py_fatigue/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index bfa3379..81bf1c0 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -324,7 +324,10 @@ class FatigueStress:
         -------
         bins_idx : np.ndarray
         """
-        digitized = np.digitize(self.full, self.bin_edges, right=True)
+        # bin edges are rounded to 5 decimals, hence the values as well
+        digitized = np.digitize(
+            np.around(self.full, decimals=5), self.bin_edges, right=True
+        )
         digitized[np.where(digitized > 0)] -= 1
         return digitized
 
-- 
2.43.0


From edc9b9c8578c704b682a3eb6d14b0a676ab3d8c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 12/32] fix: read saved counts that have no residuals

CycleCount.from_rainflow() looked at the first residual to find out whether
the data include mean stresses and raised IndexError when there was none.
---
 py_fatigue/cycle_count/cycle_count.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 60e18e4..e3905a0 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -141,9 +141,13 @@ def _build_input_data_from_json(  # noqa: C901
             data[k] = np.array(v) if isinstance(v, list) else v
     for hst in data["hist"]:
         hst = np.array(hst)
+    with_mean = any(
+        len(data[k]) > 0 and isinstance(data[k][0], Iterable)
+        for k in ("hist", "lg_c", "res")
+    )
     # A) Case without mean stress
     # Adding hist cycles
-    if len(data["hist"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["hist"]) > 0 and not with_mean:
         the_hist = np.asarray(data["hist"])
         zero_hist_counts = np.where(the_hist == 0)[0]
         range_bin_centers = np.around(
@@ -159,15 +163,11 @@ def _build_input_data_from_json(  # noqa: C901
         the_hist = np.delete(the_hist, zero_hist_counts)
         range_bin_centers = np.delete(range_bin_centers, zero_hist_counts)
     # Adding large cycles
-    if len(data["lg_c"]) > 0 and not isinstance(
-        data["res"][0],
-        Iterable,  # isinstance(
-        # data["lg_c"][0], (float, int, np.int16, np.int32)
-    ):
+    if len(data["lg_c"]) > 0 and not with_mean:
         the_hist = np.hstack([the_hist, np.ones(len(data["lg_c"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["lg_c"]])
     # Adding residual cycles
-    if len(data["res"]) > 0 and not isinstance(data["res"][0], Iterable):
+    if len(data["res"]) > 0 and not with_mean:
         the_hist = np.hstack([the_hist, 0.5 * np.ones(len(data["res"]))])
         range_bin_centers = np.hstack([range_bin_centers, data["res"]])
     # B) Case with mean stress
-- 
2.43.0


From 41741284c215dce9417caef45f99ed3261a7a8b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 13/32] fix: export a count without residuals sequence

CycleCount.as_dict() raised TypeError for counts read from data saved without
'res_sig'. The residuals sequence is exported as None in that case.
---
 py_fatigue/cycle_count/cycle_count.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index e3905a0..e1ffbc7 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,9 +663,13 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
-        output_dict["res_sig"] = np.asarray(
-            np.round(self.residuals_sequence, round_decimals)
-        ).tolist()
+        output_dict["res_sig"] = (
+            np.asarray(
+                np.round(self.residuals_sequence, round_decimals)
+            ).tolist()
+            if self.residuals_sequence is not None
+            else None
+        )
         return output_dict
 
     def _repr_html_(self) -> str:  # pragma: no cover
-- 
2.43.0


From 3a1cfebf99ad8ea6ec76f0c2419678f405281cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 14/32] fix: keep the number of small cycles when exporting
 again

as_dict() only counted the cycles below the bins still present in the count,
forgetting those already removed by a previous export.
---
 py_fatigue/cycle_count/cycle_count.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index e1ffbc7..f5dfc15 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -663,6 +663,7 @@ class CycleCount:
             round_decimals=round_decimals,
             debug_mode=debug_mode,
         )
+        output_dict["nr_small_cycles"] += self.nr_small_cycles
         output_dict["res_sig"] = (
             np.asarray(
                 np.round(self.residuals_sequence, round_decimals)
-- 
2.43.0


From 8208d3526b76b098298e23278ef9e26df96be48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 15/32] fix: compare a missing array with an existing one

Comparing two otherwise equal cycle-counts raised "truth value of an array is
ambiguous" when only the second one had a residuals sequence.
---
 py_fatigue/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index 81bf1c0..f1e1e8d 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -471,6 +471,8 @@ def compare(a: Any, b: Any) -> bool:
     """
     # print(f"a: {a}, b: {b}")
     if not hasattr(a, "__iter__") or isinstance(a, str):
+        if isinstance(b, np.ndarray):
+            return False
         return a == b
 
     try:
-- 
2.43.0


From c4eb58647fdda729c63cc1aaa1028c52f3f4e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 16/32] fix: export counts corrected for the mean stress

The correction moves the mean stresses but kept the lower bound of the
original mean bins. Exporting the corrected count then failed or filed the
cycles in the wrong bin when the new means were below that bound.
---
 py_fatigue/cycle_count/cycle_count.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index f5dfc15..60a7069 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1193,7 +1193,6 @@ class CycleCount:
             unit=self_.unit,
             range_bin_lower_bound=self_.range_bin_lower_bound,
             range_bin_width=self_.range_bin_width,
-            _mean_bin_lower_bound=self_.mean_bin_lower_bound,
             mean_bin_width=self_.mean_bin_width,
             mean_stress_corrected="".join(
                 f"{correction_type.upper()}: {ns.__dict__}"
-- 
2.43.0


From 6906e6d59c334826d6fbe62358b6907fca1b3ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 17/32] fix: endurance stress of a single slope SN curve

endurance_stress was always zero for linear curves, although get_stress()
and get_cycles() do apply the endurance.
---
 py_fatigue/material/sn_curve.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/py_fatigue/material/sn_curve.py b/py_fatigue/material/sn_curve.py
index 96cb334..25a3a77 100644
--- a/py_fatigue/material/sn_curve.py
+++ b/py_fatigue/material/sn_curve.py
@@ -635,8 +635,7 @@ class SNCurve(AbstractSNCurve):
                     f"({self.get_knee_cycles()} cycles). ",
                     "\nConsider changing params",
                 )
-            return self.get_stress(self.endurance)
-        return 0.0
+        return self.get_stress(self.endurance)
 
     def format_name(self, html_format: bool = False) -> None:
         if not html_format:
-- 
2.43.0


From 1ba1b71f78813d6e9c673b7f3db6fbe497c1a919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:07 +0000
Subject: [PATCH 18/32] fix: aggregate periods without any cycle-count

pbar_sum() raised IndexError when all the counts to add were None, so a
single empty period made aggregate_cc() fail. It returns None instead.
---
 py_fatigue/cycle_count/cycle_count.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/cycle_count.py b/py_fatigue/cycle_count/cycle_count.py
index 60a7069..dea06f5 100644
--- a/py_fatigue/cycle_count/cycle_count.py
+++ b/py_fatigue/cycle_count/cycle_count.py
@@ -1856,7 +1856,7 @@ def _lffd_checks(self_: CycleCount, solve_mode: str) -> tuple:
     return return_self, res_sequence
 
 
-def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
+def pbar_sum(cc_list: Sequence[CycleCount]) -> Optional[CycleCount]:
     """Sum a list of CycleCount objects using a progress bar.
 
     Parameters
@@ -1875,6 +1875,8 @@ def pbar_sum(cc_list: Sequence[CycleCount]) -> CycleCount:
 
     chunk_size = int(np.sqrt(len(cc_list)))
     cc_list = [cc for cc in cc_list if cc is not None]
+    if len(cc_list) == 0:
+        return None
 
     sleep(0.15)
     chunked_cc_list = list(pfu.chunks(cc_list, chunk_size))
-- 
2.43.0


From 2cce07dac6f40ed681abb7c0514a373d0d8b015d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:51 +0000
Subject: [PATCH 19/32] fix: apply the fractional part of clustered cycles to
 the crack

A count of e.g. 2.5 cycles was truncated to 2 when split in single cycles.
---
 py_fatigue/damage/crack_growth.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 2942446..060ee24 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -480,7 +480,11 @@ def get_crack_growth(
         else:
             splts = [int(cycle) for cycle in cycle_count.count_cycle]
         splt_cyc = [
-            split(int(cycle), n) if int(cycle) > 0 else [cycle]
+            (
+                split(int(cycle), n) + [cycle % 1] * (cycle % 1 > 0)
+                if int(cycle) > 0
+                else [cycle]
+            )
             for cycle, n in zip(cycle_count.count_cycle, splts)
         ]
         splt_len = [len(_) for _ in splt_cyc]
@@ -605,7 +609,11 @@ class CrackGrowth:
                     int(cycle) for cycle in self._obj["count_cycle"].values
                 ]
             splt_cyc = [
-                split(int(cycle), n) if int(cycle) > 0 else [cycle]
+                (
+                    split(int(cycle), n) + [cycle % 1] * (cycle % 1 > 0)
+                    if int(cycle) > 0
+                    else [cycle]
+                )
                 for cycle, n in zip(self._obj["count_cycle"].values, splts)
             ]
             splt_len = [len(_) for _ in splt_cyc]
-- 
2.43.0


From 699ae90a0d9236ccf463d03f3d2e6ed55973f0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:51 +0000
Subject: [PATCH 20/32] fix: align crack growth results with the rows of the
 dataframe

df.cg.calc_growth() picked the results by the cumulated number of cycles. That
is not the position of the results when there are half cycles, in express mode
or when the crack fails early: it raised IndexError or filled wrong rows.
---
 py_fatigue/damage/crack_growth.py | 33 +++++++++++++------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 060ee24..57e0cca 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -625,6 +625,7 @@ class CrackGrowth:
                 self._obj["stress_range"].values, splt_len
             )
         else:
+            splt_len = [1] * len(self._obj)
             stress_range = self._obj["stress_range"].values
             count_cycle = self._obj["count_cycle"].values
 
@@ -650,25 +651,19 @@ class CrackGrowth:
 
         cumul_cycle = np.cumsum(cg_.count_cycle[: len(cg_.crack_depth)])
         # manage the fact that clustered cycles are split in cg analysys
-        # while the df keeps them clustered
-        d_l = len(self._obj) - len(cg_.crack_depth)
-        if d_l >= 0:
-            self._obj["crack_depth"] = np.concatenate(
-                (cg_.crack_depth, np.full(d_l, np.nan))
-            )
-            self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))
-            self._obj["cumul_cycle"] = np.concatenate(
-                (cumul_cycle, np.full(d_l, np.nan))
-            )
-            self._obj["geometry_factor"] = np.concatenate(
-                (cg_.geometry_factor, np.full(d_l, np.nan))
-            )
-        else:
-            idx = np.asarray(self._obj["count_cycle"].cumsum(), dtype=int) - 1
-            self._obj["crack_depth"] = cg_.crack_depth[idx]
-            self._obj["sif"] = cg_.sif[idx]
-            self._obj["cumul_cycle"] = cumul_cycle[idx]
-            self._obj["geometry_factor"] = cg_.geometry_factor[idx]
+        # while the df keeps them clustered. Rows after failure are nan
+        d_l = len(count_cycle) - len(cg_.crack_depth)
+        idx = np.cumsum(splt_len) - 1
+        self._obj["crack_depth"] = np.concatenate(
+            (cg_.crack_depth, np.full(d_l, np.nan))
+        )[idx]
+        self._obj["sif"] = np.concatenate((cg_.sif, np.full(d_l, np.nan)))[idx]
+        self._obj["cumul_cycle"] = np.concatenate(
+            (cumul_cycle, np.full(d_l, np.nan))
+        )[idx]
+        self._obj["geometry_factor"] = np.concatenate(
+            (cg_.geometry_factor, np.full(d_l, np.nan))
+        )[idx]
         self._obj.cg_curve = cg_curve
         self.cg_curve = cg_curve
         self._obj.crack_geometry = crack_geometry
-- 
2.43.0


From 94afde886269aab9990f5c02e16f208928c59ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:23:51 +0000
Subject: [PATCH 21/32] fix: geometry factor of cracks deeper than half their
 width

The angle of the crack-front arc exceeds 90 degrees for such narrow cracks but
arcsin() returned its supplement, i.e. the smaller segment of the circle.
---
 py_fatigue/geometry/cylinder.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/geometry/cylinder.py b/py_fatigue/geometry/cylinder.py
index 20b6eba..024caa6 100644
--- a/py_fatigue/geometry/cylinder.py
+++ b/py_fatigue/geometry/cylinder.py
@@ -182,7 +182,7 @@ class HollowCylinder(AbstractCrackGeometry):
         a_h = depth - r_o * (1 - np.cos(c_angle))
         r_e = (c_v**2 + a_h**2) / (2 * a_h)  # radius of crack-front arc
         # angle of crack-front arc
-        beta = np.arcsin(c_v / r_e)
+        beta = 2 * np.arctan2(a_h, c_v)
         theta = np.linspace(-beta, beta, 100)  # θ (crack-front angle)
         phi = np.linspace(np.pi - c_angle, np.pi + c_angle, 100)
 
@@ -282,7 +282,7 @@ def f_hol_cyl_01(
     # radius of crack-front arc
     crack_radius: float = (c_v**2 + a_h**2) / (2 * a_h)
     # angle of crack-front arc
-    beta: float = np.arcsin(c_v / crack_radius)
+    beta: float = 2 * np.arctan2(a_h, c_v)
     # areas
     # * circular ring
     area_0: float = np.pi * (outer_radius**2 - inner_radius**2)
-- 
2.43.0


From f87e5fe5965cb6b85fe3a751d0ef85e7d95ed798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:26:07 +0000
Subject: [PATCH 22/32] fix: aggregate dataframes whose columns are not all
 strings

The aggregation already accepts numeric column names, but looking for the
columns of cycle-counts afterwards raised AttributeError.
---
 py_fatigue/cycle_count/utils.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 7713ae6..5320430 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -142,7 +142,9 @@ def aggregate_cc(
     df_agg_rr = df_agg.applymap(solve_lffd)
 
     cc_cols: list[str] = [
-        col for col in df_agg_rr.columns if col.startswith("CC_")
+        col
+        for col in df_agg_rr.columns
+        if isinstance(col, str) and col.startswith("CC_")
     ]
 
     if not save_residuals:
@@ -266,7 +268,11 @@ def calc_aggregated_damage(
                     "SNCurve."
                 )
 
-    cc_cols: list[str] = [col for col in df.columns if col.startswith("CC_")]
+    cc_cols: list[str] = [
+        col
+        for col in df.columns
+        if isinstance(col, str) and col.startswith("CC_")
+    ]
     damages = pd.DataFrame()
     for _, sn_curve in sn.items():
         df_1 = df[cc_cols].applymap(
-- 
2.43.0


From 8ec38675bf905254622367afd903fb910a22a0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:36:44 +0000
Subject: [PATCH 23/32] fix: reversals and crossings of unsigned and short
 integer signals

---
 py_fatigue/cycle_count/rainflow.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/py_fatigue/cycle_count/rainflow.py b/py_fatigue/cycle_count/rainflow.py
index b00dabe..14768a1 100644
--- a/py_fatigue/cycle_count/rainflow.py
+++ b/py_fatigue/cycle_count/rainflow.py
@@ -138,7 +138,9 @@ def findcross(x: np.ndarray, v=0.0, kind=None) -> np.ndarray:
     if len(x) > 0 and np.isnan(np.min(x)):
         raise ValueError("data contain NaN")
 
-    xn = np.array(np.sign(np.atleast_1d(x).ravel() - v), dtype=np.int8)
+    # integer arrays would wrap around in the difference
+    x = np.atleast_1d(x).ravel().astype(np.float64)
+    xn = np.array(np.sign(x - v), dtype=np.int8)
     ind = findcross_indices(xn)
     if ind.size == 0:
         warnings.warn(f"No level v = {v:0.5g} crossings found in x")
@@ -185,7 +187,8 @@ def findextrema(x: np.ndarray) -> np.ndarray:
     >>> a = plt.plot(t,x,'.',t[ind],x[ind],'r.')
     >>> plt.close('all')
     """
-    dx = np.diff(np.atleast_1d(x).ravel())
+    # integer arrays would wrap around in the difference
+    dx = np.diff(np.atleast_1d(x).ravel().astype(np.float64))
     return findcross(dx) + 1
 
 
-- 
2.43.0


From 21fe1a0cb301809f8b91167cfcfc3c1a3cdf74bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:02:44 +0000
Subject: [PATCH 24/32] fix: draw the threshold point of a Paris curve on the
 curve

---
 py_fatigue/material/crack_growth_curve.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 2f1d4e0..6997b91 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -831,6 +831,7 @@ def _paris_curve_data_points(pc: ParisCurve) -> tuple:
     sif_plot = np.logspace(
         np.log10(threshold), np.log10(0.999999999999 * critical), 20
     )  # 0.999999999999 to avoid rounding errors
+    sif_plot[0] = threshold  # the logarithm may round to below threshold
 
     if not pc.linear:
         sif_plot = np.sort(np.append(sif_plot, np.array(pc.get_knee_sif())))
-- 
2.43.0


From ab578ee2cb32934abcbfdcfc2fe326204348d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:04:43 +0000
Subject: [PATCH 25/32] fix: draw on the axes given without a figure

---
 py_fatigue/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index f1e1e8d..de8d7dd 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -92,8 +92,10 @@ def make_axes(
     TypeError
         If fig is not a matplotlib.figure.Figure instance
     """
-    if fig is None:
+    if fig is None and ax is None:
         fig, axes = plt.subplots()
+    elif fig is None:
+        fig, axes = ax.figure, ax  # type: ignore
     else:
         if not isinstance(fig, matplotlib.figure.Figure):  # type: ignore
             raise TypeError("fig must be a matplotlib.figure.Figure instance")
-- 
2.43.0


From 63b02dfa24504b70c0718541d40445cfca57d953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:11:27 +0000
Subject: [PATCH 26/32] fix: growth rate at the knees of Paris curves with
 close slopes

---
 py_fatigue/material/crack_growth_curve.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 6997b91..24296ad 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -523,8 +523,10 @@ class ParisCurve(AbstractCrackGrowthCurve):
             for i in range(self.intercept.size - 1):
                 m_i = self.slope[i + 1] / (self.slope[i + 1] - self.slope[i])
                 m_i_p_1 = self.slope[i] / (self.slope[i + 1] - self.slope[i])
-                knee_growth_rate[i] = (
-                    self.intercept[i] ** m_i / self.intercept[i + 1] ** m_i_p_1
+                # logarithms, as the powers may be too small for a float
+                knee_growth_rate[i] = np.exp(
+                    m_i * np.log(self.intercept[i])
+                    - m_i_p_1 * np.log(self.intercept[i + 1])
                 )
             if check_knee is not None:
                 try:
@@ -765,8 +767,8 @@ def _calc_sif(growth_rate, slope, intercept, threshold, critical):
         for i in nb.prange(intercept.size - 1):
             m_i = slope[i + 1] / (slope[i + 1] - slope[i])
             m_i_p_1 = slope[i] / (slope[i + 1] - slope[i])
-            knees_growth_rate[i] = (
-                intercept[i] ** m_i / intercept[i + 1] ** m_i_p_1
+            knees_growth_rate[i] = np.exp(
+                m_i * np.log(intercept[i]) - m_i_p_1 * np.log(intercept[i + 1])
             )
 
     knees_growth_rate = np.hstack(
-- 
2.43.0


From 06eb0a4900a4c585937eb9df7858caa03916bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:17:43 +0000
Subject: [PATCH 27/32] fix: bin full cycles that are all on the lower bound

---
 py_fatigue/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/py_fatigue/utils.py b/py_fatigue/utils.py
index de8d7dd..f24ada8 100644
--- a/py_fatigue/utils.py
+++ b/py_fatigue/utils.py
@@ -286,7 +286,12 @@ class FatigueStress:
         -------
         bin_edges : np.ndarray
         """
-        return calc_bin_edges(self.bin_lb, self.bin_ub, self.bin_width)
+        # one bin at least, if all the full cycles are on the lower bound
+        return calc_bin_edges(
+            self.bin_lb,
+            max(self.bin_ub, self.bin_lb + self.bin_width),
+            self.bin_width,
+        )
 
     @property
     def bin_centers(self):
-- 
2.43.0


From 711ddb15df6c8a512352a70e185814ca69cfa176 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:46:27 +0000
Subject: [PATCH 28/32] fix: no growth rate below the threshold

The rate of a state below the threshold was overwritten with that of the last
branch of the curve.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 57e0cca..6dd7676 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -232,7 +232,7 @@ class CalcCrackGrowth:
         knees = self.get_knees_sif
         if sif < self.threshold:
             the_growth_rate = 0.0
-        if sif > self.critical:
+        elif sif > self.critical:
             the_growth_rate = np.inf
         else:
             idx = np.digitize(np.asarray([sif]), knees, right=True) - 1
-- 
2.43.0


From 3302a6677cf92b55571f792ae15482b756cbcd14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:13 +0000
Subject: [PATCH 29/32] fix: save residuals of periods whose counts have none

Saving the residuals of a period that only has counts read without residuals
raised an IndexError.
---
 py_fatigue/cycle_count/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 5320430..039171d 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -165,6 +165,8 @@ def aggregate_cc(
                 continue
             if not isinstance(row[col].residuals_sequence, Iterable):
                 continue
+            if len(row[col].residuals_sequence) == 0:
+                continue
             _, res_res_seq, res_res_idx = cycle_count.calc_rainflow(
                 data=np.asarray(row[col].residuals_sequence),
                 extended_output=True,
-- 
2.43.0


From e0fb523ddfeba99398fbe2394aeeeccfa31f0ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:49:13 +0000
Subject: [PATCH 30/32] fix: aggregated damage of SN curves with the same name

Of several curves with the same name in a list only the last one was used.
---
 py_fatigue/cycle_count/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/cycle_count/utils.py b/py_fatigue/cycle_count/utils.py
index 039171d..9d64ec1 100644
--- a/py_fatigue/cycle_count/utils.py
+++ b/py_fatigue/cycle_count/utils.py
@@ -263,7 +263,7 @@ def calc_aggregated_damage(
             sn = {sn.name: sn}
         elif isinstance(sn, list):
             if all(isinstance(s, SNCurve) for s in sn):
-                sn = {s.name: s for s in sn}
+                sn = dict(enumerate(sn))  # names may be the same
             else:
                 raise TypeError(
                     "The S-N curves must be a dict, a list of SNCurve or a "
-- 
2.43.0


From ae031b4c3af983dd54d664d182e26730cc68e2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:50:59 +0000
Subject: [PATCH 31/32] fix: reject crack growth curves whose unit only
 contains that of the count
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

A count in Pa was accepted with a curve in MPa √mm.
---
 py_fatigue/damage/crack_growth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/damage/crack_growth.py b/py_fatigue/damage/crack_growth.py
index 6dd7676..88a1234 100644
--- a/py_fatigue/damage/crack_growth.py
+++ b/py_fatigue/damage/crack_growth.py
@@ -466,7 +466,7 @@ def get_crack_growth(
     # Handle the stress ranges and cycle counts as they might be clustered
     # in a matrix and we need to iterate over single or "little" cycles
     # within the same stress range block
-    if cycle_count.unit not in cg_curve.unit:
+    if not cg_curve.unit.startswith(cycle_count.unit):
         e_msg = (
             f"Cycle count unit ({cycle_count.unit}) and crack growth "
             f"curve unit ({cg_curve.unit}) are not compatible."
-- 
2.43.0


From 013bf2b1f7a9bed292d4f27360dc2ad342a0dd7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:00:46 +0000
Subject: [PATCH 32/32] fix: growth rate of a curve without critical value at
 an infinite SIF

The branch number of an infinite stress intensity range was one beyond the
last branch. The value was read outside of the arrays, so that
critical_growth_rate gave a random number for curves without critical value.
---
 py_fatigue/material/crack_growth_curve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/py_fatigue/material/crack_growth_curve.py b/py_fatigue/material/crack_growth_curve.py
index 24296ad..cbb8e40 100755
--- a/py_fatigue/material/crack_growth_curve.py
+++ b/py_fatigue/material/crack_growth_curve.py
@@ -743,7 +743,7 @@ def _calc_growth_rate(sif, slope, intercept, threshold, critical):
         if sif[i] < threshold:  # below threshold
             the_growth_rate[i] = 0
             continue
-        if sif[i] > critical:  # above threshold
+        if sif[i] > critical or sif[i] == np.inf:  # above threshold
             the_growth_rate[i] = np.inf
             continue
         the_growth_rate[i] = intercept[idx[i]] * sif[i] ** slope[idx[i]]
-- 
2.43.0

