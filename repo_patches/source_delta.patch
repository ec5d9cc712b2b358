From c4d9647c573332c06bd7ed5ef0de9d2da7ec0a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 01/51] fix: keep the RDP of composed events when a
 RepeatAndSelectDpEvent fails

RdpAccountant zeroed its accumulated RDP while it computed the RDP of the
repeated event, so an exception there erased all earlier privacy loss.
---
 .../rdp/rdp_privacy_accountant.py             | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index ec00763..fcc6b57 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -14,6 +14,7 @@
 # ==============================================================================
 """Privacy accountant that uses Renyi differential privacy."""
 
+import copy
 import math
 from typing import Callable, Optional, Sequence, Tuple, Union
 
@@ -1104,21 +1105,14 @@ class RdpAccountant(privacy_accountant.PrivacyAccountant):
         )
       return None
     elif isinstance(event, dp_event.RepeatAndSelectDpEvent):
-      save_rdp = self._rdp
-      if do_compose:
-        # Save the RDP values from already composed DPEvents. These will
-        # be added back after we process this RepeatAndSelectDpEvent.
-        # Zero out self._rdp before computing the RDP of the underlying
-        # DP event.
-        self._rdp = np.zeros_like(self._orders, dtype=np.float64)
-      composition_error = self._maybe_compose(event.event, 1, do_compose)
+      # The RDP of the underlying event is accumulated in a separate accountant,
+      # so that the RDP of already composed events is kept if computing it fails.
+      inner = copy.copy(self)
+      inner._rdp = np.zeros_like(self._orders, dtype=np.float64)
+      composition_error = inner._maybe_compose(event.event, 1, do_compose)
       if composition_error is None and do_compose:
-        self._rdp = (
-            count
-            * _compute_rdp_repeat_and_select(
-                self._orders, self._rdp, event.mean, event.shape
-            )
-            + save_rdp
+        self._rdp += count * _compute_rdp_repeat_and_select(
+            self._orders, inner._rdp, event.mean, event.shape
         )
       return composition_error
     elif isinstance(event, dp_event.RandomizedResponseDpEvent):
-- 
2.43.0


From 98d74396b5cd933558cb8f291edd839aee7d0abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 02/51] fix: account every Gaussian of a sampled composition
 with integer noise multipliers

_effective_gaussian_noise_multiplier took an int noise multiplier for the
offending subevent and returned it as the multiplier of the whole composition,
which under-reports the privacy loss.
---
 .../dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index fcc6b57..da8da33 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -569,13 +569,13 @@ def _effective_gaussian_noise_multiplier(
     sum_sigma_inv_sq = 0
     for e in event.events:
       sigma = _effective_gaussian_noise_multiplier(e)
-      if not isinstance(sigma, float):
+      if isinstance(sigma, dp_event.DpEvent):
         return sigma
       sum_sigma_inv_sq += sigma**-2
     return sum_sigma_inv_sq**-0.5
   elif isinstance(event, dp_event.SelfComposedDpEvent):
     sigma = _effective_gaussian_noise_multiplier(event.event)
-    if not isinstance(sigma, float):
+    if isinstance(sigma, dp_event.DpEvent):
       return sigma
     return sigma * event.count**-0.5
   else:
-- 
2.43.0


From 306c8ad43d08399237445d786345bff06937dfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:57 +0000
Subject: [PATCH 03/51] fix: PLDAccountant composes RandomizedResponseDpEvent
 count times

The count was ignored, so the loss of a repeated randomized response was
reported as that of a single one.
---
 .../dp_accounting/dp_accounting/pld/pld_privacy_accountant.py   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
index 5fafb0b..6a989c4 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_privacy_accountant.py
@@ -76,7 +76,7 @@ class PLDAccountant(privacy_accountant.PrivacyAccountant):
               num_buckets=event.num_buckets,
               value_discretization_interval=self._value_discretization_interval,
               neighboring_relation=self._neighboring_relation,
-          )
+          ).self_compose(count)
           self._pld = self._pld.compose(rr_pld)
       return None
     elif isinstance(event, dp_event.GaussianDpEvent):
-- 
2.43.0


From 350c6157a08abf85639c3ea3d88a15e7e1170b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:35 +0000
Subject: [PATCH 04/51] fix: RDP of sampled and repeated mechanisms at order 1
 was NaN

With an order of 1, the RDP of sampled Gaussians (0/0) and of repeat-and-select
of a non-private event (0*inf) was NaN, for which epsilon is reported as 0 and
delta as NaN.
---
 .../dp_accounting/rdp/rdp_privacy_accountant.py    | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
index da8da33..4c629dc 100644
--- a/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
+++ b/python/dp_accounting/dp_accounting/rdp/rdp_privacy_accountant.py
@@ -393,6 +393,11 @@ def _compute_rdp_poisson_subsampled_gaussian(
     if q == 1.0:
       return alpha / (2 * noise_multiplier**2)
 
+    if alpha == 1:
+      # The expression below is 0/0. RDP is non-decreasing in the order, so that
+      # at order 2 is an upper bound.
+      alpha = 2
+
     return _compute_log_a(q, noise_multiplier, alpha) / (alpha - 1)
 
   return np.array([compute_one_order(q, order) for order in orders])
@@ -453,6 +458,11 @@ def _compute_rdp_sample_wor_gaussian_scalar(
   if np.isinf(alpha):
     return np.inf
 
+  if alpha == 1:
+    # The expression below is 0/0. RDP is non-decreasing in the order, so that at
+    # order 2 is an upper bound.
+    alpha = 2
+
   if float(alpha).is_integer():
     return _compute_rdp_sample_wor_gaussian_int(q, sigma, int(alpha)) / (
         alpha - 1
@@ -807,7 +817,9 @@ def _compute_rdp_repeat_and_select(
     # orders[i] = lambda, rdp[i] = epsilon,
     # orders[j] = lambdahat, rdp[j] = epsilonhat
     # First compute constant term
-    c = (1 + shape) * np.min((1 - 1 / orders) * rdp - math.log(gamma) / orders)
+    # (at order 1 an infinite RDP would give 0 * inf, i.e. NaN).
+    bounds = (1 - 1 / orders) * rdp - math.log(gamma) / orders
+    c = (1 + shape) * np.min(np.where(np.isinf(rdp), np.inf, bounds))
     for i in range(len(orders)):
       if orders[i] > 1:  # Otherwise our formula is invalid.
         rdp_out[i] = rdp[i] + math.log(mean) / (orders[i] - 1) + c
-- 
2.43.0


From c28ed45a39f7c97e3532a47ee8bedcfa7d92d610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:34 +0000
Subject: [PATCH 05/51] fix: do not mangle string fields of events converted to
 and from named tuples

A str is a Sequence, so each conversion replaced it by str() of the list of its
characters.
---
 python/dp_accounting/dp_accounting/dp_event.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/dp_event.py b/python/dp_accounting/dp_accounting/dp_event.py
index 3d490bd..c95d481 100644
--- a/python/dp_accounting/dp_accounting/dp_event.py
+++ b/python/dp_accounting/dp_accounting/dp_event.py
@@ -119,7 +119,7 @@ class DpEvent(object):
         elements = [(k, _to_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
         elements = [_to_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
@@ -161,7 +161,7 @@ class DpEvent(object):
         elements = [(k, _from_named_tuple(v)) for k, v in value.items()]
         mapping_type = type(value)
         value = mapping_type(elements)
-      elif isinstance(value, Sequence):
+      elif isinstance(value, Sequence) and not isinstance(value, (str, bytes)):
         elements = [_from_named_tuple(x) for x in value]
         sequence_type = type(value)
         value = sequence_type(elements)
-- 
2.43.0


From 8062ca66838991f4966821780d436f79796c349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:10 +0000
Subject: [PATCH 06/51] fix: compose privacy loss distributions with little or
 no finite mass

Composing a distribution whose finite mass is below the truncation (e.g. most
of its mass is at infinity) raised IndexError, OverflowError or a math domain
error in DensePLDPmf and SparsePLDPmf.
---
 python/dp_accounting/dp_accounting/pld/common.py  | 4 +++-
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 8 +++++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index e468c9a..c5dec89 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -257,7 +257,9 @@ def compute_self_convolve_bounds(
     if order < 0:
       lower_bound = max(lower_bound, math.floor(bound))
 
-  return lower_bound, upper_bound
+  # When the whole mass of the output may be truncated (e.g. input_list is a
+  # sub-probability), the two bounds can cross. Keep at least one element.
+  return lower_bound, max(lower_bound, upper_bound)
 
 
 def self_convolve(input_list: ArrayLike,
diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index e798abd..c827588 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -186,7 +186,10 @@ def _truncate_tails(probs: ArrayLike, tail_mass_truncation: float,
         return i
     return len(arr)
 
-  left_idx = _find_prefix_to_truncate(probs, tail_mass_truncation / 2)
+  # At least one element is kept, also when the whole mass can be truncated.
+  left_idx = min(
+      _find_prefix_to_truncate(probs, tail_mass_truncation / 2),
+      len(probs) - 1)
   right_idx = len(probs) - _find_prefix_to_truncate(
       np.flip(probs), tail_mass_truncation / 2)
   # Be sure that left_idx < right_idx. left_idx >= right_idx might be when
@@ -353,6 +356,9 @@ class DensePLDPmf(PLDPmf):
     """See base class."""
     if num_times <= 0:
       raise ValueError(f'num_times should be >= 1, num_times={num_times}')
+    if self._infinity_mass >= 1:
+      # All mass is at infinity and stays there; the logarithms below diverge.
+      return self
     lower_loss = self._lower_loss * num_times
     truncation_lower_bound, probs = common.self_convolve(
         self._probs, num_times, tail_mass_truncation)
-- 
2.43.0


From 11c205d9796feba922d1d12ace74e67060baed68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 07/51] fix: bisect reversed bracket intervals down to the
 tolerance

An ExplicitBracketInterval whose first endpoint is the larger one made the
fallback bisection return an endpoint immediately.
---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index 773f7ba..f7aac4d 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -135,7 +135,7 @@ def _bisect(
   if lower_value * upper_value > 0:
     raise ValueError('Values must have opposite signs.')
 
-  if upper - lower <= tol:
+  if abs(upper - lower) <= tol:
     return lower if lower_value < 0 else upper
 
   middle = (lower + upper) / 2
-- 
2.43.0


From df07f0d5e9218cb2279ac02ca634fb52be053ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 08/51] fix: fall back to bisection when brentq does not
 converge

brentq raises RuntimeError on non-convergence unless disp=False, so the
fallback was never reached.
---
 python/dp_accounting/dp_accounting/mechanism_calibration.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/dp_accounting/dp_accounting/mechanism_calibration.py b/python/dp_accounting/dp_accounting/mechanism_calibration.py
index f7aac4d..fb8fc84 100644
--- a/python/dp_accounting/dp_accounting/mechanism_calibration.py
+++ b/python/dp_accounting/dp_accounting/mechanism_calibration.py
@@ -253,7 +253,8 @@ def calibrate_dp_mechanism(
         bracket_interval.endpoint_1,
         bracket_interval.endpoint_2,
         xtol=tol,
-        full_output=True)
+        full_output=True,
+        disp=False)
   except ValueError as err:
     raise ValueError(
         '`brentq` raised ValueError. This often means the supplied bracket '
-- 
2.43.0


From a20d7a204daa0cfc0cc184f936721b58dc0eaf23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:39 +0000
Subject: [PATCH 09/51] fix: end the search for a monotone inverse at floating
 point precision

With a tolerance below the spacing of floating point numbers around the
solution (e.g. the default tolerance and a solution above 1e9) the search
never ended.
---
 python/dp_accounting/dp_accounting/pld/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index c5dec89..62cb645 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -111,6 +111,9 @@ def inverse_monotone_function(func: Callable[[float], float],
       mid_x = (upper_x + lower_x) // 2
     else:
       mid_x = (upper_x + lower_x) / 2
+      if not lower_x < mid_x < upper_x:
+        # The tolerance is below the spacing of floating point numbers.
+        break
 
     if check(func(mid_x), value):
       lower_x = mid_x
-- 
2.43.0


From 3181a7245465020918fa9d5b1f77619468539ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:27 +0000
Subject: [PATCH 10/51] fix: keep the infinity mass of a self-composition at
 most one

With an infinity mass above one, composing again gave less than the true
delta even for pessimistic estimates.
---
 python/dp_accounting/dp_accounting/pld/pld_pmf.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/pld_pmf.py b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
index c827588..d5f796d 100644
--- a/python/dp_accounting/dp_accounting/pld/pld_pmf.py
+++ b/python/dp_accounting/dp_accounting/pld/pld_pmf.py
@@ -367,8 +367,10 @@ class DensePLDPmf(PLDPmf):
     # infinity mass after composition is given as
     # tail_mass_truncation + 1 - (1 - infinity_mass)**num_times
     # Below we use a numerically stable approach to compute the second term.
-    inf_prob = (tail_mass_truncation
-                - math.expm1(num_times * math.log1p(- self._infinity_mass)))
+    # The sum may exceed one by up to tail_mass_truncation, which would make
+    # later compositions underestimate the infinity mass.
+    inf_prob = min(1, tail_mass_truncation
+                   - math.expm1(num_times * math.log1p(- self._infinity_mass)))
     return DensePLDPmf(self._discretization, lower_loss, probs,
                        inf_prob, self._pessimistic_estimate)
 
-- 
2.43.0


From daff569fd6f5437cdf749c8e7e168a9b19536b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:53 +0000
Subject: [PATCH 11/51] fix: clip an empty dataset by radius

np.min of an empty array raises, so clustering failed on an empty dataset but
not on its neighbours.
---
 learning/clustering/clustering_params.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/learning/clustering/clustering_params.py b/learning/clustering/clustering_params.py
index 0c3de98..fe103e2 100644
--- a/learning/clustering/clustering_params.py
+++ b/learning/clustering/clustering_params.py
@@ -194,7 +194,7 @@ class Data():
       points = self.datapoints
     scale = self.radius / np.maximum(
         np.linalg.norm(points, axis=-1), self.radius).reshape(-1, 1)
-    if np.min(scale) < 1.0:
+    if np.any(scale < 1.0):
       logging.debug(
           "Found %s points outside of radius provided, rescaling them to "
           "have norm exactly equal to the radius.", np.sum(scale < 1.0))
-- 
2.43.0


From 4cd81fc7ba138fe75aad0c131fc15783a91af55f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:32 +0000
Subject: [PATCH 12/51] fix: ignore undefined Chernoff bounds of distributions
 without finite mass

---
 python/dp_accounting/dp_accounting/pld/common.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/dp_accounting/dp_accounting/pld/common.py b/python/dp_accounting/dp_accounting/pld/common.py
index 62cb645..b118c56 100644
--- a/python/dp_accounting/dp_accounting/pld/common.py
+++ b/python/dp_accounting/dp_accounting/pld/common.py
@@ -251,6 +251,9 @@ def compute_self_convolve_bounds(
   ]
 
   for order, log_mgf_value in zip(orders, log_mgfs):
+    if not math.isfinite(log_mgf_value):
+      # The input has no mass (up to rounding), so there is nothing to bound.
+      continue
     # Use Chernoff bound to update the upper/lower bound. See equation (5) in
     # the supplementary material.
     bound = (num_times * log_mgf_value +
-- 
2.43.0


From bd1206dfbd5db9afa110a9ddf270831036bcae13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:37 +0000
Subject: [PATCH 13/51] fix: calibrate the clustering counts for discrete
 Laplace noise

---
 learning/clustering/privacy_calculator.py | 27 +++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/learning/clustering/privacy_calculator.py b/learning/clustering/privacy_calculator.py
index 1240238..b7c2f5b 100644
--- a/learning/clustering/privacy_calculator.py
+++ b/learning/clustering/privacy_calculator.py
@@ -28,6 +28,29 @@ from dp_accounting.pld import common
 from dp_accounting.pld import pld_privacy_accountant
 
 
+def get_discrete_laplace_param(laplace_param: float) -> float:
+  """Returns the discrete Laplace param that LaplaceDpEvent accounts for.
+
+  Discrete Laplace noise loses more privacy than continuous Laplace noise of the
+  same parameter, because its privacy loss is never in between the extremes. The
+  result is the largest parameter of discrete Laplace noise, added to values of
+  sensitivity 1, that is dominated by LaplaceDpEvent(1 / laplace_param).
+
+  Args:
+    laplace_param: inverse of the scale of the continuous Laplace noise.
+  """
+  # Equal to log(2 * exp(laplace_param / 2) - 1).
+  return laplace_param / 2 + np.log1p(-np.expm1(-laplace_param / 2))
+
+
+def get_laplace_param(discrete_laplace_param: float) -> float:
+  """Returns the inverse of get_discrete_laplace_param."""
+  # Equal to 2 * log((exp(discrete_laplace_param) + 1) / 2).
+  return 2 * (
+      discrete_laplace_param + np.log1p(np.expm1(-discrete_laplace_param) / 2)
+  )
+
+
 def make_clustering_event(sum_std_dev: float, count_laplace_param: float,
                           sensitivity: float,
                           max_depth: int) -> dp_event.DpEvent:
@@ -152,7 +175,7 @@ class PrivacyCalculator():
         multipliers.get_gaussian_std_dev(alpha, radius), radius
     )
     self.count_privacy_param = central_privacy_utils.CountPrivacyParam(
-        multipliers.get_laplace_param(alpha)
+        get_discrete_laplace_param(multipliers.get_laplace_param(alpha))
     )
 
   def validate_accounting(
@@ -166,7 +189,7 @@ class PrivacyCalculator():
 
     clustering_event = make_clustering_event(
         self.average_privacy_param.gaussian_standard_deviation,
-        self.count_privacy_param.laplace_param,
+        get_laplace_param(self.count_privacy_param.laplace_param),
         self.average_privacy_param.sensitivity,
         max_depth,
     )
-- 
2.43.0


From e5037aeafdd55bce7b6894c4b3d5b9325c5c96c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:53 +0000
Subject: [PATCH 14/51] fix: report zero results to Vizier

A divergence estimate of exactly 0.0 was treated as no result, so the trial
was never completed and the same datasets were tested over and over.
---
 .../dp_auditorium/generators/vizier_dataset_generator.py        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index 574a90f..ca0e277 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -219,7 +219,7 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
     Returns:
       Array with Vizier suggestions for new neighboring datasets.
     """
-    if last_trial_result:
+    if last_trial_result is not None:
       self._complete_trial(last_trial_result)
 
     self._load_trial()
-- 
2.43.0


From f648731060718fdd0a4ff4eea29d808a5837f7bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:17 +0000
Subject: [PATCH 15/51] fix: complete every Vizier trial exactly once when a
 call is retried

After a failure to load the next trial, a retried call completed the previous
trial a second time, which Vizier refuses; after a failure to build the datasets
of a loaded trial, it completed that trial with the result of the trial before.
---
 .../classification_dataset_generator.py         |  1 +
 .../generators/vizier_dataset_generator.py      | 17 +++++++++++++++--
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
index 5036617..3349a5c 100644
--- a/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/classification_dataset_generator.py
@@ -139,6 +139,7 @@ class ClassificationDatasetGenerator(
 
     self._trial_loaded = False
     self._last_trial = None
+    self._datasets_returned = False
 
   def get_neighboring_datasets_from_vizier_params(
       self, vizier_params: np.ndarray
diff --git a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
index ca0e277..b991fcd 100644
--- a/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
+++ b/python/dp_auditorium/dp_auditorium/generators/vizier_dataset_generator.py
@@ -145,11 +145,13 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
 
     self._trial_loaded = False
     self._last_trial = None
+    self._datasets_returned = False
 
   def _load_trial(self) -> None:
     if not self._trial_loaded:
       # Request a new trial from Vizier.
       logging.info('Loading new trial')
+      self._datasets_returned = False
       self._last_trial, self._trial_loaded = _get_trial(self._study_client)
     if self._last_trial is None:
       raise ValueError('Vizier study did not generate a new trial.')
@@ -171,7 +173,9 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
           {self._metric_name: last_trial_result}
       )
       self._last_trial.complete(result_to_measurement)
-      self._trial_loaded = False
+      # A completed trial must not be completed again if loading the next one
+      # fails and the call is retried.
+      self._last_trial, self._trial_loaded = None, False
 
   def _extract_params_from_trial(self) -> np.ndarray:
     """Returns numpy array of data from Vizier trial.
@@ -220,7 +224,15 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
       Array with Vizier suggestions for new neighboring datasets.
     """
     if last_trial_result is not None:
-      self._complete_trial(last_trial_result)
+      if self._trial_loaded and not self._datasets_returned:
+        # A previous call failed after loading this trial: the result belongs to
+        # the trial before it, which is already completed.
+        logging.info(
+            'The provided result will not be used because the datasets of the'
+            ' loaded trial have not been returned yet.'
+        )
+      else:
+        self._complete_trial(last_trial_result)
 
     self._load_trial()
 
@@ -229,6 +241,7 @@ class VizierDatasetGenerator(interfaces.DatasetGenerator):
     neighboring_datasets = self.get_neighboring_datasets_from_vizier_params(
         vizier_params
     )
+    self._datasets_returned = True
     return neighboring_datasets
 
 
-- 
2.43.0


From 56685f258bcf164b293dbc7fb600325a2c346e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:14 +0000
Subject: [PATCH 16/51] fix: restore a partition selection serialised twice as
 usable

---
 go/dpagg/select_partition.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 4b67612..01047ed 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -409,7 +409,7 @@ func (s *PreAggSelectPartition) GobEncode() ([]byte, error) {
 		Delta:         s.delta,
 		L0Sensitivity: s.l0Sensitivity,
 		IDCount:       s.idCount,
-		State:         s.state,
+		State:         defaultState,
 		PreThreshold:  s.preThreshold,
 	}
 	s.state = serialized
-- 
2.43.0


From d3891d34888069040fff2ce2ebc31165fe785213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:20 +0000
Subject: [PATCH 17/51] fix: make dropping a pre-thresholded Go count final

---
 go/dpagg/count.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 0925b8d..3dc8ebf 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -228,6 +228,11 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	// Pre-thresholding guarantees that at least this number of unique contributions are in the
 	// partition.
 	if c.count < preThreshold {
+		// Dropping the partition is a release, too: it must not be possible to repeat it.
+		if c.state != defaultState {
+			return nil, fmt.Errorf("Count's Pre-Thresholded Result cannot be computed: %s", c.state.errorMessage())
+		}
+		c.state = resultReturned
 		return nil, nil
 	}
 
-- 
2.43.0


From 4fbb6efc75b26a468df44dacd84b5951c41cd414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:03 +0000
Subject: [PATCH 18/51] fix: refuse to restore a Go aggregation from another
 type's bytes

---
 go/dpagg/coders.go             | 6 ++++++
 go/dpagg/count.go              | 4 +++-
 go/dpagg/mean.go               | 4 +++-
 go/dpagg/quantiles.go          | 4 +++-
 go/dpagg/select_partition.go   | 4 +++-
 go/dpagg/standard_deviation.go | 4 +++-
 go/dpagg/sum.go                | 8 ++++++--
 go/dpagg/variance.go           | 4 +++-
 8 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/go/dpagg/coders.go b/go/dpagg/coders.go
index ef38d1d..ce84a4b 100644
--- a/go/dpagg/coders.go
+++ b/go/dpagg/coders.go
@@ -33,3 +33,9 @@ func encode(v interface{}) ([]byte, error) {
 func decode(v interface{}, data []byte) error {
 	return gob.NewDecoder(bytes.NewReader(data)).Decode(v)
 }
+
+// isType returns whether bytes that carry typeName were encoded from the type
+// want. The bytes of earlier versions of the library don't carry a type name.
+func isType(typeName, want string) bool {
+	return typeName == "" || typeName == want
+}
diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 3dc8ebf..275d7bc 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -278,6 +278,7 @@ func (c *Count) ComputeConfidenceInterval(alpha float64) (noise.ConfidenceInterv
 
 // encodableCount can be encoded by the gob package.
 type encodableCount struct {
+	Type            string // Guards against decoding the bytes of another type.
 	Epsilon         float64
 	Delta           float64
 	L0Sensitivity   int64
@@ -292,6 +293,7 @@ func (c *Count) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("Count object cannot be serialized: " + c.state.errorMessage())
 	}
 	enc := encodableCount{
+		Type:            "Count",
 		Epsilon:         c.epsilon,
 		Delta:           c.delta,
 		L0Sensitivity:   c.l0Sensitivity,
@@ -307,7 +309,7 @@ func (c *Count) GobEncode() ([]byte, error) {
 func (c *Count) GobDecode(data []byte) error {
 	var enc encodableCount
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "Count") {
 		return fmt.Errorf("couldn't decode Count from bytes")
 	}
 	*c = Count{
diff --git a/go/dpagg/mean.go b/go/dpagg/mean.go
index 15f0ca7..2f24b43 100644
--- a/go/dpagg/mean.go
+++ b/go/dpagg/mean.go
@@ -345,6 +345,7 @@ func (bm *BoundedMean) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("BoundedMean object cannot be serialized: " + bm.state.errorMessage())
 	}
 	enc := encodableBoundedMeanFloat64{
+		Type:                   "BoundedMean",
 		Lower:                  bm.lower,
 		Upper:                  bm.upper,
 		EncodableCount:         &bm.Count,
@@ -359,7 +360,7 @@ func (bm *BoundedMean) GobEncode() ([]byte, error) {
 func (bm *BoundedMean) GobDecode(data []byte) error {
 	var enc encodableBoundedMeanFloat64
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "BoundedMean") || enc.EncodableCount == nil || enc.EncodableNormalizedSum == nil {
 		return fmt.Errorf("couldn't decode BoundedMean from bytes")
 	}
 	*bm = BoundedMean{
@@ -375,6 +376,7 @@ func (bm *BoundedMean) GobDecode(data []byte) error {
 
 // encodableBoundedMeanFloat64 can be encoded by the gob package.
 type encodableBoundedMeanFloat64 struct {
+	Type                   string // Guards against decoding the bytes of another type.
 	Lower                  float64
 	Upper                  float64
 	EncodableCount         *Count
diff --git a/go/dpagg/quantiles.go b/go/dpagg/quantiles.go
index ed84df8..8138cb7 100644
--- a/go/dpagg/quantiles.go
+++ b/go/dpagg/quantiles.go
@@ -401,6 +401,7 @@ func bqEquallyInitialized(bq1, bq2 *BoundedQuantiles) bool {
 
 // encodableBoundedQuantiles can be encoded by the gob package.
 type encodableBoundedQuantiles struct {
+	Type              string // Guards against decoding the bytes of another type.
 	Epsilon           float64
 	Delta             float64
 	L0Sensitivity     int64
@@ -421,6 +422,7 @@ func (bq *BoundedQuantiles) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("BoundedQuantiles object cannot be serialized: " + bq.state.errorMessage())
 	}
 	enc := encodableBoundedQuantiles{
+		Type:              "BoundedQuantiles",
 		Epsilon:           bq.epsilon,
 		Delta:             bq.delta,
 		L0Sensitivity:     bq.l0Sensitivity,
@@ -442,7 +444,7 @@ func (bq *BoundedQuantiles) GobEncode() ([]byte, error) {
 func (bq *BoundedQuantiles) GobDecode(data []byte) error {
 	var enc encodableBoundedQuantiles
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "BoundedQuantiles") {
 		return fmt.Errorf("couldn't decode BoundedQuantiles from bytes")
 	}
 	*bq = BoundedQuantiles{
diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index 01047ed..c70d7f9 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -391,6 +391,7 @@ func (s *PreAggSelectPartition) GetHardThreshold() (int, error) {
 
 // encodablePreAggSelectPartition can be encoded by the gob package.
 type encodablePreAggSelectPartition struct {
+	Type          string // Guards against decoding the bytes of another type.
 	Epsilon       float64
 	Delta         float64
 	L0Sensitivity int64
@@ -405,6 +406,7 @@ func (s *PreAggSelectPartition) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("PreAggSelectPartition object cannot be serialized: " + s.state.errorMessage())
 	}
 	enc := encodablePreAggSelectPartition{
+		Type:          "PreAggSelectPartition",
 		Epsilon:       s.epsilon,
 		Delta:         s.delta,
 		L0Sensitivity: s.l0Sensitivity,
@@ -420,7 +422,7 @@ func (s *PreAggSelectPartition) GobEncode() ([]byte, error) {
 func (s *PreAggSelectPartition) GobDecode(data []byte) error {
 	var enc encodablePreAggSelectPartition
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "PreAggSelectPartition") {
 		return fmt.Errorf("couldn't decode PreAggSelectPartition from bytes")
 	}
 	*s = PreAggSelectPartition{
diff --git a/go/dpagg/standard_deviation.go b/go/dpagg/standard_deviation.go
index 7b3d9b4..247ce3f 100644
--- a/go/dpagg/standard_deviation.go
+++ b/go/dpagg/standard_deviation.go
@@ -144,6 +144,7 @@ func (bstdv *BoundedStandardDeviation) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("StandardDeviation object cannot be serialized: " + bstdv.state.errorMessage())
 	}
 	enc := encodableBoundedStandardDeviation{
+		Type:              "BoundedStandardDeviation",
 		EncodableVariance: &bstdv.Variance,
 	}
 	bstdv.state = serialized
@@ -154,7 +155,7 @@ func (bstdv *BoundedStandardDeviation) GobEncode() ([]byte, error) {
 func (bstdv *BoundedStandardDeviation) GobDecode(data []byte) error {
 	var enc encodableBoundedStandardDeviation
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "BoundedStandardDeviation") || enc.EncodableVariance == nil {
 		return fmt.Errorf("couldn't decode BoundedStandardDeviation from bytes")
 	}
 	*bstdv = BoundedStandardDeviation{
@@ -165,5 +166,6 @@ func (bstdv *BoundedStandardDeviation) GobDecode(data []byte) error {
 
 // encodableBoundedStandardDeviation can be encoded by the gob package.
 type encodableBoundedStandardDeviation struct {
+	Type              string // Guards against decoding the bytes of another type.
 	EncodableVariance *BoundedVariance
 }
diff --git a/go/dpagg/sum.go b/go/dpagg/sum.go
index 2c1f8b4..ce0185c 100644
--- a/go/dpagg/sum.go
+++ b/go/dpagg/sum.go
@@ -304,6 +304,7 @@ func (bs *BoundedSumInt64) ComputeConfidenceInterval(alpha float64) (noise.Confi
 
 // encodableBoundedSumFloat64 can be encoded by the gob package.
 type encodableBoundedSumInt64 struct {
+	Type            string // Guards against decoding the bytes of another type.
 	Epsilon         float64
 	Delta           float64
 	L0Sensitivity   int64
@@ -320,6 +321,7 @@ func (bs *BoundedSumInt64) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("BoundedSumInt64 object cannot be serialized: " + bs.state.errorMessage())
 	}
 	enc := encodableBoundedSumInt64{
+		Type:            "BoundedSumInt64",
 		Epsilon:         bs.epsilon,
 		Delta:           bs.delta,
 		L0Sensitivity:   bs.l0Sensitivity,
@@ -337,7 +339,7 @@ func (bs *BoundedSumInt64) GobEncode() ([]byte, error) {
 func (bs *BoundedSumInt64) GobDecode(data []byte) error {
 	var enc encodableBoundedSumInt64
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "BoundedSumInt64") {
 		return fmt.Errorf("couldn't decode BoundedSumInt64 from bytes")
 	}
 	*bs = BoundedSumInt64{
@@ -621,6 +623,7 @@ func (bs *BoundedSumFloat64) ComputeConfidenceInterval(alpha float64) (noise.Con
 
 // encodableBoundedSumFloat64 can be encoded by the gob package.
 type encodableBoundedSumFloat64 struct {
+	Type            string // Guards against decoding the bytes of another type.
 	Epsilon         float64
 	Delta           float64
 	L0Sensitivity   int64
@@ -637,6 +640,7 @@ func (bs *BoundedSumFloat64) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("BoundedSumFloat64 object cannot be serialized: " + bs.state.errorMessage())
 	}
 	enc := encodableBoundedSumFloat64{
+		Type:            "BoundedSumFloat64",
 		Epsilon:         bs.epsilon,
 		Delta:           bs.delta,
 		L0Sensitivity:   bs.l0Sensitivity,
@@ -654,7 +658,7 @@ func (bs *BoundedSumFloat64) GobEncode() ([]byte, error) {
 func (bs *BoundedSumFloat64) GobDecode(data []byte) error {
 	var enc encodableBoundedSumFloat64
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "BoundedSumFloat64") {
 		return fmt.Errorf("couldn't decode BoundedSumFloat64 from bytes")
 	}
 	*bs = BoundedSumFloat64{
diff --git a/go/dpagg/variance.go b/go/dpagg/variance.go
index 7cde595..cd9f34b 100644
--- a/go/dpagg/variance.go
+++ b/go/dpagg/variance.go
@@ -332,6 +332,7 @@ func (bv *BoundedVariance) GobEncode() ([]byte, error) {
 		return nil, fmt.Errorf("BoundedVariance object cannot be serialized: %s", bv.state.errorMessage())
 	}
 	enc := encodableBoundedVariance{
+		Type:                            "BoundedVariance",
 		Lower:                           bv.lower,
 		Upper:                           bv.upper,
 		EncodableCount:                  &bv.Count,
@@ -347,7 +348,7 @@ func (bv *BoundedVariance) GobEncode() ([]byte, error) {
 func (bv *BoundedVariance) GobDecode(data []byte) error {
 	var enc encodableBoundedVariance
 	err := decode(&enc, data)
-	if err != nil {
+	if err != nil || !isType(enc.Type, "BoundedVariance") || enc.EncodableCount == nil || enc.EncodableNormalizedSum == nil || enc.EncodableNormalizedSumOfSquares == nil {
 		return fmt.Errorf("couldn't decode BoundedVariance from bytes")
 	}
 	*bv = BoundedVariance{
@@ -364,6 +365,7 @@ func (bv *BoundedVariance) GobDecode(data []byte) error {
 
 // encodableBoundedVariance can be encoded by the gob package.
 type encodableBoundedVariance struct {
+	Type                            string // Guards against decoding the bytes of another type.
 	Lower                           float64
 	Upper                           float64
 	EncodableCount                  *Count
-- 
2.43.0


From 6bc013cbe84d0aa1517730ee28f47db5cb06a76c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:23 +0000
Subject: [PATCH 19/51] fix: drop Go results when the threshold exceeds the
 range of int64

---
 go/dpagg/count.go   | 6 ++++--
 go/dpagg/helpers.go | 9 +++++++++
 go/dpagg/sum.go     | 3 ++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index 275d7bc..fc60cb5 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -202,7 +202,8 @@ func (c *Count) ThresholdedResult(thresholdDelta float64) (*int64, error) {
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold)) {
+	minResult, ok := ceilInt64(threshold)
+	if !ok || result < minResult {
 		return nil, nil
 	}
 	return &result, nil
@@ -246,7 +247,8 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold))+(preThreshold-1) {
+	minResult, ok := ceilInt64(threshold)
+	if !ok || minResult > math.MaxInt64-(preThreshold-1) || result < minResult+(preThreshold-1) {
 		// PreThreshold is set to 1 as the default, we subtract it here so it has no effect.
 		// This subtraction also ensures that partition might be kept if preThreshold = count.
 		return nil, nil
diff --git a/go/dpagg/helpers.go b/go/dpagg/helpers.go
index 820fb75..d8ed151 100644
--- a/go/dpagg/helpers.go
+++ b/go/dpagg/helpers.go
@@ -55,3 +55,12 @@ func ClampInt64(e, lower, upper int64) (int64, error) {
 	}
 	return e, nil
 }
+
+// ceilInt64 returns the smallest int64 that is at least x. It returns false if
+// there is none, for which the result of a conversion would be arbitrary.
+func ceilInt64(x float64) (int64, bool) {
+	if x = math.Ceil(x); !(x < math.MaxInt64) {
+		return 0, false
+	}
+	return int64(x), true
+}
diff --git a/go/dpagg/sum.go b/go/dpagg/sum.go
index ce0185c..837dcd1 100644
--- a/go/dpagg/sum.go
+++ b/go/dpagg/sum.go
@@ -268,7 +268,8 @@ func (bs *BoundedSumInt64) ThresholdedResult(thresholdDelta float64) (*int64, er
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	if result < int64(math.Ceil(threshold)) {
+	minResult, ok := ceilInt64(threshold)
+	if !ok || result < minResult {
 		return nil, nil
 	}
 	return &result, nil
-- 
2.43.0


From 93fbaf17d3bed238a567cec46088be38ad9ae737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 20/51] fix: refuse Go Laplace noise whose L1 sensitivity
 overflows

---
 go/noise/laplace_noise.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/noise/laplace_noise.go b/go/noise/laplace_noise.go
index 1bc33fe..48bdafe 100644
--- a/go/noise/laplace_noise.go
+++ b/go/noise/laplace_noise.go
@@ -17,6 +17,7 @@
 package noise
 
 import (
+	"fmt"
 	"math"
 
 	"github.com/google/differential-privacy/go/v3/checks"
@@ -71,6 +72,9 @@ func (laplace) AddNoiseInt64(x, l0Sensitivity, lInfSensitivity int64, epsilon, d
 	if err := checkArgsLaplace(l0Sensitivity, float64(lInfSensitivity), epsilon, delta); err != nil {
 		return 0, err
 	}
+	if lInfSensitivity > math.MaxInt64/l0Sensitivity {
+		return 0, fmt.Errorf("l0Sensitivity = %d and lInfSensitivity = %d are too high - the l1 sensitivity overflows", l0Sensitivity, lInfSensitivity)
+	}
 	return addLaplaceInt64(x, epsilon, lInfSensitivity*l0Sensitivity /* l1Sensitivity */), nil
 }
 
-- 
2.43.0


From 36ed9d67c730b82ab73e79da4ec571d18c59b787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:26 +0000
Subject: [PATCH 21/51] fix: refuse Go quantiles whose L0 sensitivity overflows

---
 go/dpagg/quantiles.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/go/dpagg/quantiles.go b/go/dpagg/quantiles.go
index 8138cb7..6e1335a 100644
--- a/go/dpagg/quantiles.go
+++ b/go/dpagg/quantiles.go
@@ -149,6 +149,9 @@ func NewBoundedQuantiles(opt *BoundedQuantilesOptions) (*BoundedQuantiles, error
 	// (the latter is realized if the privacy unit increments the exact same counters for each of
 	// their contributions to a particular partition). Setting the l_0 and l_inf sensitivity as
 	// follows yields the respective l_1 and l_2 values.
+	if maxPartitionsContributed > math.MaxInt64/int64(treeHeight) {
+		return nil, fmt.Errorf("NewBoundedQuantiles: MaxPartitionsContributed = %d and TreeHeight = %d are too high - the l0 sensitivity overflows", maxPartitionsContributed, treeHeight)
+	}
 	l0Sensitivity := int64(treeHeight) * maxPartitionsContributed
 	lInfSensitivity := float64(maxContributionsPerPartition)
 
-- 
2.43.0


From c15711a970006ae840ccab77b21c03485e31b78b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:54 +0000
Subject: [PATCH 22/51] fix: count Go quantile inputs just below the upper
 bound in the last leaf

---
 go/dpagg/quantiles.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/go/dpagg/quantiles.go b/go/dpagg/quantiles.go
index 6e1335a..7875cec 100644
--- a/go/dpagg/quantiles.go
+++ b/go/dpagg/quantiles.go
@@ -291,7 +291,8 @@ func (bq *BoundedQuantiles) Result(rank float64) (float64, error) {
 // the leaf nodes partition the range betwen lower and upper into intervals of equal size.
 func (bq *BoundedQuantiles) getIndex(value float64) int {
 	indexFromLeftmostLeaf := int((value - bq.lower) / (bq.upper - bq.lower) * float64(bq.numLeaves))
-	if value == bq.upper {
+	// The index of a value just below the upper bound can be rounded up to numLeaves, too.
+	if value == bq.upper || indexFromLeftmostLeaf >= bq.numLeaves {
 		indexFromLeftmostLeaf = bq.numLeaves - 1
 	}
 	return bq.leftmostLeafIndex + indexFromLeftmostLeaf
-- 
2.43.0


From 8c6d3472fa5677120f0dd4e63d6382300543460f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:46 +0000
Subject: [PATCH 23/51] fix: compute Go selection probabilities accurately for
 tiny epsilon

---
 go/dpagg/select_partition.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/go/dpagg/select_partition.go b/go/dpagg/select_partition.go
index c70d7f9..5d66770 100644
--- a/go/dpagg/select_partition.go
+++ b/go/dpagg/select_partition.go
@@ -319,10 +319,14 @@ func sumExpPowers(epsilon float64, minPower, numPowers int64) (float64, error) {
 	// is never NaN, and is only +∞ when necessary. The denominator in (2)
 	// satisfies 0 < (1-exp(-ε)) <= 1. The result of (2) is never NaN and
 	// only achieves +∞ when necessary overall.
-	if minPower >= 1 {
-		return expEpsilonPow(minPower-1) * (expEpsilonPow(numPowers) - 1) / (1 - expEpsilonPow(-1)), nil
+	//
+	// The differences are computed with expm1 where they would lose precision
+	// because ε is small.
+	denominator := -math.Expm1(-epsilon)
+	if minPower >= 1 || float64(numPowers)*epsilon < 1 {
+		return expEpsilonPow(minPower-1) * math.Expm1(float64(numPowers)*epsilon) / denominator, nil
 	}
-	return (expEpsilonPow(numPowers+minPower-1) - expEpsilonPow(minPower-1)) / (1 - expEpsilonPow(-1)), nil
+	return (expEpsilonPow(numPowers+minPower-1) - expEpsilonPow(minPower-1)) / denominator, nil
 }
 
 // keepPartitionProbability calculates the value of keepPartitionProbability
-- 
2.43.0


From abb982533d4939bdd0a5e10bb6a8b7bfe5a464dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:25 +0000
Subject: [PATCH 24/51] fix: allow for rounded noise in the integer thresholds
 of the Go library

---
 go/dpagg/count.go | 4 ++--
 go/dpagg/sum.go   | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/go/dpagg/count.go b/go/dpagg/count.go
index fc60cb5..bde08cf 100644
--- a/go/dpagg/count.go
+++ b/go/dpagg/count.go
@@ -202,7 +202,7 @@ func (c *Count) ThresholdedResult(thresholdDelta float64) (*int64, error) {
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	minResult, ok := ceilInt64(threshold)
+	minResult, ok := ceilInt64(threshold + 0.5)
 	if !ok || result < minResult {
 		return nil, nil
 	}
@@ -247,7 +247,7 @@ func (c *Count) PreThresholdedResult(preThreshold int64, thresholdDelta float64)
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	minResult, ok := ceilInt64(threshold)
+	minResult, ok := ceilInt64(threshold + 0.5)
 	if !ok || minResult > math.MaxInt64-(preThreshold-1) || result < minResult+(preThreshold-1) {
 		// PreThreshold is set to 1 as the default, we subtract it here so it has no effect.
 		// This subtraction also ensures that partition might be kept if preThreshold = count.
diff --git a/go/dpagg/sum.go b/go/dpagg/sum.go
index 837dcd1..081adfa 100644
--- a/go/dpagg/sum.go
+++ b/go/dpagg/sum.go
@@ -268,7 +268,7 @@ func (bs *BoundedSumInt64) ThresholdedResult(thresholdDelta float64) (*int64, er
 	}
 	// Rounding up the threshold when converting it to int64 to ensure that no DP guarantees
 	// are violated due to a result being returned that is less than the fractional threshold.
-	minResult, ok := ceilInt64(threshold)
+	minResult, ok := ceilInt64(threshold + 0.5)
 	if !ok || result < minResult {
 		return nil, nil
 	}
-- 
2.43.0


From 5d9e7f973c8b441c769b4d40831329b9064c4c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 25/51] fix: pbeam SelectPartitions and DistinctPerKey drop
 values with the key's type

dropValuesFn emits the partition key, but its output was bound to the type of
the value, so both aggregations failed on <K,V> collections whose key and
value types differ.
---
 privacy-on-beam/pbeam/distinct_per_key.go  | 2 +-
 privacy-on-beam/pbeam/select_partitions.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/privacy-on-beam/pbeam/distinct_per_key.go b/privacy-on-beam/pbeam/distinct_per_key.go
index 4dec25e..9274b36 100644
--- a/privacy-on-beam/pbeam/distinct_per_key.go
+++ b/privacy-on-beam/pbeam/distinct_per_key.go
@@ -215,7 +215,7 @@ func DistinctPerKey(s beam.Scope, pcol PrivatePCollection, params DistinctPerKey
 
 	// Drop V's, each <privacyKey, partitionKey> pair now corresponds to a unique V.
 	sampled = beam.SwapKV(s, sampled) // PCollection<ID, kv.Pair{K,V}>.
-	idK := beam.ParDo(s, &dropValuesFn{pcol.codec}, sampled, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.VType.T})
+	idK := beam.ParDo(s, &dropValuesFn{pcol.codec}, sampled, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.KType.T})
 
 	// Perform DP count.
 	pcol.col = idK
diff --git a/privacy-on-beam/pbeam/select_partitions.go b/privacy-on-beam/pbeam/select_partitions.go
index 93cd968..8e72052 100644
--- a/privacy-on-beam/pbeam/select_partitions.go
+++ b/privacy-on-beam/pbeam/select_partitions.go
@@ -73,7 +73,7 @@ func SelectPartitions(s beam.Scope, pcol PrivatePCollection, params SelectPartit
 		if pcol.codec == nil {
 			log.Fatalf("SelectPartitions: no codec found for the input PrivatePCollection.")
 		}
-		partitions = beam.ParDo(s, &dropValuesFn{pcol.codec}, pcol.col, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.VType.T})
+		partitions = beam.ParDo(s, &dropValuesFn{pcol.codec}, pcol.col, beam.TypeDefinition{Var: beam.WType, T: pcol.codec.KType.T})
 	}
 
 	// Second, we keep one contribution per user for each partition.
-- 
2.43.0


From 78fe85b17b50652fb83843bf0569c180ce6fe3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 26/51] fix: pbeam Sum, Mean, Quantiles and Variance consume
 the privacy budget

They only looked the budget up, so any number of these aggregations could use
the whole budget of one PrivacySpec.
---
 privacy-on-beam/pbeam/mean.go      | 4 ++--
 privacy-on-beam/pbeam/quantiles.go | 4 ++--
 privacy-on-beam/pbeam/sum.go       | 4 ++--
 privacy-on-beam/pbeam/variance.go  | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/privacy-on-beam/pbeam/mean.go b/privacy-on-beam/pbeam/mean.go
index 4a373fa..d3c63c9 100644
--- a/privacy-on-beam/pbeam/mean.go
+++ b/privacy-on-beam/pbeam/mean.go
@@ -142,12 +142,12 @@ func MeanPerKey(s beam.Scope, pcol PrivatePCollection, params MeanParams) beam.P
 	// Get privacy parameters.
 	spec := pcol.privacySpec
 	var err error
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(params.AggregationEpsilon, params.AggregationDelta)
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for Mean: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for Mean: %v", err)
 		}
diff --git a/privacy-on-beam/pbeam/quantiles.go b/privacy-on-beam/pbeam/quantiles.go
index b5f9334..b804d61 100644
--- a/privacy-on-beam/pbeam/quantiles.go
+++ b/privacy-on-beam/pbeam/quantiles.go
@@ -158,12 +158,12 @@ func QuantilesPerKey(s beam.Scope, pcol PrivatePCollection, params QuantilesPara
 	spec := pcol.privacySpec
 	var err error
 
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(params.AggregationEpsilon, params.AggregationDelta)
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for Quantiles: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for Quantiles: %v", err)
 		}
diff --git a/privacy-on-beam/pbeam/sum.go b/privacy-on-beam/pbeam/sum.go
index 25287bc..f8bdf5d 100644
--- a/privacy-on-beam/pbeam/sum.go
+++ b/privacy-on-beam/pbeam/sum.go
@@ -138,12 +138,12 @@ func SumPerKey(s beam.Scope, pcol PrivatePCollection, params SumParams) beam.PCo
 	// Get privacy parameters.
 	spec := pcol.privacySpec
 	var err error
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(params.AggregationEpsilon, params.AggregationDelta)
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for SumPerKey: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for SumPerKey: %v", err)
 		}
diff --git a/privacy-on-beam/pbeam/variance.go b/privacy-on-beam/pbeam/variance.go
index 83f055d..c3cf62d 100644
--- a/privacy-on-beam/pbeam/variance.go
+++ b/privacy-on-beam/pbeam/variance.go
@@ -166,13 +166,13 @@ func VarianceStatisticsPerKey(s beam.Scope, pcol PrivatePCollection, params Vari
 	// Get privacy parameters.
 	spec := pcol.privacySpec
 	var err error
-	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.get(
+	params.AggregationEpsilon, params.AggregationDelta, err = spec.aggregationBudget.consume(
 		params.AggregationEpsilon, params.AggregationDelta)
 	if err != nil {
 		log.Fatalf("Couldn't consume aggregation budget for VarianceStatistics: %v", err)
 	}
 	if params.PublicPartitions == nil {
-		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.get(
+		params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta, err = spec.partitionSelectionBudget.consume(
 			params.PartitionSelectionParams.Epsilon, params.PartitionSelectionParams.Delta)
 		if err != nil {
 			log.Fatalf("Couldn't consume partition selection budget for VarianceStatistics: %v", err)
-- 
2.43.0


From 2d5795e0a5d5b541997ddcbdfd86908d9889a0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:52 +0000
Subject: [PATCH 27/51] fix: pbeam SumPerKey releases a noisy zero for empty
 public partitions

The zero of an empty public partition was clamped to [MinValue, MaxValue], so
partitions that are not in the data were released with MinValue (or MaxValue)
instead of zero whenever zero is outside of the bounds.
---
 privacy-on-beam/pbeam/sum.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/privacy-on-beam/pbeam/sum.go b/privacy-on-beam/pbeam/sum.go
index f8bdf5d..7a925c1 100644
--- a/privacy-on-beam/pbeam/sum.go
+++ b/privacy-on-beam/pbeam/sum.go
@@ -19,6 +19,7 @@ package pbeam
 import (
 	"bytes"
 	"fmt"
+	"math"
 	"reflect"
 
 	log "github.com/golang/glog"
@@ -256,7 +257,15 @@ func addPublicPartitionsForSum(s beam.Scope, spec PrivacySpec, params SumParams,
 	if err != nil {
 		log.Fatalf("Couldn't get boundedSumFn for SumPerKey: %v", err)
 	}
-	noisyEmptyPublicPartitions := beam.CombinePerKey(s, boundedSumFn, publicPartitionsWithZeroValues)
+	// Zero has to stay zero even if it is not within [MinValue, MaxValue]. This doesn't change the
+	// sensitivity, so the noise is the same as the noise added to the actual data.
+	emptyParams := params
+	emptyParams.MinValue, emptyParams.MaxValue = math.Min(params.MinValue, 0), math.Max(params.MaxValue, 0)
+	emptyBoundedSumFn, err := newBoundedSumFn(spec, emptyParams, noiseKind, vKind, true)
+	if err != nil {
+		log.Fatalf("Couldn't get boundedSumFn for empty partitions of SumPerKey: %v", err)
+	}
+	noisyEmptyPublicPartitions := beam.CombinePerKey(s, emptyBoundedSumFn, publicPartitionsWithZeroValues)
 	// Third, compute noisy sums for partitions in the actual data.
 	sums := beam.CombinePerKey(s, boundedSumFn, partialSumKV)
 	// Fourth, co-group by actual noisy sums with noisy public partitions, emit noisy zero value for public partitions not found in data.
-- 
2.43.0


From 1320323cc175e8d11b3e7e0c4254e282baa5338b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:34:09 +0000
Subject: [PATCH 28/51] fix: quantile tree confidence intervals leave the
 noised counts alone

ComputeNoiseConfidenceIntervalBound read noised_tree_[i], which inserts 0 for a
node no earlier query had noised.  Later quantile queries of the same privatised
tree took those zeros for noised counts and answered from them.
---
 cc/algorithms/quantile-tree.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/cc/algorithms/quantile-tree.h b/cc/algorithms/quantile-tree.h
index 854d4a8..e2b16b9 100644
--- a/cc/algorithms/quantile-tree.h
+++ b/cc/algorithms/quantile-tree.h
@@ -378,9 +378,14 @@ class QuantileTree<T>::Privatized {
       std::unordered_map<int, ConfidenceInterval> child_confidence_intervals;
       for (int i = leftmost_child_index; i <= rightmost_child_index; i++) {
         ConfidenceInterval ci;
-        ci.set_lower_bound(noised_tree_[i] +
+        // Reading must not insert a count: GetNoisedCount() would take it for
+        // one that has been noised.
+        const auto noised_node = noised_tree_.find(i);
+        const int64_t noised_count =
+            noised_node == noised_tree_.end() ? 0 : noised_node->second;
+        ci.set_lower_bound(noised_count +
                            zero_confidence_interval.lower_bound());
-        ci.set_upper_bound(noised_tree_[i] +
+        ci.set_upper_bound(noised_count +
                            zero_confidence_interval.upper_bound());
         child_confidence_intervals[i] = ci;
       }
-- 
2.43.0


From 3f596ce203a42e4292622f9cc4c4980aa25785e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:18 +0000
Subject: [PATCH 29/51] fix: BoundedSum with approximate bounds merges bounds
 before sums

Merge added the partial sums before it merged the bounds summary.  When the
bounds could not be merged it returned an error with the sums already added, so
the entries counted in the sum without counting in the bounds.  BoundedMean and
BoundedVariance already merge the bounds first.
---
 cc/algorithms/bounded-sum.h | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/cc/algorithms/bounded-sum.h b/cc/algorithms/bounded-sum.h
index 5d50923..6802179 100644
--- a/cc/algorithms/bounded-sum.h
+++ b/cc/algorithms/bounded-sum.h
@@ -289,7 +289,7 @@ class BoundedSumWithApproxBounds : public BoundedSum<T> {
           "Cannot merge summary with no bounded sum data.");
     }
 
-    // Add bounded sum partial values.
+    // Check bounded sum summary.
     BoundedSumSummary bs_summary;
     if (!summary.data().UnpackTo(&bs_summary)) {
       return absl::InternalError("Bounded sum summary unable to be unpacked.");
@@ -300,14 +300,9 @@ class BoundedSumWithApproxBounds : public BoundedSum<T> {
           "Merged BoundedSum must have the same amount of partial sum "
           "values as this BoundedSum.");
     }
-    for (int i = 0; i < pos_sum_.size(); ++i) {
-      pos_sum_[i] += GetValue<T>(bs_summary.pos_sum(i));
-    }
-    for (int i = 0; i < neg_sum_.size(); ++i) {
-      neg_sum_[i] += GetValue<T>(bs_summary.neg_sum(i));
-    }
 
-    // Merge bounds summary.
+    // Check and merge bounds summary.  This is the first operation that
+    // modifies the internal state.
     if (bs_summary.has_bounds()) {
       RETURN_IF_ERROR(bounds_provider_->Merge(bs_summary.bounds()));
     } else if (bs_summary.has_bounds_summary()) {
@@ -319,6 +314,14 @@ class BoundedSumWithApproxBounds : public BoundedSum<T> {
       RETURN_IF_ERROR(bounds_provider_->Merge(bounds_summary));
     }
 
+    // Add bounded sum partial values.
+    for (int i = 0; i < pos_sum_.size(); ++i) {
+      pos_sum_[i] += GetValue<T>(bs_summary.pos_sum(i));
+    }
+    for (int i = 0; i < neg_sum_.size(); ++i) {
+      neg_sum_[i] += GetValue<T>(bs_summary.neg_sum(i));
+    }
+
     return absl::OkStatus();
   }
 
-- 
2.43.0


From 44d857454878cd1e1b683574b49439f24a9a7d21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:55:39 +0000
Subject: [PATCH 30/51] fix: BoundedMean noises the normalized sum of integers

For integral types the noise was added to the raw sum and the raw count times
the midpoint was subtracted from the noised sum.  The released value then
depended on the raw count, and the sensitivity of the sum mechanism, half the
range of the bounds, is that of the normalized sum and not of the raw one.
---
 cc/algorithms/bounded-mean.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cc/algorithms/bounded-mean.h b/cc/algorithms/bounded-mean.h
index aafbbea..177874c 100644
--- a/cc/algorithms/bounded-mean.h
+++ b/cc/algorithms/bounded-mean.h
@@ -196,12 +196,13 @@ class BoundedMeanWithFixedBounds : public BoundedMean<T> {
     BoundedMeanResult result;
     result.noised_count = std::max(
         1.0, static_cast<double>(count_mechanism_->AddNoise(partial_count_)));
-    result.noised_sum = sum_mechanism_->AddNoise(partial_sum_);
+    double normalized_sum = partial_sum_;
     if constexpr (!std::is_floating_point<T>::value) {
       // Normalize the sum for integers. In floating point case, the sum is
       // normalized, since each entry is normalized on addition.
-      result.noised_sum -= partial_count_ * GetMidPoint();
+      normalized_sum -= partial_count_ * GetMidPoint();
     }
+    result.noised_sum = sum_mechanism_->AddNoise(normalized_sum);
     result.noised_mean =
         (result.noised_sum / result.noised_count) + GetMidPoint();
     return result;
-- 
2.43.0


From 938fef0371795960401a7b561582c0dbcf6c1f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:59 +0000
Subject: [PATCH 31/51] fix: BoundedVariance does not truncate the midpoints of
 integer bounds

The midpoints of the bounds and of their squares were computed with integer
division for integral types, while the sensitivities are half the exact ranges.
With bounds 0 and 1 one entry moved the normalized sum by 1 where the mechanism
was told 0.5.
---
 cc/algorithms/bounded-variance.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cc/algorithms/bounded-variance.h b/cc/algorithms/bounded-variance.h
index de82899..f0ec94a 100644
--- a/cc/algorithms/bounded-variance.h
+++ b/cc/algorithms/bounded-variance.h
@@ -159,9 +159,9 @@ class BoundedVariance : public Algorithm<T> {
   static double MidpointOfSquares(T lower, T upper) {
     DCHECK_GE(upper, lower);
     if (0 > lower && 0 < upper) {
-      return std::max(lower * lower, upper * upper) / 2;
+      return std::max(lower * lower, upper * upper) / 2.0;
     }
-    return lower * lower + (upper * upper - lower * lower) / 2;
+    return lower * lower + (upper * upper - lower * lower) / 2.0;
   }
 
   // Friend class for testing only
@@ -245,7 +245,7 @@ class BoundedVarianceWithFixedBounds : public BoundedVariance<T> {
 
  protected:
   absl::StatusOr<Output> GenerateResult(double noise_interval_level) override {
-    const double sum_midpoint = lower_ + ((upper_ - lower_) / 2);
+    const double sum_midpoint = lower_ + ((upper_ - lower_) / 2.0);
     const double sum_of_squares_midpoint =
         BoundedVariance<T>::MidpointOfSquares(lower_, upper_);
 
@@ -482,7 +482,7 @@ class BoundedVarianceWithApproxBounds : public BoundedVariance<T> {
     const double noised_count = count_mechanism_->AddNoise(partial_count_);
 
     // Calculate noised normalized sum
-    const T sum_midpoint = lower + ((upper - lower) / 2);
+    const double sum_midpoint = lower + ((upper - lower) / 2.0);
     ASSIGN_OR_RETURN(
         std::unique_ptr<NumericalMechanism> sum_mechanism,
         BoundedVariance<T>::BuildSumMechanism(
-- 
2.43.0


From 64d5003014c5387fd699aaa321d1be6fb9b3108e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:55 +0000
Subject: [PATCH 32/51] fix: Laplace partition selection picks its tail by the
 adjusted delta

CalculateThreshold chose between the two branches of the Laplace quantile by
delta, and applied the branch to the adjusted delta.  With delta above 0.5 and
several partitions the adjusted delta is below 0.5, and the threshold came out
too low: with delta 0.9 and ten partitions a single user was kept with 0.315
where 0.206 is allowed.
---
 cc/algorithms/partition-selection.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cc/algorithms/partition-selection.h b/cc/algorithms/partition-selection.h
index e6808dd..0ee3e86 100644
--- a/cc/algorithms/partition-selection.h
+++ b/cc/algorithms/partition-selection.h
@@ -402,7 +402,7 @@ class LaplacePartitionSelection : public PartitionSelectionStrategy {
     ASSIGN_OR_RETURN(double adjusted_delta,
                      CalculateAdjustedDelta(delta, max_partitions_contributed));
 
-    if (delta > 0.5) {
+    if (adjusted_delta > 0.5) {
       return 1 + CalculateDiversity(epsilon, max_partitions_contributed) *
                      std::log(2 * (1 - adjusted_delta));
     } else {
-- 
2.43.0


From e038698eb1d01657fa1bbadb99ae44e398f36bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:35 +0000
Subject: [PATCH 33/51] fix: partition selection keeps the maximum partitions
 as int64

SetMaxPartitionsContributed takes an int64_t, but the strategy stored it as an
int and NearTruncatedGeometricPartitionSelection divided epsilon by the
truncated value: with 2^32 + 1 partitions it used the full epsilon for each.
---
 cc/algorithms/partition-selection.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cc/algorithms/partition-selection.h b/cc/algorithms/partition-selection.h
index 0ee3e86..7ddaef9 100644
--- a/cc/algorithms/partition-selection.h
+++ b/cc/algorithms/partition-selection.h
@@ -118,7 +118,7 @@ class PartitionSelectionStrategy {
  private:
   double epsilon_;
   double delta_;
-  int max_partitions_contributed_;
+  int64_t max_partitions_contributed_;
   double adjusted_delta_;
   const int pre_threshold_;
 };
@@ -248,13 +248,13 @@ class NearTruncatedGeometricPartitionSelection
 
  protected:
   NearTruncatedGeometricPartitionSelection(double epsilon, double delta,
-                                           int max_partitions,
+                                           int64_t max_partitions,
                                            double adjusted_delta)
       : NearTruncatedGeometricPartitionSelection(epsilon, delta, max_partitions,
                                                  adjusted_delta, 1) {}
 
   NearTruncatedGeometricPartitionSelection(double epsilon, double delta,
-                                           int max_partitions,
+                                           int64_t max_partitions,
                                            double adjusted_delta,
                                            int pre_threshold)
       : PartitionSelectionStrategy(epsilon, delta, max_partitions,
-- 
2.43.0


From 7fcb5a4512cad5434b106d76ce935817ba8ddc66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:26 +0000
Subject: [PATCH 34/51] fix: Gaussian mechanism built from a deviation reports
 that deviation

GetVariance and NoiseConfidenceInterval recomputed the deviation from epsilon,
delta and the sensitivity, all 0 when SetStandardDeviation was used, and
reported variance 0 and an interval of width 0 around the noised value.
---
 cc/algorithms/numerical-mechanisms.cc | 2 +-
 cc/algorithms/numerical-mechanisms.h  | 3 +--
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/cc/algorithms/numerical-mechanisms.cc b/cc/algorithms/numerical-mechanisms.cc
index 7db1dd1..a4cb0ba 100644
--- a/cc/algorithms/numerical-mechanisms.cc
+++ b/cc/algorithms/numerical-mechanisms.cc
@@ -349,7 +349,7 @@ int64_t GaussianMechanism::MemoryUsed() {
 NumericalMechanism::NoiseConfidenceIntervalResult
 GaussianMechanism::UncheckedNoiseConfidenceInterval(
     double confidence_level, double noised_result) const {
-  const double stddev = CalculateStddev(GetEpsilon(), delta_, l2_sensitivity_);
+  const double stddev = CalculateStddev();
   // calculated using the symmetric properties of the Gaussian distribution
   // and the cumulative distribution function for the distribution
   double bound =
diff --git a/cc/algorithms/numerical-mechanisms.h b/cc/algorithms/numerical-mechanisms.h
index c261c42..2d0c326 100644
--- a/cc/algorithms/numerical-mechanisms.h
+++ b/cc/algorithms/numerical-mechanisms.h
@@ -425,8 +425,7 @@ class GaussianMechanism : public NumericalMechanism {
   double GetL2Sensitivity() const { return l2_sensitivity_; }
 
   double GetVariance() const override {
-    return std::pow(CalculateStddev(GetEpsilon(), GetDelta(), l2_sensitivity_),
-                    2);
+    return std::pow(CalculateStddev(), 2);
   }
 
   double Cdf(double x) const override {
-- 
2.43.0


From babd530e98b239eab127543cd4a429a671a0ee46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:21 +0000
Subject: [PATCH 35/51] fix: QuantileTree does not wrap its L0 sensitivity in
 32 bits

max_partitions_contributed_to times the tree height was computed in int: 2^30
partitions and a height of 4 gave 0, other values a small positive number and
with it far too little noise.
---
 cc/algorithms/quantile-tree.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cc/algorithms/quantile-tree.h b/cc/algorithms/quantile-tree.h
index e2b16b9..7a83fc8 100644
--- a/cc/algorithms/quantile-tree.h
+++ b/cc/algorithms/quantile-tree.h
@@ -94,8 +94,9 @@ class QuantileTree {
         std::unique_ptr<NumericalMechanism> mech,
         params.mechanism_builder->SetEpsilon(params.epsilon)
             .SetDelta(params.delta)
-            .SetL0Sensitivity(params.max_partitions_contributed_to *
-                              tree_.GetHeight())
+            .SetL0Sensitivity(
+                static_cast<double>(params.max_partitions_contributed_to) *
+                tree_.GetHeight())
             .SetLInfSensitivity(params.max_contributions_per_partition)
             .Build());
     return Privatized(upper_, lower_, std::move(mech), tree_);
-- 
2.43.0


From 56acb38fc37109b303d40970605e141538f067f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:35 +0000
Subject: [PATCH 36/51] fix: a refused merge of a Java mean or variance has no
 effect

BoundedMean.mergeWith and BoundedVariance.mergeWith merged their parts one
after the other, each checked on its own. When a later part was refused (a
truncated summary, or one made of parts with different parameters) the earlier
parts had been merged already: the caller saw an exception and the released
value was that of a sum and a count over different entries. All parts are now
checked first.
---
 .../com/google/privacy/differentialprivacy/BoundedMean.java  | 3 +++
 .../com/google/privacy/differentialprivacy/BoundedSum.java   | 2 +-
 .../google/privacy/differentialprivacy/BoundedVariance.java  | 5 +++++
 java/main/com/google/privacy/differentialprivacy/Count.java  | 2 +-
 4 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/BoundedMean.java b/java/main/com/google/privacy/differentialprivacy/BoundedMean.java
index 576115a..7b174f0 100644
--- a/java/main/com/google/privacy/differentialprivacy/BoundedMean.java
+++ b/java/main/com/google/privacy/differentialprivacy/BoundedMean.java
@@ -321,6 +321,9 @@ public class BoundedMean {
       throw new IllegalArgumentException(pbe);
     }
 
+    // Check both parts before merging either of them, so that a failed merge has no effect.
+    this.normalizedSum.checkMergeParametersAreEqual(otherSummaryParsed.getSumSummary());
+    this.count.checkMergeParametersAreEqual(otherSummaryParsed.getCountSummary());
     this.normalizedSum.mergeWith(otherSummaryParsed.getSumSummary().toByteArray());
     this.count.mergeWith(otherSummaryParsed.getCountSummary().toByteArray());
   }
diff --git a/java/main/com/google/privacy/differentialprivacy/BoundedSum.java b/java/main/com/google/privacy/differentialprivacy/BoundedSum.java
index 40d2201..640bfdf 100644
--- a/java/main/com/google/privacy/differentialprivacy/BoundedSum.java
+++ b/java/main/com/google/privacy/differentialprivacy/BoundedSum.java
@@ -223,7 +223,7 @@ public class BoundedSum {
     this.sum += otherSummaryParsed.getPartialSum().getFloatValue();
   }
 
-  private void checkMergeParametersAreEqual(BoundedSumSummary summary) {
+  void checkMergeParametersAreEqual(BoundedSumSummary summary) {
     DpPreconditions.checkMergeMechanismTypesAreEqual(
         params.noise().getMechanismType(), summary.getMechanismType());
     DpPreconditions.checkMergeEpsilonAreEqual(params.epsilon(), summary.getEpsilon());
diff --git a/java/main/com/google/privacy/differentialprivacy/BoundedVariance.java b/java/main/com/google/privacy/differentialprivacy/BoundedVariance.java
index a06a618..5dbda53 100644
--- a/java/main/com/google/privacy/differentialprivacy/BoundedVariance.java
+++ b/java/main/com/google/privacy/differentialprivacy/BoundedVariance.java
@@ -245,6 +245,11 @@ public final class BoundedVariance {
       throw new IllegalArgumentException(pbe);
     }
 
+    // Check all parts before merging any of them, so that a failed merge has no effect.
+    this.normalizedSumOfSquares.checkMergeParametersAreEqual(
+        otherSummaryParsed.getSumOfSquaresSummary());
+    this.normalizedSum.checkMergeParametersAreEqual(otherSummaryParsed.getSumSummary());
+    this.count.checkMergeParametersAreEqual(otherSummaryParsed.getCountSummary());
     this.normalizedSumOfSquares.mergeWith(
         otherSummaryParsed.getSumOfSquaresSummary().toByteArray());
     this.normalizedSum.mergeWith(otherSummaryParsed.getSumSummary().toByteArray());
diff --git a/java/main/com/google/privacy/differentialprivacy/Count.java b/java/main/com/google/privacy/differentialprivacy/Count.java
index 1dcbccc..864f05e 100644
--- a/java/main/com/google/privacy/differentialprivacy/Count.java
+++ b/java/main/com/google/privacy/differentialprivacy/Count.java
@@ -290,7 +290,7 @@ public class Count {
     this.rawCount += otherSummaryParsed.getCount();
   }
 
-  private void checkMergeParametersAreEqual(CountSummary summary) {
+  void checkMergeParametersAreEqual(CountSummary summary) {
     DpPreconditions.checkMergeMechanismTypesAreEqual(
         params.noise().getMechanismType(), summary.getMechanismType());
     DpPreconditions.checkMergeEpsilonAreEqual(params.epsilon(), summary.getEpsilon());
-- 
2.43.0


From 5a76ad14bea1ec01c7878d8a41d9e7b30159b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:22 +0000
Subject: [PATCH 37/51] fix: the sensitivity of a Java sum of longs bounded by
 Long.MIN_VALUE does not overflow

---
 .../google/privacy/differentialprivacy/LongBoundedSum.java | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java b/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java
index 6d804a8..296d428 100644
--- a/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java
+++ b/java/main/com/google/privacy/differentialprivacy/LongBoundedSum.java
@@ -225,7 +225,12 @@ public class LongBoundedSum {
   }
 
   private static long getLInfSensitivity(long lower, long upper, int maxContributionsPerPartition) {
-    return max(abs(lower), abs(upper)) * maxContributionsPerPartition;
+    return max(saturatedAbs(lower), saturatedAbs(upper)) * maxContributionsPerPartition;
+  }
+
+  /** The absolute value of Long.MIN_VALUE does not fit a long, it is rounded to Long.MAX_VALUE. */
+  private static long saturatedAbs(long value) {
+    return value == Long.MIN_VALUE ? Long.MAX_VALUE : abs(value);
   }
 
   @AutoValue
-- 
2.43.0


From 9ab45a465cc512d6a21aac1f816a7ba0d7404b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:22 +0000
Subject: [PATCH 38/51] fix: the L0 sensitivity of Java quantiles does not
 overflow

---
 .../privacy/differentialprivacy/BoundedQuantiles.java | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
index fde81f6..23c18c0 100644
--- a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
+++ b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
@@ -690,6 +690,16 @@ public class BoundedQuantiles {
             branchingFactor);
       }
 
+      private static void checkL0SensitivityOverflow(
+          int treeHeight, int maxPartitionsContributed) {
+        checkArgument(
+            (long) treeHeight * maxPartitionsContributed <= Integer.MAX_VALUE,
+            "Tree height and maxPartitionsContributed are too high - the L0Sensitivity overflows. "
+                + "Provided values: tree height = %s, maxPartitionsContributed = %s",
+            treeHeight,
+            maxPartitionsContributed);
+      }
+
       abstract BoundedQuantiles.Params autoBuild();
 
       public BoundedQuantiles build() {
@@ -703,6 +713,7 @@ public class BoundedQuantiles {
         DpPreconditions.checkBoundsNotEqual(params.lower(), params.upper());
         checkTreeHeight(params.treeHeight());
         checkBranchingFactor(params.branchingFactor());
+        checkL0SensitivityOverflow(params.treeHeight(), params.maxPartitionsContributed());
 
         return new BoundedQuantiles(params);
       }
-- 
2.43.0


From 96d43c1a0fba1378e123eea5f54f07f033925885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:22 +0000
Subject: [PATCH 39/51] fix: a Java quantile entry just below the upper bound
 stays in the last leaf

---
 .../privacy/differentialprivacy/BoundedQuantiles.java | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
index 23c18c0..6c17559 100644
--- a/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
+++ b/java/main/com/google/privacy/differentialprivacy/BoundedQuantiles.java
@@ -134,9 +134,14 @@ public class BoundedQuantiles {
     return leftmostLeafIndex
         + (value == params.upper()
             ? numberOfLeaves - 1
-            : (int)
-                Math.floor(
-                    (value - params.lower()) / (params.upper() - params.lower()) * numberOfLeaves));
+            // The quotient of a value just below the upper bound may be rounded to 1.
+            : min(
+                numberOfLeaves - 1,
+                (int)
+                    Math.floor(
+                        (value - params.lower())
+                            / (params.upper() - params.lower())
+                            * numberOfLeaves)));
   }
 
   /**
-- 
2.43.0


From 57ec01345082d0d50d6217d8f60ee08073f785ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:02 +0000
Subject: [PATCH 40/51] fix: compute Java selection probabilities accurately
 for tiny epsilon

---
 .../differentialprivacy/PreAggSelectPartition.java    | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java b/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java
index 64d3cb6..afacca4 100644
--- a/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java
+++ b/java/main/com/google/privacy/differentialprivacy/PreAggSelectPartition.java
@@ -292,15 +292,16 @@ public class PreAggSelectPartition {
     (e^((numPowers + minPower - 1) * ε) - exp((minPower - 1) * ε)) is never NaN, and is only +∞ when
     necessary. The denominator in (2) satisfies 0 < (1-exp(-ε)) <= 1. The result of (2) is never NaN
     and only achieves +∞ when necessary overall.
+
+    The differences are computed with expm1 where they would lose precision because ε is small.
     */
-    if (minPower >= 1) {
-      return Math.exp((minPower - 1) * epsilon)
-          * (Math.expm1(numPowers * epsilon))
-          / (1 - Math.exp(-epsilon));
+    double denominator = -Math.expm1(-epsilon);
+    if (minPower >= 1 || numPowers * epsilon < 1) {
+      return Math.exp((minPower - 1) * epsilon) * Math.expm1(numPowers * epsilon) / denominator;
     }
 
     return (Math.exp((numPowers + minPower - 1) * epsilon) - Math.exp((minPower - 1) * epsilon))
-        / (1 - Math.exp(-epsilon));
+        / denominator;
   }
 
   private void checkMergeParametersAreEqual(PreAggSelectPartitionSummary otherCount) {
-- 
2.43.0


From 1edfb90ab0b86a95496c0c361f80958b1942e7ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:10 +0000
Subject: [PATCH 41/51] fix: Java approximate bounds put powers of two into the
 documented bin

---
 .../differentialprivacy/ApproximateBounds.java      | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java b/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java
index bf88aca..1358255 100644
--- a/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java
+++ b/java/main/com/google/privacy/differentialprivacy/ApproximateBounds.java
@@ -19,9 +19,7 @@ package com.google.privacy.differentialprivacy;
 import static com.google.common.base.Preconditions.checkArgument;
 import static com.google.common.base.Preconditions.checkState;
 import static java.lang.Math.abs;
-import static java.lang.Math.ceil;
 import static java.lang.Math.expm1;
-import static java.lang.Math.log;
 import static java.lang.Math.log1p;
 import static java.lang.Math.max;
 import static java.lang.Math.min;
@@ -472,9 +470,14 @@ public class ApproximateBounds {
         }
 
         // Calculate the most significant bit and clamp to a valid bin index.
-        // x satisfies scale * base^x = abs(value)
-        double x = (log(abs(value)) - log(scale)) / log(base);
-        int msb = (int) ceil(x);
+        // The smallest msb that satisfies abs(value) <= scale * base^msb is computed from the
+        // exponents, since the logarithms of values on a bin boundary are inexact. Note that scale is
+        // a power of two and base is 2.
+        int exponent = Math.getExponent(abs(value));
+        int msb = exponent - Math.getExponent(scale);
+        if (abs(value) > Math.scalb(1.0, exponent)) {
+          ++msb;
+        }
         return max(0, min(msb, numPositiveBins - 1));
       }
     }
-- 
2.43.0


From 4e79e12353d82661f8dd3fe90db6d767e25443ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:05 +0000
Subject: [PATCH 42/51] fix: a C++ PLD of continuous noise has no negative
 masses

---
 cc/accounting/privacy_loss_distribution.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cc/accounting/privacy_loss_distribution.cc b/cc/accounting/privacy_loss_distribution.cc
index 6938e9f..a2c0f79 100644
--- a/cc/accounting/privacy_loss_distribution.cc
+++ b/cc/accounting/privacy_loss_distribution.cc
@@ -129,6 +129,9 @@ PrivacyLossDistribution::CreateForAdditiveNoise(
       upper_x = std::min(tail.upper_x_truncation,
                          mechanism_privacy_loss.InversePrivacyLoss(
                              discretization_interval * rounded_down_value));
+      // Due to rounding, discretization_interval * rounded_down_value may exceed
+      // the privacy loss at lower_x; the interval is then empty.
+      upper_x = std::max(lower_x, upper_x);
       // Each x in [lower_x, upper_x] results in privacy loss that lies in
       // [discretization_interval * rounded_down_value,
       // discretization_interval * (rounded_down_value + 1)]
-- 
2.43.0


From 145a8d7fe34173442e65d24ccd70fe278685a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:39 +0000
Subject: [PATCH 43/51] fix: truncation does not raise the infinity mass of a
 C++ PLD above one

---
 cc/accounting/privacy_loss_distribution.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cc/accounting/privacy_loss_distribution.cc b/cc/accounting/privacy_loss_distribution.cc
index a2c0f79..cac9cc2 100644
--- a/cc/accounting/privacy_loss_distribution.cc
+++ b/cc/accounting/privacy_loss_distribution.cc
@@ -290,7 +290,7 @@ absl::Status PrivacyLossDistribution::Compose(
   if (estimate_type_ == EstimateType::kPessimistic) {
     // In the pessimistic case, the truncated probability mass needs to be
     // treated as if they were infinity.
-    new_infinity_mass += tail_mass_truncation;
+    new_infinity_mass = std::min(1.0, new_infinity_mass + tail_mass_truncation);
   }
 
   ProbabilityMassFunction new_pmf = Convolve(
@@ -357,7 +357,8 @@ void PrivacyLossDistribution::Compose(int num_times,
       probability_mass_function_, num_times, effective_tail_mass_truncation);
 
   probability_mass_function_ = new_pmf;
-  infinity_mass_ = new_infinity_mass + effective_tail_mass_truncation;
+  infinity_mass_ =
+      std::min(1.0, new_infinity_mass + effective_tail_mass_truncation);
 }
 
 double PrivacyLossDistribution::GetDeltaForEpsilon(double epsilon) const {
-- 
2.43.0


From 51fd4e750e23fe09754dc539e8e18c64c8681002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:19 +0000
Subject: [PATCH 44/51] fix: C++ PLDs whose mass is all at infinity can be
 composed and restored

---
 cc/accounting/convolution.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cc/accounting/convolution.cc b/cc/accounting/convolution.cc
index 1fe9c11..96fe774 100644
--- a/cc/accounting/convolution.cc
+++ b/cc/accounting/convolution.cc
@@ -52,6 +52,9 @@ UnpackedProbabilityMassFunction UnpackProbabilityMassFunction(
 
 ProbabilityMassFunction CreateProbabilityMassFunction(
     const UnpackedProbabilityMassFunction& input, double tail_mass_truncation) {
+  if (input.items.empty()) {
+    return ProbabilityMassFunction();
+  }
   int lower_truncation_index = -1;
   double lower_truncation_mass = 0;
   do {
@@ -80,6 +83,10 @@ ProbabilityMassFunction CreateProbabilityMassFunction(
 ProbabilityMassFunction Convolve(const ProbabilityMassFunction& x,
                                  const ProbabilityMassFunction& y,
                                  double tail_mass_truncation) {
+  if (x.empty() || y.empty()) {
+    // All the mass is at infinity, so there is nothing to convolve.
+    return ProbabilityMassFunction();
+  }
   UnpackedProbabilityMassFunction x_map = UnpackProbabilityMassFunction(x);
   UnpackedProbabilityMassFunction y_map = UnpackProbabilityMassFunction(y);
 
@@ -169,6 +176,10 @@ ConvolutionTruncationBounds ComputeConvolutionTruncationBounds(
 
 ProbabilityMassFunction Convolve(const ProbabilityMassFunction& x,
                                  int num_times, double tail_mass_truncation) {
+  if (x.empty()) {
+    // All the mass is at infinity, so there is nothing to convolve.
+    return ProbabilityMassFunction();
+  }
   UnpackedProbabilityMassFunction x_map = UnpackProbabilityMassFunction(x);
 
   const ConvolutionTruncationBounds truncation_bounds =
-- 
2.43.0


From 27c1f7e8d260a1bbb2252dfd58a21095d1b2100c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:19 +0000
Subject: [PATCH 45/51] fix: C++ convolution does not write past its buffer
 when it truncates a lot

---
 cc/accounting/convolution.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cc/accounting/convolution.cc b/cc/accounting/convolution.cc
index 96fe774..a0304fa 100644
--- a/cc/accounting/convolution.cc
+++ b/cc/accounting/convolution.cc
@@ -14,6 +14,7 @@
 
 #include "accounting/convolution.h"
 
+#include <algorithm>
 #include <cmath>
 #include <complex>
 #include <optional>
@@ -185,9 +186,15 @@ ProbabilityMassFunction Convolve(const ProbabilityMassFunction& x,
   const ConvolutionTruncationBounds truncation_bounds =
       ComputeConvolutionTruncationBounds(x_map, num_times,
                                          tail_mass_truncation);
+  if (truncation_bounds.lower_bound > truncation_bounds.upper_bound) {
+    // The mass on both sides is within the tails that may be truncated.
+    return ProbabilityMassFunction();
+  }
   const int output_size =
       truncation_bounds.upper_bound - truncation_bounds.lower_bound + 1;
-  KissFftWrapper wrapper(output_size);
+  // The output may be truncated to less than the size of the input.
+  KissFftWrapper wrapper(
+      std::max(output_size, static_cast<int>(x_map.items.size())));
   const int real_size = wrapper.EfficientRealSize();
   const int complex_size = wrapper.ComplexSize();
 
-- 
2.43.0


From 78f7d3122ff43caf4eb3582f97e6422b4a293ea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:45:25 +0000
Subject: [PATCH 46/51] fix: C++ InverseMonotoneFunction ends when the
 tolerance is below the spacing of doubles

---
 cc/accounting/common/common.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cc/accounting/common/common.cc b/cc/accounting/common/common.cc
index 61ffcd6..d38da88 100644
--- a/cc/accounting/common/common.cc
+++ b/cc/accounting/common/common.cc
@@ -77,6 +77,9 @@ absl::StatusOr<double> InverseMonotoneFunction(
   while (upper_x - lower_x > tolerance) {
     double mid_x = (upper_x + lower_x) / 2;
     if (search_parameters.discrete) mid_x = std::floor(mid_x);
+    // There may be no point between the bounds when the tolerance is below the
+    // spacing of doubles.
+    if (mid_x <= lower_x || mid_x >= upper_x) break;
 
     double func_value;
     ASSIGN_OR_RETURN(func_value, func(mid_x));
-- 
2.43.0


From 9753c6bd38e54ebece08ea76cf3cbb6cb4c4993c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:55 +0000
Subject: [PATCH 47/51] fix: SQL aggregates leave NULL entries out

The accum functions are not strict, so rows whose entry is NULL reach them. They
read the undefined value of a NULL argument and added it (usually a zero) to the
statistic, and ANON_COUNT counted them.
---
 cc/postgres/anon_func.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cc/postgres/anon_func.cc b/cc/postgres/anon_func.cc
index a063324..70f671e 100644
--- a/cc/postgres/anon_func.cc
+++ b/cc/postgres/anon_func.cc
@@ -73,6 +73,10 @@ PG_FUNCTION_INFO_V1(anon_ntile_extract_int);
 
 template <typename DpFunction>
 void add_arg_entry(PG_FUNCTION_ARGS, DpFunction* func, bool is_integral) {
+  // The accum functions are not strict: rows whose entry is NULL arrive here.
+  if (PG_ARGISNULL(1)) {
+    return;
+  }
   bool entry_added;
   if (is_integral) {
     entry_added = func->AddEntry(PG_GETARG_INT64(1));
@@ -195,7 +199,7 @@ Datum anon_count_accum(PG_FUNCTION_ARGS) {
   }
 
   // Add a placeholder entry for each element counted.
-  if (!arg0->AddEntry(1)) {
+  if (!PG_ARGISNULL(1) && !arg0->AddEntry(1)) {
     ereport(ERROR,
             (errcode(ERRCODE_INVALID_PARAMETER_VALUE),
             errmsg("Adding entry to dp function failed.")));
-- 
2.43.0


From 1bd32fdcc721a8854417ed3f82a3ab4eecdc3e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:55 +0000
Subject: [PATCH 48/51] fix: SQL aggregates refuse NULL parameters

The value of a NULL argument is undefined; it was taken for the epsilon or bound.
---
 cc/postgres/anon_func.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/cc/postgres/anon_func.cc b/cc/postgres/anon_func.cc
index 70f671e..044227a 100644
--- a/cc/postgres/anon_func.cc
+++ b/cc/postgres/anon_func.cc
@@ -27,6 +27,16 @@ PG_MODULE_MAGIC;
     elog(ERROR, "Anon function called in non-aggregate context"); \
   }
 
+// The accum functions are not strict: a NULL parameter must be refused explicitly.
+#define CHECK_PARAMETERS_NOT_NULL(fcinfo)                         \
+  for (int i = 2; i < PG_NARGS(); ++i) {                          \
+    if (PG_ARGISNULL(i)) {                                        \
+      ereport(ERROR,                                              \
+              (errcode(ERRCODE_INVALID_PARAMETER_VALUE),          \
+              errmsg("Anon function called with a NULL parameter.")));\
+    }                                                             \
+  }
+
 /*
  * Headers for functions available in PostgreSQL.
  */
@@ -99,6 +109,7 @@ Datum bounded_accum(PG_FUNCTION_ARGS, bool with_bounds, bool is_integral) {
 
   // Create DpFunction if it doesn't exist.
   if (PG_ARGISNULL(0)) {
+    CHECK_PARAMETERS_NOT_NULL(fcinfo);
     // Grab the optional variables, if provided.
     float8 epsilon = 0, lower = 0, upper = 0;
     bool with_epsilon = false;
@@ -182,6 +193,7 @@ Datum anon_count_accum(PG_FUNCTION_ARGS) {
   CHECK_AGG_CONTEXT(fcinfo);
   DpCount* arg0;
   if (PG_ARGISNULL(0)) {
+    CHECK_PARAMETERS_NOT_NULL(fcinfo);
     std::string err;
     if (PG_NARGS() > 2) {
       float8 epsilon = PG_GETARG_FLOAT8(2);
@@ -307,6 +319,7 @@ Datum ntile_accum(PG_FUNCTION_ARGS, bool is_integral) {
 
   // Construct algorithm if needed.
   if (PG_ARGISNULL(0)) {
+    CHECK_PARAMETERS_NOT_NULL(fcinfo);
     float8 percentile = PG_GETARG_FLOAT8(2);
     float8 lower = PG_GETARG_FLOAT8(3);
     float8 upper = PG_GETARG_FLOAT8(4);
-- 
2.43.0


From 76642546ddc56c295cd102c4f1282c96f184faad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:55 +0000
Subject: [PATCH 49/51] fix: SQL aggregates used as window functions keep their
 state

The final function deleted the state that the next row of the window goes on
using.
---
 cc/postgres/anon_func.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/cc/postgres/anon_func.cc b/cc/postgres/anon_func.cc
index 044227a..0c4b2c4 100644
--- a/cc/postgres/anon_func.cc
+++ b/cc/postgres/anon_func.cc
@@ -162,7 +162,10 @@ Datum int_extract(PG_FUNCTION_ARGS){
     ereport(INFO, (errmsg("%s Returning NULL.", err.c_str())));
     PG_RETURN_NULL();
   }
-  delete arg;
+  // A window function goes on using the state after a result was taken from it.
+  if (AggCheckCallContext(fcinfo, NULL) != AGG_CONTEXT_WINDOW) {
+    delete arg;
+  }
   PG_RETURN_INT64(result);
 }
 
@@ -180,7 +183,10 @@ Datum double_extract(PG_FUNCTION_ARGS){
     ereport(INFO, (errmsg("%s Returning NULL.", err.c_str())));
     PG_RETURN_NULL();
   }
-  delete arg;
+  // A window function goes on using the state after a result was taken from it.
+  if (AggCheckCallContext(fcinfo, NULL) != AGG_CONTEXT_WINDOW) {
+    delete arg;
+  }
   PG_RETURN_FLOAT8(result);
 }
 
-- 
2.43.0


From 8d1045ac348ab9b388533b40de0817f789d5db1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:55 +0000
Subject: [PATCH 50/51] fix: integer SQL results that are out of range saturate

Converting a double beyond the range of int64_t is undefined; in practice a large
positive sum became the most negative integer.
---
 cc/postgres/dp_func.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/cc/postgres/dp_func.h b/cc/postgres/dp_func.h
index 2964a26..5bfdff2 100644
--- a/cc/postgres/dp_func.h
+++ b/cc/postgres/dp_func.h
@@ -20,6 +20,7 @@
 #include <inttypes.h>
 
 #include <cmath>
+#include <limits>
 #include <string>
 #include <type_traits>
 
@@ -64,9 +65,19 @@ class DpFunc {
   // the error std::string is populated and we return 0.
   virtual double Result(std::string* err) = 0;
 
-  // Same as result, but the result is rounded to be an integer. Only Result or
-  // ResultRounded may be called per function.
-  int64_t ResultRounded(std::string* err) { return std::round(Result(err)); }
+  // Same as result, but the result is rounded to be an integer, or to the closest
+  // int64_t if it is out of range. Only Result or ResultRounded may be called per
+  // function.
+  int64_t ResultRounded(std::string* err) {
+    const double result = std::round(Result(err));
+    if (result >= 0x1p63) {
+      return std::numeric_limits<int64_t>::max();
+    }
+    if (result < -0x1p63) {
+      return std::numeric_limits<int64_t>::min();
+    }
+    return result;
+  }
 };
 
 class DpCount : public DpFunc {
-- 
2.43.0


From 25bcc44a5800b863c66c0ff5905670b819a1fcc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:12 +0000
Subject: [PATCH 51/51] fix: discrete Laplace noise search is not misled by
 rounding errors

---
 python/dp_accounting/dp_accounting/pld/accountant.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/dp_accounting/dp_accounting/pld/accountant.py b/python/dp_accounting/dp_accounting/pld/accountant.py
index 59d9b9c..674317d 100644
--- a/python/dp_accounting/dp_accounting/pld/accountant.py
+++ b/python/dp_accounting/dp_accounting/pld/accountant.py
@@ -132,11 +132,13 @@ def get_smallest_discrete_laplace_noise(
     parameter = 1 / inverse_parameter
     # Setting value_discretization_interval equal to parameter because the
     # privacy loss of discrete Laplace mechanism is always divisible by the
-    # parameter.
+    # parameter. The connect-the-dots algorithm keeps it so even where the
+    # division has a rounding error.
     return privacy_loss_distribution.from_discrete_laplace_mechanism(
         parameter,
         sensitivity=sensitivity,
-        value_discretization_interval=parameter)
+        value_discretization_interval=parameter,
+        use_connect_dots=True)
 
   # discrete Laplace mechanism with parameter
   # epsilon / (sensitivity * num_queries) is epsilon-DP (for num_queries
-- 
2.43.0

