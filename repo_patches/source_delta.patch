From 2074bbad1230f744d5e122c05527444ab2e2dde8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 001/125] fix: A1 overflowed to NaN for large concentrations

---
 pycircstat2/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/utils.py b/pycircstat2/utils.py
index 7c81eb6..d78d0e5 100644
--- a/pycircstat2/utils.py
+++ b/pycircstat2/utils.py
@@ -4,7 +4,7 @@ from typing import Union
 
 import numpy as np
 import pandas as pd
-from scipy.special import i0, i1
+from scipy.special import i0e, i1e
 
 
 def data2rad(
@@ -231,7 +231,7 @@ def rotate_data(alpha: np.ndarray, angle: float, unit: str = "radian") -> np.nda
 
 
 def A1(kappa: np.ndarray) -> np.ndarray:
-    return i1(kappa) / i0(kappa)
+    return i1e(kappa) / i0e(kappa)
 
 def A1inv(R: float) -> float:
     if 0 <= R < 0.53:
-- 
2.43.0


From f589d5ad371fa8b2080648c6fd0d84e84918c512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 002/125] fix: circ_kappa reported a uniform concentration for
 r = 1

---
 pycircstat2/descriptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index ff1ae71..1fb848f 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1394,8 +1394,8 @@ def circ_kappa(r: float, n: Union[int, None] = None) -> float:
         if nom != 0:
             kappa = 1 / nom
         else:
-            # not sure how to handle this...
-            kappa = 1e-16
+            # r = 1: limit of infinite concentration, kept finite
+            kappa = 1 / np.finfo(float).eps
 
     # eq 4.41
     if n is not None:
-- 
2.43.0


From 6d5e4e407aec0913f8b2bf1c6e55dea465f7b142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 003/125] fix: circ_kappa divided by zero for r = 0 in small
 samples

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 1fb848f..bc49cd6 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1401,7 +1401,7 @@ def circ_kappa(r: float, n: Union[int, None] = None) -> float:
     if n is not None:
         if n <= 15 and r < 0.7:
             if kappa < 2:
-                kappa = np.max([kappa - 2 * 1 / (n * kappa), 0])
+                kappa = np.max([kappa - 2 / (n * kappa), 0]) if kappa > 0 else 0.0
             else:
                 kappa = (n - 1) ** 3 * kappa / (n**3 + n)
 
-- 
2.43.0


From b53723663e8ea316699fb82eeadec7c9bb2ecfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 004/125] fix: resultant length of coincident angles could
 exceed 1 by rounding

---
 pycircstat2/descriptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index bc49cd6..b9621dc 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -43,7 +43,8 @@ def circ_r(
         w = np.ones_like(alpha) if w is None else w
         Cbar, Sbar = compute_C_and_S(alpha, w)
 
-    r = np.sqrt(Cbar**2 + Sbar**2)
+    # rounding must not push the resultant of coincident angles above 1
+    r = np.minimum(np.sqrt(Cbar**2 + Sbar**2), 1.0)
 
     return r
 
-- 
2.43.0


From 1ce426fa1e57c94c168528d3faffc758c362fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 005/125] fix: circ_median returned the first observation for
 merely concentrated data

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index b9621dc..2345b0d 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -578,7 +578,7 @@ def circ_median(
 
     # edge cases for early exit
     # if all points coincide, return the first point
-    if np.isclose(circ_r(alpha, w), 1.0, atol=1e-12):
+    if np.isclose(circ_r(alpha, w), 1.0, rtol=0.0, atol=1e-12):
         if verbose:
             print("All points coincide, returning the first point as median.")
         return alpha[0]
-- 
2.43.0


From 831c24b05fb91c3ba413cfa2bb5037cfaf976dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 006/125] fix: mean angular deviation was wrong for angles more
 than a turn apart

---
 pycircstat2/descriptive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 2345b0d..96bc5ce 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -774,7 +774,9 @@ def circ_mean_deviation_chunked(
     for start in range(0, beta_arr.size, chunk_size):
         stop = start + chunk_size
         beta_chunk = beta_arr[start:stop]
-        angdist = np.pi - np.abs(np.pi - np.abs(alpha_arr - beta_chunk[:, None]))
+        angdist = np.pi - np.abs(
+            np.pi - np.abs(alpha_arr - beta_chunk[:, None]) % (2 * np.pi)
+        )
         chunk_mean = np.round(np.mean(angdist, axis=1), 5)
         result[start : start + beta_chunk.size] = chunk_mean
 
@@ -824,7 +826,7 @@ def circ_mean_deviation(
     beta_arr = np.atleast_1d(np.asarray(beta, dtype=float))
 
     mean_dist = np.mean(
-        np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None])),
+        np.abs(np.pi - np.abs(alpha_arr - beta_arr[:, None]) % (2 * np.pi)),
         axis=1,
     )
     return np.round(np.pi - mean_dist, 5)
-- 
2.43.0


From 9702d04e3dcd4ee426be71326c11561f4486a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 007/125] fix: geodesic distance was wrong for angles more than
 a turn apart

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 96bc5ce..f9264e6 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1460,7 +1460,7 @@ def circ_dist(
         distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
 
     elif metric == "geodesic":
-        distances = np.pi - np.abs(np.pi - np.abs(x - y))
+        distances = np.pi - np.abs(np.pi - np.abs(x - y) % (2 * np.pi))
 
     elif metric == "angularseparation":
         distances = 1 - np.cos(x - y)
-- 
2.43.0


From 907fb9ca4cfddf71ce06446c96482bfe90489fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 008/125] fix: nonparametric density mishandled angles outside
 [0, 2pi)

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index f9264e6..1784dc0 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1694,7 +1694,7 @@ def nonparametric_density_estimation(
     a = np.asarray(alpha, dtype=float)
     n = len(a)
     x = np.linspace(0, 2 * np.pi, 100)
-    d = np.abs(x[:, None] - a)
+    d = np.abs(x[:, None] - a) % (2 * np.pi)
     e = np.minimum(d, 2 * np.pi - d)
     e = np.minimum(e, h)
     weight_sum = np.sum((1 - e**2 / h**2) ** 2, axis=1)
-- 
2.43.0


From 669b93690adb765290342bd19ce2c9849e59b373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 009/125] fix: bootstrap mean interval used a misplaced
 parenthesis of Fisher eq. 8.27

---
 pycircstat2/descriptive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 1784dc0..533b3f9 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1137,7 +1137,7 @@ def _circ_mean_ci_bootstrap(
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq (8.27)
 
     denom = np.sqrt(1 + beta_param**2)
@@ -1186,7 +1186,7 @@ def _circ_mean_resample(alpha, z0, v0):
     if np.isclose(u12, 0.0):
         beta_param = 0.0
     else:
-        discriminant = (u11 - u22) ** 2 / (4 * u12**2 + 1)
+        discriminant = (u11 - u22) ** 2 / (4 * u12**2) + 1
         beta_param = (u11 - u22) / (2 * u12) - np.sqrt(discriminant)  # eq(8.27)
 
     denom = np.sqrt(1 + beta_param**2)
-- 
2.43.0


From c0018b050575d7562f6620c5a4f14ec394a71a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:20 +0000
Subject: [PATCH 010/125] fix: circ_median_ci depended on where the origin lies
 relative to the data

---
 pycircstat2/descriptive.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 533b3f9..892d6e8 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1265,8 +1265,13 @@ def circ_median_ci(
             "`alpha` is needed for computing the confidence interval for circular median."
         )
 
+    # order the observations along the circle, starting opposite the median, so
+    # that the order statistics do not depend on where the origin happens to be
+    alpha = np.asarray(alpha)
     n = len(alpha)
-    alpha = np.sort(alpha)
+    centered = angmod(alpha - median, bounds=[-np.pi, np.pi])
+    order = np.argsort(centered)
+    alpha, centered = alpha[order], centered[order].round(5)
 
     if n > 15:
         z = norm.ppf(1 - 0.5 * (1 - ci))
@@ -1274,7 +1279,7 @@ def circ_median_ci(
         offset = int(1 + np.floor(0.5 * np.sqrt(n) * z))  # fisher:eq(4.19)
 
         # idx_median = np.where(alpha.round(5) < np.round(median, 5))[0][-1]
-        arr = np.where(alpha.round(5) < np.round(median, 5))[0]
+        arr = np.where(centered < 0)[0]
         if len(arr) == 0:
             # That means median is smaller than alpha[0] (to 5 decimals).
             # In a circular sense, the “closest index below” is alpha[-1].
@@ -1284,10 +1289,10 @@ def circ_median_ci(
 
         idx_lb = idx_median - offset + 1
         idx_ub = idx_median + offset
-        if np.round(median, 5) in alpha.round(5):  # don't count the median per se
+        if 0 in centered:  # don't count the median per se
             idx_ub += 1
 
-        if idx_ub > n:
+        if idx_ub >= n:
             idx_ub = idx_ub - n
 
         if idx_lb < 0:
-- 
2.43.0


From 648d12ca655ccd3612465ed7907dd4926e9d0557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:28 +0000
Subject: [PATCH 011/125] fix: circ_median_ci wrapped its order statistics
 around heavily tied samples

---
 pycircstat2/descriptive.py | 18 ++++--------------
 1 file changed, 4 insertions(+), 14 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 892d6e8..b6e7d4b 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1280,29 +1280,19 @@ def circ_median_ci(
 
         # idx_median = np.where(alpha.round(5) < np.round(median, 5))[0][-1]
         arr = np.where(centered < 0)[0]
-        if len(arr) == 0:
-            # That means median is smaller than alpha[0] (to 5 decimals).
-            # In a circular sense, the “closest index below” is alpha[-1].
-            idx_median = len(alpha) - 1
-        else:
-            idx_median = arr[-1]
+        # index of the last observation before the median, -1 if there is none
+        idx_median = arr[-1] if len(arr) > 0 else -1
 
         idx_lb = idx_median - offset + 1
         idx_ub = idx_median + offset
         if 0 in centered:  # don't count the median per se
             idx_ub += 1
 
-        if idx_ub >= n:
-            idx_ub = idx_ub - n
-
-        if idx_lb < 0:
-            idx_lb = n + idx_lb
+        idx_ub = min(idx_ub, n - 1)
+        idx_lb = max(idx_lb, 0)
 
         lower, upper = alpha[int(idx_lb)], alpha[int(idx_ub)]
 
-        if not is_within_circular_range(median, lower, upper):
-            lower, upper = upper, lower
-
     # selected confidence intervals for the median direction for n < 15
     # from A6, Fisher, 1993.
     # We only return the widest CI if there are more than one in the table.
-- 
2.43.0


From 3d521f17df7b85b32402be342f80257a9a0ffc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 012/125] fix: strict mode of the Jammalamadaka-SenGupta
 correlation never took effect

---
 pycircstat2/correlation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 535fb87..983a8f4 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -95,7 +95,7 @@ def _coerce_angles(
     """Return angle array (in radians) and mean p-value if available."""
 
     if isinstance(data, Circular):
-        return np.asarray(data.alpha, dtype=float), getattr(data, "mean_pval", None)
+        return np.asarray(data.alpha, dtype=float), float(data.mean_test_result.pval)
 
     array = np.asarray(data, dtype=float)
     if array.ndim == 0:
-- 
2.43.0


From 55e58a0dff1380d23a8180643455c6073d54c242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 013/125] fix: nonparametric circular correlation ranked angles
 on the line, not the circle

---
 pycircstat2/correlation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/correlation.py b/pycircstat2/correlation.py
index 983a8f4..432dce9 100644
--- a/pycircstat2/correlation.py
+++ b/pycircstat2/correlation.py
@@ -261,8 +261,8 @@ def _circ_corrcc_np(
         raise ValueError("At least three paired observations are required for the nonparametric test.")
     C = 2 * np.pi / n
 
-    rank_a = rankdata(a_alpha)
-    rank_b = rankdata(b_alpha)
+    rank_a = rankdata(a_alpha % (2 * np.pi))
+    rank_b = rankdata(b_alpha % (2 * np.pi))
     rank_diff = rank_a - rank_b
     rank_sum = rank_a + rank_b
 
-- 
2.43.0


From c1717207311ad530ccac9723ff61c03277a6eec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 014/125] fix: bootstrap mean interval ignored the frequencies
 of grouped data

---
 pycircstat2/descriptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index b6e7d4b..8ad1600 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -923,7 +923,9 @@ def circ_mean_ci(
 
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
-        (lb, ub) = _circ_mean_ci_bootstrap(alpha=alpha, B=B, ci=ci)
+        (lb, ub) = _circ_mean_ci_bootstrap(
+            alpha=alpha if w is None else np.repeat(alpha, w), B=B, ci=ci
+        )
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
     elif method == "dispersion" and alpha is not None:
-- 
2.43.0


From cc34cafdf307be1997454d83ddc847fcef5e7d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 015/125] fix: bootstrap mean interval refused samples the
 Rayleigh test calls significant

---
 pycircstat2/descriptive.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 8ad1600..0ef15de 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1115,8 +1115,10 @@ def _circ_mean_ci_bootstrap(
     r = circ_r(alpha_arr)
 
     # Classic Rayleigh test approximation, avoids import cycles
-    z_stat = n * r**2  # Rayleigh's Z
-    p_val = np.exp(-z_stat)  # p ≈ e^(−Z) (valid for n ≥ 10)
+    R = n * r
+    p_val = np.exp(  # same approximation as the Rayleigh test
+        np.sqrt(1 + 4 * n + 4 * (n**2 - R**2)) - (1 + 2 * n)
+    )
 
     if p_val > 0.05:  # Data look uniform ⇒ no identifiable mean direction
         raise ValueError(
-- 
2.43.0


From e11937eb6c3bb5f1ab240d33179c68670965ecbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:36 +0000
Subject: [PATCH 016/125] fix: Circular removed entries from the caller's
 kwargs_mean_ci

---
 pycircstat2/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index d06c9e3..b1e4de1 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -249,7 +249,7 @@ class Circular:
                 self.method_mean_ci = method_mean_ci = None
                 self.mean_ci_level = mean_ci_level = np.nan
         else:
-            self.method_mean_ci = method_mean_ci = kwargs_mean_ci.pop(
+            self.method_mean_ci = method_mean_ci = kwargs_mean_ci.get(
                 "method", "bootstrap"
             )
             self.mean_ci_level = mean_ci_level = 0.95
-- 
2.43.0


From f118f74c3d493177d8ef20d43f451f6986250a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:52 +0000
Subject: [PATCH 017/125] fix: binning in Circular dropped observations outside
 [0, 2pi)

---
 pycircstat2/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index b1e4de1..502b315 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -15,7 +15,7 @@ from .descriptive import (
     circ_std,
 )
 from .hypothesis import rayleigh_test
-from .utils import data2rad, rad2data, rotate_data, significance_code
+from .utils import angmod, data2rad, rad2data, rotate_data, significance_code
 from .visualization import circ_plot
 
 __names__ = ["Circular", "Axial"]
@@ -207,6 +207,9 @@ class Circular:
 
         # bin data usingse np.histogram
         else:
+            if isinstance(bins, int):
+                # equal bins cover [0, 2π); no observation may fall outside
+                alpha = angmod(alpha)
             if isinstance(bins, int) or isinstance(bins, np.ndarray):
                 w, alpha = np.histogram(
                     alpha, bins=bins, range=(0, 2 * np.pi)
-- 
2.43.0


From 3d1ca97f4af91e815668edcc43006d6f8f7d9986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:52 +0000
Subject: [PATCH 018/125] fix: bootstrap mean interval accepts floating-point
 frequencies

---
 pycircstat2/descriptive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 0ef15de..212fe72 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -924,7 +924,9 @@ def circ_mean_ci(
     # n < 25, according to 4.4.4a (Fisher, 1993, P75)
     elif method == "bootstrap" and alpha is not None:
         (lb, ub) = _circ_mean_ci_bootstrap(
-            alpha=alpha if w is None else np.repeat(alpha, w), B=B, ci=ci
+            alpha=alpha if w is None else np.repeat(alpha, np.asarray(w).astype(int)),
+            B=B,
+            ci=ci,
         )
 
     # n >= 25, according to 4.4.4b (Fisher, 1993, P75)
-- 
2.43.0


From ddd23b6e032d253981b14d3d408794bf5a1037c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:52 +0000
Subject: [PATCH 019/125] fix: bin size was negative for bins that pass through
 the origin

---
 pycircstat2/base.py        | 2 +-
 pycircstat2/descriptive.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 502b315..099c5e9 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -201,7 +201,7 @@ class Circular:
                 ), "Grouped data should included empty bins."
                 self.w = w = np.asarray(w)
                 self.grouped = grouped = True
-                self.bin_size = bin_size = np.diff(alpha).min()
+                self.bin_size = bin_size = np.diff(np.sort(alpha)).min()
                 self.alpha_lb = alpha - bin_size / 2
                 self.alpha_ub = alpha + bin_size / 2
 
diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 212fe72..3c9b9d4 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -477,7 +477,7 @@ def circ_var(
     if bin_size is None and w is not None and not np.all(w == w[0]):
         if alpha is None:
             raise ValueError("If `bin_size` is None but `w` is provided, `alpha` must be given.")
-        bin_size = float(np.diff(alpha).min())
+        bin_size = float(np.diff(np.sort(alpha)).min())
 
     # Correct `r` if binning is applied
     rc = r if bin_size is None or bin_size == 0 else r * (bin_size / (2 * np.sin(bin_size / 2)))
@@ -622,7 +622,7 @@ def _circ_median_grouped(
 ) -> Union[float, np.ndarray]:
     n = np.sum(w)  # sample size
     n_bins = len(alpha)  # number of intervals
-    bin_size = np.diff(alpha).min()
+    bin_size = np.diff(np.sort(alpha)).min()
 
     # median for grouped data operated on upper bound of bins
     alpha_ub = alpha + bin_size / 2
-- 
2.43.0


From 9b68a7977f01dc3618d6e72cfe252a03109992c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:52 +0000
Subject: [PATCH 020/125] fix: Axial reported the median of the doubled angles
 instead of an axis

---
 pycircstat2/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 099c5e9..35f76c3 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -514,3 +514,7 @@ class Axial(Circular):
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
+        self.median = self.median / 2
+        if hasattr(self, "median_lb"):
+            self.median_lb /= 2
+            self.median_ub /= 2
-- 
2.43.0


From 70726911dee49002647c2a3d05551a5b396bb217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:51 +0000
Subject: [PATCH 021/125] fix: circular difference of an angle with itself was
 not exactly zero

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 3c9b9d4..dc3482c 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1458,7 +1458,7 @@ def circ_dist(
         )
 
     if metric == "center":
-        distances = np.angle(np.exp(1j * x) / np.exp(1j * y))
+        distances = np.angle(np.exp(1j * (x - y)))
 
     elif metric == "geodesic":
         distances = np.pi - np.abs(np.pi - np.abs(x - y) % (2 * np.pi))
-- 
2.43.0


From 9701e20b961c405152007cb761b52161eaaa5059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 022/125] fix: omnibus test only counted points on one side of
 each line

---
 pycircstat2/hypothesis.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6d83463..55ac391 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -795,11 +795,12 @@ def omnibus_test(
 
     lines_rotated = angmod(lines[:, None] - alpha)
 
-    # # count number of points on the right half circle, excluding the boundaries
+    # # count number of points on either side of each line
     right = n - np.logical_and(
         lines_rotated > 0.0, lines_rotated < np.pi
     ).sum(axis=1)
-    m = int(np.min(right))
+    left = n - (lines_rotated > np.pi).sum(axis=1)
+    m = int(min(np.min(right), np.min(left)))
 
     # ------------------------------------------------------------------
     # 2. p-value   ———  analytical formula and its log form
-- 
2.43.0


From f7d349320ac7680c2dc78353783f4b9bcba75f10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 023/125] fix: omnibus test rejected uniformity for perfectly
 balanced data

---
 pycircstat2/hypothesis.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 55ac391..db1f10b 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -829,8 +829,8 @@ def omnibus_test(
 
     denom = n - 2 * m
     if denom <= 0:
-        logp = -np.inf
-        pval = 0.0
+        # every line splits the data into halves: no evidence against uniformity
+        pval = 1.0
         A = np.inf
     else:
         logp = (
-- 
2.43.0


From 82082bd544299b5ccc69403b79f08f90c8f2759d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 024/125] fix: Watson U2 test required sorted samples without
 near-ties

---
 pycircstat2/hypothesis.py | 13 ++-----------
 1 file changed, 2 insertions(+), 11 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index db1f10b..8f9961c 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1098,8 +1098,6 @@ def watson_u2_test(
     P639-640, Section 27.5, Example 27.10 of Zar, 2010
     """
 
-    from scipy.stats import rankdata
-
     normalized = _coerce_circular_samples(samples)
     if len(normalized) != 2:
         raise ValueError("`watson_u2_test` requires exactly two samples.")
@@ -1109,15 +1107,8 @@ def watson_u2_test(
         if expanded.size == 0:
             raise ValueError("Each sample must contain at least one observation.")
 
-        idx = [np.where(np.isclose(alpha_unique, val, atol=1e-10))[0] for val in expanded]
-        idx = np.concatenate(idx)
-        idx = np.hstack([0, idx, alpha_unique.size])
-
-        freq_cumsum = rankdata(expanded, method="max") / sample.n
-        freq_cumsum = np.hstack([0, freq_cumsum])
-
-        tiles = np.diff(idx)
-        return np.repeat(freq_cumsum, tiles)
+        # fraction of the sample at or below each distinct angle
+        return np.searchsorted(np.sort(expanded), alpha_unique, side="right") / sample.n
 
     expanded_samples = [sample.expand() for sample in normalized]
     a, t = np.unique(np.hstack(expanded_samples), return_counts=True)
-- 
2.43.0


From b9cfb60b3b0986574099d12338c26a401f29c31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 025/125] fix: Watson U2 test reported p-values above one

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 8f9961c..7116de1 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1121,7 +1121,7 @@ def watson_u2_test(
         / N**2
         * (np.sum(t * d**2) - np.sum(t * d) ** 2 / N)
     )
-    pval = 2 * np.exp(-19.74 * U2)
+    pval = min(2 * np.exp(-19.74 * U2), 1.0)
     # Approximated P-value from Watson (1961)
     # https://github.com/pierremegevand/watsons_u2/blob/master/watsons_U2_approx_p.m
 
-- 
2.43.0


From 7b40bb7133408773e90977d2f242f8c6484cab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 026/125] fix: Wheeler-Watson test failed on angles closer than
 1e-5

---
 pycircstat2/hypothesis.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 7116de1..84e9b8a 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1176,9 +1176,7 @@ def wheeler_watson_test(
 
     def get_circrank(alpha: np.ndarray, sample: _CircularSample, N: int) -> np.ndarray:
         expanded = sample.expand()
-        rank_of_direction = (
-            np.squeeze([np.where(np.isclose(alpha, value))[0] for value in expanded]) + 1
-        )
+        rank_of_direction = np.searchsorted(alpha, expanded) + 1
         return 2 * np.pi / N * rank_of_direction
 
     N = sum(sample.n for sample in normalized)
-- 
2.43.0


From 368dc57d865f462a63d1a1e38efe4567081c7dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 027/125] fix: Wallraff test ignored the frequencies of grouped
 samples

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 84e9b8a..6fb0c87 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1259,7 +1259,7 @@ def wallraff_test(
         angles = angle_arr
 
     ns = [sample.n for sample in normalized]
-    distances = [angular_distance(normalized[i].alpha, angles[i]) for i in range(len(normalized))]
+    distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
     rs = rankdata(np.hstack(distances))
 
-- 
2.43.0


From 76d029465f28930358f7c681f9d8aa6c12c347dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 028/125] fix: Wallraff continuity correction overshot when U
 equals its mean

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6fb0c87..319a597 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1271,7 +1271,7 @@ def wallraff_test(
     U2 = np.prod(ns) - U1
     U = np.min([U1, U2])
 
-    z = (U - np.prod(ns) / 2 + 0.5) / np.sqrt(np.prod(ns) * (N + 1) / 12)
+    z = min(U - np.prod(ns) / 2 + 0.5, 0.0) / np.sqrt(np.prod(ns) * (N + 1) / 12)
     pval = float(2 * norm.sf(abs(z)))
 
     if verbose:
-- 
2.43.0


From 58bd4f8bc023ee4259898c110ca2b81c1ad74c2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 029/125] fix: angular randomisation test ignored the
 frequencies of grouped samples

---
 pycircstat2/hypothesis.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 319a597..52c4a21 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1474,7 +1474,7 @@ def angular_randomisation_test(
     if n_simulation <= 0:
         raise ValueError("`n_simulation` must be a positive integer.")
 
-    sample_arrays = [np.asarray(sample.alpha, dtype=float) for sample in normalized]
+    sample_arrays = [sample.expand() for sample in normalized]
     if any(arr.size == 0 for arr in sample_arrays):
         raise ValueError("Each sample must contain at least one observation.")
 
-- 
2.43.0


From 59a6ff76eb68117cf8cdc846633c8b5defeeb924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 030/125] fix: angular randomisation test missed resamples tied
 with the observation

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 52c4a21..9313d57 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1536,7 +1536,8 @@ def angular_randomisation_test(
         perm_stat = art_statistic(perm_S1, perm_S2)
 
         # Count if permuted statistic is >= observed (one-sided test)
-        if perm_stat >= observed_stat:
+        # (arrangements equivalent to the observed one may differ by rounding)
+        if perm_stat >= observed_stat * (1 - 1e-12):
             n_extreme += 1
 
     # Compute p-value as in equation (4.3)
-- 
2.43.0


From ce9d07b25f67373db59aaa2b0c7d73686a4f1e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 031/125] fix: rank-based two-sample tests depended on how many
 turns an angle was recorded with

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 9313d57..1070c23 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -326,7 +326,7 @@ def _coerce_circular_samples(samples: Sequence[Any]) -> list[_CircularSample]:
 
     for sample in samples:
         if Circular is not None and isinstance(sample, Circular):  # type: ignore[arg-type]
-            alpha_arr = np.asarray(sample.alpha, dtype=float)
+            alpha_arr = np.mod(np.asarray(sample.alpha, dtype=float), 2 * np.pi)
             weights = getattr(sample, "w", None)
             if weights is None:
                 weights_arr = np.ones_like(alpha_arr, dtype=int)
@@ -336,6 +336,7 @@ def _coerce_circular_samples(samples: Sequence[Any]) -> list[_CircularSample]:
             alpha_arr = np.asarray(sample, dtype=float)
             if alpha_arr.ndim != 1:
                 raise ValueError("Each sample must be a one-dimensional array of angles.")
+            alpha_arr = np.mod(alpha_arr, 2 * np.pi)
             weights_arr = np.ones_like(alpha_arr, dtype=float)
 
         if alpha_arr.size == 0:
-- 
2.43.0


From 6cfd8e8cd9ad3ee7f19ae61713bbb2269b487c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 032/125] fix: Kuiper, Watson and Rao spacing tests mishandled
 angles outside [0, 2pi)

---
 pycircstat2/hypothesis.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 1070c23..dd0c4d2 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1610,6 +1610,7 @@ def kuiper_test(
     alpha = np.asarray(alpha, dtype=float)
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
+    alpha = np.mod(alpha, 2 * np.pi)
 
     def compute_V(sample):
         ordered = np.sort(sample) / (2 * np.pi)
@@ -1718,6 +1719,7 @@ def watson_test(
     alpha = np.asarray(alpha, dtype=float)
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
+    alpha = np.mod(alpha, 2 * np.pi)
 
     def compute_U2(sample):
         ordered = np.sort(sample)
@@ -1816,6 +1818,7 @@ def rao_spacing_test(
     alpha = np.asarray(alpha, dtype=float)
     if alpha.size == 0:
         raise ValueError("`alpha` must contain at least one angle.")
+    alpha = np.mod(alpha, 2 * np.pi)
 
     def compute_U(sample):
         ordered = np.sort(sample)
-- 
2.43.0


From d157e79370294537b79f5f24ba5f197ae304fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 033/125] fix: asymptotic Kuiper p-value left [0, 1]

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index dd0c4d2..02ff990 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1643,7 +1643,8 @@ def kuiper_test(
         a2 = np.exp(-2 * m * Vo**2)
         b1 = 2 * (a1 - 1) * a2
         b2 = 8 * Vo / (3 * f) * m * (a1 - 3) * a2
-        pval = float(np.sum(b1 - b2))
+        # the series is 1 to machine precision (but converges slowly) for small V
+        pval = 1.0 if Vo < 0.4 else float(np.clip(np.sum(b1 - b2), 0.0, 1.0))
     else:
         mode = "simulation"
         rng = _init_rng(seed)
-- 
2.43.0


From 67188941b314ae1fa88182f3db4bf841a8d24725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 034/125] fix: asymptotic Watson p-value left [0, 1]

---
 pycircstat2/hypothesis.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 02ff990..660817a 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1746,7 +1746,12 @@ def watson_test(
     if n_simulation == 1:
         mode = "asymptotic"
         m = np.arange(1, 51)
-        pval = float(2 * sum((-1) ** (m - 1) * np.exp(-2 * m**2 * np.pi**2 * U2o)))
+        # the series is 1 to machine precision (but converges slowly) for small U2
+        if U2o < 0.003:
+            pval = 1.0
+        else:
+            pval = float(2 * sum((-1) ** (m - 1) * np.exp(-2 * m**2 * np.pi**2 * U2o)))
+            pval = min(max(pval, 0.0), 1.0)
     else:
         mode = "simulation"
         rng = _init_rng(seed)
-- 
2.43.0


From 4f8104f8aad298a5fb51a2e31b0916752860ca79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 035/125] fix: circular range test p-value left [0, 1] for
 evenly spread data

---
 pycircstat2/hypothesis.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 660817a..0d361d7 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1938,7 +1938,11 @@ def circ_range_test(alpha: np.ndarray, verbose: bool = False) -> CircularRangeTe
         * comb(n, index)
         * (1 - index * (1 - range_stat / (2 * np.pi))) ** (n - 1)
     )
-    p_value = float(np.sum(sequence))
+    # huge alternating terms only occur where the p-value is 1 to that precision
+    if np.max(np.abs(sequence)) > 1e10:
+        p_value = 1.0
+    else:
+        p_value = float(np.clip(np.sum(sequence), 0.0, 1.0))
 
     result = CircularRangeTestResult(range_stat=float(range_stat), pval=float(p_value))
 
-- 
2.43.0


From 9e4d207262fbf731fb5cd44b07905fb81c351ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:50:52 +0000
Subject: [PATCH 036/125] fix: V test returned NaN for data without a mean
 direction

---
 pycircstat2/hypothesis.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 0d361d7..71dfe2f 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -650,7 +650,10 @@ def V_test(
         raise ValueError("`r` must lie in the interval [0, 1].")
 
     R = n * r
-    V = R * np.cos(angmod(mean - angle, bounds=[-np.pi, np.pi]))  # eq(27.5)
+    if np.isnan(mean):  # no mean direction: the resultant has no component along `angle`
+        V = 0.0
+    else:
+        V = R * np.cos(angmod(mean - angle, bounds=[-np.pi, np.pi]))  # eq(27.5)
     u = V * np.sqrt(2.0 / n)  # eq(27.6)
     pval = float(norm.sf(u))
 
-- 
2.43.0


From b3907ce7b221cc0d8d579a3a1450406a69824898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:17 +0000
Subject: [PATCH 037/125] fix: Wallraff test broke ties between distances that
 differ by rounding

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 71dfe2f..70e2f36 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -1265,7 +1265,8 @@ def wallraff_test(
     ns = [sample.n for sample in normalized]
     distances = [angular_distance(normalized[i].expand(), angles[i]) for i in range(len(normalized))]
 
-    rs = rankdata(np.hstack(distances))
+    # equal distances must tie even when they differ by rounding
+    rs = rankdata(np.round(np.hstack(distances), 10))
 
     N = np.sum(ns)
 
-- 
2.43.0


From 3296e6988f57e89e152110c5dc943144c9e62a97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:51 +0000
Subject: [PATCH 038/125] fix: symmetry test broke ties between deviations that
 differ by rounding

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 70e2f36..ffb3190 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -949,7 +949,8 @@ def symmetry_test(
     else:
         median = float(median)
 
-    d = angmod(alpha - median, bounds=[-np.pi, np.pi])
+    # deviations of equal size must tie even when they differ by rounding
+    d = np.round(angmod(alpha - median, bounds=[-np.pi, np.pi]), 10)
 
     res = wilcoxon(d, alternative="two-sided")
     test_statistic = float(res.statistic)
-- 
2.43.0


From c81f25ec030360efe0d8ec73e5ce7f705315dd40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:34 +0000
Subject: [PATCH 039/125] fix: common median test counted the median
 observation by its rounding error

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index ffb3190..977d345 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2719,7 +2719,8 @@ def common_median_test(
     # Compute deviations from the common median
     m = np.zeros(k, dtype=float)
     for i, group in enumerate(arrays):
-        deviations = circ_dist(group, common_median)
+        # an observation at the median counts on neither side, even up to rounding
+        deviations = np.round(circ_dist(group, common_median), 10)
         m[i] = np.sum(deviations < 0)
 
     # Compute test statistic
-- 
2.43.0


From 64d45059c7ba0879cf2cd4d11cb4e6024a202239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:34 +0000
Subject: [PATCH 040/125] fix: binomial test counted observations at the median
 by their rounding error

---
 pycircstat2/hypothesis.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 977d345..6729bd4 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2006,7 +2006,8 @@ def binomial_test(
         raise ValueError("The median (md) must be a single scalar value.")
 
     # Compute circular differences from hypothesized median
-    d = circ_dist(alpha, float(md))
+    # observations at the median count on neither side, even up to rounding
+    d = np.round(circ_dist(alpha, float(md)), 10)
 
     # Count the number of angles on each side of the hypothesized median
     n1 = int(np.sum(d < 0))
-- 
2.43.0


From c8b95a6a2cf8ae931e250f48c44934999f2a3cab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:34 +0000
Subject: [PATCH 041/125] fix: Harrison-Kanji test failed on factors with
 non-numeric levels

---
 pycircstat2/hypothesis.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/hypothesis.py b/pycircstat2/hypothesis.py
index 6729bd4..ee34b94 100644
--- a/pycircstat2/hypothesis.py
+++ b/pycircstat2/hypothesis.py
@@ -2412,19 +2412,19 @@ def harrison_kanji_test(
     # Compute mean resultants per group
     gr = df.groupby(fn)
     cn = gr.count()
-    cr = gr.agg(circ_r) * cn
+    cr = gr[["dependent"]].agg(circ_r) * cn
     cn = cn.unstack(fn[1])
     cr = cr.unstack(fn[1])
 
     # Factor A
     gr = df.groupby(fn[0])
     pn = gr.count()["dependent"]
-    pr = gr.agg(circ_r)["dependent"] * pn
+    pr = gr["dependent"].agg(circ_r) * pn
 
     # Factor B
     gr = df.groupby(fn[1])
     qn = gr.count()["dependent"]
-    qr = gr.agg(circ_r)["dependent"] * qn
+    qr = gr["dependent"].agg(circ_r) * qn
 
     if kk > 2:  # Large kappa approximation
         eff_1 = sum(pr**2 / np.sum(cn, axis=1)) - tr**2 / n
-- 
2.43.0


From 83e30b4574883b3375d4a551e96b59cdce8e8053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:20 +0000
Subject: [PATCH 042/125] fix: grouped median misplaced, or failed for, odd
 numbers of bins

---
 pycircstat2/descriptive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index dc3482c..4042514 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -634,8 +634,9 @@ def _circ_median_grouped(
     halfcircle_left = n - halfcircle_right
 
     if n_bins % 2 != 0:
-        offset = np.roll(w, 2) / 2  # remove half of the previous bin freq
-        halfcircle_left = halfcircle_left - offset
+        # the half circle ends in the middle of a bin: half of its freq is on the left
+        offset = np.roll(w, -((n_bins + 1) // 2)) / 2
+        halfcircle_left = halfcircle_left + offset
 
     # find where half-freq located.
     halffreq = np.round(n / 2, 5)
-- 
2.43.0


From c5f4f95b10a9817875d7595146099450673335a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:20 +0000
Subject: [PATCH 043/125] fix: grouped median failed when opposite bins hold
 equal frequencies

---
 pycircstat2/descriptive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 4042514..96d6f2d 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -649,6 +649,11 @@ def _circ_median_grouped(
         ),
     )[0]
 
+    # if only one of several candidates changes the split, it is the median.
+    changing = idx[halfcircle_range[idx, 0] != halfcircle_range[idx, 1]]
+    if len(changing) == 1:
+        idx = changing
+
     # if number of potential median is the same as the number of data points,
     # meaning that the data is more or less uniformly distributed. Return NaN.
     if len(idx) == len(halfcircle_range):
-- 
2.43.0


From ce751e7d0bb936041140cd899becf442e004dfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:17:16 +0000
Subject: [PATCH 044/125] fix: median of frequencies concentrated in one bin
 was always the first bin

---
 pycircstat2/descriptive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 96d6f2d..464fdf3 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -581,7 +581,7 @@ def circ_median(
     if np.isclose(circ_r(alpha, w), 1.0, rtol=0.0, atol=1e-12):
         if verbose:
             print("All points coincide, returning the first point as median.")
-        return alpha[0]
+        return alpha[np.flatnonzero(w)[0]]
 
     # grouped data
     if not np.all(w == 1):
-- 
2.43.0


From a8bd992a81a0ca9741b96bc0dec2c92834999b81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:36 +0000
Subject: [PATCH 045/125] fix: binned Axial data kept raw angles that do not
 match the bin frequencies

---
 pycircstat2/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 35f76c3..83d3842 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -510,7 +510,10 @@ class Axial(Circular):
         self.data_double = data_double
         self.data = data
         self.alpha_double = self.alpha
-        self.alpha = data2rad(data, k=self.full_cycle)
+        # binned data are the axes of the bin centers, one per frequency
+        self.alpha = (
+            data2rad(data, k=self.full_cycle) if bins is None else self.alpha_double / 2
+        )
         self.mean /= 2
         self.mean_lb /= 2
         self.mean_ub /= 2
-- 
2.43.0


From 7cffa76653b991e18ee96482ca3c20cddd660960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:36 +0000
Subject: [PATCH 046/125] fix: Axial reduced doubled angles by the default
 cycle of the unit instead of full_cycle

---
 pycircstat2/base.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 83d3842..4ce5c8f 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -488,14 +488,16 @@ class Axial(Circular):
         
         data = np.array(data) if isinstance(data, list) else data
         # doubling original data and reducing them modulo 360 degrees
-        if unit == "degree":
+        if full_cycle is not None:
+            data_double = 2 * data % full_cycle
+        elif unit == "degree":
             data_double = 2 * data % 360
         elif unit == "radian":
             data_double = 2 * data % (2 * np.pi)
         elif unit == "hour":
             data_double = 2 * data % 24
         else:
-            data_double = 2 * data % full_cycle
+            data_double = 2 * data
 
         super().__init__(
             data=data_double,
-- 
2.43.0


From 5f3405fd903de782782fd76f40606069f4d36e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:30:36 +0000
Subject: [PATCH 047/125] fix: bin edges given as a list were refused and edges
 off the origin dropped observations

---
 pycircstat2/base.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index 4ce5c8f..ddd426e 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -207,13 +207,16 @@ class Circular:
 
         # bin data usingse np.histogram
         else:
-            if isinstance(bins, int):
+            if isinstance(bins, (int, np.integer)):
                 # equal bins cover [0, 2π); no observation may fall outside
                 alpha = angmod(alpha)
-            if isinstance(bins, int) or isinstance(bins, np.ndarray):
-                w, alpha = np.histogram(
-                    alpha, bins=bins, range=(0, 2 * np.pi)
-                )  # np.histogram return bin edges
+            else:
+                # bring each observation into the turn that starts at the first edge
+                bins = np.asarray(bins)
+                alpha = angmod(alpha, bounds=[bins[0], bins[0] + 2 * np.pi])
+            w, alpha = np.histogram(
+                alpha, bins=bins, range=(0, 2 * np.pi)
+            )  # np.histogram return bin edges
             self.w = w = np.asarray(w)
             self.alpha_lb = alpha[:-1]  # bin lower bound
             self.alpha_ub = alpha[1:]  # bin upper bound
-- 
2.43.0


From 5d3f052a064dec925ff5d6671697f9d4006c71a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:54 +0000
Subject: [PATCH 048/125] fix: dispersion of coincident angles was negative by
 rounding and its interval NaN

---
 pycircstat2/descriptive.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 464fdf3..6453746 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -283,7 +283,8 @@ def circ_dispersion(
     r1 = np.abs(mp1)
     r2 = np.abs(mp2)
 
-    dispersion = (1 - r2) / (2 * r1**2)  # eq(2.28)
+    # rounding may push r2 of coincident angles above one
+    dispersion = max(1 - r2, 0.0) / (2 * r1**2)  # eq(2.28)
 
     return dispersion
 
-- 
2.43.0


From 34e0f0e3609ac4b448dda92ab671b8fa052830b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:29 +0000
Subject: [PATCH 049/125] fix: von Mises density, distribution function and fit
 overflowed for kappa above 713

---
 pycircstat2/distributions.py | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 636a90c..82bb23c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -11,6 +11,8 @@ from scipy.special import (
     i0,
     i0e,
     i1,
+    i1e,
+    ive,
     ndtr,
     ndtri,
     iv,
@@ -3326,7 +3328,8 @@ class vonmises_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, kappa):
-        return np.exp(kappa * np.cos(x - mu)) / (2 * np.pi * i0(kappa))
+        # exponentially scaled Bessel function: i0 overflows for kappa > 713
+        return np.exp(kappa * (np.cos(x - mu) - 1)) / (2 * np.pi * i0e(kappa))
 
     def pdf(self, x, mu, kappa, *args, **kwargs):
         r"""
@@ -3353,7 +3356,7 @@ class vonmises_gen(CircularContinuous):
         return super().pdf(x, mu, kappa, *args, **kwargs)
 
     def _logpdf(self, x, mu, kappa):
-        return kappa * np.cos(x - mu) - np.log(2 * np.pi * i0(kappa))
+        return kappa * (np.cos(x - mu) - 1) - np.log(2 * np.pi * i0e(kappa))
 
     def logpdf(self, x, mu, kappa, *args, **kwargs):
         """
@@ -3405,9 +3408,7 @@ class vonmises_gen(CircularContinuous):
             result[np.isclose(arr, two_pi)] = 1.0
             return result
 
-        denom = i0(kappa_val)
-        if not np.isfinite(denom) or denom == 0.0:
-            return self._cdf_from_pdf(x, mu, kappa)
+        denom = i0e(kappa_val)
 
         phi = (flat - mu_val + np.pi) % two_pi - np.pi
         base_phi = (-mu_val + np.pi) % two_pi - np.pi
@@ -3415,11 +3416,11 @@ class vonmises_gen(CircularContinuous):
         term_sum = np.zeros_like(phi)
         term_base = 0.0
         tol = 1e-12
-        max_terms = 500
+        max_terms = max(500, int(np.ceil(8.0 * np.sqrt(kappa_val))))
         converged = False
 
         for n in range(1, max_terms + 1):
-            coeff = iv(n, kappa_val) / (denom * n)
+            coeff = ive(n, kappa_val) / (denom * n)
             if not np.isfinite(coeff):
                 continue
 
@@ -3538,7 +3539,7 @@ class vonmises_gen(CircularContinuous):
         theta_curr = theta.copy()
         for _ in range(max_iter):
             cdf_vals = np.asarray(self.cdf(theta_curr, mu_val, kappa_val), dtype=float)
-            pdf_vals = np.exp(kappa_val * np.cos(theta_curr - mu_val)) / (2.0 * np.pi * i0(kappa_val))
+            pdf_vals = self._pdf(theta_curr, mu_val, kappa_val)
             delta = cdf_vals - q_clipped
 
             L = np.where(delta <= 0.0, theta_curr, L)
@@ -3722,7 +3723,7 @@ class vonmises_gen(CircularContinuous):
             The circular variance, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return 1 - i1(kappa) / i0(kappa)
+        return 1 - i1e(kappa) / i0e(kappa)
 
     def std(self, *args, **kwargs):
         """
@@ -3734,7 +3735,7 @@ class vonmises_gen(CircularContinuous):
             The circular standard deviation, derived from `kappa`.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        r = i1(kappa) / i0(kappa)
+        r = i1e(kappa) / i0e(kappa)
 
         return np.sqrt(-2 * np.log(r))
 
@@ -3839,7 +3840,7 @@ class vonmises_gen(CircularContinuous):
                 return np.inf
             cos_term = np.cos(x - mu_param)
             sum_cos = np.sum(w * cos_term)
-            log_i0_val = np.log(i0(kappa_param))
+            log_i0_val = kappa_param + np.log(i0e(kappa_param))
             return float(
                 -kappa_param * sum_cos + w_sum * (np.log(2.0 * np.pi) + log_i0_val)
             )
@@ -3850,7 +3851,7 @@ class vonmises_gen(CircularContinuous):
             sin_term = np.sin(x - mu_param)
             sum_sin = np.sum(w * sin_term)
             sum_cos = np.sum(w * cos_term)
-            ratio = i1(kappa_param) / i0(kappa_param)
+            ratio = i1e(kappa_param) / i0e(kappa_param)
             g_mu = kappa_param * sum_sin
             g_kappa = -sum_cos + w_sum * ratio
             return np.array([g_mu, g_kappa], dtype=float)
-- 
2.43.0


From 86e67b0be7aec76596fc47d10bd29caa169ffc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:29 +0000
Subject: [PATCH 050/125] fix: von Mises entropy had the wrong sign and lacked
 the log(2 pi) term

---
 pycircstat2/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 82bb23c..97f821b 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3749,7 +3749,8 @@ class vonmises_gen(CircularContinuous):
             The entropy of the distribution.
         """
         (_, kappa) = self._parse_args(*args, **kwargs)[0]
-        return -np.log(i0(kappa)) + (kappa * i1(kappa)) / i0(kappa)
+        ratio = i1e(kappa) / i0e(kappa)
+        return np.log(2 * np.pi * i0e(kappa)) + kappa * (1 - ratio)
 
     def _nnlf(self, theta, data):
         """
-- 
2.43.0


From 140780aa32255be5e495d51614e7d281d5bd3274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:29 +0000
Subject: [PATCH 051/125] fix: von Mises rvs did not accept its documented
 positional parameters, so frozen sampling failed

---
 pycircstat2/distributions.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 97f821b..8dfee01 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3656,12 +3656,16 @@ class vonmises_gen(CircularContinuous):
             return float(samples[0])
         return samples.reshape(target_shape)
 
-    def rvs(self, size=None, random_state=None, *args, **kwargs):
+    def rvs(self, mu=None, kappa=None, size=None, random_state=None):
         """
         Draw random variates.
 
         Parameters
         ----------
+        mu : float
+            Mean direction (0 <= mu <= 2*pi).
+        kappa : float
+            Concentration parameter (kappa > 0).
         size : int or tuple, optional
             Number of samples to generate.
         random_state : RandomState, optional
@@ -3672,13 +3676,9 @@ class vonmises_gen(CircularContinuous):
         samples : ndarray
             Random variates.
         """
-        # Check if instance-level parameters are set
-        mu = getattr(self, "mu", None)
-        kappa = getattr(self, "kappa", None)
-
-        # Override instance parameters if provided in args/kwargs
-        mu = kwargs.pop("mu", mu)
-        kappa = kwargs.pop("kappa", kappa)
+        # Fall back to instance-level parameters
+        mu = getattr(self, "mu", None) if mu is None else mu
+        kappa = getattr(self, "kappa", None) if kappa is None else kappa
 
         # Ensure required parameters are provided
         if mu is None or kappa is None:
-- 
2.43.0


From 73fccda067cb62cb8690104f4daa0b272b60c438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:27 +0000
Subject: [PATCH 052/125] fix: Cartwright density and distribution function
 overflowed to NaN for small zeta

---
 pycircstat2/distributions.py | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8dfee01..3512e66 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5,9 +5,7 @@ import numpy as np
 from scipy.integrate import quad, quad_vec
 from scipy.interpolate import PchipInterpolator
 from scipy.optimize import minimize, minimize_scalar, brentq, root_scalar
-from scipy.special import beta as beta_fn
 from scipy.special import (
-    gamma,
     i0,
     i0e,
     i1,
@@ -15,7 +13,6 @@ from scipy.special import (
     ive,
     ndtr,
     ndtri,
-    iv,
     betainc,
     betaincinv,
     gammaln,
@@ -1785,11 +1782,16 @@ class cartwright_gen(CircularContinuous):
         return float(result) if np.isscalar(zeta) else result
 
     def _pdf(self, x, mu, zeta):
-        return (
-            (2 ** (-1 + 1 / zeta) * (gamma(1 + 1 / zeta)) ** 2)
-            * (1 + np.cos(x - mu)) ** (1 / zeta)
-            / (np.pi * gamma(1 + 2 / zeta))
+        # (1 + cos t)^(1/zeta) = 2^(1/zeta) |cos(t/2)|^(2/zeta); the gamma functions
+        # are combined on the log scale, as they overflow separately for small zeta.
+        inv = 1.0 / np.asarray(zeta, dtype=float)
+        log_const = (
+            (2.0 * inv - 1.0) * np.log(2.0)
+            + 2.0 * gammaln(1.0 + inv)
+            - gammaln(1.0 + 2.0 * inv)
+            - np.log(np.pi)
         )
+        return np.exp(log_const) * np.abs(np.cos(0.5 * (x - mu))) ** (2.0 * inv)
 
     def pdf(self, x, mu, zeta, *args, **kwargs):
         r"""
@@ -1863,14 +1865,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        beta_term = beta_fn(a, b)
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_term  # equals 0.5
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5  # const * 2^(1/zeta) * B(a, b)
 
         phi_start = (-mu_val) % two_pi
         phi_end = (flat - mu_val) % two_pi
@@ -1935,13 +1930,7 @@ class cartwright_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
         a = 0.5
         b = 1.0 / zeta_val + 0.5
-        const = (
-            2.0 ** (-1.0 + 1.0 / zeta_val)
-            * gamma(1.0 + 1.0 / zeta_val) ** 2
-            / (np.pi * gamma(1.0 + 2.0 / zeta_val))
-        )
-        half_norm = const * (2.0 ** (1.0 / zeta_val)) * beta_fn(a, b)
-        half_norm = float(np.clip(half_norm, np.finfo(float).tiny, None))
+        half_norm = 0.5  # const * 2^(1/zeta) * B(a, b)
 
         phi_start = (-mu_val) % two_pi
         H_start = self._cartwright_cumulative(np.array([phi_start]), a, b, half_norm)[0]
-- 
2.43.0


From 972c09921fca30b5e57394ddf31ffd69c7b15a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:27 +0000
Subject: [PATCH 053/125] fix: wrapped normal density was wrong and even
 negative for rho near 1 (truncated series)

---
 pycircstat2/distributions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 3512e66..69141f2 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2285,11 +2285,17 @@ class wrapnorm_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (
-            1
-            + 2
-            * np.sum([rho ** (p**2) * np.cos(p * (x - mu)) for p in range(1, 30)], 0)
-        ) / (2 * np.pi)
+        # Sum over the wrapped images of the normal density: unlike the trigonometric
+        # series it needs few terms when rho is close to 1 and is never negative.
+        two_pi = 2.0 * np.pi
+        sigma = np.sqrt(-2.0 * np.log(np.asarray(rho, dtype=float)))
+        diff = np.mod(np.asarray(x, dtype=float) - mu + np.pi, two_pi) - np.pi
+        n_images = int(np.ceil(9.0 * np.max(sigma, initial=0.0) / two_pi)) + 1
+        total = sum(
+            np.exp(-0.5 * ((diff + two_pi * k) / sigma) ** 2)
+            for k in range(-n_images, n_images + 1)
+        )
+        return INV_SQRT_2PI / sigma * total
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
@@ -2299,7 +2305,7 @@ class wrapnorm_gen(CircularContinuous):
         f(\theta) = \frac{1}{2\pi} \left(1 + 2\sum_{p=1}^{\infty} \rho^{p^2} \cos(p(\theta - \mu))\right)
         $$
 
-        , here we approximate the infinite sum by summing the first 30 terms.
+        , evaluated through the equivalent sum over the wrapped images of the normal density.
 
         Parameters
         ----------
-- 
2.43.0


From fcf55a3da99b923447995fbd0c35a14d985a991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 054/125] fix: flat-topped von Mises failed for kappa above
 about 260 and its distribution function jumped to 1 by rounding

---
 pycircstat2/distributions.py | 18 +++---------------
 1 file changed, 3 insertions(+), 15 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 69141f2..633e8d2 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4041,7 +4041,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             phi_start = ((-mu_val + np.pi) % two_pi) - np.pi
             H = table["cdf_interp"](phi)
             H_start = float(table["cdf_interp"](phi_start))
-            cdf_flat = np.where(H < H_start, H - H_start + 1.0, H - H_start)
+            cdf_flat = np.where(phi < phi_start, H - H_start + 1.0, H - H_start)
             cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
 
         if arr.ndim == 0:
@@ -4094,18 +4094,13 @@ class vonmises_flattopped_gen(CircularContinuous):
             phi_grid = table["phi"]
             cdf_grid = table["cdf"]
             cdf_interp = table["cdf_interp"]
-            inv_interp = table["inv_cdf_interp"]
 
             phi_start = ((-mu_val + np.pi) % two_pi) - np.pi
             H_start = float(cdf_interp(phi_start))
 
             # Prepare bracket indices for each quantile
             targets = (H_start + q_valid) % 1.0
-            phi_guess = (
-                inv_interp(targets)
-                if inv_interp is not None
-                else np.interp(targets, cdf_grid, phi_grid, left=phi_grid[0], right=phi_grid[-1])
-            )
+            phi_guess = np.interp(targets, cdf_grid, phi_grid)
 
             theta = np.empty_like(q_valid)
             for idx, (q_val, target, phi0) in enumerate(zip(q_valid, targets, phi_guess)):
@@ -4157,7 +4152,7 @@ class vonmises_flattopped_gen(CircularContinuous):
         Percent-point function (quantile) of the flat-topped von Mises distribution.
 
         Quantiles are computed by reusing the cached cumulative table described in
-        `cdf`. Starting from the monotone inverse of the tabulated primitive
+        `cdf`. Starting from the linear inverse of the tabulated primitive
         $H_{\kappa,\nu}$, the implementation applies up to
         :data:`_VMFT_NEWTON_MAXITER` safeguarded Newton steps with derivative
         $f(\theta) = \exp[\kappa \cos(\phi + \nu \sin \phi)]/Z$ to achieve
@@ -4626,12 +4621,6 @@ def _vmft_build_table(kappa, nu, grid_size):
 
     cdf_interp = PchipInterpolator(phi, cumulative, extrapolate=True)
 
-    unique_vals, unique_idx = np.unique(cumulative, return_index=True)
-    if unique_vals.size >= 2:
-        inv_interp = PchipInterpolator(unique_vals, phi[unique_idx], extrapolate=True)
-    else:
-        inv_interp = None
-
     return {
         "phi": phi,
         "pdf": pdf,
@@ -4639,7 +4628,6 @@ def _vmft_build_table(kappa, nu, grid_size):
         "normalizer": normalizer,
         "log_normalizer": float(log_normalizer),
         "cdf_interp": cdf_interp,
-        "inv_cdf_interp": inv_interp,
         "grid_size": int(grid_size),
         "kappa": float(kappa),
         "nu": float(nu),
-- 
2.43.0


From 464bad6887915b81f9d72fa11e522f8b19693ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 055/125] fix: flat-topped von Mises table was too coarse for
 concentrated densities (cdf off by up to 3e-3)

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 633e8d2..bba70b8 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -48,7 +48,7 @@ INV_SQRT_2PI = 1.0 / np.sqrt(2.0 * np.pi)
 _VMFT_MIN_GRID = 512
 _VMFT_MAX_GRID = 8192
 _VMFT_GRID_BASE = 64.0
-_VMFT_GRID_SHARPNESS = 12.0
+_VMFT_GRID_SHARPNESS = 170.0
 _VMFT_KAPPA_TOL = 1e-9
 _VMFT_KAPPA_UPPER = 1e3
 _VMFT_ENV_MIN_KAPPA = 1e-6
-- 
2.43.0


From 3a440b79270f4018c90f2e39807435be63deac33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:10:57 +0000
Subject: [PATCH 056/125] fix: flat-topped von Mises sampling hung for nu > 0
 with moderate kappa

---
 pycircstat2/distributions.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index bba70b8..060a18e 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -4251,10 +4251,10 @@ class vonmises_flattopped_gen(CircularContinuous):
         r"""
         Draw random variates from the flat-topped von Mises distribution.
 
-        Sampling uses an acceptance–rejection scheme with a curvature-matched
-        von Mises envelope. Writing $\phi = \theta - \mu$ and matching the
-        curvature at the mode yields a proposal concentration
-        $\kappa_e = \kappa(1+\nu)^2$ (clipped to a small positive value). The
+        Sampling uses an acceptance–rejection scheme with a von Mises envelope.
+        Writing $\phi = \theta - \mu$, matching the curvature at the mode (for
+        $\nu \le 0$) or the tails (for $\nu > 0$) yields a proposal concentration
+        $\kappa_e = \kappa\min(1, (1+\nu)^2)$ (clipped to a small positive value). The
         envelope constant $M \ge \sup_\phi f(\phi)/g(\phi)$ is precomputed on
         the same spectral grid used for `cdf`, so once calibrated the
         sampler draws each variate with a single von Mises proposal followed by
@@ -4551,7 +4551,11 @@ class vonmises_flattopped_gen(CircularContinuous):
             return params
 
         table = self._get_vmft_table(kappa, nu)
-        kappa_env = float(np.clip(kappa * (1.0 + nu) ** 2, _VMFT_ENV_MIN_KAPPA, _VMFT_KAPPA_UPPER))
+        # For nu > 0 the tails stay as heavy as those of a von Mises with the same kappa,
+        # so a curvature-matched envelope would need an unbounded multiplier.
+        kappa_env = float(
+            np.clip(kappa * min(1.0, (1.0 + nu) ** 2), _VMFT_ENV_MIN_KAPPA, _VMFT_KAPPA_UPPER)
+        )
 
         log_env_norm = (
             np.log(2.0 * np.pi)
@@ -4559,7 +4563,9 @@ class vonmises_flattopped_gen(CircularContinuous):
             + kappa_env
         )
         log_env_pdf = kappa_env * np.cos(table["phi"]) - log_env_norm
-        log_ratio = np.log(table["pdf"]) - log_env_pdf
+        phi = table["phi"]
+        log_pdf = kappa * np.cos(phi + nu * np.sin(phi)) + table["log_normalizer"]
+        log_ratio = log_pdf - log_env_pdf
         log_multiplier = float(np.max(log_ratio))
         multiplier = float(np.exp(log_multiplier) * (1.0 + 5e-12))
 
-- 
2.43.0


From 37372336b32a5e76665760ec942a5b7fa407d616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:02 +0000
Subject: [PATCH 057/125] fix: Jones-Pewsey normaliser was off by up to 0.3%
 near integer 1/psi, kappa below 1e-3 was treated as uniform, and the
 sine-skewed cdf and sampler failed at kappa near 0 and |lmbd| = 1

---
 pycircstat2/distributions.py | 374 ++++++++++++-----------------------
 1 file changed, 123 insertions(+), 251 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 060a18e..cbc2f14 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2,7 +2,7 @@ import types
 from typing import TYPE_CHECKING
 
 import numpy as np
-from scipy.integrate import quad, quad_vec
+from scipy.integrate import quad
 from scipy.interpolate import PchipInterpolator
 from scipy.optimize import minimize, minimize_scalar, brentq, root_scalar
 from scipy.special import (
@@ -17,7 +17,6 @@ from scipy.special import (
     betaincinv,
     gammaln,
     digamma,
-    lpmv,
     logsumexp,
 )
 from scipy.stats import rv_continuous
@@ -4689,7 +4688,7 @@ class jonespewsey_gen(CircularContinuous):
     def __init__(self, *args, **kwargs):
         super().__init__(*args, **kwargs)
         self._sampler_cache = {}
-        self._series_cache = {}
+        self._table_cache = {}
 
     def _validate_params(self, mu, kappa, psi):
         mu_arr, kappa_arr, psi_arr = np.broadcast_arrays(mu, kappa, psi)
@@ -4718,18 +4717,9 @@ class jonespewsey_gen(CircularContinuous):
         if abs(kappa_scalar) < _JP_KAPPA_TOL:
             return np.full_like(x, 1.0 / (2.0 * np.pi), dtype=float)
 
-        normalizer = self._get_cached_normalizer(
-            lambda: _c_jonespewsey(mu, kappa_scalar, psi_scalar),
-            mu,
-            kappa_scalar,
-            psi_scalar,
-        )
-        self._c = normalizer
-
-        if abs(psi_scalar) < _JP_PSI_TOL:
-            return normalizer * np.exp(kappa_scalar * np.cos(x - mu))
-
-        return normalizer * _kernel_jonespewsey(x, mu, kappa_scalar, psi_scalar)
+        log_norm = self._jp_get_table(kappa_scalar, psi_scalar).log_integral
+        self._c = np.exp(-log_norm)
+        return np.exp(_jp_log_kernel(x - mu, kappa_scalar, psi_scalar) - log_norm)
 
     def pdf(self, x, mu, kappa, psi, *args, **kwargs):
         r"""
@@ -4784,24 +4774,7 @@ class jonespewsey_gen(CircularContinuous):
         if abs(psi_val) < _JP_PSI_TOL:
             return vonmises.cdf(arr, mu=mu_val, kappa=kappa_val)
 
-        try:
-            n_idx, coeffs = self._jp_get_series(kappa_val, psi_val)
-        except Exception:  # pragma: no cover - defensive fallback
-            cdf_vals = self._cdf_from_pdf(arr, mu_val, kappa_val, psi_val)
-            return np.asarray(cdf_vals, dtype=float).reshape(arr.shape)
-
-        phi_start = (-mu_val) % two_pi
-        phi_end = (flat - mu_val) % two_pi
-
-        H_start = float(self._jp_series_cumulative(np.array([phi_start]), n_idx, coeffs)[0])
-        H_end = self._jp_series_cumulative(phi_end, n_idx, coeffs)
-
-        cdf = np.where(
-            phi_end >= phi_start,
-            np.clip(H_end - H_start, 0.0, 1.0),
-            np.clip(1.0 - (H_start - H_end), 0.0, 1.0),
-        )
-
+        cdf = self._jp_get_table(kappa_val, psi_val).cdf(flat, mu_val)
         return cdf.reshape(arr.shape)
 
     def cdf(self, x, mu, kappa, psi, *args, **kwargs):
@@ -4813,12 +4786,9 @@ class jonespewsey_gen(CircularContinuous):
         \sum_{n\ge 1}\frac{\alpha_n(\kappa,\psi)}{n}
         \sin\bigl(n(\theta-\mu)\bigr),
         $$
-        where the cosine moments $\alpha_n$ are evaluated through the
-        associated Legendre expression reported by Jones & Pewsey (2005).
-        Coefficients are cached per parameter set and the routine falls back to
-        numerical quadrature only when the series becomes unstable,
-        reproducing the von Mises limit as $\psi \to 0$ and the uniform limit
-        as $\kappa \to 0$.
+        where $\alpha_n$ are the cosine moments. The integral is evaluated by
+        Gauss-Legendre panels cached per parameter set, reproducing the von
+        Mises limit as $\psi \to 0$ and the uniform limit as $\kappa \to 0$.
 
         Parameters
         ----------
@@ -5060,81 +5030,13 @@ class jonespewsey_gen(CircularContinuous):
         self._sampler_cache[key] = (kappa_env, envelope_const)
         return kappa_env, envelope_const
 
-    def _jp_get_series(self, kappa, psi, max_harmonics=256, grid_size=4096):
+    def _jp_get_table(self, kappa, psi):
         key = (float(kappa), float(psi))
-        cached = self._series_cache.get(key)
-        if cached is not None:
-            return cached
-
-        phi = np.linspace(-np.pi, np.pi, int(grid_size), endpoint=False)
-        theta = np.mod(phi, 2.0 * np.pi)
-        pdf_vals = self.pdf(theta, 0.0, kappa, psi)
-        pdf_vals = np.asarray(pdf_vals, dtype=float)
-
-        delta = (2.0 * np.pi) / float(grid_size)
-        harmonics = np.arange(0, max_harmonics + 1, dtype=float)
-        cos_matrix = np.cos(np.outer(harmonics, phi))
-        cos_coeffs = delta * cos_matrix @ pdf_vals
-        cos_coeffs[0] = 1.0
-        cos_coeffs = np.clip(cos_coeffs, -1.0, 1.0)
-
-        n_idx = harmonics[1:]
-        coeffs = cos_coeffs[1:]
-        if n_idx.size == 0:
-            result = (n_idx, coeffs)
-            self._series_cache[key] = result
-            return result
-
-        contributions = np.abs(coeffs / n_idx)
-        tol = 5e-12
-        mask = contributions > tol
-        if not np.any(mask):
-            n_used = n_idx[:1]
-            coeffs_used = coeffs[:1]
-        else:
-            last = int(np.nonzero(mask)[0][-1]) + 1
-            n_used = n_idx[:last]
-            coeffs_used = coeffs[:last]
-        result = (n_used, coeffs_used)
-        self._series_cache[key] = result
-        return result
-
-    @staticmethod
-    def _jp_series_cumulative(phi_values, n_idx, coeffs):
-        phi_values = np.asarray(phi_values, dtype=float)
-        phi_flat = phi_values.reshape(-1)
-        result = phi_flat / (2.0 * np.pi)
-        if n_idx.size:
-            sin_terms = np.sin(np.outer(phi_flat, n_idx))
-            result += (sin_terms @ (coeffs / n_idx)) / np.pi
-        return result.reshape(phi_values.shape)
-
-    @staticmethod
-    def _jp_series_skew_integral(phi_values, n_idx, coeffs):
-        phi_values = np.asarray(phi_values, dtype=float)
-        phi_flat = phi_values.reshape(-1)
-        base = (1.0 - np.cos(phi_flat)) / (2.0 * np.pi)
-        if n_idx.size:
-            n_arr = n_idx
-            coeff_arr = coeffs
-            contributions = np.zeros_like(phi_flat)
-
-            mask_one = np.isclose(n_arr, 1.0)
-            if np.any(mask_one):
-                coeff_one = float(np.sum(coeff_arr[mask_one]))
-                contributions += coeff_one * ((1.0 - np.cos(2.0 * phi_flat)) / 4.0)
-
-            mask_other = ~mask_one
-            if np.any(mask_other):
-                n_other = n_arr[mask_other]
-                coeff_other = coeff_arr[mask_other]
-                phi_matrix = np.outer(phi_flat, n_other)
-                term_plus = (1.0 - np.cos(phi_matrix + phi_flat[:, None])) / (n_other + 1.0)
-                term_minus = (1.0 - np.cos(phi_matrix - phi_flat[:, None])) / (n_other - 1.0)
-                contributions += 0.5 * (term_plus - term_minus) @ coeff_other
-
-            base += contributions / np.pi
-        return base.reshape(phi_values.shape)
+        table = self._table_cache.get(key)
+        if table is None:
+            table = _PhaseTable(lambda phi: _jp_log_kernel(phi, key[0], key[1]))
+            self._table_cache[key] = table
+        return table
 
     def fit(
         self,
@@ -5161,10 +5063,8 @@ class jonespewsey_gen(CircularContinuous):
         ℓ(μ, κ, ψ) = Σᵢ wᵢ log( c(κ, ψ) K_JP(θᵢ − μ; κ, ψ) ).
         ```
 
-        The normalising constant c is evaluated using the associated
-        Legendre function whenever stable, with numerical quadrature as a
-        fallback.  Set method="moments" to skip the optimisation and
-        return the analytic seed.
+        The normalising constant c is evaluated by numerical quadrature.  Set
+        method="moments" to skip the optimisation and return the analytic seed.
 
         Parameters
         ----------
@@ -5289,10 +5189,9 @@ jonespewsey = jonespewsey_gen(name="jonespewsey")
 ####################################
 
 
-_JP_KAPPA_TOL = 1e-3
+_JP_KAPPA_TOL = 1e-10
 _JP_PSI_TOL = 1e-6
 _JP_MIN_BASE = np.finfo(float).tiny
-_JP_MAX_EXP_ARGUMENT = 350.0  # guard for exp overflow
 
 
 def _jp_ensure_scalar(value, name):
@@ -5310,30 +5209,72 @@ def _jp_ensure_scalar(value, name):
     )
 
 
-def _jp_kernel_base(phi, kappa, psi):
+def _jp_log_kernel(phi, kappa, psi):
     phi = np.asarray(phi, dtype=float)
     if abs(psi) < _JP_PSI_TOL:
-        return np.exp(kappa * np.cos(phi))
+        return kappa * np.cos(phi)
 
+    # cosh(A) + sinh(A) cos(phi) = exp(|A|) / 2 * [1 + c + exp(-2|A|) (1 - c)],
+    # with c = sign(A) cos(phi): free of overflow and of cancellation.
     A = kappa * psi
-    cos_phi = np.cos(phi)
-
-    cosh_A = np.cosh(A)
-    sinh_A = np.sinh(A)
-    if not np.isfinite(cosh_A) or not np.isfinite(sinh_A):
-        # Fallback to stable exponential representation
-        if A >= 0:
-            exp_A = np.exp(np.clip(A, None, _JP_MAX_EXP_ARGUMENT))
-            exp_negA = np.exp(np.clip(-A, -_JP_MAX_EXP_ARGUMENT, None))
-        else:
-            exp_A = np.exp(np.clip(A, -_JP_MAX_EXP_ARGUMENT, None))
-            exp_negA = np.exp(np.clip(-A, None, _JP_MAX_EXP_ARGUMENT))
-        cosh_A = 0.5 * (exp_A + exp_negA)
-        sinh_A = 0.5 * (exp_A - exp_negA)
-
-    base = cosh_A + sinh_A * cos_phi
+    one_plus = 2.0 * (np.cos(0.5 * phi) if A >= 0 else np.sin(0.5 * phi)) ** 2
+    base = one_plus + np.exp(-2.0 * abs(A)) * (2.0 - one_plus)
     base = np.clip(base, _JP_MIN_BASE, None)
-    return np.power(base, 1.0 / psi)
+    return (abs(A) - np.log(2.0) + np.log(base)) / psi
+
+
+class _PhaseTable:
+    """Primitive of an unnormalised density on the centred circle [-pi, pi].
+
+    ``log_kernel`` is integrated by Gauss-Legendre panels graded towards ``centres``
+    (points where the density is sharp or not smooth), so that the primitive is as
+    accurate between the nodes as at them.
+    """
+
+    _NODES, _WEIGHTS = np.polynomial.legendre.leggauss(10)
+
+    def __init__(self, log_kernel, centres=(0.0, np.pi), panels=100):
+        two_pi = 2.0 * np.pi
+        grade = np.pi * np.linspace(0.0, 1.0, panels + 1) ** 4
+        edges = np.concatenate(
+            [np.array([-np.pi, np.pi])]
+            + [np.mod(c + s * grade + np.pi, two_pi) - np.pi for c in centres for s in (-1, 1)]
+        )
+        edges = np.unique(edges)
+        edges = edges[np.concatenate(([True], np.diff(edges) > 1e-12))]
+        edges[0], edges[-1] = -np.pi, np.pi
+
+        self.log_kernel = log_kernel
+        self.edges = edges
+        half = 0.5 * np.diff(edges)
+        log_vals = log_kernel((edges[:-1] + half)[:, None] + half[:, None] * self._NODES)
+        self._log_max = float(np.max(log_vals))
+        mass = half * (np.exp(log_vals - self._log_max) @ self._WEIGHTS)
+        self._total = float(np.sum(mass))
+        self.log_integral = self._log_max + float(np.log(self._total))
+        self.cumulative = np.concatenate(([0.0], np.cumsum(mass))) / self._total
+
+    def primitive(self, phi):
+        """Mass on [-pi, phi] for phi in [-pi, pi]."""
+        phi = np.asarray(phi, dtype=float)
+        idx = np.clip(
+            np.searchsorted(self.edges, phi, side="right") - 1, 0, self.edges.size - 2
+        )
+        half = 0.5 * (phi - self.edges[idx])
+        nodes = (self.edges[idx] + half)[..., None] + half[..., None] * self._NODES
+        part = half * (np.exp(self.log_kernel(nodes) - self._log_max) @ self._WEIGHTS)
+        return self.cumulative[idx] + part / self._total
+
+    def cdf(self, theta, loc):
+        """Mass on [0, theta] of the density centred at ``loc``, for theta in [0, 2pi]."""
+
+        def unrolled(angle):
+            turns = np.floor((angle - loc + np.pi) / (2.0 * np.pi))
+            phi = np.clip(angle - loc - 2.0 * np.pi * turns, -np.pi, np.pi)
+            return self.primitive(phi) + turns
+
+        theta = np.asarray(theta, dtype=float)
+        return np.clip(unrolled(theta) - unrolled(np.zeros_like(theta)), 0.0, 1.0)
 
 
 def _jp_effective_kappa(kappa, psi):
@@ -5404,52 +5345,6 @@ def _optimize_vonmises_envelope(theta, log_target, mu, initial_guess, *, max_ite
     return K, max(M, 1.01)
 
 
-def _kernel_jonespewsey(x, mu, kappa, psi):
-    phi = np.asarray(x, dtype=float) - mu
-    return _jp_kernel_base(phi, kappa, psi)
-
-
-def _c_jonespewsey(mu, kappa, psi):
-    if kappa < _JP_KAPPA_TOL:
-        return 1.0 / (2.0 * np.pi)
-
-    if abs(psi) < _JP_PSI_TOL:
-        return 1.0 / (2.0 * np.pi * i0(kappa))
-
-    constant = _jp_legendre_normalizer(kappa, psi)
-    if np.isfinite(constant) and 1e-12 <= constant <= 1e6:
-        return constant
-
-    integral = quad_vec(
-        _kernel_jonespewsey,
-        a=-np.pi,
-        b=np.pi,
-        args=(mu, kappa, psi),
-        epsabs=1e-10,
-        epsrel=1e-10,
-    )[0]
-    return 1.0 / integral
-
-
-def _jp_legendre_normalizer(kappa, psi):
-    try:
-        nu = 1.0 / psi
-    except ZeroDivisionError:
-        return np.nan
-
-    A = kappa * psi
-    z = np.cosh(A)
-    try:
-        legendre = lpmv(0, nu, z)
-    except ValueError:
-        return np.nan
-
-    if not np.isfinite(legendre) or legendre <= 0.0:
-        return np.nan
-
-    return 1.0 / (2.0 * np.pi * legendre)
-
-
 ###########################
 ## Sine-Skewed Extention ##
 ###########################
@@ -5478,6 +5373,10 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
     Implementation based on Section 4.3.11 of Pewsey et al. (2014)
     """
 
+    def __init__(self, *args, **kwargs):
+        super().__init__(*args, **kwargs)
+        self._table_cache = {}
+
     def _validate_params(self, xi, kappa, psi, lmbd):
         xi_arr, kappa_arr, psi_arr, lmbd_arr = np.broadcast_arrays(xi, kappa, psi, lmbd)
         return (
@@ -5506,16 +5405,11 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         if abs(kappa_scalar) < _JP_KAPPA_TOL:
             return (1.0 / (2.0 * np.pi)) * (1.0 + lmbd_scalar * np.sin(x - xi_scalar))
 
-        normalizer = self._get_cached_normalizer(
-            lambda: _c_jonespewsey(xi_scalar, kappa_scalar, psi_scalar),
-            xi_scalar,
-            kappa_scalar,
-            psi_scalar,
-        )
-        self._c = normalizer
+        log_norm = jonespewsey._jp_get_table(kappa_scalar, psi_scalar).log_integral
+        self._c = np.exp(-log_norm)
 
-        base = _kernel_jonespewsey(x, xi_scalar, kappa_scalar, psi_scalar)
-        return normalizer * base * (1.0 + lmbd_scalar * np.sin(x - xi_scalar))
+        base = np.exp(_jp_log_kernel(x - xi_scalar, kappa_scalar, psi_scalar) - log_norm)
+        return base * (1.0 + lmbd_scalar * np.sin(x - xi_scalar))
 
     def pdf(self, x, xi, kappa, psi, lmbd, *args, **kwargs):
         r"""
@@ -5564,44 +5458,30 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         two_pi = 2.0 * np.pi
 
         if kappa_val < _JP_KAPPA_TOL:
-            phi = (flat - xi_val) % two_pi
-            base = phi / two_pi
-            skew = (1.0 - np.cos(phi)) / (2.0 * np.pi)
+            base = flat / two_pi
+            skew = (np.cos(xi_val) - np.cos(flat - xi_val)) / two_pi
             cdf = base + lmbd_val * skew
             return np.clip(cdf, 0.0, 1.0).reshape(arr.shape)
 
         if abs(psi_val) < _JP_PSI_TOL and abs(lmbd_val) < 1e-12:
             return jonespewsey.cdf(arr, mu=xi_val, kappa=kappa_val, psi=psi_val)
 
-        n_idx, coeffs = jonespewsey._jp_get_series(kappa_val, psi_val)
-
-        phi_start = (-xi_val) % two_pi
-        phi_end = (flat - xi_val) % two_pi
-
-        H_start = float(jonespewsey._jp_series_cumulative(np.array([phi_start]), n_idx, coeffs)[0])
-        H_end = jonespewsey._jp_series_cumulative(phi_end, n_idx, coeffs)
-
-        if abs(lmbd_val) > 0:
-            J_start = float(jonespewsey._jp_series_skew_integral(np.array([phi_start]), n_idx, coeffs)[0])
-            J_end = jonespewsey._jp_series_skew_integral(phi_end, n_idx, coeffs)
-        else:
-            J_start = 0.0
-            J_end = np.zeros_like(H_end)
+        table = self._jpss_get_table(kappa_val, psi_val, lmbd_val)
+        return table.cdf(flat, xi_val).reshape(arr.shape)
 
-        base_cdf = np.where(
-            phi_end >= phi_start,
-            H_end - H_start,
-            1.0 - (H_start - H_end),
-        )
+    def _jpss_get_table(self, kappa, psi, lmbd):
+        key = (float(kappa), float(psi), float(lmbd))
+        table = self._table_cache.get(key)
+        if table is None:
 
-        skew_cdf = np.where(
-            phi_end >= phi_start,
-            J_end - J_start,
-            -(J_start - J_end),
-        )
+            def log_kernel(phi):
+                with np.errstate(divide="ignore"):
+                    skew = np.log(np.clip(1.0 + key[2] * np.sin(phi), 0.0, None))
+                return _jp_log_kernel(phi, key[0], key[1]) + skew
 
-        cdf = base_cdf + lmbd_val * skew_cdf
-        return np.clip(cdf, 0.0, 1.0).reshape(arr.shape)
+            table = _PhaseTable(log_kernel)
+            self._table_cache[key] = table
+        return table
 
     def cdf(self, x, xi, kappa, psi, lmbd, *args, **kwargs):
         r"""
@@ -5642,7 +5522,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                 q_int = q_valid[interior]
                 eps = 1e-15
                 q_clipped = np.clip(q_int, eps, 1.0 - eps)
-                if kappa_val < _JP_KAPPA_TOL:
+                if kappa_val < _JP_KAPPA_TOL and abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = two_pi * q_clipped
                 elif abs(lmbd_val) < 1e-12:
                     theta_vals[interior] = jonespewsey.ppf(
@@ -5738,8 +5618,8 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
         kappa_val = _jp_ensure_scalar(kappa, "kappa")
         psi_val = _jp_ensure_scalar(psi, "psi")
         lmbd_val = _jp_ensure_scalar(lmbd, "lmbd")
-        if abs(lmbd_val) >= 1.0:
-            raise ValueError("|lmbd| must be < 1 for sine-skewed Jones-Pewsey.")
+        if abs(lmbd_val) > 1.0:
+            raise ValueError("|lmbd| must be <= 1 for sine-skewed Jones-Pewsey.")
 
         if size is None:
             size_tuple = ()
@@ -5997,16 +5877,17 @@ class jonespewsey_asym_gen(CircularContinuous):
         if abs(kappa_scalar) < _JP_KAPPA_TOL:
             return np.full_like(x, 1.0 / (2.0 * np.pi), dtype=float)
 
-        norm = self._get_cached_normalizer(
-            lambda: _c_jonespewsey_asym(xi_scalar, kappa_scalar, psi_scalar, nu_scalar),
-            xi_scalar,
+        log_norm = self._get_cached_normalizer(
+            lambda: _log_integral_jonespewsey_asym(kappa_scalar, psi_scalar, nu_scalar),
             kappa_scalar,
             psi_scalar,
             nu_scalar,
         )
-        self._c = norm
-        base = _kernel_jonespewsey_asym(x, xi_scalar, kappa_scalar, psi_scalar, nu_scalar)
-        return norm * base
+        self._c = np.exp(-log_norm)
+        phi = x - xi_scalar
+        return np.exp(
+            _jp_log_kernel(phi + nu_scalar * np.cos(phi), kappa_scalar, psi_scalar) - log_norm
+        )
 
     def pdf(self, x, xi, kappa, psi, nu, *args, **kwargs):
         r"""
@@ -6442,26 +6323,17 @@ class jonespewsey_asym_gen(CircularContinuous):
 jonespewsey_asym = jonespewsey_asym_gen(name="jonespewsey_asym")
 
 
-def _kernel_jonespewsey_asym(x, xi, kappa, psi, nu):
-    x = np.asarray(x, dtype=float)
-    phi = x - xi
-    phi = phi + nu * np.cos(phi)
-    return _jp_kernel_base(phi, kappa, psi)
-
-
-def _c_jonespewsey_asym(xi, kappa, psi, nu):
-    if kappa < _JP_KAPPA_TOL:
-        return 1.0 / (2.0 * np.pi)
-
-    integral = quad_vec(
-        _kernel_jonespewsey_asym,
-        a=-np.pi,
-        b=np.pi,
-        args=(xi, kappa, psi, nu),
-        epsabs=1e-10,
-        epsrel=1e-10,
-    )[0]
-    return 1.0 / integral
+def _log_integral_jonespewsey_asym(kappa, psi, nu):
+    # panels are graded towards the mode and the antimode of the warped kernel
+    mode, antimode = (
+        brentq(lambda phi: phi + nu * np.cos(phi) - target, target - 1.0, target + 1.0)
+        for target in (0.0, np.pi)
+    )
+    table = _PhaseTable(
+        lambda phi: _jp_log_kernel(phi + nu * np.cos(phi), kappa, psi),
+        centres=(mode, antimode),
+    )
+    return table.log_integral
 
 
 class inverse_batschelet_gen(CircularContinuous):
-- 
2.43.0


From c5fbc2020e33e671da290382c3809a3b9c4a3bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:02 +0000
Subject: [PATCH 058/125] fix: Jones-Pewsey moment fit reported the
 log-likelihood of another parameter point

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index cbc2f14..5429616 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5146,7 +5146,7 @@ class jonespewsey_gen(CircularContinuous):
             estimates = (self._wrap_direction(mu_mom), kappa_mom, 0.0)
             info = {
                 "method": "moments",
-                "loglik": float(-best_score),
+                "loglik": float(-nll(estimates)),
                 "n_effective": float(n_eff),
                 "converged": True,
             }
-- 
2.43.0


From 1a183eadcf15e41f07e8b6445645a0fad0b69ed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:40 +0000
Subject: [PATCH 059/125] fix: inverse Batschelet density changed after a call
 to cdf (cached normaliser overwritten)

---
 pycircstat2/distributions.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 5429616..e5c3564 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7124,8 +7124,6 @@ class inverse_batschelet_gen(CircularContinuous):
         )
         if not np.isfinite(normalizer) or normalizer <= 0.0:
             normalizer = _c_invbatschelet_numeric(kappa, lmbd, grid_size=_INVBAT_NUMERIC_GRID)
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = normalizer
 
         log_norm = np.log(normalizer)
         log_pdf = log_norm + log_kernel
@@ -7144,8 +7142,6 @@ class inverse_batschelet_gen(CircularContinuous):
             pdf *= scale
             log_norm += np.log(scale)
             mass = 1.0
-            cache = self._get_normalization_cache()
-            cache[(kappa, lmbd)] = np.exp(log_norm)
 
         avg = 0.5 * (pdf[:-1] + pdf[1:])
         cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
-- 
2.43.0


From 2393ce77c7b19614ce482aa361c58194d223bafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:40 +0000
Subject: [PATCH 060/125] fix: inverse Batschelet cdf failed for large kappa
 (subnormal table increments) and jumped to 1 by rounding

---
 pycircstat2/distributions.py | 18 ++----------------
 1 file changed, 2 insertions(+), 16 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index e5c3564..fa5e627 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6536,7 +6536,7 @@ class inverse_batschelet_gen(CircularContinuous):
             H = table["cdf_interp"](phi)
             H_start = float(table["cdf_interp"](phi_start))
             diff = H - H_start
-            cdf_flat = np.where(diff < 0.0, diff + 1.0, diff)
+            cdf_flat = np.where(phi < phi_start, diff + 1.0, diff)
             cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
 
         if arr.ndim == 0:
@@ -6623,18 +6623,13 @@ class inverse_batschelet_gen(CircularContinuous):
             phi_grid = table["phi"]
             cdf_grid = table["cdf"]
             cdf_interp = table["cdf_interp"]
-            inv_interp = table["inv_cdf_interp"]
             pdf_interp = table["pdf_interp"]
 
             phi_start = ((-xi_val + np.pi) % two_pi) - np.pi
             H_start = float(cdf_interp(phi_start))
             targets = (H_start + q_valid) % 1.0
 
-            phi_candidates = (
-                inv_interp(targets)
-                if inv_interp is not None
-                else np.interp(targets, cdf_grid, phi_grid, left=phi_grid[0], right=phi_grid[-1])
-            )
+            phi_candidates = np.interp(targets, cdf_grid, phi_grid)
 
             theta_vals = np.empty_like(q_valid)
             for idx, (target, phi0) in enumerate(zip(targets, phi_candidates)):
@@ -7091,7 +7086,6 @@ class inverse_batschelet_gen(CircularContinuous):
                 "cdf": np.array([0.0, 1.0], dtype=float),
                 "cdf_interp": cdf_interp,
                 "pdf_interp": pdf_interp,
-                "inv_cdf_interp": PchipInterpolator([0.0, 1.0], phi, extrapolate=True),
                 "log_normalizer": -np.log(2.0 * np.pi),
             }
 
@@ -7150,13 +7144,6 @@ class inverse_batschelet_gen(CircularContinuous):
 
         cdf_interp = PchipInterpolator(phi, cumulative, extrapolate=True)
 
-        unique_vals, unique_idx = np.unique(cumulative, return_index=True)
-        inv_cdf_interp = (
-            PchipInterpolator(unique_vals, phi[unique_idx], extrapolate=True)
-            if unique_vals.size >= 2
-            else None
-        )
-
         pdf_interp = PchipInterpolator(phi, pdf, extrapolate=True)
 
         return {
@@ -7165,7 +7152,6 @@ class inverse_batschelet_gen(CircularContinuous):
             "cdf": cumulative,
             "cdf_interp": cdf_interp,
             "pdf_interp": pdf_interp,
-            "inv_cdf_interp": inv_cdf_interp,
             "log_normalizer": log_norm,
         }
 
-- 
2.43.0


From 09e5db002c939ece167002ccca432b845d2e4cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:16:43 +0000
Subject: [PATCH 061/125] fix: inverse Batschelet sampling hung for
 concentrated densities (envelope multiplier exploded)

---
 pycircstat2/distributions.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index fa5e627..a34be2c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6737,11 +6737,15 @@ class inverse_batschelet_gen(CircularContinuous):
             ) / ((0.5 * (h1 + h2)) ** 2)
             curvature = max(-d2, 1e-3)
 
-        kappa_env = float(np.clip(curvature, _INVBAT_ENV_MIN_KAPPA, _INVBAT_KAPPA_UPPER))
+        # The curvature at the centre is only a first guess: it says nothing about the
+        # tails or about a mode displaced by nu, where the multiplier may explode.
+        kappa_env, multiplier = _optimize_vonmises_envelope(
+            phi,
+            log_pdf,
+            0.0,
+            float(np.clip(curvature, _INVBAT_ENV_MIN_KAPPA, _INVBAT_KAPPA_UPPER)),
+        )
         log_vm_norm = np.log(2.0 * np.pi) + np.log(i0e(kappa_env)) + kappa_env
-        log_ratio = log_pdf + log_vm_norm - kappa_env * np.cos(phi)
-        log_multiplier = float(np.max(log_ratio))
-        multiplier = float(np.exp(log_multiplier) * 1.02)
 
         params = {
             "kappa_env": kappa_env,
-- 
2.43.0


From 062de281a6737411a0b5bb4f4c70e943109b00de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 062/125] fix: wrapped stable density with alpha = 1 was skewed
 the wrong way (sign of the phase)

---
 pycircstat2/distributions.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a34be2c..f21a834 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7338,7 +7338,7 @@ class wrapstable_gen(CircularContinuous):
     \mu_p =
     \begin{cases}
         \delta p + \beta \tan\left(\tfrac{\pi\alpha}{2}\right)\bigl((\gamma p)^\alpha - \gamma p\bigr), & \alpha \ne 1, \\[6pt]
-        \delta p + \tfrac{2}{\pi}\beta\gamma p \log(\gamma p), & \alpha = 1.
+        \delta p - \tfrac{2}{\pi}\beta\gamma p \log(\gamma p), & \alpha = 1.
     \end{cases}
     $$
 
@@ -7424,7 +7424,7 @@ class wrapstable_gen(CircularContinuous):
         \mu_p = 
         \begin{cases}
             \delta p + \beta \tan\left(\frac{\pi \alpha}{2}\right) \left((\gamma p)^\alpha - \gamma p\right), & \alpha \neq 1 \\
-            \delta p - \beta \frac{2}{\pi} \log(\gamma p), & \text{if } \alpha = 1
+            \delta p - \beta \frac{2}{\pi} \gamma p \log(\gamma p), & \text{if } \alpha = 1
         \end{cases}
         $$
 
@@ -7672,8 +7672,8 @@ class wrapstable_gen(CircularContinuous):
         phi2 = phi2_raw + 2.0 * np.pi * round((2.0 * phi1 - phi2_raw) / (2.0 * np.pi))
 
         if abs(alpha_mom - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            B1 = (2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
-            B2 = (2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
+            B1 = -(2.0 / np.pi) * gamma_mom * np.log(gamma_mom)
+            B2 = -(2.0 / np.pi) * (gamma_mom * 2.0) * np.log(gamma_mom * 2.0)
             denom = B2 - 2.0 * B1
             if abs(denom) < 1e-8:
                 beta_mom = 0.0
@@ -7866,7 +7866,7 @@ class wrapstable_gen(CircularContinuous):
         rho_vals = np.exp(-((gamma * p) ** alpha))
 
         if abs(alpha - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
-            mu_vals = delta * p + (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
+            mu_vals = delta * p - (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
         else:
             mu_vals = delta * p + beta * np.tan(0.5 * np.pi * alpha) * (
                 (gamma * p) ** alpha - gamma * p
-- 
2.43.0


From 7e385ea81e9e2ff4142c9b3150372e2847cf663e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 063/125] fix: skewed wrapped stable samples were shifted by
 gamma * beta * tan(pi * alpha / 2)

---
 pycircstat2/distributions.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index f21a834..51bd9cc 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7912,17 +7912,14 @@ def _wrapstable_sample_linear(alpha, beta, gamma, delta, *, size, rng):
         delta_s1 = delta - gamma * beta * tan_term
         part1 = np.sin(alpha * (V + theta0)) / (np.cos(V) ** (1.0 / alpha))
         part2 = (np.cos(V - alpha * (V + theta0)) / W) ** ((1.0 - alpha) / alpha)
-        x_s1 = gamma * factor * part1 * part2 + delta_s1
-        x = x_s1 + (delta - delta_s1)
+        x = gamma * factor * part1 * part2 + delta_s1
     else:
         factor = 2.0 / np.pi
-        delta_s1 = delta - factor * beta * gamma * np.log(gamma)
         term = (
             (0.5 * np.pi + beta * V) * np.tan(V)
             - beta * np.log((0.5 * np.pi * W * np.cos(V)) / (0.5 * np.pi + beta * V))
         )
-        x_s1 = gamma * factor * term + delta_s1
-        x = x_s1 + (delta - delta_s1)
+        x = gamma * factor * term + delta
 
     return x
 
-- 
2.43.0


From ac6877b264ea515ee59c3c9c95bbe0c0e3263bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:14 +0000
Subject: [PATCH 064/125] fix: wrapped stable cdf jumped to 1 near the origin
 by rounding

---
 pycircstat2/distributions.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 51bd9cc..8915928 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7464,7 +7464,6 @@ class wrapstable_gen(CircularContinuous):
 
         anchor = (1.0 / np.pi) * np.sum((rho_vals / p_vals) * np.sin(-mu_vals))
         cdf_vals = cdf_vals - anchor
-        cdf_vals = np.where(cdf_vals < 0.0, cdf_vals + 1.0, cdf_vals)
         cdf_vals = np.clip(cdf_vals, 0.0, 1.0)
 
         # Ensure exact endpoints
-- 
2.43.0


From b71e9f2fc426fcd2caed592e04d910aaeb00d974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:53 +0000
Subject: [PATCH 065/125] fix: distribution functions jumped to 1 within 6e-5
 of 2pi (relative tolerance)

---
 pycircstat2/distributions.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8915928..797035e 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1884,10 +1884,10 @@ class cartwright_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        result[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, zeta, *args, **kwargs):
@@ -2391,9 +2391,9 @@ class wrapnorm_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         rho_clipped = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
@@ -2402,10 +2402,10 @@ class wrapnorm_gen(CircularContinuous):
         cdf_flat, _ = self._wrapnorm_cdf_pdf(flat, mu_val, sigma)
         if arr.ndim == 0:
             value = float(cdf_flat.reshape(-1)[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf_flat.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -2940,9 +2940,9 @@ class wrapcauchy_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi) else value
+            return 1.0 if np.isclose(float(wrapped), 2.0 * np.pi, rtol=0.0, atol=1e-12) else value
         reshaped = cdf.reshape(arr.shape)
-        reshaped[np.isclose(arr, 2.0 * np.pi)] = 1.0
+        reshaped[np.isclose(arr, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
         return reshaped
 
     def cdf(self, x, mu, rho, *args, **kwargs):
@@ -3397,9 +3397,9 @@ class vonmises_gen(CircularContinuous):
             uniform = flat / two_pi
             if arr.ndim == 0:
                 value = float(uniform[0])
-                return 1.0 if np.isclose(float(wrapped), two_pi) else value
+                return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
             result = uniform.reshape(arr.shape)
-            result[np.isclose(arr, two_pi)] = 1.0
+            result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
             return result
 
         denom = i0e(kappa_val)
@@ -3440,10 +3440,10 @@ class vonmises_gen(CircularContinuous):
 
         if arr.ndim == 0:
             value = float(cdf[0])
-            return 1.0 if np.isclose(float(wrapped), two_pi) else value
+            return 1.0 if np.isclose(float(wrapped), two_pi, rtol=0.0, atol=1e-12) else value
 
         result = cdf.reshape(arr.shape)
-        result[np.isclose(arr, two_pi)] = 1.0
+        result[np.isclose(arr, two_pi, rtol=0.0, atol=1e-12)] = 1.0
         return result
 
     def cdf(self, x, mu, kappa, *args, **kwargs):
@@ -7469,7 +7469,7 @@ class wrapstable_gen(CircularContinuous):
         # Ensure exact endpoints
         two_pi = 2.0 * np.pi
         cdf_vals[np.isclose(theta_flat[0], 0.0, atol=1e-12)] = 0.0
-        cdf_vals[np.isclose(theta_flat[0], two_pi, atol=1e-12)] = 1.0
+        cdf_vals[np.isclose(theta_flat[0], two_pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_vals.reshape(-1)[0])
@@ -8066,7 +8066,7 @@ class katojones_gen(CircularContinuous):
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
-        cdf_flat[np.isclose(flat, 2.0 * np.pi, atol=1e-12)] = 1.0
+        cdf_flat[np.isclose(flat, 2.0 * np.pi, rtol=0.0, atol=1e-12)] = 1.0
 
         if scalar_input:
             return float(cdf_flat[0])
@@ -8172,7 +8172,7 @@ class katojones_gen(CircularContinuous):
             if np.isclose(q_val, 0.0, atol=1e-12):
                 result[idx] = 0.0
                 continue
-            if np.isclose(q_val, 1.0, atol=1e-12):
+            if np.isclose(q_val, 1.0, rtol=0.0, atol=1e-12):
                 result[idx] = two_pi
                 continue
 
-- 
2.43.0


From f179ad01e14944d53c79260175239062cd112547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:25 +0000
Subject: [PATCH 066/125] fix: Kato-Jones distribution function was uniform for
 rho=0 and truncated for rho near 1

---
 pycircstat2/distributions.py | 113 ++++++++---------------------------
 1 file changed, 26 insertions(+), 87 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 797035e..f07ec4c 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -76,8 +76,6 @@ _WRAPSTABLE_NEWTON_MAXITER = 60
 _WRAPSTABLE_NEWTON_TOL = 1e-12
 _WRAPSTABLE_NEWTON_WIDTH_TOL = 1e-10
 
-_KJ_CDF_TOL = 1e-12
-_KJ_MAX_TERMS = 5000
 _KJ_GAMMA_TOL = 1e-12
 _KJ_NEWTON_MAXITER = 60
 _KJ_NEWTON_TOL = 1e-12
@@ -7933,7 +7931,7 @@ class katojones_gen(CircularContinuous):
     pdf(x, mu, gamma, rho, lam)
         Probability density function.
     cdf(x, mu, gamma, rho, lam)
-        Cumulative distribution function via adaptive Fourier series.
+        Cumulative distribution function in closed form.
 
     rvs(mu, gamma, rho, lam, size=None, random_state=None)
         Random variates obtained by inverting the CDF.
@@ -7961,14 +7959,6 @@ class katojones_gen(CircularContinuous):
 
     _moment_tolerance = 1e-12
 
-    def __init__(self, *args, **kwargs):
-        super().__init__(*args, **kwargs)
-        self._series_cache = {}
-
-    def _clear_normalization_cache(self):
-        super()._clear_normalization_cache()
-        self._series_cache = {}
-
     @staticmethod
     def _scalar_param(value):
         arr = np.asarray(value, dtype=float)
@@ -8060,9 +8050,7 @@ class katojones_gen(CircularContinuous):
         if gamma_val <= _KJ_GAMMA_TOL:
             cdf_flat = flat / (2.0 * np.pi)
         else:
-            series = self._get_series_terms(mu_val, gamma_val, rho_val, lam_val)
-            cdf_raw = self._evaluate_cdf_series(flat, mu_val, gamma_val, rho_val, lam_val, series=series)
-            cdf_flat = np.mod(cdf_raw, 1.0)
+            cdf_flat = self._evaluate_cdf_series(flat, mu_val, gamma_val, rho_val, lam_val)
 
         cdf_flat = np.clip(cdf_flat, 0.0, 1.0)
         cdf_flat[np.isclose(flat, 0.0, atol=1e-12)] = 0.0
@@ -8084,9 +8072,8 @@ class katojones_gen(CircularContinuous):
         \sin\!\bigl(p\theta - [p\mu + (p-1)\lambda]\bigr),
         $$
 
-        which is evaluated adaptively by truncating the series once the tail
-        contribution drops below a specified tolerance. No numerical quadrature
-        is required.
+        which sums to a logarithm of $1 - \rho e^{i(\theta-\mu-\lambda)}$. No numerical
+        quadrature is required.
 
         Parameters
         ----------
@@ -8158,12 +8145,10 @@ class katojones_gen(CircularContinuous):
         if not np.any(valid):
             return float(result) if scalar_input else result.reshape(q_arr.shape)
 
-        series = self._get_series_terms(mu_val, gamma_val, rho_val, lam_val)
         two_pi = 2.0 * np.pi
 
         def cdf_single(theta):
-            value = self._evaluate_cdf_series(theta, mu_val, gamma_val, rho_val, lam_val, series=series)
-            value = np.mod(value, 1.0)
+            value = self._evaluate_cdf_series(theta, mu_val, gamma_val, rho_val, lam_val)
             return float(np.clip(value, 0.0, 1.0))
 
         for idx, q_val in enumerate(flat):
@@ -8489,76 +8474,30 @@ class katojones_gen(CircularContinuous):
         lam = float(np.mod(np.arctan2(rho_sin, rho_cos), 2.0 * np.pi))
         return rho, lam
 
-    def _get_series_terms(self, mu, gamma, rho, lam):
-        mu_val = float(np.mod(self._scalar_param(mu), 2.0 * np.pi))
-        gamma_val = float(np.clip(self._scalar_param(gamma), 0.0, 1.0 - 1e-12))
-        rho_val = float(np.clip(self._scalar_param(rho), 0.0, 1.0 - 1e-12))
-        lam_val = float(np.mod(self._scalar_param(lam), 2.0 * np.pi))
-
-        key = self._normalization_cache_key(mu_val, gamma_val, rho_val, lam_val)
-        if key is None:
-            return self._compute_series_terms(mu_val, gamma_val, rho_val, lam_val)
-
-        cache = self._series_cache
-        if key not in cache:
-            cache[key] = self._compute_series_terms(mu_val, gamma_val, rho_val, lam_val)
-        return cache[key]
-
-    def _compute_series_terms(self, mu, gamma, rho, lam):
-        if gamma <= _KJ_GAMMA_TOL or rho <= _KJ_GAMMA_TOL:
-            return {
-                "coeffs": np.empty(0, dtype=float),
-                "phases": np.empty(0, dtype=float),
-                "p": np.empty(0, dtype=float),
-                "anchor": 0.0,
-            }
-
-        rho_val = float(np.clip(rho, 0.0, 1.0 - 1e-12))
-        gamma_val = float(np.clip(gamma, 0.0, 1.0 - 1e-12))
-
-        if rho_val == 0.0:
-            P = 1
+    @staticmethod
+    def _sine_series(theta, mu, gamma, rho, lam):
+        """
+        Closed form of sum_{p>=1} gamma rho^(p-1) / p sin(p theta - p mu - (p-1) lam).
+        """
+        delta = theta - mu
+        if rho <= _KJ_GAMMA_TOL:
+            return gamma * np.sin(delta)
+
+        # -log(1 - rho e^{i psi}) / rho, avoiding cancellation for small and large rho
+        psi = delta - lam
+        gap = 4.0 * rho * np.sin(0.5 * psi) ** 2
+        if rho < 0.5:
+            log_modulus = 0.5 * np.log1p(rho * (rho - 2.0 * np.cos(psi)))
         else:
-            P = 1
-            for _ in range(_KJ_MAX_TERMS):
-                tail = (gamma_val / max(P, 1)) * (rho_val ** max(P - 1, 0)) / max(1e-12, 1.0 - rho_val)
-                if tail <= _KJ_CDF_TOL:
-                    break
-                P += 1
-            P = min(P, _KJ_MAX_TERMS)
-
-        p = np.arange(1, P + 1, dtype=float)
-        rho_pows = rho_val ** (p - 1.0)
-        coeffs = gamma_val * rho_pows / p
-        phases = np.mod(p * mu + (p - 1.0) * lam, 2.0 * np.pi)
-        anchor = -(1.0 / np.pi) * np.sum(coeffs * np.sin(phases))
-
-        return {
-            "coeffs": coeffs,
-            "phases": phases,
-            "p": p,
-            "anchor": float(anchor),
-        }
+            log_modulus = 0.5 * np.log((1.0 - rho) ** 2 + gap)
+        argument = np.arctan2(rho * np.sin(psi), (1.0 - rho) + 0.5 * gap)
+        return (gamma / rho) * (np.cos(lam) * argument - np.sin(lam) * log_modulus)
 
-    def _evaluate_cdf_series(self, theta, mu, gamma, rho, lam, *, series=None):
+    def _evaluate_cdf_series(self, theta, mu, gamma, rho, lam):
         theta_arr = np.asarray(theta, dtype=float)
-        flat = theta_arr.reshape(-1)
-
-        if series is None:
-            series = self._get_series_terms(mu, gamma, rho, lam)
-
-        coeffs = series["coeffs"]
-        if coeffs.size == 0:
-            return (flat / (2.0 * np.pi)).reshape(theta_arr.shape)
-
-        phases = series["phases"]
-        p = series["p"][:, np.newaxis]
-        theta_col = flat[np.newaxis, :]
-        sin_terms = np.sin(p * theta_col - phases[:, np.newaxis])
-        series_sum = np.sum(coeffs[:, np.newaxis] * sin_terms, axis=0)
-        base = flat / (2.0 * np.pi)
-        values = base + (1.0 / np.pi) * series_sum - series["anchor"]
-        return values.reshape(theta_arr.shape)
+        anchor = self._sine_series(0.0, mu, gamma, rho, lam)
+        series = self._sine_series(theta_arr, mu, gamma, rho, lam)
+        return theta_arr / (2.0 * np.pi) + (series - anchor) / np.pi
 
     def _fit_mle(
         self,
-- 
2.43.0


From b76f1611ea50de4d6845f1c4de04408e403d7a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 067/125] fix: maximum-likelihood fits got stuck at the origin
 when the location was near 0

---
 pycircstat2/distributions.py | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index f07ec4c..164ba15 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1691,7 +1691,7 @@ class cardioid_gen(CircularContinuous):
                 }
             else:
                 init = np.array([mu_mom, rho_mom], dtype=float)
-                bounds = [(0.0, 2.0 * np.pi), (0.0, 0.5)]
+                bounds = [(mu_mom - np.pi, mu_mom + np.pi), (0.0, 0.5)]
                 result = minimize(
                     _nll,
                     init,
@@ -2196,7 +2196,7 @@ class cartwright_gen(CircularContinuous):
             mu_init = mu_mom
             zeta_init = zeta_mom if np.isfinite(zeta_mom) else 10.0
             zeta_init = float(np.clip(zeta_init, 1e-3, 1e4))
-            bounds = [(0.0, 2.0 * np.pi), (1e-6, 1e6)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-6, 1e6)]
             result = minimize(
                 nll,
                 np.array([mu_init, zeta_init], dtype=float),
@@ -2778,7 +2778,7 @@ class wrapnorm_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1.0 - 1e-9)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1.0 - 1e-9)]
             init = np.array([mu_mom, rho_mom], dtype=float)
             result = minimize(
                 nll,
@@ -3218,7 +3218,7 @@ class wrapcauchy_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1.0 - 1e-9)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1.0 - 1e-9)]
             init = np.array([mu_mom, max(1e-3, min(rho_mom, 1.0 - 1e-3))], dtype=float)
             result = minimize(
                 nll,
@@ -3859,7 +3859,7 @@ class vonmises_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), (1e-9, 1e6)]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), (1e-9, 1e6)]
             init = np.array([mu_mom, kappa_mom], dtype=float)
             result = minimize(
                 nll,
@@ -4384,8 +4384,6 @@ class vonmises_flattopped_gen(CircularContinuous):
         def nll(params):
             mu_param, kappa_param, nu_param = params
 
-            if not (0.0 <= mu_param <= 2.0 * np.pi):
-                return np.inf
             if not (kappa_bounds[0] <= kappa_param <= kappa_bounds[1]):
                 return np.inf
             if not (nu_bounds[0] <= nu_param <= nu_bounds[1]):
@@ -4434,7 +4432,7 @@ class vonmises_flattopped_gen(CircularContinuous):
 
         init = np.array([mu_mom, kappa_mom, best_nu], dtype=float)
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (mu_mom - np.pi, mu_mom + np.pi),
             (kappa_bounds[0], kappa_bounds[1]),
             (nu_bounds[0], nu_bounds[1]),
         ]
@@ -5149,7 +5147,7 @@ class jonespewsey_gen(CircularContinuous):
                 "converged": True,
             }
         else:
-            bounds = [(0.0, 2.0 * np.pi), kappa_bounds, psi_bounds]
+            bounds = [(mu_mom - np.pi, mu_mom + np.pi), kappa_bounds, psi_bounds]
             init = np.array([mu_mom, kappa_mom, psi_init], dtype=float)
             result = minimize(
                 nll,
@@ -5756,7 +5754,7 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
 
         if refine:
             bounds = [
-                (0.0, 2.0 * np.pi),
+                (xi_hat - np.pi, xi_hat + np.pi),
                 kappa_bounds,
                 psi_bounds,
                 lmbd_bounds,
@@ -6281,7 +6279,7 @@ class jonespewsey_asym_gen(CircularContinuous):
 
         init = np.array([xi_init, kappa_init, psi_init, nu_init], dtype=float)
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (xi_init - np.pi, xi_init + np.pi),
             kappa_bounds,
             psi_bounds,
             nu_bounds,
@@ -6984,8 +6982,6 @@ class inverse_batschelet_gen(CircularContinuous):
 
         def nll(params):
             xi_param, kappa_param, nu_param, lmbd_param = params
-            if not (0.0 <= xi_param <= two_pi):
-                return np.inf
             if not (kappa_bounds[0] <= kappa_param <= kappa_bounds[1]):
                 return np.inf
             if not (nu_bounds[0] <= nu_param <= nu_bounds[1]):
@@ -7018,7 +7014,7 @@ class inverse_batschelet_gen(CircularContinuous):
 
         init = np.array([xi_mom, kappa_mom, best_nu, best_lmbd], dtype=float)
         bounds = [
-            (0.0, two_pi),
+            (xi_mom - np.pi, xi_mom + np.pi),
             (kappa_bounds[0], kappa_bounds[1]),
             (nu_bounds[0], nu_bounds[1]),
             (lmbd_bounds[0], lmbd_bounds[1]),
@@ -7711,8 +7707,6 @@ class wrapstable_gen(CircularContinuous):
 
         def nll(params):
             delta_param, alpha_param, beta_param, gamma_param = params
-            if not (0.0 <= delta_param <= 2.0 * np.pi):
-                return np.inf
             if not (alpha_bounds[0] <= alpha_param <= alpha_bounds[1]):
                 return np.inf
             if not (beta_bounds[0] <= beta_param <= beta_bounds[1]):
@@ -7752,14 +7746,14 @@ class wrapstable_gen(CircularContinuous):
                             best_score = score
                             best_params = cand
 
+        init = np.array(best_params, dtype=float)
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (init[0] - np.pi, init[0] + np.pi),
             tuple(alpha_bounds),
             tuple(beta_bounds),
             tuple(gamma_bounds),
         ]
 
-        init = np.array(best_params, dtype=float)
         options = {} if options is None else dict(options)
 
         optimizer_used = optimizer
@@ -8541,10 +8535,10 @@ class katojones_gen(CircularContinuous):
             return -np.sum(w * np.log(pdf_vals))
 
         bounds = [
-            (0.0, 2.0 * np.pi),
+            (mu0 - np.pi, mu0 + np.pi),
             (1e-6, 1.0 - 1e-6),
             (0.0, 1.0 - 1e-6),
-            (0.0, 2.0 * np.pi),
+            (phi0 - np.pi, phi0 + np.pi),
         ]
 
         result = minimize(
-- 
2.43.0


From 9afbeba71acd4c57ebe9614fe73e3e22009932ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 068/125] fix: Kato-Jones fits returned NaN without a mean
 direction, or parameters its own density refused

---
 pycircstat2/distributions.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 164ba15..cbca5bd 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7974,13 +7974,13 @@ class katojones_gen(CircularContinuous):
 
         base = (
             (mu_arr >= 0.0)
-            & (mu_arr < 2.0 * np.pi)
+            & (mu_arr <= 2.0 * np.pi)
             & (gamma_arr >= 0.0)
             & (gamma_arr < 1.0)
             & (rho_arr >= 0.0)
             & (rho_arr < 1.0)
             & (lam_arr >= 0.0)
-            & (lam_arr < 2.0 * np.pi)
+            & (lam_arr <= 2.0 * np.pi)
         )
 
         cos_lam = np.cos(lam_arr)
@@ -8281,6 +8281,8 @@ class katojones_gen(CircularContinuous):
         data_arr, w, w_sum, n_eff = self._prepare_data_weights(data, weights=weights)
 
         mu_hat, r1 = circ_mean_and_r(alpha=data_arr, w=w)
+        if not np.isfinite(mu_hat):
+            mu_hat = 0.0
         centered = angmod(data_arr - mu_hat)
         cos2 = np.cos(2.0 * centered)
         sin2 = np.sin(2.0 * centered)
-- 
2.43.0


From de7b18af9debef609ea0ba2ddabee640708c4859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:49 +0000
Subject: [PATCH 069/125] fix: inverse Batschelet moment fits reported an
 undefined log-likelihood

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index cbca5bd..2e5f684 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6958,7 +6958,7 @@ class inverse_batschelet_gen(CircularContinuous):
                 info = {
                     "method": "moments",
                     "converged": True,
-                    "loglik": float(-np.sum(w) * np.log(2.0 * np.pi)) if kappa_mom <= _INVBAT_KAPPA_TOL else float("nan"),
+                    "loglik": float(np.sum(w * self.logpdf(data_arr, *estimates))),
                     "n_effective": n_eff,
                 }
                 return estimates, info
-- 
2.43.0


From 69c72d9078b24fbc98e64fd19a0b24a553f2214a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:29:35 +0000
Subject: [PATCH 070/125] fix: triangular quantiles lost precision for nearly
 uniform shapes

---
 pycircstat2/distributions.py | 36 +++++++-----------------------------
 1 file changed, 7 insertions(+), 29 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 2e5f684..cf048d5 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1013,35 +1013,13 @@ class triangular_gen(CircularContinuous):
             q_g = q_b[mask_general]
             rho_g = rho_b[mask_general]
 
-            a_left = rho_g
-            b_left = -(4 + np.pi**2 * rho_g) / np.pi
-            a_right = rho_g
-            b_right = (4 - 3 * np.pi**2 * rho_g) / np.pi
-
-            res_general = np.empty_like(q_g, dtype=float)
-            mask_left = q_g <= 0.5
-
-            if np.any(mask_left):
-                c_left = 8 * q_g[mask_left]
-                disc_left = np.clip(
-                    b_left[mask_left] ** 2 - 4 * a_left[mask_left] * c_left,
-                    0.0,
-                    None,
-                )
-                res_general[mask_left] = (
-                    -b_left[mask_left] - np.sqrt(disc_left)
-                ) / (2 * a_left[mask_left])
-
-            if np.any(~mask_left):
-                c_right = 2 * np.pi**2 * rho_g[~mask_left] - 8 * q_g[~mask_left]
-                disc_right = np.clip(
-                    b_right[~mask_left] ** 2 - 4 * a_right[~mask_left] * c_right,
-                    0.0,
-                    None,
-                )
-                res_general[~mask_left] = (
-                    -b_right[~mask_left] + np.sqrt(disc_right)
-                ) / (2 * a_right[~mask_left])
+            # the density is symmetric about pi; the smaller root of the quadratic is
+            # taken in its cancellation-free form
+            tail = np.minimum(q_g, 1.0 - q_g)
+            b = (4 + np.pi**2 * rho_g) / np.pi
+            disc = np.clip(b**2 - 32 * rho_g * tail, 0.0, None)
+            root = 16 * tail / (b + np.sqrt(disc))
+            res_general = np.where(q_g <= 0.5, root, 2 * np.pi - root)
 
             result[mask_general] = res_general
 
-- 
2.43.0


From f14248d7d28b9b904d9686eef882a7f2df8bd937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:31:27 +0000
Subject: [PATCH 071/125] fix: moment fits of wrapstable and katojones reported
 no log-likelihood

---
 pycircstat2/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index cf048d5..9a58716 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7674,6 +7674,7 @@ class wrapstable_gen(CircularContinuous):
                 info = {
                     "method": "moments",
                     "converged": True,
+                    "loglik": float(np.sum(w * self.logpdf(data_arr, *estimates))),
                     "n_effective": n_eff,
                 }
                 return estimates, info
@@ -8286,6 +8287,7 @@ class katojones_gen(CircularContinuous):
             info = {
                 "method": "moments",
                 "converged": True,
+                "loglik": float(np.sum(w * self.logpdf(data_arr, *estimates))),
                 "n_effective": n_eff,
             }
             return estimates, info
-- 
2.43.0


From d53ce84fe5f8a6d8aa29a76c0b0c853ba67acc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:09 +0000
Subject: [PATCH 072/125] fix: cartwright, wrapnorm and wrapcauchy cdf raised
 on arrays of angles

---
 pycircstat2/distributions.py | 39 ++++++++++++++----------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 9a58716..63e46ac 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -394,6 +394,13 @@ class CircularContinuous(rv_continuous):
 
     __call__ = freeze
 
+    def _scalar_shape(self, value):
+        """Collapse a parameter that scipy broadcast against the evaluation points."""
+        arr = np.asarray(value, dtype=float).reshape(-1)
+        if arr.size == 0 or not np.all(arr == arr[0]):
+            raise ValueError(f"{self.name} parameters must be scalar-valued.")
+        return float(arr[0])
+
     # ------------------------------------------------------------------
     # Public overrides
     # ------------------------------------------------------------------
@@ -1827,13 +1834,8 @@ class cartwright_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-        if mu_arr.size != 1 or zeta_arr.size != 1:
-            raise ValueError("cartwright parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = self._scalar_shape(mu)
+        zeta_val = self._scalar_shape(zeta)
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2354,13 +2356,8 @@ class wrapnorm_gen(CircularContinuous):
         if flat.size == 0:
             return arr.astype(float)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-        if mu_arr.size != 1 or rho_arr.size != 1:
-            raise ValueError("wrapnorm parameters must be scalar-valued.")
-
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = self._scalar_shape(mu)
+        rho_val = self._scalar_shape(rho)
         two_pi = 2.0 * np.pi
 
         if rho_val <= 1e-12:
@@ -2884,19 +2881,13 @@ class wrapcauchy_gen(CircularContinuous):
         arr = np.asarray(wrapped, dtype=float)
         flat = arr.reshape(-1)
 
-        mu_arr = np.asarray(mu, dtype=float)
-        if mu_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        mu_val = float(mu_arr.reshape(-1)[0])
-        rho_arr = np.asarray(rho, dtype=float)
-        if rho_arr.size != 1:
-            raise ValueError("wrapcauchy parameters must be scalar-valued.")
-        rho_val = float(rho_arr.reshape(-1)[0])
-        rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
-
         if flat.size == 0:
             return arr.astype(float)
 
+        mu_val = self._scalar_shape(mu)
+        rho_val = self._scalar_shape(rho)
+        rho_val = np.clip(rho_val, np.finfo(float).tiny, 1.0 - 1e-15)
+
         two_pi = 2.0 * np.pi
         A = (1.0 + rho_val) / (1.0 - rho_val)
 
-- 
2.43.0


From 279b0096fc89e45a97b3ae61418dcd94982aa5a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:32 +0000
Subject: [PATCH 073/125] fix: quantiles silently used only the first of
 several parameter values

---
 pycircstat2/distributions.py | 35 ++++++++++-------------------------
 1 file changed, 10 insertions(+), 25 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 63e46ac..7cda5af 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1444,11 +1444,8 @@ class cardioid_gen(CircularContinuous):
         return result
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._scalar_shape(mu), 2.0 * np.pi))
+        rho_val = self._scalar_shape(rho)
         if not (0.0 <= rho_val <= 0.5):
             raise ValueError("`rho` must lie in [0, 0.5].")
 
@@ -1892,11 +1889,8 @@ class cartwright_gen(CircularContinuous):
         return super().cdf(x, mu, zeta, *args, **kwargs)
 
     def _ppf(self, q, mu, zeta):
-        mu_arr = np.asarray(mu, dtype=float)
-        zeta_arr = np.asarray(zeta, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        zeta_val = float(zeta_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._scalar_shape(mu), 2.0 * np.pi))
+        zeta_val = self._scalar_shape(zeta)
         if zeta_val <= 0.0:
             raise ValueError("`zeta` must be positive.")
 
@@ -2412,11 +2406,8 @@ class wrapnorm_gen(CircularContinuous):
         return super().cdf(x, mu, rho, *args, **kwargs)
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._scalar_shape(mu), 2.0 * np.pi))
+        rho_val = self._scalar_shape(rho)
         two_pi = 2.0 * np.pi
 
         q_arr = np.asarray(q, dtype=float)
@@ -2941,11 +2932,8 @@ class wrapcauchy_gen(CircularContinuous):
         return float(H) if np.isscalar(phi) else H
 
     def _ppf(self, q, mu, rho):
-        mu_arr = np.asarray(mu, dtype=float)
-        rho_arr = np.asarray(rho, dtype=float)
-
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        rho_val = float(rho_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._scalar_shape(mu), 2.0 * np.pi))
+        rho_val = self._scalar_shape(rho)
         if not (0.0 <= rho_val < 1.0):
             raise ValueError("`rho` must lie in [0, 1).")
 
@@ -3447,11 +3435,8 @@ class vonmises_gen(CircularContinuous):
         return super().cdf(x, mu, kappa, *args, **kwargs)
 
     def _ppf(self, q, mu, kappa):
-        mu_arr = np.asarray(mu, dtype=float)
-        kappa_arr = np.asarray(kappa, dtype=float)
-        
-        mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
-        kappa_val = float(kappa_arr.reshape(-1)[0])
+        mu_val = float(np.mod(self._scalar_shape(mu), 2.0 * np.pi))
+        kappa_val = self._scalar_shape(kappa)
         if kappa_val < 0.0:
             raise ValueError("`kappa` must be non-negative.")
 
-- 
2.43.0


From 066422e43fbb6f32f7e263929bd10aa37cfbf1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:40:57 +0000
Subject: [PATCH 074/125] fix: wrapstable and katojones logcdf and logsf raised
 for every angle

---
 pycircstat2/distributions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 7cda5af..adb0b92 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7399,6 +7399,8 @@ class wrapstable_gen(CircularContinuous):
     def _cdf(self, x, delta, alpha, beta, gamma):
         x_arr = np.asarray(x, dtype=float)
         scalar_input = x_arr.ndim == 0
+        if x_arr.size == 0:
+            return x_arr.astype(float)
         theta = np.atleast_1d(x_arr)
 
         rho_vals, mu_vals, p = self._get_series_terms(delta, alpha, beta, gamma)
@@ -7990,6 +7992,8 @@ class katojones_gen(CircularContinuous):
         x_arr = np.asarray(x, dtype=float)
         scalar_input = x_arr.ndim == 0
         flat = x_arr.reshape(-1)
+        if flat.size == 0:
+            return x_arr.astype(float)
 
         mu_val = float(np.mod(self._scalar_param(mu), 2.0 * np.pi))
         gamma_val = float(np.clip(self._scalar_param(gamma), 0.0, 1.0 - 1e-12))
-- 
2.43.0


From a2c3f1f4b44be2e8c9fd6e7b9d2e9e03b0445298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:53:37 +0000
Subject: [PATCH 075/125] fix: entropy was wrong for concentrated distributions
 and -inf for wrapstable

---
 pycircstat2/distributions.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index adb0b92..8ad6dfc 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6,6 +6,7 @@ from scipy.integrate import quad
 from scipy.interpolate import PchipInterpolator
 from scipy.optimize import minimize, minimize_scalar, brentq, root_scalar
 from scipy.special import (
+    entr,
     i0,
     i0e,
     i1,
@@ -613,6 +614,17 @@ class CircularContinuous(rv_continuous):
         )
         return complex(C_p, S_p)
 
+    def _entropy(self, *args):
+        # Split at the 5% and 95% quantiles, as ``expect`` does, so that a narrow
+        # peak is not missed; truncated series may dip below zero by rounding.
+        def integrand(x):
+            return entr(np.maximum(self._pdf(x, *args), 0.0))
+
+        lower, upper = self._get_support(*args)
+        inner = np.asarray(self._ppf(np.array([0.05, 0.95]), *args), dtype=float)
+        edges = [lower, *inner, upper]
+        return sum(quad(integrand, lo, hi)[0] for lo, hi in zip(edges[:-1], edges[1:]))
+
     def r(self, *args, **kwargs) -> float:
         """Mean resultant length R = |m₁|."""
         m1 = self.trig_moment(1, *args, **kwargs)
-- 
2.43.0


From f186eabe13decf6d1f6a3bfd5f57b753936b79f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:13 +0000
Subject: [PATCH 076/125] fix: location and scale given positionally to a
 distribution were not refused

---
 pycircstat2/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 8ad6dfc..af64adf 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -182,7 +182,12 @@ class CircularContinuous(rv_continuous):
 
             def wrapper(this, *args, __orig=original, __name=attr, **kwargs):
                 clean_kwargs = this._clean_loc_scale_kwargs(kwargs, caller=__name)
-                return __orig(*args, **clean_kwargs)
+                parsed = __orig(*args, **clean_kwargs)
+                # loc and scale may also have been given positionally
+                this._clean_loc_scale_kwargs(
+                    {"loc": parsed[1], "scale": parsed[2]}, caller=__name
+                )
+                return parsed
 
             setattr(self, attr, types.MethodType(wrapper, self))
 
-- 
2.43.0


From 4cf46b5d035a0d19fd73b04c955ec8b07be1ec97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:36 +0000
Subject: [PATCH 077/125] fix: rvs accepted invalid parameters or never
 returned

---
 pycircstat2/distributions.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index af64adf..3d13156 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1092,6 +1092,8 @@ class triangular_gen(CircularContinuous):
 
     def _rvs(self, rho, size=None, random_state=None):
         rng = self._init_rng(random_state)
+        if not np.all(self._argcheck(rho)):
+            raise ValueError("`rho` must lie in [0, 4/pi^2].")
         u = rng.uniform(0.0, 1.0, size=size)
         samples = self._ppf(u, rho)
         if np.isscalar(samples):
@@ -2573,6 +2575,8 @@ class wrapnorm_gen(CircularContinuous):
         rho_arr = np.asarray(rho, dtype=float)
         if mu_arr.size != 1 or rho_arr.size != 1:
             raise ValueError("wrapnorm parameters must be scalar-valued.")
+        if not np.all((rho_arr >= 0.0) & (rho_arr <= 1.0)):
+            raise ValueError("`rho` must lie in [0, 1].")
 
         mu_val = float(np.mod(mu_arr.reshape(-1)[0], 2.0 * np.pi))
         rho_val = float(np.clip(rho_arr.reshape(-1)[0], np.finfo(float).tiny, 1.0 - 1e-15))
@@ -3013,6 +3017,8 @@ class wrapcauchy_gen(CircularContinuous):
         rho_arr = np.asarray(rho, dtype=float)
         if mu_arr.size != 1 or rho_arr.size != 1:
             raise ValueError("wrapcauchy parameters must be scalar-valued.")
+        if not np.all((rho_arr >= 0.0) & (rho_arr <= 1.0)):
+            raise ValueError("`rho` must lie in [0, 1].")
 
         mu_val = float(mu_arr.reshape(-1)[0])
         rho_val = float(rho_arr.reshape(-1)[0])
@@ -3582,6 +3588,8 @@ class vonmises_gen(CircularContinuous):
         kappa_val = float(kappa_arr.reshape(-1)[0])
         if kappa_arr.size > 1 and not np.allclose(kappa_arr, kappa_val, atol=0.0, rtol=0.0):
             raise ValueError("vonmises parameters must be broadcastable scalars.")
+        if not (np.isfinite(mu_val) and np.isfinite(kappa_val) and kappa_val >= 0.0):
+            raise ValueError("`mu` must be finite and `kappa` non-negative.")
         two_pi = 2.0 * np.pi
 
         if kappa_val <= 1e-9:
-- 
2.43.0


From 9a1abf05ef21d1396f15f520b3b1c3e93a27ddf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:26:56 +0000
Subject: [PATCH 078/125] fix: invalid parameters gave a zero standard
 deviation or von Mises moments

---
 pycircstat2/distributions.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 3d13156..ed417da 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -655,6 +655,8 @@ class CircularContinuous(rv_continuous):
     def std(self, *args, **kwargs) -> float:
         """Circular standard deviation s = sqrt(-2 ln R)."""
         R = np.clip(self.r(*args, **kwargs), 0.0, 1.0)
+        if np.isnan(R):
+            return float("nan")
         if np.isclose(R, 0.0, atol=1e-12):
             return float("inf")
         return float(np.sqrt(max(0.0, -2.0 * np.log(np.clip(R, np.finfo(float).tiny, 1.0)))))
@@ -3670,8 +3672,8 @@ class vonmises_gen(CircularContinuous):
         mean : float
             The circular mean direction (in radians), equal to `mu`.
         """
-        (mu, _) = self._parse_args(*args, **kwargs)[0]
-        return mu
+        (mu, kappa) = self._parse_args(*args, **kwargs)[0]
+        return mu if np.all(self._argcheck(mu, kappa)) else np.nan
 
     def median(self, *args, **kwargs):
         """
@@ -3693,7 +3695,9 @@ class vonmises_gen(CircularContinuous):
         variance : float
             The circular variance, derived from `kappa`.
         """
-        (_, kappa) = self._parse_args(*args, **kwargs)[0]
+        (mu, kappa) = self._parse_args(*args, **kwargs)[0]
+        if not np.all(self._argcheck(mu, kappa)):
+            return np.nan
         return 1 - i1e(kappa) / i0e(kappa)
 
     def std(self, *args, **kwargs):
@@ -3705,7 +3709,9 @@ class vonmises_gen(CircularContinuous):
         std : float
             The circular standard deviation, derived from `kappa`.
         """
-        (_, kappa) = self._parse_args(*args, **kwargs)[0]
+        (mu, kappa) = self._parse_args(*args, **kwargs)[0]
+        if not np.all(self._argcheck(mu, kappa)):
+            return np.nan
         r = i1e(kappa) / i0e(kappa)
 
         return np.sqrt(-2 * np.log(r))
@@ -3719,7 +3725,9 @@ class vonmises_gen(CircularContinuous):
         entropy : float
             The entropy of the distribution.
         """
-        (_, kappa) = self._parse_args(*args, **kwargs)[0]
+        (mu, kappa) = self._parse_args(*args, **kwargs)[0]
+        if not np.all(self._argcheck(mu, kappa)):
+            return np.nan
         ratio = i1e(kappa) / i0e(kappa)
         return np.log(2 * np.pi * i0e(kappa)) + kappa * (1 - ratio)
 
-- 
2.43.0


From ae019f8d10a51694e0c4346a6b67561c2113c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:44 +0000
Subject: [PATCH 079/125] fix: vonmises_flattopped.pdf clipped invalid kappa
 instead of refusing it

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ed417da..4c08be3 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3996,7 +3996,7 @@ class vonmises_flattopped_gen(CircularContinuous):
             - When $\kappa = 0$, the distribution becomes uniform on $[0, 2\pi)$.
         """
         mu_val = _vmft_ensure_scalar(mu, "mu")
-        kappa_val = float(np.clip(_vmft_ensure_scalar(kappa, "kappa"), 0.0, _VMFT_KAPPA_UPPER))
+        kappa_val = _vmft_ensure_scalar(kappa, "kappa")
         nu_val = _vmft_ensure_scalar(nu, "nu")
         return super().pdf(x, mu_val, kappa_val, nu_val, *args, **kwargs)
 
-- 
2.43.0


From 437b3f8a8b5ffaba6a5834ed6e42bab290b507a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:34:09 +0000
Subject: [PATCH 080/125] fix: stats reported a zero standard deviation for
 invalid parameters

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 4c08be3..5e4ffbb 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -723,7 +723,7 @@ class CircularContinuous(rv_continuous):
             kurt = float((r2 * np.cos(u2 - 2.0 * u1) - r1**4) / (denom_base**2))
 
         std_val = float("inf") if r1_is_zero else float(
-            np.sqrt(max(0.0, -2.0 * np.log(np.clip(r1, np.finfo(float).tiny, 1.0))))
+            np.sqrt(-2.0 * np.log(np.clip(r1, np.finfo(float).tiny, 1.0)))
         )
         dispersion_val = float("inf") if r1_is_zero else float((1.0 - r2) / (2.0 * r1 * r1))
 
-- 
2.43.0


From b2049d52fdd78f8ddccdae4646b7c1abbdb7a76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:49 +0000
Subject: [PATCH 081/125] fix: distribution functions raised on a
 zero-dimensional array at 2 pi

---
 pycircstat2/distributions.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 5e4ffbb..7f8873b 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -226,9 +226,7 @@ class CircularContinuous(rv_continuous):
                     return upper_bound
             else:
                 mask = np.isclose(arr, upper_bound, rtol=0.0, atol=tol)
-                if np.any(mask):
-                    wrapped = wrapped.copy()
-                    wrapped[mask] = upper_bound
+                wrapped = np.where(mask, upper_bound, wrapped)
         if np.isscalar(values):
             return float(wrapped)
         return wrapped
-- 
2.43.0


From 3bd607ecce8ec980b4314d60427b813f4b1a87ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:43:06 +0000
Subject: [PATCH 082/125] fix: Kato-Jones moments were given for invalid
 parameters

---
 pycircstat2/distributions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 7f8873b..3025f15 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8226,6 +8226,8 @@ class katojones_gen(CircularContinuous):
         if len(params) != 4:
             raise ValueError("Expected parameters (mu, gamma, rho, lam).")
         mu, gamma, rho, lam = [float(np.asarray(val, dtype=float)) for val in params]
+        if not np.all(self._argcheck(mu, gamma, rho, lam)):
+            return complex(np.nan, np.nan)
 
         if not np.isscalar(p):
             raise ValueError("`p` must be an integer scalar.")
-- 
2.43.0


From dd9a1f4f933909940ab1500a288ed6dd8e9a21cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:00 +0000
Subject: [PATCH 083/125] fix: wrapcauchy variates were all equal for rho above
 0.99999

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 3025f15..7c93048 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3027,7 +3027,7 @@ class wrapcauchy_gen(CircularContinuous):
         if np.isclose(rho_val, 0.0, atol=1e-15):
             return rng.uniform(0.0, two_pi, size=size)
 
-        if np.isclose(rho_val, 1.0, atol=1e-15):
+        if np.isclose(rho_val, 1.0, rtol=0.0, atol=1e-15):
             angle = float(np.mod(mu_val, two_pi))
             if size is None:
                 return angle
-- 
2.43.0


From 90f3e6582e104d4c616ab57d4b58f4d2021ca328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:56:55 +0000
Subject: [PATCH 084/125] fix: Jones-Pewsey likelihood fits could not leave psi
 = 0

The log kernel switched to its von Mises limit for |psi| < 1e-6, so the finite
differences of the optimiser saw a flat likelihood in psi. The kernel is now
evaluated smoothly through the limit.
---
 pycircstat2/distributions.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 7c93048..b47cd57 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5171,7 +5171,7 @@ jonespewsey = jonespewsey_gen(name="jonespewsey")
 
 
 _JP_KAPPA_TOL = 1e-10
-_JP_PSI_TOL = 1e-6
+_JP_PSI_TOL = 1e-12
 _JP_MIN_BASE = np.finfo(float).tiny
 
 
@@ -5198,6 +5198,9 @@ def _jp_log_kernel(phi, kappa, psi):
     # cosh(A) + sinh(A) cos(phi) = exp(|A|) / 2 * [1 + c + exp(-2|A|) (1 - c)],
     # with c = sign(A) cos(phi): free of overflow and of cancellation.
     A = kappa * psi
+    if abs(A) < 0.5:
+        # Smooth in psi through its von Mises limit at psi = 0.
+        return np.log1p(2.0 * np.sinh(0.5 * A) ** 2 + np.sinh(A) * np.cos(phi)) / psi
     one_plus = 2.0 * (np.cos(0.5 * phi) if A >= 0 else np.sin(0.5 * phi)) ** 2
     base = one_plus + np.exp(-2.0 * abs(A)) * (2.0 - one_plus)
     base = np.clip(base, _JP_MIN_BASE, None)
@@ -5263,7 +5266,7 @@ def _jp_effective_kappa(kappa, psi):
         return max(kappa, 1e-6)
     A = kappa * psi
     with np.errstate(over="ignore"):
-        factor = 1.0 - np.exp(-2.0 * A)
+        factor = -np.expm1(-2.0 * A)
     kappa_eff = factor / (2.0 * psi)
     if not np.isfinite(kappa_eff) or kappa_eff <= 0.0:
         return max(kappa, 1e-6)
-- 
2.43.0


From e303790082ba624f699624e9ccf172c520dc7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:31 +0000
Subject: [PATCH 085/125] fix: Kato-Jones likelihood fit collapsed to the
 uniform distribution

Started from moments on the edge of the feasible disk, the first step of the
optimiser reached gamma = 0, where the likelihood is stationary.
---
 pycircstat2/distributions.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index b47cd57..ee42dbd 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8504,7 +8504,8 @@ class katojones_gen(CircularContinuous):
     ):
         data_arr, w, w_sum, n_eff = self._prepare_data_weights(data, weights=weights)
 
-        if initial is None:
+        default_initial = initial is None
+        if default_initial:
             initial = self._fit_moments(data_arr, weights=w)
 
         mu0, gamma0, rho0, lam0 = initial
@@ -8516,6 +8517,10 @@ class katojones_gen(CircularContinuous):
             rho0 = 0.0
             lam0 = 0.0
         s0, phi0 = self._aux_from_rho_lam(gamma0, rho0, lam0)
+        if default_initial:
+            # Moments projected onto the edge of the feasible disk give a spiked density,
+            # from where the optimiser jumps to the (stationary) uniform limit.
+            s0 = min(s0, 0.5)
         x0 = np.array([mu0, gamma0, s0, phi0], dtype=float)
 
         def objective(params):
-- 
2.43.0


From 21ae6ad068ed940395e5c13c47fd4b03ae746812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:48 +0000
Subject: [PATCH 086/125] fix: wrapped stable likelihood fit returned its
 starting grid point

An infinite objective at the first trial step ended the line search, reported as
converged; the phases of the series also lost all digits near alpha = 1.
---
 pycircstat2/distributions.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ee42dbd..b7565dc 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7706,8 +7706,10 @@ class wrapstable_gen(CircularContinuous):
                 return np.inf
 
             pdf_vals = self._pdf(data_arr, delta_param, alpha_param, beta_param, gamma_param)
-            if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+            if not np.all(np.isfinite(pdf_vals)):
                 return np.inf
+            # an infinite objective would end the line search of the optimiser where it started
+            pdf_vals = np.clip(pdf_vals, np.finfo(float).tiny, None)
             return float(-np.sum(w * np.log(pdf_vals)))
 
         delta_candidates = np.mod(
@@ -7850,8 +7852,10 @@ class wrapstable_gen(CircularContinuous):
         if abs(alpha - 1.0) <= _WRAPSTABLE_ALPHA_TOL:
             mu_vals = delta * p - (2.0 / np.pi) * beta * gamma * p * np.log(gamma * p)
         else:
-            mu_vals = delta * p + beta * np.tan(0.5 * np.pi * alpha) * (
-                (gamma * p) ** alpha - gamma * p
+            # tan(pi alpha / 2) * ((gamma p)^alpha - gamma p), without cancellation near alpha = 1
+            shift = alpha - 1.0
+            mu_vals = delta * p - beta * gamma * p * np.expm1(shift * np.log(gamma * p)) / np.tan(
+                0.5 * np.pi * shift
             )
 
         return rho_vals, mu_vals, p
-- 
2.43.0


From 0cca891ce022d1e7b06f8732f6a0e821402c1f23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:26 +0000
Subject: [PATCH 087/125] fix: asymmetric Jones-Pewsey fit stayed at nu = 0

The objective was infinite at the upper bound of nu, the first trial step of the
bounded optimiser, which then stopped where it started and reported convergence.
---
 pycircstat2/distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index b7565dc..06038a6 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6257,12 +6257,13 @@ class jonespewsey_asym_gen(CircularContinuous):
                 return np.inf
             if not (psi_low <= psi_param <= psi_high):
                 return np.inf
-            if not (nu_low <= nu_param < nu_high):
+            if not (nu_low <= nu_param <= nu_high):
                 return np.inf
             xi_wrapped = float(np.mod(xi_param, 2.0 * np.pi))
             pdf_vals = self.pdf(x, xi_wrapped, kappa_param, psi_param, nu_param)
-            if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+            if not np.all(np.isfinite(pdf_vals)):
                 return np.inf
+            pdf_vals = np.clip(pdf_vals, np.finfo(float).tiny, None)
             return float(-np.sum(w * np.log(pdf_vals)))
 
         init = np.array([xi_init, kappa_init, psi_init, nu_init], dtype=float)
-- 
2.43.0


From a48c9e503e3ac7fd9ecb74e244507bdfaacc4d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:38 +0000
Subject: [PATCH 088/125] fix: sine-skewed Jones-Pewsey fit could stop at its
 starting value

The objective was infinite on the lmbd bounds that the optimiser is allowed to visit.
---
 pycircstat2/distributions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 06038a6..dd6f07f 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -5754,12 +5754,13 @@ class jonespewsey_sineskewed_gen(CircularContinuous):
                     return np.inf
                 if not (psi_bounds[0] <= psi_param <= psi_bounds[1]):
                     return np.inf
-                if not (lmbd_bounds[0] < lmbd_param < lmbd_bounds[1]):
+                if not (lmbd_bounds[0] <= lmbd_param <= lmbd_bounds[1]):
                     return np.inf
                 xi_wrapped = float(np.mod(xi_param, 2.0 * np.pi))
                 pdf_vals = self.pdf(x, xi_wrapped, kappa_param, psi_param, lmbd_param)
-                if np.any(pdf_vals <= 0.0) or not np.all(np.isfinite(pdf_vals)):
+                if not np.all(np.isfinite(pdf_vals)):
                     return np.inf
+                pdf_vals = np.clip(pdf_vals, np.finfo(float).tiny, None)
                 return float(-np.sum(w * np.log(pdf_vals)))
 
             init = np.array([xi_hat, kappa_hat, psi_hat, lmbd_hat], dtype=float)
-- 
2.43.0


From 7f0e50377f062d474793856830d365c4a6fcd61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:08 +0000
Subject: [PATCH 089/125] fix: von Mises likelihood fit used the wrong sign in
 the gradient of mu

The optimiser could be led uphill and fail (ABNORMAL) when the starting mean was
not exact to rounding.
---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index dd6f07f..3a9a6ce 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3830,7 +3830,7 @@ class vonmises_gen(CircularContinuous):
             sum_sin = np.sum(w * sin_term)
             sum_cos = np.sum(w * cos_term)
             ratio = i1e(kappa_param) / i0e(kappa_param)
-            g_mu = kappa_param * sum_sin
+            g_mu = -kappa_param * sum_sin
             g_kappa = -sum_cos + w_sum * ratio
             return np.array([g_mu, g_kappa], dtype=float)
 
-- 
2.43.0


From 16626e624eec708f0a26e7ecd9488f3f4adeb588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:00 +0000
Subject: [PATCH 090/125] fix: Kato-Jones likelihood fit keeps the better of
 its two starting points

---
 pycircstat2/distributions.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 3a9a6ce..4f8bb0b 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8523,10 +8523,6 @@ class katojones_gen(CircularContinuous):
             rho0 = 0.0
             lam0 = 0.0
         s0, phi0 = self._aux_from_rho_lam(gamma0, rho0, lam0)
-        if default_initial:
-            # Moments projected onto the edge of the feasible disk give a spiked density,
-            # from where the optimiser jumps to the (stationary) uniform limit.
-            s0 = min(s0, 0.5)
         x0 = np.array([mu0, gamma0, s0, phi0], dtype=float)
 
         def objective(params):
@@ -8550,13 +8546,24 @@ class katojones_gen(CircularContinuous):
             (phi0 - np.pi, phi0 + np.pi),
         ]
 
-        result = minimize(
-            objective,
-            x0,
-            method=optimizer,
-            bounds=bounds,
-            options=options,
-            **minimize_kwargs,
+        starts = [x0]
+        if default_initial and s0 > 0.5:
+            # Moments projected onto the edge of the feasible disk give a spiked density,
+            # from where the optimiser jumps to the (stationary) uniform limit.
+            starts.append(np.array([mu0, gamma0, 0.5, phi0], dtype=float))
+        result = min(
+            (
+                minimize(
+                    objective,
+                    start,
+                    method=optimizer,
+                    bounds=bounds,
+                    options=options,
+                    **minimize_kwargs,
+                )
+                for start in starts
+            ),
+            key=lambda res: (not res.success, res.fun),
         )
 
         if not result.success:
-- 
2.43.0


From bc2d4c6c27e8470761cd1a14ed654689b1c319de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:00 +0000
Subject: [PATCH 091/125] fix: cardioid likelihood fit could end at the uniform
 distribution

---
 pycircstat2/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 4f8bb0b..a4988f8 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1691,7 +1691,9 @@ class cardioid_gen(CircularContinuous):
                     "message": "Degenerate start (rho≈0); returning boundary solution.",
                 }
             else:
-                init = np.array([mu_mom, rho_mom], dtype=float)
+                # away from the rho = 0.5 edge, where an observation opposite to mu drives the
+                # first step to rho = 0 and leaves mu without a gradient
+                init = np.array([mu_mom, 0.5 * rho_mom], dtype=float)
                 bounds = [(mu_mom - np.pi, mu_mom + np.pi), (0.0, 0.5)]
                 result = minimize(
                     _nll,
-- 
2.43.0


From c35d6275414c7160556214f7c0535430ce4b16be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:38 +0000
Subject: [PATCH 092/125] fix: Kato-Jones fallback optimiser could return a fit
 worse than its start

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a4988f8..317ded6 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -8579,7 +8579,7 @@ class katojones_gen(CircularContinuous):
                     options={},
                     **minimize_kwargs,
                 )
-                if fallback_result.success:
+                if fallback_result.success and fallback_result.fun <= objective(x0):
                     result = fallback_result
             if not result.success:
                 raise RuntimeError(f"Maximum likelihood fit failed: {result.message}")
-- 
2.43.0


From 0cc7397669da4cbb746e0921389d829a791ccad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:43 +0000
Subject: [PATCH 093/125] fix: CircHAC merged the most negative signed
 distance, not the closest clusters

---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 39a6678..bead0a8 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1412,7 +1412,7 @@ class CircHAC:
             best_pair: Optional[Tuple[int, int]] = None
             for idx, cid_i in enumerate(cluster_ids):
                 for cid_j in cluster_ids[idx + 1 :]:
-                    dist_ij = circ_dist(means[cid_i], means[cid_j], metric=self.metric)
+                    dist_ij = abs(circ_dist(means[cid_i], means[cid_j], metric=self.metric))
                     if dist_ij < best_dist:
                         best_dist = dist_ij
                         best_pair = (cid_i, cid_j)
-- 
2.43.0


From 46c95bcb5377590aec5beba0f89a83ee7fde86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:07 +0000
Subject: [PATCH 094/125] fix: MoCD.bic converted degrees to radians twice

---
 pycircstat2/clustering.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index bead0a8..760e49b 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1250,7 +1250,7 @@ class MoCD:
     def bic(self) -> float:
         if self.alpha is None or self.p_ is None or self.params_ is None:
             raise ValueError("Model must be fitted before computing BIC.")
-        log_likelihood = self.score_samples(self.alpha)
+        log_likelihood = self.score_samples(self.data)
         nLL = -float(np.sum(log_likelihood))
         n_params_component = len(self.param_names)
         n_params_total = self.n_clusters * n_params_component + (self.n_clusters - 1)
-- 
2.43.0


From b9e9215955810e42424dda8ace4c6d975cdc46e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:29 +0000
Subject: [PATCH 095/125] fix: CircKMeans.predict failed after fitting fewer
 points than clusters

---
 pycircstat2/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 760e49b..de3013b 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1750,7 +1750,8 @@ class CircKMeans:
             alpha = X
 
         n_samples = len(alpha)
-        dist_mat = np.zeros((self.n_clusters, n_samples))
-        for c in range(self.n_clusters):
+        n_centers = len(self.centers_)
+        dist_mat = np.zeros((n_centers, n_samples))
+        for c in range(n_centers):
             dist_mat[c] = np.abs(circ_dist(alpha, self.centers_[c], metric=self.metric))
         return dist_mat.argmin(axis=0)
-- 
2.43.0


From cd7bf9c705ac5be9721e6707da0f3f66d30f8b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 096/125] fix: mixture models kept the converged flag of an
 earlier fit

---
 pycircstat2/clustering.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index de3013b..eff97f9 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -210,6 +210,8 @@ class MovM:
             print(header)
 
         nLL_history = np.full(self.n_iters, np.nan)
+        self.converged = False
+        self.converged_iters = None
 
         for iteration in range(self.n_iters):
             log_responsibilities = self._log_gamma(alpha, p, means, kappa)
@@ -717,6 +719,8 @@ class MoKJ:
             print("Iter".ljust(10) + "nLL")
 
         nLL_hist = np.full(self.n_iters, np.nan)
+        self.converged = False
+        self.converged_iters = None
         last_nll = np.inf
 
         for it in range(self.n_iters):
@@ -1142,6 +1146,8 @@ class MoCD:
             print(header)
 
         nLL_history = np.full(self.n_iters, np.nan)
+        self.converged = False
+        self.converged_iters = None
 
         for iteration in range(self.n_iters):
             log_resp = self._log_gamma(alpha, p, params_list)
-- 
2.43.0


From bdc8600ea5c08bc38a6d5f737d3e6cf57641b1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:01 +0000
Subject: [PATCH 097/125] fix: default density grid of mixtures ignored
 full_cycle

---
 pycircstat2/clustering.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index eff97f9..52c0b52 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -388,7 +388,7 @@ class MovM:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = x / (2 * np.pi) * full_cycle
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -877,7 +877,7 @@ class MoKJ:
         if x is None:
             x = np.linspace(0, 2 * np.pi, 400, endpoint=False)
             if unit == "degree":
-                x = np.rad2deg(x)
+                x = x / (2 * np.pi) * full_cycle
         x = np.asarray(x, dtype=float).reshape(-1)
         alpha = x if unit == "radian" else data2rad(x, k=full_cycle)
 
@@ -1242,7 +1242,7 @@ class MoCD:
         if X is None:
             X = np.linspace(0.0, 2.0 * np.pi, 200, endpoint=False)
             if unit == "degree":
-                X = np.rad2deg(X)
+                X = X / (2.0 * np.pi) * full_cycle
 
         X = np.asarray(X, dtype=float).reshape(-1)
         alpha = X if unit == "radian" else data2rad(X, k=full_cycle)
-- 
2.43.0


From f0cf958ed7e563ea351b384acdf3282f6dff3c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:20 +0000
Subject: [PATCH 098/125] fix: MovM failed on components without a mean
 direction

---
 pycircstat2/clustering.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 52c0b52..e0b273d 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -166,7 +166,7 @@ class MovM:
         for c in range(n_clusters_init):
             subset = x[labels == c]
             m_c, r_c = circ_mean_and_r(subset)
-            means[c] = m_c
+            means[c] = m_c if np.isfinite(m_c) else 0.0
             resultants[c] = r_c
             kappa_c = circ_kappa(r=r_c)
             if not np.isfinite(kappa_c):
@@ -231,7 +231,8 @@ class MovM:
                     resultants[c] = 0.0
                 else:
                     mc, rc = circ_mean_and_r(alpha, w=weights)
-                    means_updated[c] = mc
+                    # a component without mean direction (resultant 0) keeps its location
+                    means_updated[c] = mc if np.isfinite(mc) else means[c]
                     resultants[c] = rc
 
             kappas = np.array([max(circ_kappa(r=rc), 1e-3) for rc in resultants])
-- 
2.43.0


From 0e29696a008cf8d12d4909040f34f672c2efae37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:49 +0000
Subject: [PATCH 099/125] fix: wrapped Cauchy density infinite at the mode of
 concentrated laws

---
 pycircstat2/distributions.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 317ded6..448c849 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2841,7 +2841,9 @@ class wrapcauchy_gen(CircularContinuous):
         )
 
     def _pdf(self, x, mu, rho):
-        return (1 - rho**2) / (2 * np.pi * (1 + rho**2 - 2 * rho * np.cos(x - mu)))
+        # 1 + rho^2 - 2 rho cos(x - mu), without cancellation as rho -> 1
+        denom = (1 - rho) ** 2 + 4 * rho * np.sin((x - mu) / 2) ** 2
+        return (1 - rho) * (1 + rho) / (2 * np.pi * denom)
 
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
@@ -3161,14 +3163,14 @@ class wrapcauchy_gen(CircularContinuous):
             mu_param, rho_param = params
             if not (0.0 <= rho_param < 1.0):
                 return np.inf
-            denom = np.clip(1.0 + rho_param**2 - 2.0 * rho_param * np.cos(x - mu_param), 1e-15, None)
+            denom = (1.0 - rho_param) ** 2 + 4.0 * rho_param * np.sin(0.5 * (x - mu_param)) ** 2
             log_pdf = np.log1p(-rho_param**2) - np.log(2.0 * np.pi) - np.log(denom)
             value = -np.sum(w * log_pdf)
             return float(value)
 
         def grad(params):
             mu_param, rho_param = params
-            denom = np.clip(1.0 + rho_param**2 - 2.0 * rho_param * np.cos(x - mu_param), 1e-15, None)
+            denom = (1.0 - rho_param) ** 2 + 4.0 * rho_param * np.sin(0.5 * (x - mu_param)) ** 2
             cos_term = np.cos(x - mu_param)
             sin_term = np.sin(x - mu_param)
 
-- 
2.43.0


From 09c53db0a7846a51a6d111823327f54177ad36ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:11 +0000
Subject: [PATCH 100/125] fix: silhouette counted the point itself and scored
 singletons 1

---
 pycircstat2/clustering.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index e0b273d..9c3da6d 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -1567,9 +1567,14 @@ class CircHAC:
             c_i = labels[i]
             # points in cluster c_i
             in_cluster_i = (labels == c_i)
+            n_own = in_cluster_i.sum()
+            if n_own == 1:
+                # by convention, the silhouette of a singleton is 0
+                continue
+
             # average distance to own cluster
             # excluding the point itself
-            a_i = pairwise[i, in_cluster_i].mean() if in_cluster_i.sum() > 1 else 0.0
+            a_i = pairwise[i, in_cluster_i].sum() / (n_own - 1)
 
             # find min average distance to another cluster
             b_i = np.inf
-- 
2.43.0


From da00a54b0f80431e1867f56354a208429b7f9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:30 +0000
Subject: [PATCH 101/125] fix: log-density of concentrated wrapped normal and
 Cartwright laws underflowed to -inf

---
 pycircstat2/distributions.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 448c849..c59c43a 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1793,6 +1793,18 @@ class cartwright_gen(CircularContinuous):
         )
         return np.exp(log_const) * np.abs(np.cos(0.5 * (x - mu))) ** (2.0 * inv)
 
+    def _logpdf(self, x, mu, zeta):
+        # not log(_pdf): the density underflows far from a concentrated mode
+        inv = 1.0 / np.asarray(zeta, dtype=float)
+        log_const = (
+            (2.0 * inv - 1.0) * np.log(2.0)
+            + 2.0 * gammaln(1.0 + inv)
+            - gammaln(1.0 + 2.0 * inv)
+            - np.log(np.pi)
+        )
+        with np.errstate(divide="ignore"):
+            return log_const + 2.0 * inv * np.log(np.abs(np.cos(0.5 * (x - mu))))
+
     def pdf(self, x, mu, zeta, *args, **kwargs):
         r"""
         Probability density function of the Cartwright distribution.
@@ -2289,6 +2301,19 @@ class wrapnorm_gen(CircularContinuous):
         )
         return INV_SQRT_2PI / sigma * total
 
+    def _logpdf(self, x, mu, rho):
+        # not log(_pdf): the density underflows far from a concentrated mode
+        two_pi = 2.0 * np.pi
+        sigma = np.sqrt(-2.0 * np.log(np.asarray(rho, dtype=float)))
+        diff = np.mod(np.asarray(x, dtype=float) - mu + np.pi, two_pi) - np.pi
+        n_images = int(np.ceil(9.0 * np.max(sigma, initial=0.0) / two_pi)) + 1
+        nearest = (diff / sigma) ** 2
+        total = sum(
+            np.exp(-0.5 * (((diff + two_pi * k) / sigma) ** 2 - nearest))
+            for k in range(-n_images, n_images + 1)
+        )
+        return np.log(INV_SQRT_2PI / sigma * total) - 0.5 * nearest
+
     def pdf(self, x, mu, rho, *args, **kwargs):
         r"""
         Probability density function of the Wrapped Normal distribution.
-- 
2.43.0


From 7d1924f1d0b29820e3640ab0506ccfc4ac7c6f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:48 +0000
Subject: [PATCH 102/125] fix: wrapped Cauchy cdf dropped to 0 just before the
 end of the circle

---
 pycircstat2/distributions.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index c59c43a..1df8943 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2942,7 +2942,10 @@ class wrapcauchy_gen(CircularContinuous):
         base_val = 0.5 + base_angle / np.pi
 
         diff = cdf - base_val
-        diff = np.where(diff < -1e-12, diff + 1.0, diff)
+        # rounding noise near the origin must not be unwrapped, a value just below
+        # one near the end of the circle must
+        threshold = np.where(flat > np.pi, 0.0, -1e-12)
+        diff = np.where(diff < threshold, diff + 1.0, diff)
         diff = np.where(diff > 1.0, diff - 1.0, diff)
         cdf = np.clip(diff, 0.0, 1.0)
 
-- 
2.43.0


From 995e4cd03f696a5f281c7a6e71dd4f348329b5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:05 +0000
Subject: [PATCH 103/125] fix: inverse_batschelet.cdf and ppf clipped invalid
 kappa instead of refusing it

---
 pycircstat2/distributions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 1df8943..a01dc26 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -6601,7 +6601,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Cumulative probabilities corresponding to `x`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = _invbat_ensure_scalar(kappa, "kappa")
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().cdf(x, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
@@ -6721,7 +6721,7 @@ class inverse_batschelet_gen(CircularContinuous):
             Angles corresponding to the probabilities in `q`.
         """
         xi_val = _invbat_ensure_scalar(xi, "xi")
-        kappa_val = float(np.clip(_invbat_ensure_scalar(kappa, "kappa"), 0.0, _INVBAT_KAPPA_UPPER))
+        kappa_val = _invbat_ensure_scalar(kappa, "kappa")
         nu_val = _invbat_ensure_scalar(nu, "nu")
         lmbd_val = _invbat_ensure_scalar(lmbd, "lmbd")
         return super().ppf(q, xi_val, kappa_val, nu_val, lmbd_val, *args, **kwargs)
-- 
2.43.0


From 2faf037c86994f595c0058416c865f4d73e13037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:52 +0000
Subject: [PATCH 104/125] fix: mixed regression updated beta with residuals
 that ignored the linear predictor

---
 pycircstat2/regression.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 53410f6..ebb77cc 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -270,14 +270,13 @@ class CLRegression:
                 S = np.sum(kappa * np.sin(raw_deviation))
                 C = np.sum(kappa * np.cos(raw_deviation))
                 mu = np.arctan2(S, C)
-                residuals = theta - mu
-
                 # Step 2: Update beta
                 denom = 1 + (X @ beta) ** 2
                 G = 2 * X / denom[:, None]
                 weights_beta = kappa * self._A1(kappa)
                 XtWX_beta = G.T @ (weights_beta[:, None] * G)
-                rhs_beta = G.T @ (weights_beta * np.sin(residuals))
+                u = kappa * np.sin(raw_deviation - mu)
+                rhs_beta = G.T @ u + XtWX_beta @ beta
                 beta_new = _safe_solve(
                     XtWX_beta + 1e-8 * np.eye(X.shape[1]), rhs_beta
                 )
-- 
2.43.0


From 2fd258b5b89b3f2cc4fbf3488740e22775f8e12e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:14 +0000
Subject: [PATCH 105/125] fix: circular-linear regression overflowed for
 concentrations beyond 700

---
 pycircstat2/regression.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index ebb77cc..ff1a810 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -3,7 +3,7 @@ from typing import Iterable, List, Optional, Tuple, Union
 import numpy as np
 import pandas as pd
 from scipy.linalg import lstsq
-from scipy.special import i0, i1
+from scipy.special import i0e, i1e
 from scipy.stats import chi2, norm
 
 from .utils import A1, A1inv, significance_code
@@ -188,7 +188,10 @@ class CLRegression:
         return theta, X, x_cols
 
     def _A1(self, kappa: np.ndarray) -> np.ndarray:
-        return i1(kappa) / i0(kappa)
+        return i1e(kappa) / i0e(kappa)
+
+    def _log_i0(self, kappa: np.ndarray) -> np.ndarray:
+        return np.log(i0e(kappa)) + kappa
 
     def _A1inv(self, R: float) -> float:
         if 0 <= R < 0.53:
@@ -233,7 +236,7 @@ class CLRegression:
                 alpha_new, gamma_new = alpha, gamma
 
                 # Log-likelihood
-                log_likelihood = -n * np.log(i0(kappa)) + kappa * np.sum(
+                log_likelihood = -n * self._log_i0(kappa) + kappa * np.sum(
                     np.cos(raw_deviation - mu)
                 )
 
@@ -259,7 +262,7 @@ class CLRegression:
                 gamma_new = gamma + update[1:]
                 beta_new = beta
                 # Log-likelihood
-                log_likelihood = -np.sum(np.log(i0(kappa))) + np.sum(
+                log_likelihood = -np.sum(self._log_i0(kappa)) + np.sum(
                     kappa * np.cos(theta - mu)
                 )
 
@@ -296,7 +299,7 @@ class CLRegression:
                 gamma_new = gamma + update[1:]
 
                 # Log-likelihood
-                log_likelihood = -np.sum(np.log(i0(kappa))) + np.sum(
+                log_likelihood = -np.sum(self._log_i0(kappa)) + np.sum(
                     kappa * np.cos(raw_deviation - mu)
                 )
 
-- 
2.43.0


From da26de532f1b99d77bb6df66108796564d41d306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:33 +0000
Subject: [PATCH 106/125] fix: unconverged circular-linear fit mixed
 coefficients and likelihood of different iterations

---
 pycircstat2/regression.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index ff1a810..e4ba4bf 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -309,7 +309,8 @@ class CLRegression:
                 print(
                     f"Iteration {iter_count + 1}: Log-Likelihood = {log_likelihood:.5f}, diff = {diff:.2e}"
                 )
-            if diff < self.tol:
+            if diff < self.tol or iter_count == self.max_iter - 1:
+                # mu, kappa and the likelihood belong to the current coefficients
                 break
 
             beta, alpha, gamma = beta_new, alpha_new, gamma_new
-- 
2.43.0


From 230aa10acdad5f0e655654bc9f61fe5d4e63f870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:54 +0000
Subject: [PATCH 107/125] fix: regression AIC and BIC left out fitted
 parameters

---
 pycircstat2/regression.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index e4ba4bf..1ea419d 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -439,13 +439,13 @@ class CLRegression:
 
         log_likelihood = self.result["log_likelihood"]
         if self.model_type == "mean":
-            n_params = len(self.result["beta"])  # Only beta
+            n_params = 2 + len(self.result["beta"])  # mu + kappa + beta
         elif self.model_type == "kappa":
-            n_params = 1 + len(self.result["gamma"])  # alpha + gamma
+            n_params = 2 + len(self.result["gamma"])  # mu + alpha + gamma
         elif self.model_type == "mixed":
             n_params = (
-                1 + len(self.result["beta"]) + len(self.result["gamma"])
-            )  # alpha + beta + gamma
+                2 + len(self.result["beta"]) + len(self.result["gamma"])
+            )  # mu + alpha + beta + gamma
         else:
             raise ValueError(f"Unknown model type: {self.model_type}")
 
@@ -461,13 +461,13 @@ class CLRegression:
         log_likelihood = self.result["log_likelihood"]
         n = len(self.theta)
         if self.model_type == "mean":
-            n_params = len(self.result["beta"])  # Only beta
+            n_params = 2 + len(self.result["beta"])  # mu + kappa + beta
         elif self.model_type == "kappa":
-            n_params = 1 + len(self.result["gamma"])  # alpha + gamma
+            n_params = 2 + len(self.result["gamma"])  # mu + alpha + gamma
         elif self.model_type == "mixed":
             n_params = (
-                1 + len(self.result["beta"]) + len(self.result["gamma"])
-            )  # alpha + beta + gamma
+                2 + len(self.result["beta"]) + len(self.result["gamma"])
+            )  # mu + alpha + beta + gamma
         else:
             raise ValueError(f"Unknown model type: {self.model_type}")
 
-- 
2.43.0


From 76358aa1c7e6bbf3a00138ad6168ad8a1732a8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:17 +0000
Subject: [PATCH 108/125] fix: higher-order test of circular-circular
 regression ignored the number of predictors

---
 pycircstat2/regression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/regression.py b/pycircstat2/regression.py
index 1ea419d..2b26e03 100644
--- a/pycircstat2/regression.py
+++ b/pycircstat2/regression.py
@@ -791,7 +791,7 @@ class CCRegression:
 
             denom_cos = float(residual_cos.T @ residual_cos)
             denom_sin = float(residual_sin.T @ residual_sin)
-            adj = max(n - (2 * order + 1), 1)
+            adj = max(n - X.shape[1], 1)
             T1 = (
                 adj
                 * float(residual_cos.T @ N @ residual_cos)
-- 
2.43.0


From cd732f15672604fb35fd51a8fe671161dabb5105 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:55 +0000
Subject: [PATCH 109/125] fix: plot method did not return the axes it documents

---
 pycircstat2/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/base.py b/pycircstat2/base.py
index ddd426e..337710a 100644
--- a/pycircstat2/base.py
+++ b/pycircstat2/base.py
@@ -472,7 +472,7 @@ class Circular:
 
         See docstring of `circ_plot` for more examples and customization options.
         """
-        ax = circ_plot(self, ax=ax, config=config)
+        return circ_plot(self, ax=ax, config=config)
 
 
 class Axial(Circular):
-- 
2.43.0


From 37dc07910ce494bd994c55eb20c8c5028784ab62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:22 +0000
Subject: [PATCH 110/125] fix: plot option spine=True had no effect

---
 pycircstat2/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index da705cf..a37cb1a 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -23,7 +23,8 @@ def _merge_dicts(defaults, overrides):
         if value is False:  # Explicitly disable the feature
             merged[key] = False  
         elif value is True:  # Enable feature with default settings
-            merged[key] = copy.deepcopy(defaults[key])
+            default = defaults.get(key)
+            merged[key] = copy.deepcopy(default) if isinstance(default, dict) else True
         elif isinstance(value, dict) and isinstance(merged.get(key), dict):
             # Merge and ensure False values are correctly overridden
             for sub_key, sub_value in value.items():
-- 
2.43.0


From 28fc7ef88ae9dc9681268d0379427240f70fd246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:46 +0000
Subject: [PATCH 111/125] fix: rose diagram dropped and scatter did not stack
 angles outside the first turn

---
 pycircstat2/visualization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index a37cb1a..c0f02a0 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -8,6 +8,7 @@ from pycircstat2.descriptive import (
     compute_smooth_params,
     nonparametric_density_estimation,
 )
+from pycircstat2.utils import angmod
 
 
 # Recursive function to merge user config into defaults
@@ -213,7 +214,9 @@ def circ_plot(
     if not circ_data.grouped:
 
         # plot scatter
-        alpha, counts = np.unique(circ_data.alpha.round(3), return_counts=True)
+        alpha, counts = np.unique(
+            angmod(circ_data.alpha).round(3), return_counts=True
+        )
         alpha = np.repeat(alpha, counts)
 
         if config["outward"]:
@@ -307,7 +310,7 @@ def circ_plot(
     if config["rose"]:
 
         if not circ_data.grouped:
-            alpha = circ_data.alpha
+            alpha = angmod(circ_data.alpha)
             w, beta = np.histogram(
                 alpha, bins=config["rose"]["bins"], range=(0, 2 * np.pi)
             )  # np.histogram return bin edges
-- 
2.43.0


From d04ada86d1497162975dca65ebcb746816e9fa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:19 +0000
Subject: [PATCH 112/125] fix: stacked observations were cut off when the
 density was drawn

---
 pycircstat2/visualization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index c0f02a0..76c5cb2 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -297,7 +297,7 @@ def circ_plot(
                 linestyle=density_linestyle,
             )
             if config["radius"]["lim_max"] is None:
-                ax.set_ylim(0, f_.max())
+                ax.set_ylim(0, max(f_.max(), radii.max() + 0.025))
             else:
                 ax.set_ylim(0, config["radius"]["lim_max"])
         else:
-- 
2.43.0


From a830c34f312b01f6569a7ced5e759d847fc77e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:46 +0000
Subject: [PATCH 113/125] fix: plotting grouped data or data without a median
 failed with the default options

---
 pycircstat2/visualization.py | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 76c5cb2..551d92f 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -358,13 +358,23 @@ def circ_plot(
                     )
 
         if circ_data.grouped and config["density"]:
-            x = np.linspace(0, 2 * np.pi, 100)
-            f = circ_data.mixture_opt.predict_density(x=x, unit="radian") + 1
+            if getattr(circ_data, "mixture_opt", None) is not None:
+                x = np.linspace(0, 2 * np.pi, 100)
+                f = circ_data.mixture_opt.predict_density(x=x, unit="radian")
+            else:
+                # no mixture was fitted (n_clusters_max=1)
+                h0 = config["density"].get(
+                    "h0", compute_smooth_params(circ_data.r, circ_data.n)
+                )
+                x, f = nonparametric_density_estimation(
+                    np.repeat(circ_data.alpha, circ_data.w), h0
+                )
+            f = f + 1
             ax.plot(x, f, color="black", linestyle="-")
-            if config["rlim_max"] is None:
+            if config["radius"]["lim_max"] is None:
                 ax.set_ylim(0, f.max())
             else:
-                ax.set_ylim(0, config["rlim_max"])
+                ax.set_ylim(0, config["radius"]["lim_max"])
     else:
         w = circ_data.w
         config["radius"]["ticks"] = [1]  # overwrite
@@ -414,7 +424,8 @@ def circ_plot(
             zorder=5,
         )
 
-        if config["median"]["ci"]:
+        # grouped data and data without a median have no interval
+        if config["median"]["ci"] and hasattr(circ_data, "median_lb"):
             if circ_data.median_lb < circ_data.median_ub:
                 x1 = np.linspace(circ_data.median_lb, circ_data.median_ub, num=50)
             else:
-- 
2.43.0


From 87961837d2a5bc8953d5b297f592a59189841633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:17 +0000
Subject: [PATCH 114/125] fix: confidence interval of zero width was drawn as a
 full circle

---
 pycircstat2/visualization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 551d92f..04ed3f1 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -394,7 +394,7 @@ def circ_plot(
 
         if config["mean"]["ci"]:
 
-            if circ_data.mean_lb < circ_data.mean_ub:
+            if circ_data.mean_lb <= circ_data.mean_ub:
                 x1 = np.linspace(circ_data.mean_lb, circ_data.mean_ub, num=50)
             else:
                 x1 = np.linspace(
@@ -426,7 +426,7 @@ def circ_plot(
 
         # grouped data and data without a median have no interval
         if config["median"]["ci"] and hasattr(circ_data, "median_lb"):
-            if circ_data.median_lb < circ_data.median_ub:
+            if circ_data.median_lb <= circ_data.median_ub:
                 x1 = np.linspace(circ_data.median_lb, circ_data.median_ub, num=50)
             else:
                 x1 = np.linspace(
-- 
2.43.0


From 6957b12dbaa37909a1dab7d1043867cd5c867734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:46 +0000
Subject: [PATCH 115/125] fix: axial confidence intervals across the origin
 were drawn half a turn too long

---
 pycircstat2/visualization.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index 04ed3f1..c5dfeba 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -379,6 +379,9 @@ def circ_plot(
         w = circ_data.w
         config["radius"]["ticks"] = [1]  # overwrite
 
+    # intervals of axial data repeat every half turn
+    period = np.pi if hasattr(circ_data, "alpha_double") else 2 * np.pi
+
     if config["mean"]:
 
         radius = circ_data.r
@@ -398,7 +401,7 @@ def circ_plot(
                 x1 = np.linspace(circ_data.mean_lb, circ_data.mean_ub, num=50)
             else:
                 x1 = np.linspace(
-                    circ_data.mean_lb, circ_data.mean_ub + 2 * np.pi, num=50
+                    circ_data.mean_lb, circ_data.mean_ub + period, num=50
                 )
 
             # plot arc
@@ -430,7 +433,7 @@ def circ_plot(
                 x1 = np.linspace(circ_data.median_lb, circ_data.median_ub, num=50)
             else:
                 x1 = np.linspace(
-                    circ_data.median_lb, circ_data.median_ub + 2 * np.pi, num=50
+                    circ_data.median_lb, circ_data.median_ub + period, num=50
                 )
             # plot arc
             ax.plot(
-- 
2.43.0


From ab54593008e5e09fe56c6d559aa1ea048b391e5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:16 +0000
Subject: [PATCH 116/125] fix: hour labels were wrong for cycles other than 24
 hours

---
 pycircstat2/visualization.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/visualization.py b/pycircstat2/visualization.py
index c5dfeba..6dc342a 100644
--- a/pycircstat2/visualization.py
+++ b/pycircstat2/visualization.py
@@ -458,7 +458,8 @@ def circ_plot(
     if circ_data.unit == "hour":
         position_major = np.arange(0, 2 * np.pi, 2 * np.pi / 8)
         position_minor = np.arange(0, 2 * np.pi, 2 * np.pi / 24)
-        labels = [f"{i}:00" for i in np.arange(0, circ_data.full_cycle, 3)]
+        minutes = np.rint(60 * circ_data.full_cycle * np.arange(8) / 8).astype(int)
+        labels = [f"{m // 60}:{m % 60:02d}" for m in minutes]
         ax.xaxis.set_major_locator(ticker.FixedLocator(position_major))
         ax.xaxis.set_minor_locator(ticker.FixedLocator(position_minor))
         ax.xaxis.set_major_formatter(ticker.FixedFormatter(labels))
-- 
2.43.0


From 365800d33e776fe3bf048a390482607dfcfe4577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:45 +0000
Subject: [PATCH 117/125] fix: kernel density of weakly concentrated data lost
 its mass (zero for r near 0)

---
 pycircstat2/descriptive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycircstat2/descriptive.py b/pycircstat2/descriptive.py
index 6453746..0753c6f 100644
--- a/pycircstat2/descriptive.py
+++ b/pycircstat2/descriptive.py
@@ -1701,6 +1701,7 @@ def nonparametric_density_estimation(
     # vectorized version of step 3
     a = np.asarray(alpha, dtype=float)
     n = len(a)
+    h = min(h, np.pi)  # the kernel cannot reach further than half the circle
     x = np.linspace(0, 2 * np.pi, 100)
     d = np.abs(x[:, None] - a) % (2 * np.pi)
     e = np.minimum(d, 2 * np.pi - d)
-- 
2.43.0


From a668381ad3c725a5311139f516284464385790d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:34 +0000
Subject: [PATCH 118/125] fix: inverse Batschelet distribution function was
 wrong by up to 0.45 for sharp densities (table missed the peak)

---
 pycircstat2/distributions.py | 45 +++++++++++++++++++++++++-----------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index a01dc26..0150ae5 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -64,6 +64,7 @@ _INVBAT_NU_TOL = 1e-12
 _INVBAT_LMBDA_TOL = 1e-12
 _INVBAT_MIN_GRID = 512
 _INVBAT_MAX_GRID = 8192
+_INVBAT_PANEL_TOL = 3e-5
 _INVBAT_NEWTON_MAXITER = 60
 _INVBAT_NEWTON_TOL = 1e-12
 _INVBAT_NEWTON_WIDTH_TOL = 1e-10
@@ -7120,16 +7121,16 @@ class inverse_batschelet_gen(CircularContinuous):
         return table
 
     def _build_invbat_table(self, kappa, nu, lmbd, grid_size):
-        phi = np.linspace(-np.pi, np.pi, grid_size + 1, dtype=float)
-        phi_star = _tnu(phi, nu, 0.0)
-        skew = _slmbdinv(phi_star, lmbd)
-
-        if np.isclose(lmbd, -1.0, atol=_INVBAT_LMBDA_TOL):
-            log_kernel = kappa * np.cos(phi_star - np.sin(phi_star))
-        else:
+        def log_kernel_at(phi):
+            phi_star = _tnu(phi, nu, 0.0)
+            if np.isclose(lmbd, -1.0, atol=_INVBAT_LMBDA_TOL):
+                return kappa * np.cos(phi_star - np.sin(phi_star))
             con1 = (1.0 - lmbd) / (1.0 + lmbd)
             con2 = (2.0 * lmbd) / (1.0 + lmbd)
-            log_kernel = kappa * np.cos(con1 * phi_star + con2 * skew)
+            return kappa * np.cos(con1 * phi_star + con2 * _slmbdinv(phi_star, lmbd))
+
+        phi = np.linspace(-np.pi, np.pi, grid_size + 1, dtype=float)
+        log_kernel = log_kernel_at(phi)
 
         normalizer = self._get_cached_normalizer(
             lambda: _c_invbatschelet(kappa, lmbd),
@@ -7140,13 +7141,29 @@ class inverse_batschelet_gen(CircularContinuous):
             normalizer = _c_invbatschelet_numeric(kappa, lmbd, grid_size=_INVBAT_NUMERIC_GRID)
 
         log_norm = np.log(normalizer)
-        log_pdf = log_norm + log_kernel
-        log_pdf = np.clip(log_pdf, -745.0, 700.0)
-        pdf = np.exp(log_pdf)
 
-        step = (2.0 * np.pi) / grid_size
+        def pdf_at(log_kernel):
+            return np.exp(np.clip(log_norm + log_kernel, -745.0, 700.0))
+
+        pdf = pdf_at(log_kernel)
+
+        # the uniform grid misses sharp peaks (and the cusps near lmbd = 1): halve
+        # every panel over which the trapezoidal rule is off by more than the tolerance
+        panel = np.arange(grid_size)
+        while panel.size and phi.size < _INVBAT_MAX_GRID:
+            mid = 0.5 * (phi[panel] + phi[panel + 1])
+            pdf_mid = pdf_at(log_kernel_at(mid))
+            gap = pdf_mid - 0.5 * (pdf[panel] + pdf[panel + 1])
+            split = np.abs(gap) * (phi[panel + 1] - phi[panel]) > _INVBAT_PANEL_TOL
+            panel = panel[split]
+            phi = np.insert(phi, panel + 1, mid[split])
+            pdf = np.insert(pdf, panel + 1, pdf_mid[split])
+            first = panel + np.arange(panel.size)
+            panel = np.sort(np.concatenate((first, first + 1)))
+
+        step = np.diff(phi)
         avg = 0.5 * (pdf[:-1] + pdf[1:])
-        mass = float(np.sum(avg) * step)
+        mass = float(np.sum(avg * step))
         if not np.isfinite(mass) or mass <= 0.0:
             pdf = np.full_like(pdf, 1.0 / (2.0 * np.pi), dtype=float)
             log_norm = -np.log(2.0 * np.pi)
@@ -7158,7 +7175,7 @@ class inverse_batschelet_gen(CircularContinuous):
             mass = 1.0
 
         avg = 0.5 * (pdf[:-1] + pdf[1:])
-        cumulative = np.concatenate(([0.0], np.cumsum(avg))) * step
+        cumulative = np.concatenate(([0.0], np.cumsum(avg * step)))
         cumulative = np.maximum.accumulate(np.clip(cumulative, 0.0, 1.0))
         cumulative[-1] = 1.0
 
-- 
2.43.0


From 063c76749d6a4acdfa76282f6cc9e0d4ffbc3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:52 +0000
Subject: [PATCH 119/125] fix: vonmises.nnlf raised for every sample (hook had
 the wrong signature)

---
 pycircstat2/distributions.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 0150ae5..caee232 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3762,15 +3762,10 @@ class vonmises_gen(CircularContinuous):
         ratio = i1e(kappa) / i0e(kappa)
         return np.log(2 * np.pi * i0e(kappa)) + kappa * (1 - ratio)
 
-    def _nnlf(self, theta, data):
+    def _nnlf(self, data, mu, kappa):
         """
         Custom negative log-likelihood function for the Von Mises distribution.
         """
-        mu, kappa = theta
-
-        if not self._argcheck(mu, kappa):  # Validate parameter range
-            return np.inf
-
         # Compute log-likelihood robustly
         log_likelihood = self._logpdf(data, mu, kappa)
 
-- 
2.43.0


From 687d7316f2361099a9fbb12287608dbc062c9611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:11 +0000
Subject: [PATCH 120/125] fix: circularuniform.nnlf counted a single
 observation

---
 pycircstat2/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index caee232..ce37367 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -795,7 +795,7 @@ class circularuniform_gen(CircularContinuous):
     """
 
     def _pdf(self, x):
-        return 1 / (2 * np.pi)
+        return np.full_like(np.asarray(x, dtype=float), 1 / (2 * np.pi))
 
     def pdf(self, x, *args, **kwargs):
         r"""
-- 
2.43.0


From 77cc4a8d9225bae0cf54f9418367fad3268a504a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:10 +0000
Subject: [PATCH 121/125] fix: inverse Batschelet density was wrong exactly
 opposite its location

---
 pycircstat2/distributions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index ce37367..26314cd 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -7248,7 +7248,8 @@ def _slmbdinv(x, lmbd):
                 u_val = solution.root
             else:  # pragma: no cover - defensive fallback
                 u_val = val
-            result[idx] = (u_val + np.pi) % (2.0 * np.pi) - np.pi
+            # stay on the branch of `val`: -pi and pi are not interchangeable here
+            result[idx] = u_val
 
     if scalar_input:
         return float(result[0])
-- 
2.43.0


From ca31b85967e1773ffa1a63b59c4645b5c379f9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:29 +0000
Subject: [PATCH 122/125] fix: wrapped Cauchy quantile of a tiny probability
 was a full turn

---
 pycircstat2/distributions.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 26314cd..725bd96 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -3024,6 +3024,9 @@ class wrapcauchy_gen(CircularContinuous):
         tan_alpha = np.tan(alpha)
         phi = 2.0 * np.arctan(tan_alpha / A)
         theta = (mu_val + phi) % two_pi
+        # rounding must not carry extreme quantiles across the origin
+        theta = np.where((q_int < 1e-9) & (theta > two_pi - 1e-9), 0.0, theta)
+        theta = np.where((q_int > 1.0 - 1e-9) & (theta < 1e-9), two_pi, theta)
         result[interior] = theta
 
         return result.reshape(q_arr.shape)
-- 
2.43.0


From 6d820ee79f4613cf6942cc7697e626ee8f06c8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:42:48 +0000
Subject: [PATCH 123/125] fix: wrapped Cauchy distribution function was zero
 just before a full turn

---
 pycircstat2/distributions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 725bd96..68605aa 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -2946,6 +2946,7 @@ class wrapcauchy_gen(CircularContinuous):
         # rounding noise near the origin must not be unwrapped, a value just below
         # one near the end of the circle must
         threshold = np.where(flat > np.pi, 0.0, -1e-12)
+        threshold = np.where(flat > two_pi - 1e-9, 1e-12, threshold)
         diff = np.where(diff < threshold, diff + 1.0, diff)
         diff = np.where(diff > 1.0, diff - 1.0, diff)
         cdf = np.clip(diff, 0.0, 1.0)
-- 
2.43.0


From bbc0d3f93187e572ef185ac5990c5db9ad7c6241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:54 +0000
Subject: [PATCH 124/125] fix: cardioid likelihood search no longer stops at
 its start when a trial step meets a zero density

---
 pycircstat2/distributions.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/pycircstat2/distributions.py b/pycircstat2/distributions.py
index 68605aa..2104477 100644
--- a/pycircstat2/distributions.py
+++ b/pycircstat2/distributions.py
@@ -1640,15 +1640,16 @@ class cardioid_gen(CircularContinuous):
             mu_mom = float(0.0)
         mu_mom = float(np.mod(mu_mom, 2.0 * np.pi))
         rho_mom = float(np.clip(r_mom, 0.0, 0.5))
+        floor = np.finfo(float).eps
 
         def _nll(params):
             mu_param, rho_param = params
             if not (0.0 <= rho_param <= 0.5):
                 return np.inf
             cos_term = np.cos(x - mu_param)
-            denom = 1.0 + 2.0 * rho_param * cos_term
-            if np.any(denom <= 0.0):
-                return np.inf
+            # an observation opposite to mu at rho = 0.5 has density zero: a finite value and
+            # slope there let the line search step back instead of giving up
+            denom = np.maximum(1.0 + 2.0 * rho_param * cos_term, floor)
             log_terms = np.log(denom)
             value = -np.sum(w * log_terms) + w_sum * np.log(2.0 * np.pi)
             return float(value)
@@ -1656,10 +1657,7 @@ class cardioid_gen(CircularContinuous):
         def _grad(params):
             mu_param, rho_param = params
             cos_term = np.cos(x - mu_param)
-            denom = 1.0 + 2.0 * rho_param * cos_term
-            mask_bad = denom <= 0.0
-            if np.any(mask_bad):
-                return np.array([0.0, 0.0], dtype=float)
+            denom = np.maximum(1.0 + 2.0 * rho_param * cos_term, floor)
             sin_term = np.sin(x - mu_param)
             inv = w / denom
             g_mu = -2.0 * rho_param * np.sum(inv * sin_term)
-- 
2.43.0


From bfab342c80064e83a5e2bbd4e43fe95a1b77b52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:26 +0000
Subject: [PATCH 125/125] fix: MovM.compute_gamma gives memberships where every
 component's density underflows

---
 pycircstat2/clustering.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pycircstat2/clustering.py b/pycircstat2/clustering.py
index 9c3da6d..785ffea 100644
--- a/pycircstat2/clustering.py
+++ b/pycircstat2/clustering.py
@@ -294,9 +294,8 @@ class MovM:
             Cluster assignment probabilities for each data point.
         """
         log_gamma = self._log_gamma(alpha, p, m, kappa)
-        gamma = np.exp(log_gamma)
-        gamma /= gamma.sum(axis=0, keepdims=True)
-        return gamma
+        log_norm = np.logaddexp.reduce(log_gamma, axis=0, keepdims=True)
+        return np.exp(log_gamma - log_norm)
 
     def _log_gamma(
         self,
-- 
2.43.0

