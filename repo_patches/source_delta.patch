From 8eab8f2f11639378dd6d7723b6917e10f0a46f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:49 +0000
Subject: [PATCH 01/25] fix: validate the final position vector, not the
 initial one twice

---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0


From 294943cf7be05c7cde724de1b154209dee52a01f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 02/25] fix: use both position norms in the f_dot coefficient
 of gauss1809

---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..b67818d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -153,7 +153,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From f065b66082b2efb096033204f96dbd374d1e4cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 03/25] fix: handle parabolic and hyperbolic transfers in
 gauss1809

---
 src/lamberthub/p_solvers/gauss.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index b67818d..99a2419 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -133,18 +133,20 @@ def gauss1809(
     if x > 0:
         # The orbit is an ellipse, being deltaAnomaly = deltaE
         deltaAnomaly = 2 * np.arccos(1 - 2 * x)
+        cos_half_anomaly = np.cos(deltaAnomaly / 2)
     elif x == 0:
         # The orbit is a parabola
-        pass
+        cos_half_anomaly = 1.0
     else:
         # The orbit is an hyperbola, being deltaAnomaly = deltaF
         deltaAnomaly = 2 * np.arccosh(1 - 2 * x)
+        cos_half_anomaly = np.cosh(deltaAnomaly / 2)
 
     # Compute the orbital parameter
     p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
         r1_norm
         + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * np.cos(deltaAnomaly / 2)
+        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * cos_half_anomaly
     )
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
-- 
2.43.0


From cbe80b4e5ecb5eac3c7af14997f24a4edb87c451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:12 +0000
Subject: [PATCH 04/25] fix: refuse multi-revolution requests in gauss, battin
 and vallado

---
 src/lamberthub/p_solvers/battin.py          | 6 ++++++
 src/lamberthub/p_solvers/gauss.py           | 6 ++++++
 src/lamberthub/universal_solvers/vallado.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b0a75a3..a321b18 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -83,6 +83,12 @@ def battin1984(
     Technology).
 
     """
+    # Check that the requested scenario is supported
+    if M > 0:
+        raise ValueError(
+            "Battin is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 99a2419..3cd6bee 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -86,6 +86,12 @@ def gauss1809(
     Fundamentals of astrodynamics. Courier Dover Publications.
 
     """
+    # Check that the requested scenario is supported
+    if M > 0:
+        raise ValueError(
+            "Gauss is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 344f24f..9a8054d 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -86,6 +86,12 @@ def vallado2013(
     (Vol. 12). Springer Science & Business Media.
 
     """
+    # Check that the requested scenario is supported
+    if M > 0:
+        raise ValueError(
+            "Vallado is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
-- 
2.43.0


From dc8f7134d9a784786541c13db25874370205ea9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 05/25] fix: refuse collinear geometries instead of returning
 NaN velocities

---
 src/lamberthub/ecc_solvers/utils.py         | 6 +++++-
 src/lamberthub/p_solvers/battin.py          | 8 +++++++-
 src/lamberthub/regularization/delatorre.py  | 8 +++++++-
 src/lamberthub/series_solvers/thorne.py     | 8 +++++++-
 src/lamberthub/universal_solvers/arora.py   | 2 ++
 src/lamberthub/universal_solvers/gooding.py | 2 ++
 6 files changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b44ec73..95fca02 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -26,7 +26,10 @@ from lamberthub.utils.angles import (
     get_orbit_normal_vector,
     get_transfer_angle,
 )
-from lamberthub.utils.assertions import assert_transfer_angle_not_zero
+from lamberthub.utils.assertions import (
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.kepler import kepler_from_nu
 
 
@@ -63,6 +66,7 @@ def get_geometry(r1, r2, is_prograde):
     # Compute angles
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index a321b18..087f4a2 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,7 +6,11 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def battin1984(
@@ -96,6 +100,8 @@ def battin1984(
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Compute the auxiliary lambda parameter. The variable _lambda is used here
     # as lambda is a reserved keyword in Python for declaring inline functions.
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f176ad6..bf774e3 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,7 +6,11 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def delatorre2018(
@@ -78,6 +82,8 @@ def delatorre2018(
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index daa81ec..4aafc23 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,7 +8,11 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def thorne2004(
@@ -97,6 +101,8 @@ def thorne2004(
 
     # Compute the cosine of the transfer angle and check
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Thorne uses the upper sign for transfers greater than 180 degrees and the
     # lower sign for transfers lower than 180 degrees in equations (1)-(5).
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 447ef50..96c6fa3 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -10,6 +10,7 @@ from scipy.optimize import brentq, minimize_scalar
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -93,6 +94,7 @@ def arora2013(
     # Compute the transfer angle and the transfer angle parameter
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     d = 1 if dtheta <= np.pi else -1
 
     # Compute the characteristic length and time variables
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5d5a76a..c8d39a9 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -9,6 +9,7 @@ from numpy.linalg import norm
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -105,6 +106,7 @@ def gooding1990(
     # exception its value is found to be the zero.
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
+    assert_transfer_angle_not_pi(theta)
 
     # Include additional revolutions if necessary.
     dtheta = 2.0 * np.pi * M + theta
-- 
2.43.0


From adf47bed191a209ab5008afd4a3576eecc138493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 06/25] fix: make prograde and retrograde polar transfers
 distinct

---
 src/lamberthub/utils/angles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 3a1318a..103a187 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -51,7 +51,7 @@ def get_transfer_angle(r1, r2, is_prograde):
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-        dtheta = theta0 if alpha > 0 else 2 * np.pi - theta0
+        dtheta = theta0 if alpha >= 0 else 2 * np.pi - theta0
     else:
         dtheta = theta0 if alpha < 0 else 2 * np.pi - theta0
 
@@ -90,7 +90,7 @@ def get_orbit_normal_vector(r1, r2, is_prograde):
     # An prograde orbit always has a positive vertical component of its specific
     # angular momentum. Therefore, we just need to check for this condition
     if is_prograde is True:
-        i_h = i_h if alpha > 0 else -i_h
+        i_h = i_h if alpha >= 0 else -i_h
     else:
         i_h = i_h if alpha < 0 else -i_h
 
-- 
2.43.0


From 0f07a74cc036aac4950cc7968f12852e16af823a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:58 +0000
Subject: [PATCH 07/25] fix: keep the cosine of the transfer angle within its
 domain

---
 src/lamberthub/utils/angles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 103a187..77ded22 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -47,7 +47,8 @@ def get_transfer_angle(r1, r2, is_prograde):
     # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2.
     r1_norm = norm(r1)
     r2_norm = norm(r2)
-    theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
+    cos_theta0 = dot(r1, r2) / (r1_norm * r2_norm)
+    theta0 = np.arccos(min(1.0, max(-1.0, cos_theta0)))
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-- 
2.43.0


From 0ebfe6ed40280033ac9e2ce5e9d4e2e015b2891e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:31 +0000
Subject: [PATCH 08/25] fix: validate izzo2015 inputs and support its
 documented full_output

---
 src/lamberthub/universal_solvers/izzo.py | 48 +++++++++++++++++++-----
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..0b6a20c 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,13 +1,20 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
+from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -19,6 +26,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -43,6 +51,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations and time per iteration are also returned.
 
     Returns
     -------
@@ -50,8 +60,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -80,8 +92,26 @@ def izzo2015(
 
     """
     # Check that input parameters are safe
-    # assert_parameters_are_valid(mu, r1, r2, tof, M)
+    assert_parameters_are_valid(mu, r1, r2, tof, M)
+
+    # The orbital plane is not defined for collinear position vectors
+    dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
+
+    # Solve for the velocities
+    tic = time.perf_counter() if full_output else 0.0
+    v1, v2, numiter = _solve(
+        mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol
+    )
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
+
+    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
+
+@jit(cache=True, fastmath=True)
+def _solve(mu, r1, r2, tof, M, is_prograde, is_low_path, maxiter, atol, rtol):
+    """Solve for the initial and final velocities and the number of iterations."""
     # Chord
     c = r2 - r1
     c_norm, r1_norm, r2_norm = norm(c), norm(r1), norm(r2)
@@ -112,7 +142,7 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -126,7 +156,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return v1, v2, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -163,10 +193,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -332,7 +362,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -347,7 +377,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From fb3e8a14b8b3e5a4fe08cea0083f139503795192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:07 +0000
Subject: [PATCH 09/25] fix: report the real convergence of the minimum time
 search in gooding1990

---
 src/lamberthub/universal_solvers/gooding.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index c8d39a9..7c76919 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -450,9 +450,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # desired range
             if np.abs(xmold - xm) < rtol * np.abs(xmold) + atol:
                 break
-
-        # Check last
-        if (numiter + 1) == maxiter:
+        else:
             raise ValueError("Exceeded max iterations!")
 
         # Now proceed from T(min) to full starter
@@ -466,7 +464,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # Found minimum time condition
             x = xm
             n = 1
-            return n, x, None, numiter
+            return n, x, None, numiter, 0.0
 
         else:
             n = 3
-- 
2.43.0


From eac4fc79bde77e4c24cbaed3faa82b4ec7887be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:16 +0000
Subject: [PATCH 10/25] fix: do not return unconverged solutions from
 gooding1990

---
 src/lamberthub/universal_solvers/gooding.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 7c76919..bd362c4 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -551,7 +551,9 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
 def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
     """Run the Halley iteration for the independent variable in Gooding's method.
 
-    Returns (x, numiter) once convergence is reached or maxiter is exhausted.
+    Returns (x, numiter) once convergence is reached. The relative tolerance can
+    not be met when the root is the null value, so the absolute one is enough if
+    maxiter is exhausted. Otherwise, an exception is raised.
     """
     xold = x
     for numiter in range(1, maxiter + 1):
@@ -562,11 +564,14 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             xold = x
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
-        x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and x_rtol <= rtol:
+        step = np.abs(x - xold)
+        if step <= atol and step <= rtol * np.abs(xold):
             return x, numiter
 
-    return x, maxiter
+    if step <= atol:
+        return x, maxiter
+
+    raise ValueError("Exceeded maximum number of iterations!")
 
 
 def vlamb(
-- 
2.43.0


From 1a4e01eb831491cd478faab679a3cd065be3f2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 11/25] fix: do not return the midpoint of a stalled secant in
 avanzini2008

---
 src/lamberthub/ecc_solvers/avanzini.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 23dda8e..3dad3e4 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -210,7 +210,10 @@ def _secant(f, x0, args, maxiter, atol, rtol):
     f1 = f(x1, *args)
     for i in range(1, maxiter + 1):
         if f1 == f0:
-            return (x1 + x0) * 0.5, i
+            # The secant line is horizontal, only valid if already at the root
+            if abs(f1) <= atol:
+                return (x1 + x0) * 0.5, i
+            break
         x_new = x1 - f1 * (x1 - x0) / (f1 - f0)
         if abs(x_new - x1) <= atol + rtol * abs(x_new):
             return x_new, i
-- 
2.43.0


From 83d2786d30ec87d676c602e6602aa8a642a4918e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:38 +0000
Subject: [PATCH 12/25] fix: solve coplanar transfers properly in avanzini2008

---
 src/lamberthub/ecc_solvers/utils.py | 3 +++
 src/lamberthub/utils/angles.py      | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 95fca02..e4422ab 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -517,6 +517,9 @@ def coe_at_eccT(ecc_T, r1, r2, sense):
 
     # Get a vector in the direction of the line of nodes
     n = np.cross(np.array([0, 0, 1]), i_h)
+    if np.all(n == 0):
+        # The line of nodes of coplanar orbits is assumed to be the X-axis
+        n = np.array([1.0, 0.0, 0.0])
     px = r1.dot(n)
     py = r1.dot(cross(i_h, n)) / norm(i_h)
     argp = (np.arctan2(py, px) - nu_1) % (2 * np.pi)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 77ded22..dfb6672 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -128,7 +128,7 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     # If the orbit is coplanar with fundamental plane, neither inc or raan are
     # defined. TODO: use atol and rtol instead of pure floating zero comparison
     if i_h[0] == 0 and i_h[1] == 0:
-        inc, raan = 0, 0
+        inc, raan = (0.0 if i_h[2] > 0 else np.pi), 0.0
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-- 
2.43.0


From a994f13b0fc9e95c492642bed4abb06e6469d9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:04 +0000
Subject: [PATCH 13/25] fix: convert equatorial retrograde states to elements
 properly

---
 src/lamberthub/utils/elements.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index a36e43f..03d3643 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -239,11 +239,14 @@ def rv2coe(k, r, v, tol=1e-8):
     inc = np.arccos(h[2] / h_norm)
 
     circular = ecc < tol
-    equatorial = abs(inc) < tol
+    equatorial = abs(inc) < tol or abs(inc - np.pi) < tol
+
+    # Equatorial orbits may be retrograde ones, so angles grow clockwise
+    sense = 1.0 if h[2] > 0 else -1.0
 
     if equatorial and not circular:
         raan = 0
-        argp = np.arctan2(e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
+        argp = np.arctan2(sense * e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
     elif not equatorial and circular:
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
@@ -253,7 +256,7 @@ def rv2coe(k, r, v, tol=1e-8):
     elif equatorial and circular:
         raan = 0
         argp = 0
-        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
+        nu = np.arctan2(sense * r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
         a = p / (1 - (ecc**2))
         ka = k * a
-- 
2.43.0


From 72d082315d4db437acf6ddd4d1fb35ca2b9a093f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:46 +0000
Subject: [PATCH 14/25] fix: give the near-parabolic transfer of der2011 its
 own arrival parameter

---
 src/lamberthub/universal_solvers/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 401c1bb..383fc94 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -148,7 +148,7 @@ def _find_path_parameter(
 ):
     """Solve for Der's path parameter with the Laguerre method."""
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
-        return 1.0, sigma, 1
+        return 1.0, _compute_y(sigma, 1.0), 1
 
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
-- 
2.43.0


From e6cd1e955dbc3c0b6f8962e9acf2bba057a5ac5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:04 +0000
Subject: [PATCH 15/25] fix: evaluate the xi and u functions of battin1984
 correctly

---
 src/lamberthub/p_solvers/battin.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 087f4a2..3692cd9 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -387,7 +387,7 @@ def _u_at_B(B):
     This is equation (55) from the original report [1].
 
     """
-    u = -B / (2 * np.sqrt(1 + B) + 1)
+    u = -B / (2 * (np.sqrt(1 + B) + 1))
     return u
 
 
@@ -447,18 +447,18 @@ def _xi_at_x(x, levels=125):
         sigma,
         m1,
     ) = (
-        0,
+        1,
         1,
         1,
         1,
     )
 
     while np.abs(u) > 1e-18 and m1 <= levels:
-        m1 += 1
         gamma = (m1 + 3) ** 2 / (4 * (m1 + 3) ** 2 - 1)
         delta = 1 / (1 + gamma * eta * delta)
         u = u * (delta - 1)
         sigma = sigma + u
+        m1 += 1
 
     xi = 8 * (np.sqrt(1 + x) + 1) / (3 + 1 / (5 + eta + (9 * eta / 7) * sigma))
     return xi
-- 
2.43.0


From a915d922b3eefca1f4c933976bafd6f6b61893ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:38 +0000
Subject: [PATCH 16/25] fix: use the sum of the position norms in the y
 readjustment of vallado2013

---
 src/lamberthub/universal_solvers/vallado.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 9a8054d..63e7772 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -119,7 +119,7 @@ def vallado2013(
                 psi = (
                     0.8
                     * (1.0 / c3(psi))
-                    * (1.0 - (r1_norm * r2_norm) * np.sqrt(c2(psi)) / A)
+                    * (1.0 - (r1_norm + r2_norm) * np.sqrt(c2(psi)) / A)
                 )
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
-- 
2.43.0


From 19ebbbdc7a0049b8b05aac481d5d3159c0cc8d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:30 +0000
Subject: [PATCH 17/25] fix: sum the series of gauss1809 up to convergence and
 refuse it outside

---
 src/lamberthub/p_solvers/gauss.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 3cd6bee..a1e1958 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -134,6 +134,11 @@ def gauss1809(
     else:
         raise ValueError("Exceeded maximum number of iterations.")
 
+    # The series for X only represents the problem within its circle of
+    # convergence, and its terms are too many close to the border
+    if not np.abs(x) < 0.96:
+        raise ValueError("The transfer angle is too large for Gauss' method.")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of x variable
     if x > 0:
@@ -285,7 +290,7 @@ def _gauss_second_equation(x, s):
 
 
 @jit(cache=True, fastmath=True)
-def _X_at_x(x, order=50):
+def _X_at_x(x, order=1000):
     """Computes capital X as function of lower x.
 
     Parameters
@@ -310,5 +315,7 @@ def _X_at_x(x, order=50):
     for n in range(3, (3 + order)):
         coeff = coeff * (2 * n) / (2 * n - 1) * x
         X += coeff
+        if np.abs(coeff) <= 1e-16 * np.abs(X) or np.abs(coeff) > 1e50:
+            break
     X = (4 / 3) * X
     return X
-- 
2.43.0


From b264d6039ec563018642788ab856b4cd708a4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:14 +0000
Subject: [PATCH 18/25] fix: insert the generated report literally, not as a
 regex template

---
 scripts/generate_benchmark_report.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/generate_benchmark_report.py b/scripts/generate_benchmark_report.py
index 73523d4..d165fb9 100644
--- a/scripts/generate_benchmark_report.py
+++ b/scripts/generate_benchmark_report.py
@@ -271,7 +271,7 @@ def update_readme(readme_path, section):
             rf"{re.escape(START_MARKER)}.*?{re.escape(END_MARKER)}\n?",
             flags=re.DOTALL,
         )
-        updated = pattern.sub(generated_content, content)
+        updated = pattern.sub(lambda _: generated_content, content)
     else:
         updated = content.rstrip() + "\n\n" + section
 
-- 
2.43.0


From bf9df20f02d469b429edb63d2d203e46eba190bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 19/25] fix: refuse contour integrals of negrete2024 that have
 not converged

---
 src/lamberthub/universal_solvers/negrete.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc51967..4678188 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -186,7 +186,18 @@ def _refine_single_root(
         I0 = moments[0]
         I1 = moments[1]
         z = _real_solution(I1 / I0, atol, rtol)
-    return z
+
+    # The number of points of the contour may be too small for it to converge:
+    # the solution needs to be enclosed within the desired tolerance
+    tol = atol + rtol * abs(z)
+    f_low = _tof_at_z(z - tol, mu, r1_norm, r2_norm, A) - tof
+    f_high = _tof_at_z(z + tol, mu, r1_norm, r2_norm, A) - tof
+    if f_low * f_high <= 0.0 and z_min - tol <= z <= z_max + tol:
+        return z
+    f = _tof_at_z(z, mu, r1_norm, r2_norm, A) - tof
+    if abs(f) <= atol + rtol * tof and z_min - tol <= z <= z_max + tol:
+        return z
+    raise RuntimeError("Contour integrals failed to converge")
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0


From 020b56719d8f51beecc940879b838236ce3176c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 20/25] fix: halve Barker's time of flight of pan2016 instead
 of dividing it by the square root of two

---
 src/lamberthub/p_solvers/pan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 42a1b4a..9fa8f39 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -331,7 +331,9 @@ def _parabolic_tof(mu, semi_latus_rectum, f1, f2):
     if semi_latus_rectum <= 0:
         raise ValueError("Invalid parabolic semi-latus rectum.")
     D1, D2 = np.tan(f1 / 2), np.tan(f2 / 2)
-    return np.sqrt(semi_latus_rectum**3 / (2 * mu)) * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
+    return (
+        np.sqrt(semi_latus_rectum**3 / mu) / 2 * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
+    )
 
 
 def _true_to_eccentric_anomaly(true_anomaly, eccentricity):
-- 
2.43.0


From 5d38dc74f76efcd5c9d05c0ec30ca169a49529c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 21/25] fix: refuse parabolic arcs of pan2016 that pass through
 infinity

---
 src/lamberthub/p_solvers/pan.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 9fa8f39..fa575e0 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -331,6 +331,8 @@ def _parabolic_tof(mu, semi_latus_rectum, f1, f2):
     if semi_latus_rectum <= 0:
         raise ValueError("Invalid parabolic semi-latus rectum.")
     D1, D2 = np.tan(f1 / 2), np.tan(f2 / 2)
+    if D2 <= D1:
+        raise ValueError("Invalid parabolic transfer direction.")
     return (
         np.sqrt(semi_latus_rectum**3 / mu) / 2 * (D2 + D2**3 / 3 - D1 - D1**3 / 3)
     )
-- 
2.43.0


From ea65160ea2043afc586d8ccafd627b8d2b5da0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:42 +0000
Subject: [PATCH 22/25] fix: do not accept stagnated false positions of pan2016
 as roots

---
 src/lamberthub/p_solvers/pan.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index fa575e0..dac3e9d 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -225,19 +225,30 @@ def _bezier_root(function, lower, upper, maxiter, atol, rtol):
         root = np.clip(root, lower, upper)
         f_root = function(root)
 
-        if np.abs(f_root) <= atol or np.abs(root - previous) <= atol + rtol * np.abs(
-            root
-        ):
+        if np.abs(f_root) <= atol:
             return root, numiter
 
-        previous = root
         if f_lower * f_root <= 0:
             upper, f_upper = root, f_root
         else:
             lower, f_lower = root, f_root
 
-    root = brentq(function, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter)
-    return root, maxiter
+        # One end of the bracket stays fixed, so that short steps do not mean
+        # that the root is close: continue with a method closing the bracket.
+        if np.abs(root - previous) <= atol + rtol * np.abs(root):
+            break
+        previous = root
+
+    root, results = brentq(
+        function,
+        lower,
+        upper,
+        xtol=atol,
+        rtol=rtol,
+        maxiter=maxiter,
+        full_output=True,
+    )
+    return root, numiter + results.iterations
 
 
 def _linear_bezier_estimate(lower, upper, f_lower, f_upper):
-- 
2.43.0


From 8c2cc39f233185209d5242758ac190c1a74b10f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:12 +0000
Subject: [PATCH 23/25] fix: do not accept short steps of mcelreath2025 away
 from the requested time of flight

---
 src/lamberthub/universal_solvers/mcelreath.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/mcelreath.py b/src/lamberthub/universal_solvers/mcelreath.py
index d6f6010..497b2a3 100644
--- a/src/lamberthub/universal_solvers/mcelreath.py
+++ b/src/lamberthub/universal_solvers/mcelreath.py
@@ -165,7 +165,9 @@ def _find_single_revolution_x(tof, r_norm_sum, m, dtheta, maxiter, atol, rtol):
         )
         lo, hi = 0.0, np.inf
 
-    return _solve_desired_x(x_0, tof, r_norm_sum, m, 0, lo, hi, maxiter, rtol)
+    return _solve_desired_x(
+        x_0, tof, r_norm_sum, m, 0, lo, hi, maxiter, atol, rtol
+    )
 
 
 @jit(cache=True, fastmath=True)
@@ -209,7 +211,7 @@ def _find_multi_revolution_x(
     )
     x_0 = np.complex128(g_short if is_low_path else g_long)
     x, desired_iterations = _solve_desired_x(
-        x_0, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol
+        x_0, tof, r_norm_sum, m, M, lo, hi, maxiter, atol, rtol
     )
     total = minimum_iterations + desired_iterations
     if total < 1:
@@ -272,7 +274,7 @@ def _multi_revolution_initial_guesses(tof, tof_min, x_min, r_norm_sum, m, dtheta
 
 
 @jit(cache=True, fastmath=True)
-def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol):
+def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, atol, rtol):
     """Solve for the requested transfer time with Householder updates."""
     two_pi_revs = 2 * np.pi * M
     tolerance = rtol if rtol < 1e-10 else 1e-10
@@ -305,8 +307,10 @@ def _solve_desired_x(x, tof, r_norm_sum, m, M, lo, hi, maxiter, rtol):
                     boundary = hi if sign > 0 else lo
                     x = x_old + 0.5 * (boundary - x_old)
 
+        # Close to the parabola and to the bounds steps may be short even though
+        # the transfer time is not the requested one
         err = abs((x - x_old) / (x - two_pi_revs + 2 * np.pi))
-        if err < tolerance:
+        if err < tolerance and abs(residual) <= atol + rtol * abs(tof):
             return _clean_root(x), numiter
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 39f60cad6f629d6917b984f0790a611d334e8c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:36 +0000
Subject: [PATCH 24/25] fix: arora2013 answered short multi-revolution requests
 with direct hyperbolas

---
 src/lamberthub/universal_solvers/arora.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 96c6fa3..e1124ec 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -122,7 +122,7 @@ def arora2013(
     tof_p = S * np.sqrt(1 - np.sqrt(2) * tau) * (tau + np.sqrt(2)) / 3
 
     # Compare actual and parabolic TOF to generate the initial guess
-    if tof <= tof_p:
+    if M == 0 and tof <= tof_p:
         # The final orbit is expected to be hyperbolic. The initial guess is
         # determined by the formulae given by (TABLE 2) from official report.
         # Three regions, depending on the transfer angle are possible: one where
-- 
2.43.0


From 364b2c02827f85e7351749c5a7e15097377cff89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:11 +0000
Subject: [PATCH 25/25] fix: keep der2011 on the requested side of the minimum
 time of several revolutions

---
 src/lamberthub/universal_solvers/der.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 383fc94..4c026f6 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -95,8 +95,9 @@ def der2011(
     if M > 0 and tau <= tau_p:
         raise ValueError("No feasible solution, try lower M!")
 
+    x_min = 0.0
     if M > 0:
-        tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
+        tau_min, x_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
         if tau < tau_min:
             raise ValueError("No feasible solution, try lower M!")
 
@@ -110,6 +111,7 @@ def der2011(
         maxiter,
         atol,
         rtol,
+        x_min,
     )
     tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
@@ -145,6 +147,7 @@ def _find_path_parameter(
     maxiter,
     atol,
     rtol,
+    x_min,
 ):
     """Solve for Der's path parameter with the Laguerre method."""
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
@@ -159,25 +162,27 @@ def _find_path_parameter(
         x0 = 0.5 if is_low_path else -0.5
 
     if is_elliptic:
-        return _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol)
+        # The minimum time divides the low and high paths of several revolutions
+        return _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol)
 
     return _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol)
 
 
-def _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation."""
     x, y, numiter, needs_fallback = _solve_elliptic_jit(
         sigma, tau, M, x0, maxiter, atol, rtol
     )
-    if needs_fallback:
-        return _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol)
+    other_path = M > 0 and (x < x_min) != (x0 < 0)
+    if needs_fallback or other_path:
+        return _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol)
     return x, y, numiter
 
 
-def _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
-    lower, upper = (-1 + eps, 0.0) if x0 < 0 else (0.0, 1 - eps)
+    lower, upper = (-1 + eps, x_min) if x0 < 0 else (x_min, 1 - eps)
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
@@ -440,7 +445,7 @@ def _compute_minimum_energy_time(sigma, M):
 
 
 def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
-    """Compute the normalized minimum time for a multirevolution transfer."""
+    """Compute the normalized minimum time of a multirevolution transfer and its x."""
 
     def minimum_time_equation(x):
         """Evaluate Der's minimum-time equation."""
@@ -460,7 +465,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         x = 0.1
     else:
         y = _compute_y(sigma, x)
-        return 2 * (1 / x - sigma**3 / y) / 3
+        return _tof_elliptic(sigma, x, y, M), x
 
     for _ in range(maxiter):
         y = _compute_y(sigma, x)
@@ -468,7 +473,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         dphi = 2 * (1 - x**2) * (1 - sigma**5 * x**3 / y**3) / (3 * x**2)
 
         if np.abs(phi) <= atol + rtol * M * np.pi:
-            return 2 * (1 / x - sigma**3 / y) / 3
+            return _tof_elliptic(sigma, x, y, M), x
 
         x -= phi / dphi
         x = np.clip(x, 2.220446049250313e-16, 0.999999)
-- 
2.43.0

