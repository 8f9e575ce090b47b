From d52b333115b518b501b5216acb5006f0b6c5e19e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:20 +0000
Subject: [PATCH 01/28] fix: validate the final position vector, not the
 initial one twice

---
 src/lamberthub/utils/assertions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/assertions.py b/src/lamberthub/utils/assertions.py
index 8b78fbe..7cff373 100644
--- a/src/lamberthub/utils/assertions.py
+++ b/src/lamberthub/utils/assertions.py
@@ -87,7 +87,7 @@ def assert_position_vectors_are_valid(r1, r2):
     """
     # Check if position vectors have proper dimensions
     for r in [r1, r2]:
-        assert_position_vector_is_valid(r1)
+        assert_position_vector_is_valid(r)
 
     # Check both vectors are different
     if np.all(np.equal(r1, r2)):
-- 
2.43.0


From 1f92521d83c603503d65eee10b0f8605de36b641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 02/28] fix: use both radii in gauss1809's f_dot so v1 and v2
 share one orbit

---
 src/lamberthub/p_solvers/gauss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 57d6f77..b67818d 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -153,7 +153,7 @@ def gauss1809(
     f_dot = (
         np.sqrt(mu / p)
         * np.tan(dtheta / 2)
-        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r1_norm)
+        * ((1 - np.cos(dtheta)) / p - 1 / r1_norm - 1 / r2_norm)
     )
     g_dot = 1 - r1_norm * (1 - np.cos(dtheta)) / p
 
-- 
2.43.0


From d0e963d6f9e3c8e46a43ccbfb15c265ddfc1d151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:34 +0000
Subject: [PATCH 03/28] fix: gauss1809 orbital parameter for hyperbolic and
 parabolic transfers

---
 src/lamberthub/p_solvers/gauss.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index b67818d..b55248a 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -129,22 +129,16 @@ def gauss1809(
         raise ValueError("Exceeded maximum number of iterations.")
 
     # Once the value of y has been found, the shape and nature of the orbit can
-    # be determined from the sign of x variable
-    if x > 0:
-        # The orbit is an ellipse, being deltaAnomaly = deltaE
-        deltaAnomaly = 2 * np.arccos(1 - 2 * x)
-    elif x == 0:
-        # The orbit is a parabola
-        pass
-    else:
-        # The orbit is an hyperbola, being deltaAnomaly = deltaF
-        deltaAnomaly = 2 * np.arccosh(1 - 2 * x)
+    # be determined from the sign of x variable. Ellipses verify that
+    # cos(deltaE / 2) = 1 - 2 * x while hyperbolas verify cosh(deltaF / 2) = 1 -
+    # 2 * x, being the parabola the limiting case of both for x = 0
+    cos_half_anomaly = 1 - 2 * x
 
     # Compute the orbital parameter
     p = (r1_norm * r2_norm * (1 - np.cos(dtheta))) / (
         r1_norm
         + r2_norm
-        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * np.cos(deltaAnomaly / 2)
+        - 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2) * cos_half_anomaly
     )
 
     # Evaluate f, g, f_dot and g_dot functions for future solving v1 and v2
-- 
2.43.0


From fbf732f17815802edab8cd4875346458a28302b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 04/28] fix: parenthesis in battin1984's u variable, equation
 (55)

---
 src/lamberthub/p_solvers/battin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index b0a75a3..67ba104 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -375,7 +375,7 @@ def _u_at_B(B):
     This is equation (55) from the original report [1].
 
     """
-    u = -B / (2 * np.sqrt(1 + B) + 1)
+    u = -B / (2 * (np.sqrt(1 + B) + 1))
     return u
 
 
-- 
2.43.0


From 6f0780a9ff0f0a7c41f681702a2515327abbc9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:12 +0000
Subject: [PATCH 05/28] fix: initial values of battin1984's xi continued
 fraction

---
 src/lamberthub/p_solvers/battin.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 67ba104..17cea71 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -435,10 +435,10 @@ def _xi_at_x(x, levels=125):
         sigma,
         m1,
     ) = (
-        0,
         1,
         1,
         1,
+        0,
     )
 
     while np.abs(u) > 1e-18 and m1 <= levels:
-- 
2.43.0


From 00c76ab3d29ee0817cadcc09214e26cdcf35a1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:53 +0000
Subject: [PATCH 06/28] fix: vallado2013 readjusts psi with the sum of radii,
 so it cannot loop forever

---
 src/lamberthub/universal_solvers/vallado.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 344f24f..f0ab88b 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -113,7 +113,7 @@ def vallado2013(
                 psi = (
                     0.8
                     * (1.0 / c3(psi))
-                    * (1.0 - (r1_norm * r2_norm) * np.sqrt(c2(psi)) / A)
+                    * (1.0 - (r1_norm + r2_norm) * np.sqrt(c2(psi)) / A)
                 )
                 y = _y_at_psi(psi, r1_norm, r2_norm, A)
 
-- 
2.43.0


From 99d4399b67e4803c660e829ff13536bbfdd194b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:02 +0000
Subject: [PATCH 07/28] fix: gauss1809, battin1984 and vallado2013 refuse
 multi-revolution requests

---
 src/lamberthub/p_solvers/battin.py          | 6 ++++++
 src/lamberthub/p_solvers/gauss.py           | 6 ++++++
 src/lamberthub/universal_solvers/vallado.py | 6 ++++++
 3 files changed, 18 insertions(+)

diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 17cea71..27dc0ad 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -83,6 +83,12 @@ def battin1984(
     Technology).
 
     """
+    # Check that solution is not within the multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Battin is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index b55248a..521ed01 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -86,6 +86,12 @@ def gauss1809(
     Fundamentals of astrodynamics. Courier Dover Publications.
 
     """
+    # Check that solution is not within the multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Gauss is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index f0ab88b..73e6617 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -86,6 +86,12 @@ def vallado2013(
     (Vol. 12). Springer Science & Business Media.
 
     """
+    # Check that solution is not within the multi-revolution
+    if M > 0:
+        raise ValueError(
+            "Vallado is not able to work within the multi-revolution scenario!"
+        )
+
     # Check that input parameters are safe
     assert_parameters_are_valid(mu, r1, r2, tof, M)
 
-- 
2.43.0


From 55fa10ec22bb744777064b4ba52075e4891609b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:20 +0000
Subject: [PATCH 08/28] fix: refuse collinear position vectors instead of
 returning NaN velocities

---
 src/lamberthub/ecc_solvers/utils.py         | 6 +++++-
 src/lamberthub/p_solvers/battin.py          | 8 +++++++-
 src/lamberthub/regularization/delatorre.py  | 8 +++++++-
 src/lamberthub/series_solvers/thorne.py     | 8 +++++++-
 src/lamberthub/universal_solvers/arora.py   | 2 ++
 src/lamberthub/universal_solvers/gooding.py | 2 ++
 src/lamberthub/universal_solvers/vallado.py | 6 +++++-
 7 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index b44ec73..95fca02 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -26,7 +26,10 @@ from lamberthub.utils.angles import (
     get_orbit_normal_vector,
     get_transfer_angle,
 )
-from lamberthub.utils.assertions import assert_transfer_angle_not_zero
+from lamberthub.utils.assertions import (
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.kepler import kepler_from_nu
 
 
@@ -63,6 +66,7 @@ def get_geometry(r1, r2, is_prograde):
     # Compute angles
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     w_c = get_transfer_angle(r1, (r2 - r1), is_prograde)
 
     return r1_norm, r2_norm, c_norm, dtheta, w_c
diff --git a/src/lamberthub/p_solvers/battin.py b/src/lamberthub/p_solvers/battin.py
index 27dc0ad..ab57f63 100644
--- a/src/lamberthub/p_solvers/battin.py
+++ b/src/lamberthub/p_solvers/battin.py
@@ -6,7 +6,11 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def battin1984(
@@ -96,6 +100,8 @@ def battin1984(
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     semiperimeter = (r1_norm + r2_norm + c_norm) / 2
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Compute the auxiliary lambda parameter. The variable _lambda is used here
     # as lambda is a reserved keyword in Python for declaring inline functions.
diff --git a/src/lamberthub/regularization/delatorre.py b/src/lamberthub/regularization/delatorre.py
index f176ad6..bf774e3 100644
--- a/src/lamberthub/regularization/delatorre.py
+++ b/src/lamberthub/regularization/delatorre.py
@@ -6,7 +6,11 @@ import time
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def delatorre2018(
@@ -78,6 +82,8 @@ def delatorre2018(
     r1_norm = np.linalg.norm(r1)
     r2_norm = np.linalg.norm(r2)
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     P = r1_norm + r2_norm
     Q = 2 * np.sqrt(r1_norm * r2_norm) * np.cos(dtheta / 2)
diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index daa81ec..4aafc23 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -8,7 +8,11 @@ from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
 def thorne2004(
@@ -97,6 +101,8 @@ def thorne2004(
 
     # Compute the cosine of the transfer angle and check
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Thorne uses the upper sign for transfers greater than 180 degrees and the
     # lower sign for transfers lower than 180 degrees in equations (1)-(5).
diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 447ef50..96c6fa3 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -10,6 +10,7 @@ from scipy.optimize import brentq, minimize_scalar
 from lamberthub.utils.angles import get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -93,6 +94,7 @@ def arora2013(
     # Compute the transfer angle and the transfer angle parameter
     dtheta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
     d = 1 if dtheta <= np.pi else -1
 
     # Compute the characteristic length and time variables
diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5d5a76a..c8d39a9 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -9,6 +9,7 @@ from numpy.linalg import norm
 from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
     assert_transfer_angle_not_zero,
 )
 
@@ -105,6 +106,7 @@ def gooding1990(
     # exception its value is found to be the zero.
     theta = get_transfer_angle(r1, r2, is_prograde)
     assert_transfer_angle_not_zero(theta)
+    assert_transfer_angle_not_pi(theta)
 
     # Include additional revolutions if necessary.
     dtheta = 2.0 * np.pi * M + theta
diff --git a/src/lamberthub/universal_solvers/vallado.py b/src/lamberthub/universal_solvers/vallado.py
index 73e6617..0fc45af 100644
--- a/src/lamberthub/universal_solvers/vallado.py
+++ b/src/lamberthub/universal_solvers/vallado.py
@@ -6,7 +6,10 @@ from numba import njit as jit
 import numpy as np
 
 from lamberthub.utils.angles import get_transfer_angle
-from lamberthub.utils.assertions import assert_parameters_are_valid
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_zero,
+)
 from lamberthub.utils.stumpff import c2, c3
 
 
@@ -98,6 +101,7 @@ def vallado2013(
     # Retrieve the fundamental geometry of the problem
     r1_norm, r2_norm, c_norm = [np.linalg.norm(vec) for vec in [r1, r2, r2 - r1]]
     dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
 
     # Compute Vallado's transfer angle parameter
     A = _get_A(r1_norm, r2_norm, dtheta)
-- 
2.43.0


From 01fc37e944dd4884af3b6b50ee7a71818bedeb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:41 +0000
Subject: [PATCH 09/28] fix: izzo2015 validates its input parameters like every
 other solver

---
 src/lamberthub/universal_solvers/izzo.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 0e293b8..fa19cbe 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -5,9 +5,14 @@ import numpy as np
 from numpy import cross, pi
 
 from lamberthub.linalg import norm
+from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.assertions import (
+    assert_parameters_are_valid,
+    assert_transfer_angle_not_pi,
+    assert_transfer_angle_not_zero,
+)
 
 
-@jit(cache=True, fastmath=True)
 def izzo2015(
     mu,
     r1,
@@ -80,7 +85,12 @@ def izzo2015(
 
     """
     # Check that input parameters are safe
-    # assert_parameters_are_valid(mu, r1, r2, tof, M)
+    assert_parameters_are_valid(mu, r1, r2, tof, M)
+
+    # Collinear position vectors do not define the plane of the orbit
+    dtheta = get_transfer_angle(r1, r2, is_prograde)
+    assert_transfer_angle_not_zero(dtheta)
+    assert_transfer_angle_not_pi(dtheta)
 
     # Chord
     c = r2 - r1
-- 
2.43.0


From 7175fa8f5330b79352c11cbf617cfe801ed3cfa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:48 +0000
Subject: [PATCH 10/28] fix: izzo2015 accepts full_output like the documented
 API

---
 src/lamberthub/universal_solvers/izzo.py | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index fa19cbe..6b785e4 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -1,5 +1,7 @@
 """A module hosting all algorithms devised by Izzo"""
 
+import time
+
 from numba import njit as jit
 import numpy as np
 from numpy import cross, pi
@@ -24,6 +26,7 @@ def izzo2015(
     maxiter=35,
     atol=1e-5,
     rtol=1e-7,
+    full_output=False,
 ):
     r"""
     Solves Lambert problem using Izzo's devised algorithm.
@@ -48,6 +51,8 @@ def izzo2015(
         Absolute tolerance.
     rtol: float
         Relative tolerance.
+    full_output: bool
+        If True, the number of iterations and time per iteration are also returned.
 
     Returns
     -------
@@ -55,8 +60,10 @@ def izzo2015(
         Initial velocity vector.
     v2: numpy.array
         Final velocity vector.
-    numiter: list
+    numiter: int
         Number of iterations.
+    tpi: float
+        Time per iteration in seconds.
 
     Notes
     -----
@@ -122,7 +129,9 @@ def izzo2015(
     T = np.sqrt(2 * mu / s**3) * tof
 
     # Find solutions and filter them
-    x, y = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    tic = time.perf_counter() if full_output else 0.0
+    x, y, numiter = _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path)
+    tpi = (time.perf_counter() - tic) / numiter if full_output else 0.0
 
     # Reconstruct
     gamma = np.sqrt(mu * s / 2)
@@ -136,7 +145,7 @@ def izzo2015(
     # Solve for the initial and final velocity
     v1 = V_r1 * (r1 / r1_norm) + V_t1 * i_t1
     v2 = V_r2 * (r2 / r2_norm) + V_t2 * i_t2
-    return v1, v2
+    return (v1, v2, numiter, tpi) if full_output is True else (v1, v2)
 
 
 @jit(cache=True, fastmath=True)
@@ -173,10 +182,10 @@ def _find_xy(ll, T, M, maxiter, atol, rtol, is_low_path):
     x_0 = _initial_guess(T, ll, M, is_low_path)
 
     # Start Householder iterations from x_0 and find x, y
-    x = _householder(x_0, T, ll, M, atol, rtol, maxiter)
+    x, numiter = _householder(x_0, T, ll, M, atol, rtol, maxiter)
     y = _compute_y(x, ll)
 
-    return x, y
+    return x, y, numiter
 
 
 @jit(cache=True, fastmath=True)
@@ -342,7 +351,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
     this module and is not really reusable.
 
     """
-    for _ in range(1, maxiter + 1):
+    for numiter in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
         fval = _tof_equation_y(p0, y, T0, ll, M)
         T = fval + T0
@@ -357,7 +366,7 @@ def _householder(p0, T0, ll, M, atol, rtol, maxiter):
         )
 
         if abs(p - p0) < rtol * np.abs(p0) + atol:
-            return p
+            return p, numiter
         p0 = p
 
     raise RuntimeError("Failed to converge")
-- 
2.43.0


From 0284dfb2579ac657a7d8c055e4b6410b6da88d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 11/28] fix: get_transfer_angle is not NaN when rounding pushes
 the cosine beyond one

---
 src/lamberthub/utils/angles.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index 3a1318a..d08da76 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -47,7 +47,8 @@ def get_transfer_angle(r1, r2, is_prograde):
     # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2.
     r1_norm = norm(r1)
     r2_norm = norm(r2)
-    theta0 = np.arccos(dot(r1, r2) / (r1_norm * r2_norm))
+    cos_theta0 = dot(r1, r2) / (r1_norm * r2_norm)
+    theta0 = np.arccos(min(1.0, max(-1.0, cos_theta0)))
 
     # Fix the value of theta if necessary
     if is_prograde is True:
-- 
2.43.0


From 670f951fb9b317b1ea6c1f2228e75bb0db15429e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:47 +0000
Subject: [PATCH 12/28] fix: rv2coe handles retrograde equatorial orbits

---
 src/lamberthub/utils/elements.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/utils/elements.py b/src/lamberthub/utils/elements.py
index a36e43f..7f8d480 100644
--- a/src/lamberthub/utils/elements.py
+++ b/src/lamberthub/utils/elements.py
@@ -239,11 +239,12 @@ def rv2coe(k, r, v, tol=1e-8):
     inc = np.arccos(h[2] / h_norm)
 
     circular = ecc < tol
-    equatorial = abs(inc) < tol
+    equatorial = abs(inc) < tol or abs(inc - np.pi) < tol
+    sense = 1 if h[2] > 0 else -1  # Angles grow clockwise in retrograde orbits
 
     if equatorial and not circular:
         raan = 0
-        argp = np.arctan2(e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
+        argp = np.arctan2(sense * e[1], e[0]) % (2 * np.pi)  # Longitude of periapsis
         nu = np.arctan2(dot(h, cross(e, r)) / h_norm, dot(r, e))
     elif not equatorial and circular:
         raan = np.arctan2(n[1], n[0]) % (2 * np.pi)
@@ -253,7 +254,7 @@ def rv2coe(k, r, v, tol=1e-8):
     elif equatorial and circular:
         raan = 0
         argp = 0
-        nu = np.arctan2(r[1], r[0]) % (2 * np.pi)  # True longitude
+        nu = np.arctan2(sense * r[1], r[0]) % (2 * np.pi)  # True longitude
     else:
         a = p / (1 - (ecc**2))
         ka = k * a
-- 
2.43.0


From 8f7cd814200bfb01ddf2eb02a068c2a217270a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:05 +0000
Subject: [PATCH 13/28] fix: avanzini2008 handles transfers in the fundamental
 plane

---
 src/lamberthub/ecc_solvers/utils.py | 2 +-
 src/lamberthub/utils/angles.py      | 7 ++++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/ecc_solvers/utils.py b/src/lamberthub/ecc_solvers/utils.py
index 95fca02..a47f619 100644
--- a/src/lamberthub/ecc_solvers/utils.py
+++ b/src/lamberthub/ecc_solvers/utils.py
@@ -516,7 +516,7 @@ def coe_at_eccT(ecc_T, r1, r2, sense):
     inc, raan = get_orbit_inc_and_raan_from_position_vectors(r1, r2, sense)
 
     # Get a vector in the direction of the line of nodes
-    n = np.cross(np.array([0, 0, 1]), i_h)
+    n = np.array([np.cos(raan), np.sin(raan), 0.0])
     px = r1.dot(n)
     py = r1.dot(cross(i_h, n)) / norm(i_h)
     argp = (np.arctan2(py, px) - nu_1) % (2 * np.pi)
diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index d08da76..d713ed4 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -125,10 +125,11 @@ def get_orbit_inc_and_raan_from_position_vectors(r1, r2, is_prograde):
     # angular momentum one.
     i_h = get_orbit_normal_vector(r1, r2, is_prograde)
 
-    # If the orbit is coplanar with fundamental plane, neither inc or raan are
-    # defined. TODO: use atol and rtol instead of pure floating zero comparison
+    # If the orbit is coplanar with fundamental plane, the raan is not defined.
+    # TODO: use atol and rtol instead of pure floating zero comparison
     if i_h[0] == 0 and i_h[1] == 0:
-        inc, raan = 0, 0
+        inc = 0.0 if i_h[2] > 0 else np.pi
+        raan = 0.0
     else:
         # Inclination is always bounded between [0, pi], so no correction is
         # needed
-- 
2.43.0


From 3ff7841e8ec2a559db709b0095169c7927c7a144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:32 +0000
Subject: [PATCH 14/28] fix: thorne2004 uses one transfer direction throughout,
 also in polar planes

---
 src/lamberthub/series_solvers/thorne.py | 27 +++++--------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/lamberthub/series_solvers/thorne.py b/src/lamberthub/series_solvers/thorne.py
index 4aafc23..9103705 100644
--- a/src/lamberthub/series_solvers/thorne.py
+++ b/src/lamberthub/series_solvers/thorne.py
@@ -7,7 +7,7 @@ from scipy.optimize import brentq
 from scipy.special import factorial, poch
 
 from lamberthub.linalg import cross, norm
-from lamberthub.utils.angles import get_transfer_angle
+from lamberthub.utils.angles import get_orbit_normal_vector, get_transfer_angle
 from lamberthub.utils.assertions import (
     assert_parameters_are_valid,
     assert_transfer_angle_not_pi,
@@ -301,34 +301,17 @@ def get_y_from_x(x, r1, r2, s, c, is_prograde):
 
 def get_lambda(r1, r2, s, c, is_prograde):
     """Compute the signed transfer-angle parameter."""
-    i_r1 = r1 / norm(r1)
-    i_r2 = r2 / norm(r2)
-    i_h = cross(i_r1, i_r2)
-    i_h = i_h / norm(i_h)
-
     ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
-
-    return -ll if is_prograde is False else ll
+    return ll if get_transfer_angle(r1, r2, is_prograde) < np.pi else -ll
 
 
 def reconstruct(x, y, mu, r1, r2, s, c, is_prograde):
     """Reconstruct initial and final velocities from geometry and x-y values."""
     r1_norm, r2_norm = norm(r1), norm(r2)
     i_r1, i_r2 = r1 / r1_norm, r2 / r2_norm
-    i_h = cross(i_r1, i_r2)
-    i_h = i_h / norm(i_h)
-
-    ll = np.sqrt(1 - c / s)
-    if i_h[2] < 0:
-        ll = -ll
-        i_t1, i_t2 = cross(i_r1, i_h), cross(i_r2, i_h)
-    else:
-        i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
-
-    if is_prograde is False:
-        ll, i_t1, i_t2 = -ll, -i_t1, -i_t2
+    i_h = get_orbit_normal_vector(r1, r2, is_prograde)
+    i_t1, i_t2 = cross(i_h, i_r1), cross(i_h, i_r2)
+    ll = get_lambda(r1, r2, s, c, is_prograde)
 
     gamma = np.sqrt(mu * s / 2)
     rho = (r1_norm - r2_norm) / c
-- 
2.43.0


From d2f033f761f41da48559741d9daf5ecc4087ca23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 15/28] fix: gooding1990 raises instead of returning an
 unconverged solution

---
 src/lamberthub/universal_solvers/gooding.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index c8d39a9..5eb9508 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -553,7 +553,8 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
 def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
     """Run the Halley iteration for the independent variable in Gooding's method.
 
-    Returns (x, numiter) once convergence is reached or maxiter is exhausted.
+    Returns (x, numiter) once convergence is reached. Raises a RuntimeError if
+    maxiter is exhausted before.
     """
     xold = x
     for numiter in range(1, maxiter + 1):
@@ -564,11 +565,11 @@ def _xlamb_iter(m, q, qsqfm1, x, tin, maxiter, atol, rtol):
             xold = x
             x = x + t * dt / (dt * dt + t * d2t / 2.0)
 
-        x_atol, x_rtol = np.abs(x - xold), np.abs(x / xold - 1)
-        if x_atol <= atol and x_rtol <= rtol:
+        delta = np.abs(x - xold)
+        if delta <= atol and delta <= rtol * max(1.0, np.abs(xold)):
             return x, numiter
 
-    return x, maxiter
+    raise RuntimeError("Failed to converge")
 
 
 def vlamb(
-- 
2.43.0


From deae6ecc40ab0903f83caa347214333a81f6f6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:47 +0000
Subject: [PATCH 16/28] fix: gooding1990 minimum-time search checks its own
 convergence

---
 src/lamberthub/universal_solvers/gooding.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/lamberthub/universal_solvers/gooding.py b/src/lamberthub/universal_solvers/gooding.py
index 5eb9508..cbae366 100644
--- a/src/lamberthub/universal_solvers/gooding.py
+++ b/src/lamberthub/universal_solvers/gooding.py
@@ -450,9 +450,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # desired range
             if np.abs(xmold - xm) < rtol * np.abs(xmold) + atol:
                 break
-
-        # Check last
-        if (numiter + 1) == maxiter:
+        else:
             raise ValueError("Exceeded max iterations!")
 
         # Now proceed from T(min) to full starter
@@ -466,7 +464,7 @@ def xlamb(m, q, qsqfm1, tin, maxiter, atol, rtol, full_output=False):
             # Found minimum time condition
             x = xm
             n = 1
-            return n, x, None, numiter
+            return n, x, None, numiter, 0.0
 
         else:
             n = 3
-- 
2.43.0


From 0951faaed3fcce36ff7c1e47d27a42421cc95181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:14 +0000
Subject: [PATCH 17/28] fix: avanzini2008's secant method raises on a flat
 residual

---
 src/lamberthub/ecc_solvers/avanzini.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lamberthub/ecc_solvers/avanzini.py b/src/lamberthub/ecc_solvers/avanzini.py
index 23dda8e..27df458 100644
--- a/src/lamberthub/ecc_solvers/avanzini.py
+++ b/src/lamberthub/ecc_solvers/avanzini.py
@@ -210,7 +210,9 @@ def _secant(f, x0, args, maxiter, atol, rtol):
     f1 = f(x1, *args)
     for i in range(1, maxiter + 1):
         if f1 == f0:
-            return (x1 + x0) * 0.5, i
+            if abs(f1) <= atol:
+                return x1, i
+            raise RuntimeError("Failed to converge")
         x_new = x1 - f1 * (x1 - x0) / (f1 - f0)
         if abs(x_new - x1) <= atol + rtol * abs(x_new):
             return x_new, i
-- 
2.43.0


From 0942963091873a983f710bea76d3d8fa1c7c1a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 18/28] fix: pan2016 accepts a root only when its flight time
 matches

---
 src/lamberthub/p_solvers/pan.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/lamberthub/p_solvers/pan.py b/src/lamberthub/p_solvers/pan.py
index 42a1b4a..7adaab2 100644
--- a/src/lamberthub/p_solvers/pan.py
+++ b/src/lamberthub/p_solvers/pan.py
@@ -217,7 +217,6 @@ def _safe_tof_residual(mu, geometry, omega, tof):
 
 def _bezier_root(function, lower, upper, maxiter, atol, rtol):
     """Solve a monotonic scalar equation with non-rational Bézier updates."""
-    previous = upper
     f_lower, f_upper = function(lower), function(upper)
 
     for numiter in range(1, maxiter + 1):
@@ -225,18 +224,18 @@ def _bezier_root(function, lower, upper, maxiter, atol, rtol):
         root = np.clip(root, lower, upper)
         f_root = function(root)
 
-        if np.abs(f_root) <= atol or np.abs(root - previous) <= atol + rtol * np.abs(
-            root
-        ):
+        if np.abs(f_root) <= atol:
             return root, numiter
 
-        previous = root
         if f_lower * f_root <= 0:
             upper, f_upper = root, f_root
         else:
             lower, f_lower = root, f_root
 
     root = brentq(function, lower, upper, xtol=atol, rtol=rtol, maxiter=maxiter)
+    if not np.abs(function(root)) <= atol:
+        # The bracket holds a discontinuity, not a solution
+        raise ValueError("No root found in the bracket.")
     return root, maxiter
 
 
-- 
2.43.0


From 47b9efa9df4656124ba4312fd191f6cac01ab7b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:15 +0000
Subject: [PATCH 19/28] fix: arora2013 refuses multi-revolution transfers
 faster than the parabola

---
 src/lamberthub/universal_solvers/arora.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/lamberthub/universal_solvers/arora.py b/src/lamberthub/universal_solvers/arora.py
index 96c6fa3..07ac437 100644
--- a/src/lamberthub/universal_solvers/arora.py
+++ b/src/lamberthub/universal_solvers/arora.py
@@ -121,6 +121,10 @@ def arora2013(
     # Compute the parabolic time of flight
     tof_p = S * np.sqrt(1 - np.sqrt(2) * tau) * (tau + np.sqrt(2)) / 3
 
+    # Only closed orbits can perform complete revolutions
+    if M > 0 and tof <= tof_p:
+        raise ValueError("No feasible solution, try lower M!")
+
     # Compare actual and parabolic TOF to generate the initial guess
     if tof <= tof_p:
         # The final orbit is expected to be hyperbolic. The initial guess is
-- 
2.43.0


From 2e2356918e134a7fadaa0f5e64b00ba99a40ce01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:19 +0000
Subject: [PATCH 20/28] fix: negrete2024 checks the flight time of the root it
 returns

---
 src/lamberthub/universal_solvers/negrete.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/universal_solvers/negrete.py b/src/lamberthub/universal_solvers/negrete.py
index dc51967..787b763 100644
--- a/src/lamberthub/universal_solvers/negrete.py
+++ b/src/lamberthub/universal_solvers/negrete.py
@@ -93,6 +93,11 @@ def negrete2024(
     z = _find_z(mu, r1_norm, r2_norm, A, tof, M, is_low_path, numiter, atol, rtol)
     tpi = (time.perf_counter() - tic) / (3 * numiter) if full_output else 0.0
 
+    # The contour quadrature has no error estimate: check its root
+    tof_new = _tof_at_z(z, mu, r1_norm, r2_norm, A)
+    if not np.abs(tof_new - tof) <= atol + rtol * tof:
+        raise RuntimeError("Failed to converge")
+
     y = _y_at_z(np.complex128(z), r1_norm, r2_norm, A).real
     f = 1.0 - y / r1_norm
     g = A * np.sqrt(y / mu)
-- 
2.43.0


From 518fb3c3f834493b207edb4ecbabae5e00e38fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:53 +0000
Subject: [PATCH 21/28] fix: izzo2015 minimises the time of flight itself when
 checking feasibility

---
 src/lamberthub/universal_solvers/izzo.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/lamberthub/universal_solvers/izzo.py b/src/lamberthub/universal_solvers/izzo.py
index 6b785e4..600bbac 100644
--- a/src/lamberthub/universal_solvers/izzo.py
+++ b/src/lamberthub/universal_solvers/izzo.py
@@ -267,8 +267,7 @@ def _compute_T_min(ll, M, maxiter, atol, rtol):
         else:
             # Set x_i > 0 to avoid problems at ll = -1
             x_i = 0.1
-            T_i = _tof_equation(x_i, 0.0, ll, M)
-            x_T_min = _halley(x_i, T_i, ll, atol, rtol, maxiter)
+            x_T_min = _halley(x_i, ll, M, atol, rtol, maxiter)
             T_min = _tof_equation(x_T_min, 0.0, ll, M)
 
     return [x_T_min, T_min]
@@ -314,7 +313,7 @@ def _initial_guess(T, ll, M, is_low_path):
 
 
 @jit(cache=True, fastmath=True)
-def _halley(p0, T0, ll, atol, rtol, maxiter):
+def _halley(p0, ll, M, atol, rtol, maxiter):
     """Find a minimum of time of flight equation using the Halley method.
 
     Note
@@ -325,6 +324,7 @@ def _halley(p0, T0, ll, atol, rtol, maxiter):
     """
     for _ in range(1, maxiter + 1):
         y = _compute_y(p0, ll)
+        T0 = _tof_equation_y(p0, y, 0.0, ll, M)
         fder = _tof_equation_p(p0, y, T0, ll)
         fder2 = _tof_equation_p2(p0, y, T0, fder, ll)
         if fder2 == 0:
-- 
2.43.0


From a86656bfd55529761f0ccd7d3bccaa28a30b7152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 22/28] fix: der2011 returns the requested multi-revolution
 path

The minimum of the time of flight splits the low and high path, but the
solver split them at zero and its Laguerre iteration could converge to the
root of the other path.
---
 src/lamberthub/universal_solvers/der.py | 30 ++++++++++++++++---------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index 401c1bb..b9050d1 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -95,8 +95,9 @@ def der2011(
     if M > 0 and tau <= tau_p:
         raise ValueError("No feasible solution, try lower M!")
 
+    x_min = 0.0
     if M > 0:
-        tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
+        x_min, tau_min = _compute_minimum_time(sigma, M, maxiter, atol, rtol)
         if tau < tau_min:
             raise ValueError("No feasible solution, try lower M!")
 
@@ -107,6 +108,7 @@ def der2011(
         tau_p,
         M,
         is_low_path,
+        x_min,
         maxiter,
         atol,
         rtol,
@@ -142,6 +144,7 @@ def _find_path_parameter(
     tau_p,
     M,
     is_low_path,
+    x_min,
     maxiter,
     atol,
     rtol,
@@ -159,25 +162,30 @@ def _find_path_parameter(
         x0 = 0.5 if is_low_path else -0.5
 
     if is_elliptic:
-        return _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol)
+        return _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol)
 
     return _solve_hyperbolic(sigma, tau, x0, maxiter, atol, rtol)
 
 
-def _solve_elliptic(sigma, tau, M, x0, maxiter, atol, rtol):
-    """Solve Sun's elliptic Lambert equation."""
+def _solve_elliptic(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
+    """Solve Sun's elliptic Lambert equation.
+
+    The time of flight of a multi-revolution transfer has its minimum at x_min,
+    so the low path is the root above x_min and the high path the one below.
+    """
     x, y, numiter, needs_fallback = _solve_elliptic_jit(
         sigma, tau, M, x0, maxiter, atol, rtol
     )
-    if needs_fallback:
-        return _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol)
+    is_other_path = M > 0 and (x < x_min) != (x0 < 0)
+    if needs_fallback or is_other_path:
+        return _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol)
     return x, y, numiter
 
 
-def _solve_elliptic_bracketed(sigma, tau, M, x0, maxiter, atol, rtol):
+def _solve_elliptic_bracketed(sigma, tau, M, x0, x_min, maxiter, atol, rtol):
     """Solve Sun's elliptic Lambert equation with Der's path-region bounds."""
     eps = 2.220446049250313e-16
-    lower, upper = (-1 + eps, 0.0) if x0 < 0 else (0.0, 1 - eps)
+    lower, upper = (-1 + eps, x_min) if x0 < 0 else (x_min, 1 - eps)
 
     def elliptic_equation(x):
         """Evaluate Sun's elliptic Lambert equation."""
@@ -440,7 +448,7 @@ def _compute_minimum_energy_time(sigma, M):
 
 
 def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
-    """Compute the normalized minimum time for a multirevolution transfer."""
+    """Compute the path parameter and time of the fastest multirevolution transfer."""
 
     def minimum_time_equation(x):
         """Evaluate Der's minimum-time equation."""
@@ -460,7 +468,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         x = 0.1
     else:
         y = _compute_y(sigma, x)
-        return 2 * (1 / x - sigma**3 / y) / 3
+        return x, _tof_elliptic(sigma, x, y, M)
 
     for _ in range(maxiter):
         y = _compute_y(sigma, x)
@@ -468,7 +476,7 @@ def _compute_minimum_time(sigma, M, maxiter, atol, rtol):
         dphi = 2 * (1 - x**2) * (1 - sigma**5 * x**3 / y**3) / (3 * x**2)
 
         if np.abs(phi) <= atol + rtol * M * np.pi:
-            return 2 * (1 / x - sigma**3 / y) / 3
+            return x, _tof_elliptic(sigma, x, y, M)
 
         x -= phi / dphi
         x = np.clip(x, 2.220446049250313e-16, 0.999999)
-- 
2.43.0


From 8997d362672d9e85589241e2f1cbfa7a73471189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:43 +0000
Subject: [PATCH 23/28] fix: gauss1809 refuses the spurious root of its squared
 equations

Only the square of the sector-to-triangle ratio enters the iteration, so for
transfers of almost a full revolution it could converge to a ratio of the
wrong sign and return an orbit with a different time of flight.
---
 src/lamberthub/p_solvers/gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 521ed01..704057a 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -134,6 +134,11 @@ def gauss1809(
     else:
         raise ValueError("Exceeded maximum number of iterations.")
 
+    # The ratio between the sector and the triangle areas has the sign of the
+    # latter one. The equations being iterated only involve its square.
+    if y * np.sin(dtheta) <= 0:
+        raise ValueError("Iteration converged to a spurious solution.")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of x variable. Ellipses verify that
     # cos(deltaE / 2) = 1 - 2 * x while hyperbolas verify cosh(deltaF / 2) = 1 -
-- 
2.43.0


From bb32a34f7654c02995338b455263ec892c1ceeb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 24/28] fix: der2011 parabolic transfers use y consistent with
 x

At x = 1 the relation between the path parameters gives |y| = 1, not sigma,
so both velocities were off the transfer orbit.
---
 src/lamberthub/universal_solvers/der.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index b9050d1..ec1ae0a 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -151,7 +151,7 @@ def _find_path_parameter(
 ):
     """Solve for Der's path parameter with the Laguerre method."""
     if M == 0 and np.isclose(tau, tau_p, atol=atol, rtol=rtol):
-        return 1.0, sigma, 1
+        return 1.0, _compute_y(sigma, 1.0), 1
 
     is_elliptic = M > 0 or tau > tau_p
     tau_me = _compute_minimum_energy_time(sigma, M) if is_elliptic else None
-- 
2.43.0


From bd71d649754712c9dd97024cb65abaa93b8ca96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:29 +0000
Subject: [PATCH 25/28] fix: get_transfer_angle recognises vectors that are
 collinear up to rounding

r2 = z * r1 rounds its components, so the cross product is rarely exactly
zero and the solvers went on to divide by zero and return NaN velocities.
---
 src/lamberthub/utils/angles.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/utils/angles.py b/src/lamberthub/utils/angles.py
index d713ed4..18c1f8a 100644
--- a/src/lamberthub/utils/angles.py
+++ b/src/lamberthub/utils/angles.py
@@ -8,6 +8,9 @@ from lamberthub.linalg import cross, dot, norm
 K_AXIS = np.array([0.0, 0.0, 1.0])
 """Unitary vector along the Z-axis of the fundamental plane."""
 
+EPS = 2.220446049250313e-16
+"""Relative spacing of double precision numbers."""
+
 
 @jit(cache=True, fastmath=True)
 def get_transfer_angle(r1, r2, is_prograde):
@@ -31,11 +34,13 @@ def get_transfer_angle(r1, r2, is_prograde):
         Transfer angle in radians.
 
     """
-    # Check if both position vectors are collinear. If so, check if the transfer
-    # angle is 0 or pi.
+    # Check if both position vectors are collinear, up to the rounding of their
+    # components. If so, check if the transfer angle is 0 or pi.
     cross_r1r2 = cross(r1, r2)
-    if np.all(cross_r1r2 == 0):
-        return 0 if np.all(np.sign(r1) == np.sign(r2)) else np.pi
+    r1_norm = norm(r1)
+    r2_norm = norm(r2)
+    if norm(cross_r1r2) <= 8 * EPS * r1_norm * r2_norm:
+        return 0 if dot(r1, r2) > 0 else np.pi
 
     # Solve for a unitary vector normal to the vector plane. Its direction and
     # sense the one given by the cross product (right-hand) from r1 to r2.
@@ -45,8 +50,6 @@ def get_transfer_angle(r1, r2, is_prograde):
     alpha = dot(K_AXIS, h)
 
     # Get the minimum angle (0 <= dtheta <= pi) between r1 and r2.
-    r1_norm = norm(r1)
-    r2_norm = norm(r2)
     cos_theta0 = dot(r1, r2) / (r1_norm * r2_norm)
     theta0 = np.arccos(min(1.0, max(-1.0, cos_theta0)))
 
-- 
2.43.0


From aebe492db5fbc27e7b31e44c62f62ba5b97b1697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 26/28] fix: jiang bounds the bracket searches and accepts only
 converged elliptic iterates

---
 src/lamberthub/p_solvers/jiang.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/lamberthub/p_solvers/jiang.py b/src/lamberthub/p_solvers/jiang.py
index f754adc..e661493 100644
--- a/src/lamberthub/p_solvers/jiang.py
+++ b/src/lamberthub/p_solvers/jiang.py
@@ -319,15 +319,18 @@ def _find_and_solve_elliptic(
     Combines bracket expansion and the Newton-bisection iteration into a single
     JIT-compiled function, removing all Python closure overhead.
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     f_lower = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
     f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
-    while f_lower * f_upper > 0:
+    for _ in range(maxiter):
+        if f_lower * f_upper <= 0:
+            break
         upper *= 2
         f_upper = _tof_elliptic(mu, upper, s, c, theta, long_period) - tof
+    else:
+        raise ValueError("Could not bracket the elliptic semi-major axis!")
 
     x = (lower + upper) / 2
     f_lower_iter = _tof_elliptic(mu, lower, s, c, theta, long_period) - tof
@@ -362,6 +365,7 @@ def _find_and_solve_elliptic(
         if np.abs(f_new) <= atol or (
             np.abs(x_new - x) <= atol + rtol * np.abs(x_new)
             and np.abs(f_new) <= np.abs(f_x)
+            and np.abs(f_new) <= atol + max(rtol, 1e-7) * tof
         ):
             return x_new, numiter
 
@@ -381,8 +385,12 @@ def _find_and_solve_hyperbolic(mu, tof, s, c, theta, maxiter, atol, rtol):
     lower = -max(s, c, 1.0)
     upper = -eps * max(s, c, 1.0)
 
-    while (_tof_hyperbolic(mu, lower, s, c, theta) - tof) < 0:
+    for _ in range(maxiter):
+        if _tof_hyperbolic(mu, lower, s, c, theta) >= tof:
+            break
         lower *= 2
+    else:
+        raise ValueError("Could not bracket the hyperbolic semi-major axis!")
 
     x = (lower + upper) / 2
     f_lower_iter = _tof_hyperbolic(mu, lower, s, c, theta) - tof
@@ -459,8 +467,7 @@ def _get_elliptic_bracket(mu, tof, a_min, s, c, theta, long_period):
     dynamic upper bound so the solver is scale independent.
 
     """
-    eps = 1.4901161193847656e-08
-    lower = a_min * (1 + eps)
+    lower = a_min
     upper = max(2 * lower, 1.0)
 
     def residual(axis):
-- 
2.43.0


From a1c6bf0892d4c230afd6350bb26f0c54cd04437b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 27/28] fix: gauss1809 refuses solutions of its second equation
 when the series has not converged

---
 src/lamberthub/p_solvers/gauss.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/lamberthub/p_solvers/gauss.py b/src/lamberthub/p_solvers/gauss.py
index 704057a..21699a8 100644
--- a/src/lamberthub/p_solvers/gauss.py
+++ b/src/lamberthub/p_solvers/gauss.py
@@ -139,6 +139,11 @@ def gauss1809(
     if y * np.sin(dtheta) <= 0:
         raise ValueError("Iteration converged to a spurious solution.")
 
+    # The series in x converges slowly or not at all for large values of it:
+    # the solution is only meaningful if more terms would not change it
+    if not np.abs((_X_at_x(x, 100) - _X_at_x(x)) * (s + x)) <= atol:
+        raise ValueError("The series of Gauss's second equation did not converge.")
+
     # Once the value of y has been found, the shape and nature of the orbit can
     # be determined from the sign of x variable. Ellipses verify that
     # cos(deltaE / 2) = 1 - 2 * x while hyperbolas verify cosh(deltaF / 2) = 1 -
-- 
2.43.0


From 7ae0e166235d9275bd24aaafb61f9eb3476cc7ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:34 +0000
Subject: [PATCH 28/28] fix: der2011 computes the flight time without
 cancellation near the parabola

---
 src/lamberthub/universal_solvers/der.py | 41 +++++++------------------
 1 file changed, 11 insertions(+), 30 deletions(-)

diff --git a/src/lamberthub/universal_solvers/der.py b/src/lamberthub/universal_solvers/der.py
index ec1ae0a..1d7f24e 100644
--- a/src/lamberthub/universal_solvers/der.py
+++ b/src/lamberthub/universal_solvers/der.py
@@ -257,12 +257,6 @@ def _compute_y(sigma, x):
     return np.copysign(y_abs, sigma)
 
 
-@jit(cache=True, fastmath=True)
-def _acot_elliptic_x(x):
-    """Evaluate the elliptic arc-cotangent branch for the path parameter."""
-    return np.arccos(min(1.0, max(-1.0, x)))
-
-
 @jit(cache=True, fastmath=True)
 def _acot_elliptic_y(y):
     """Evaluate the elliptic arc-cotangent branch for the angle parameter."""
@@ -271,41 +265,28 @@ def _acot_elliptic_y(y):
     return -np.arccos(min(1.0, max(-1.0, -y)))
 
 
-@jit(cache=True, fastmath=True)
-def _acoth_sun(u):
-    """Evaluate the inverse hyperbolic cotangent branch used by Sun."""
-    if u >= 0:
-        return np.arccosh(u)
-    return -np.arccosh(-u)
-
-
 @jit(cache=True, fastmath=True)
 def _tof_elliptic(sigma, x, y, M):
     """Evaluate Sun's normalized elliptic time of flight."""
-    one_minus_x2 = 1 - x**2
-    one_minus_y2 = 1 - y**2
+    # Written so that nothing cancels close to the parabola (x = 1)
+    z = np.sqrt((1 - x) * (1 + x))
     numerator = (
-        _acot_elliptic_x(x)
-        - _acot_elliptic_y(y)
-        - x * np.sqrt(one_minus_x2)
-        + y * np.sqrt(max(0.0, one_minus_y2))
+        np.arctan2(z, x)
+        - np.arcsin(min(1.0, max(-1.0, sigma * z)))
+        - x * z
+        + y * np.abs(sigma) * z
         + M * np.pi
     )
-    return numerator / one_minus_x2 ** (3 / 2)
+    return numerator / z**3
 
 
 @jit(cache=True, fastmath=True)
 def _tof_hyperbolic(sigma, x, y):
     """Evaluate Sun's normalized hyperbolic time of flight."""
-    x2_minus_one = x**2 - 1
-    y2_minus_one = y**2 - 1
-    numerator = (
-        -_acoth_sun(x)
-        + _acoth_sun(y)
-        + x * np.sqrt(x2_minus_one)
-        - y * np.sqrt(max(0.0, y2_minus_one))
-    )
-    return numerator / x2_minus_one ** (3 / 2)
+    # Written so that nothing cancels close to the parabola (x = 1)
+    z = np.sqrt((x - 1) * (x + 1))
+    numerator = np.arcsinh(sigma * z) - np.arcsinh(z) + x * z - y * np.abs(sigma) * z
+    return numerator / z**3
 
 
 @jit(cache=True, fastmath=True)
-- 
2.43.0

