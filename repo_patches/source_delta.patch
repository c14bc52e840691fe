From f878d0b9844c5882d6ad8b150de0fc1bd1b7ed36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:56 +0000
Subject: [PATCH 01/36] fix: compose order 6 and 8 integrators from genuine
 lower-order schemes

The triple-jump constants of every nested level were taken from the order
of the outermost scheme, so the inner compositions were only second order.
---
 src/einsteinpy/integrators/fantasy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/fantasy.py b/src/einsteinpy/integrators/fantasy.py
index 042d003..8f66aed 100644
--- a/src/einsteinpy/integrators/fantasy.py
+++ b/src/einsteinpy/integrators/fantasy.py
@@ -207,7 +207,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(4)
         step1 = self._ord_2(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_2(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_2(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -228,7 +228,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(6)
         step1 = self._ord_4(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_4(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_4(step2[0], step2[1], step2[2], step2[3], dl * Z1)
@@ -249,7 +249,7 @@ class GeodesicIntegrator:
         """
         dl = delta
 
-        Z0, Z1 = _Z(self.order)
+        Z0, Z1 = _Z(8)
         step1 = self._ord_6(q1, p1, q2, p2, dl * Z1)
         step2 = self._ord_6(step1[0], step1[1], step1[2], step1[3], dl * Z0)
         step3 = self._ord_6(step2[0], step2[1], step2[2], step2[3], dl * Z1)
-- 
2.43.0


From 5f1dc575d3ec6b57ce9490a8058f4dd0005abd20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:23 +0000
Subject: [PATCH 02/36] fix: include the charge of the black hole in the
 Kerr-Newman metric

metric_covariant and the Christoffel symbols evaluated delta without Q,
so every Kerr-Newman object silently behaved like an uncharged Kerr one.
---
 src/einsteinpy/metric/kerrnewman.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 69d2c88..3fc17f6 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -134,9 +134,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         g_cov_bl = np.zeros(shape=(4, 4), dtype=float)
 
@@ -175,9 +175,9 @@ class KerrNewman(BaseMetric):
 
         """
         r, th = x_vec[1], x_vec[2]
-        M, a = self.M.value, self.a.value
+        M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
-        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a)
+        rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
 
         dgdx = np.zeros(shape=(4, 4, 4), dtype=float)
 
-- 
2.43.0


From 670188983ee5d608548b4a7619f202a3a4014c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 03/36] fix: convert mass, spin and charge to SI before using
 them in metrics

The unit checks accept any compatible unit, but the raw values were then
used as if they were SI ones, so e.g. a mass in solar masses was read as
that many kilograms.
---
 src/einsteinpy/metric/base_metric.py | 7 ++++---
 src/einsteinpy/metric/kerrnewman.py  | 2 +-
 src/einsteinpy/units.py              | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7a36242..7005303 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -92,9 +92,10 @@ class BaseMetric:
         """
         self.name = name
         self.coords = coords
-        self.M = M
-        self.a = a
-        self.Q = Q
+        # All computations below assume SI values
+        self.M = M.to(u.kg)
+        self.a = u.Quantity(a, u.one)
+        self.Q = Q.to(u.C)
         self.metric_cov = metric_cov
         self.christoffels = christoffels
         self.f_vec = f_vec
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 3fc17f6..ddc2766 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -46,7 +46,7 @@ class KerrNewman(BaseMetric):
             christoffels=self._christoffels,
             f_vec=self._f_vec,
         )
-        self.q = q
+        self.q = q.to(u.C / u.kg)
         # Precomputed list of tuples, containing indices \
         # of non-zero Christoffel Symbols for Kerr-Newman Metric \
         # in Boyer-Lindquist Coordinates
diff --git a/src/einsteinpy/units.py b/src/einsteinpy/units.py
index 1780568..3b2f55b 100644
--- a/src/einsteinpy/units.py
+++ b/src/einsteinpy/units.py
@@ -7,7 +7,7 @@ __all__ = ["primitive"]
 
 def primitive(*args):
     """
-    Strips out units and returns numpy.float64 values \
+    Strips out units and returns numpy.float64 values, in SI units, \
     out of ``astropy.units.quantity.Quantity``
 
     Parameters
@@ -24,7 +24,7 @@ def primitive(*args):
     primitive_args = []
     for item in args:
         if isinstance(item, u.Quantity):
-            primitive_args.append(item.value)
+            primitive_args.append(item.si.value)
         else:
             primitive_args.append(item)
 
-- 
2.43.0


From 7013338a98ae9a33eddb173b99fb116f4b78c2bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:24 +0000
Subject: [PATCH 04/36] fix: finite azimuthal Boyer-Lindquist velocity on the x
 = 0 plane

The velocity was divided by x, so every point of the yz-plane raised a
ZeroDivisionError (or gave nan without numba).
---
 src/einsteinpy/coordinates/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index dca3dd3..d903607 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -77,7 +77,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
         )
     )
     v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
-    v_p = (1 / (1 + np.square(y / x))) * ((v_y * x - v_x * y) / (x**2))
+    v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
 
-- 
2.43.0


From b054616625b6d6d58b21e0cb6c843be15931195b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:31 +0000
Subject: [PATCH 05/36] fix: well-defined Boyer-Lindquist polar angle on and
 near the rotation axis

arccos(z / r) is nan whenever z / r rounds to more than one, which happens
for points on the axis, and loses half of the digits close to it.
---
 src/einsteinpy/coordinates/utils.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index d903607..b87bf35 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -66,7 +66,8 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    sin_th = np.hypot(x, y) / np.sqrt(r**2 + alpha**2)
+    theta = np.arctan2(sin_th, z / r)
     phi = np.arctan2(y, x)
     dw_dt = 2 * (x * v_x + y * v_y + z * v_z)
     v_r = (1 / (2 * r)) * (
@@ -76,7 +77,7 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
             / (2 * np.sqrt((w**2) + (4 * (alpha**2) * (z**2))))
         )
     )
-    v_th = (-1 / np.sqrt(1 - np.square(z / r))) * ((v_z * r - v_r * z) / (r**2))
+    v_th = (-1 / sin_th) * ((v_z * r - v_r * z) / (r**2))
     v_p = (v_y * x - v_x * y) / (x**2 + y**2)
 
     return t, r, theta, phi, v_r, v_th, v_p
@@ -91,7 +92,8 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     """
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
-    theta = np.arccos(z / r)
+    sin_th = np.hypot(x, y) / np.sqrt(r**2 + alpha**2)
+    theta = np.arctan2(sin_th, z / r)
     phi = np.arctan2(y, x)
 
     return t, r, theta, phi
-- 
2.43.0


From e516b1aac09dab42bf6c2f9272a43c3e6fb8710a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:14 +0000
Subject: [PATCH 06/36] fix: make RK4naive respect t_bound

The direction of integration always evaluated to zero, so the solver never
stopped at t_bound and always moved forward.
---
 src/einsteinpy/integrators/runge_kutta.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 331fa77..63b78cf 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -32,7 +32,7 @@ class RK4naive:
         self.t_bound = t_bound
         self.step_size = stepsize
         self._fun = fun
-        self.direction = 1 * (self.t_bound >= t0) - 1 * (not self.t_bound < t0)
+        self.direction = 1 * (self.t_bound >= t0) - 1 * (self.t_bound < t0)
 
     def step(self):
         """
@@ -43,16 +43,14 @@ class RK4naive:
         ):
             warnings.warn("Out of bounds set by t_bound. ", RuntimeWarning)
             return
+        # Moving towards, but never beyond, t_bound
+        h = self.direction * min(abs(self.step_size), abs(self.t_bound - self.t))
         k0 = self._fun(self.t, self.y)
-        k1 = self._fun(
-            self.t + (self.step_size / 2.0), self.y + (self.step_size / 2.0) * k0
-        )
-        k2 = self._fun(
-            self.t + (self.step_size / 2.0), self.y + (self.step_size / 2.0) * k1
-        )
-        k3 = self._fun(self.t + self.step_size, self.y + (self.step_size) * k2)
-        self.y = self.y + ((self.step_size / 6.0) * (k0 + 2 * k1 + 2 * k2 + k3))
-        self.t = self.t + self.step_size
+        k1 = self._fun(self.t + (h / 2.0), self.y + (h / 2.0) * k0)
+        k2 = self._fun(self.t + (h / 2.0), self.y + (h / 2.0) * k1)
+        k3 = self._fun(self.t + h, self.y + h * k2)
+        self.y = self.y + ((h / 6.0) * (k0 + 2 * k1 + 2 * k2 + k3))
+        self.t = self.t + h
 
 
 class RK45(integrate.RK45):
-- 
2.43.0


From a1e1d4cb3b197b3094d84dde3ff1e6229cdf2dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:22 +0000
Subject: [PATCH 07/36] fix: let RK45 integrate scalars and elementwise
 right-hand sides

A scalar y0 was rejected by scipy, and right-hand sides were called with a
(n, 1) column instead of the type of y0.
---
 src/einsteinpy/integrators/runge_kutta.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/einsteinpy/integrators/runge_kutta.py b/src/einsteinpy/integrators/runge_kutta.py
index 63b78cf..99f3da4 100644
--- a/src/einsteinpy/integrators/runge_kutta.py
+++ b/src/einsteinpy/integrators/runge_kutta.py
@@ -80,7 +80,6 @@ class RK45(integrate.RK45):
             Absolute tolerance, defaults to rtol/0.8e3
 
         """
-        vectorized = not isinstance(y0, float)
         self._t_bound = t_bound
         if rtol is None:
             rtol = 0.2 * stepsize
@@ -89,13 +88,12 @@ class RK45(integrate.RK45):
         super(RK45, self).__init__(
             fun=fun,
             t0=t0,
-            y0=y0,
+            y0=np.atleast_1d(y0),
             t_bound=self._t_bound,
             first_step=0.8 * stepsize,
             max_step=8.0 * stepsize,
             rtol=rtol,
             atol=atol,
-            vectorized=vectorized,
         )
 
     def step(self):
-- 
2.43.0


From a1535f2489f112afa063ce0f38f7f3f10892dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 08/36] fix: normalise the initial 4-momentum in metrics with
 any off-diagonal terms

Only g^{t phi} was taken into account, so the initial momentum in a
user-supplied metric with other cross terms was off the mass shell.
---
 src/einsteinpy/geodesic/utils.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/einsteinpy/geodesic/utils.py b/src/einsteinpy/geodesic/utils.py
index 5408211..3905f70 100644
--- a/src/einsteinpy/geodesic/utils.py
+++ b/src/einsteinpy/geodesic/utils.py
@@ -41,13 +41,8 @@ def _P(g, g_prms, q, p, time_like=True):
     P = np.array([0.0, *p])
 
     A = guu[0, 0]
-    B = 2 * guu[0, 3] * P[3]
-    C = (
-        guu[1, 1] * P[1] * P[1]
-        + guu[2, 2] * P[2] * P[2]
-        + guu[3, 3] * P[3] * P[3]
-        + int(time_like)
-    )
+    B = 2 * (guu[0, 1:] @ P[1:])
+    C = P[1:] @ guu[1:, 1:] @ P[1:] + int(time_like)
 
     P[0] = (-B + np.sqrt(B**2 - 4 * A * C)) / (2 * A)
 
-- 
2.43.0


From 03104f50ca63ba4f94dd7843e30a41ec63aab463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 09/36] fix: keep configuration and name of a tensor in subs

The result always claimed to be a rank-2 covariant tensor, which raised a
ValueError for tensors of every other rank.
---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 586b118..530dad7 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -234,7 +234,7 @@ class Tensor:
             Tensor with substituted values
 
         """
-        return Tensor(self.tensor().subs(*args))
+        return Tensor(self.tensor().subs(*args), config=self.config, name=self.name)
 
     def simplify(self, set_self=True):
         """
-- 
2.43.0


From cee09b7f55782ae3b574da544aa0b8bad04aa479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:53 +0000
Subject: [PATCH 10/36] fix: StressEnergyMomentumTensor.change_config returned
 an EinsteinTensor

---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index 81a87de..b1eb724 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -92,7 +92,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         if metric is None:
             raise Exception("Parent Metric not found, can't do configuration change")
         new_tensor = _change_config(self, metric, newconfig)
-        new_obj = EinsteinTensor(
+        new_obj = StressEnergyMomentumTensor(
             new_tensor,
             self.syms,
             config=newconfig,
-- 
2.43.0


From 185e0e477ee8d277327137a8b1c7d0da356c5482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 11/36] fix: transform covariant indices with the inverse
 Lorentz matrix

Contracting them with the transpose of the matrix boosts covariant and
contravariant components in opposite directions, so scalars built from them
were not invariant.
---
 src/einsteinpy/symbolic/tensor.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 530dad7..4ba359b 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -438,11 +438,15 @@ class BaseRelativityTensor(Tensor):
         """
         tm = sympy.Array(transformation_matrix)
         t = self.tensor()
+        # covariant indices transform with the inverse of the matrix
+        tm_inv = None
+        if "l" in self.config:
+            tm_inv = sympy.Array(simplify(sympy.Matrix(tm.tolist()).inv()))
         for i in range(self.order):
             if self.config[i] == "u":
                 t = simplify(tensorcontraction(tensorproduct(tm, t), (1, 2 + i)))
             else:
-                t = simplify(tensorcontraction(tensorproduct(tm, t), (0, 2 + i)))
+                t = simplify(tensorcontraction(tensorproduct(tm_inv, t), (0, 2 + i)))
             dest = list(range(len(t.shape)))
             dest.remove(0)
             dest.insert(i, 0)
-- 
2.43.0


From 33f151d3f2955fc3c8dd186fe37e56efb1f40836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 12/36] fix: de Sitter metric expands with the time coordinate,
 not with x

---
 src/einsteinpy/symbolic/predefined/de_sitter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/de_sitter.py b/src/einsteinpy/symbolic/predefined/de_sitter.py
index e8798bb..3d8cb9c 100644
--- a/src/einsteinpy/symbolic/predefined/de_sitter.py
+++ b/src/einsteinpy/symbolic/predefined/de_sitter.py
@@ -42,7 +42,7 @@ def DeSitter():
 
     """
     coords = symbols("t x y z")
-    t = coords[1]
+    t = coords[0]
     al = symbols("alpha")
     expr = exp(2 * t / al)
     metric = diag(-1, expr, expr, expr).tolist()
-- 
2.43.0


From c7468bdb91f4508fa36a64b48c698f13574ca4e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 13/36] fix: pass order and argument to besselj in the right
 order in BesselGravitationalWave

---
 .../symbolic/predefined/bessel_gravitational_wave.py        | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
index 18f5b47..86a77ca 100644
--- a/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
+++ b/src/einsteinpy/symbolic/predefined/bessel_gravitational_wave.py
@@ -24,14 +24,14 @@ def BesselGravitationalWave(C=symbols("C")):
     t, rho, ph, z = coords
 
     # Useful helper functions, these wrap the Bessel functions that are used. C is some constant here
-    U = C * besselj(rho, 0) * cos(t)
+    U = C * besselj(0, rho) * cos(t)
     K = (
         (1 / 2)
         * (C**2)
         * rho
         * (
-            (rho * ((besselj(rho, 0) ** 2) + (besselj(rho, 1) ** 2)))
-            - (2 * besselj(rho, 0) * besselj(rho, 1) * (cos(t) ** 2))
+            (rho * ((besselj(0, rho) ** 2) + (besselj(1, rho) ** 2)))
+            - (2 * besselj(0, rho) * besselj(1, rho) * (cos(t) ** 2))
         )
     )
 
-- 
2.43.0


From 5beb2217642adf4afb442d64ab99625eca2ed3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 14/36] fix: Alcubierre warp bubble distance uses y**2 + z**2

---
 src/einsteinpy/symbolic/predefined/alcubierre_warp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
index 9a63dd2..a52a190 100644
--- a/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
+++ b/src/einsteinpy/symbolic/predefined/alcubierre_warp.py
@@ -40,7 +40,7 @@ def AlcubierreWarp(
     """
     coords = symbols("t x y z")
     t, x, y, z = coords
-    r_s = sqrt((x - x_s) ** 2 + y + z)
+    r_s = sqrt((x - x_s) ** 2 + y**2 + z**2)
     f = (tanh(sigma * (r_s + R)) - tanh(sigma * (r_s - R))) / (2 * tanh(sigma * R))
 
     v2 = v**2
-- 
2.43.0


From a868ed4d8f5234c195d59b4f08f78a4ebeb4e13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 15/36] fix: scale angular part of Janis-Newman-Winicour metric
 like its radial part

---
 src/einsteinpy/symbolic/predefined/janis_newman_winicour.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
index 47adedc..b799b4d 100644
--- a/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
+++ b/src/einsteinpy/symbolic/predefined/janis_newman_winicour.py
@@ -30,7 +30,7 @@ def JanisNewmanWinicour(
     metric = diag(
         -1 * (alpha**gam),
         (alpha**-gam) / (c**2),
-        (r**2) * (alpha ** (-gam + 1)),
-        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2),
+        (r**2) * (alpha ** (-gam + 1)) / (c**2),
+        (r**2) * (alpha ** (-gam + 1)) * (sin(th) ** 2) / (c**2),
     ).tolist()
     return MetricTensor(metric, coords, "ll", name="JanisNewmanWinicourMetric")
-- 
2.43.0


From 956a1831324f3a6a0a1e81032562752136d671ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 16/36] fix: draw the ergosphere at r = 1 + sqrt(1 - a**2
 cos(theta)**2), theta the polar angle

---
 src/einsteinpy/plotting/geodesic/interactive.py | 4 ++--
 src/einsteinpy/plotting/geodesic/static.py      | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index fef2ed7..3e70468 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -65,7 +65,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -120,7 +120,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 2de182e..d79366c 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -92,7 +92,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(THETA) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -144,7 +144,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta) ** 2))
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
-- 
2.43.0


From 1a5dbe3d87e2c7bc3fc228a5c99c6f068135fad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 17/36] fix: account for the charge when drawing a Kerr-Newman
 black hole

---
 .../plotting/geodesic/interactive.py          | 37 ++++++++++++-----
 src/einsteinpy/plotting/geodesic/static.py    | 41 +++++++++++++------
 2 files changed, 56 insertions(+), 22 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index 3e70468..6a947ed 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -26,7 +26,18 @@ class InteractiveGeodesicPlotter:
         self.bh_colors = bh_colors
         self.draw_ergosphere = draw_ergosphere
 
-    def _draw_bh(self, a):
+    @staticmethod
+    def _bh_params(geodesic):
+        """
+        Returns dimensionless spin and charge of the Black Hole
+
+        """
+        params = geodesic.metric_params
+        Q = params[1] if geodesic.metric_name == "KerrNewman" else 0.0
+
+        return params[0], Q
+
+    def _draw_bh(self, a, Q=0.0):
         """
         Plots the Black Hole
 
@@ -35,6 +46,9 @@ class InteractiveGeodesicPlotter:
         a : float
             Dimensionless Spin Parameter of the Black Hole
             ``0 <= a <= 1``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         colorscale_H = [(0, self.bh_colors[0]), (1, self.bh_colors[0])]
@@ -44,7 +58,7 @@ class InteractiveGeodesicPlotter:
         THETA, PHI = np.meshgrid(theta, phi)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(PHI) * np.cos(THETA)
         YH = rh_outer * np.sin(PHI) * np.sin(THETA)
@@ -65,7 +79,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -84,7 +98,7 @@ class InteractiveGeodesicPlotter:
                 )
             )
 
-    def _draw_bh_2D(self, a, figsize=(6, 6)):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 2D
 
@@ -96,12 +110,15 @@ class InteractiveGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         theta = np.linspace(0, 2 * np.pi, 50)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(theta)
         YH = rh_outer * np.cos(theta)
@@ -120,7 +137,7 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -183,8 +200,8 @@ class InteractiveGeodesicPlotter:
         Y = traj[:, 2]
         Z = traj[:, 3]
 
-        a = geodesic.metric_params[0]
-        self._draw_bh(a)
+        a, Q = self._bh_params(geodesic)
+        self._draw_bh(a, Q=Q)
         self.fig.add_trace(
             go.Scatter3d(
                 x=X,
@@ -247,8 +264,8 @@ class InteractiveGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
+        a, Q = self._bh_params(geodesic)
+        self._draw_bh_2D(a, figsize, Q)
 
         traj = geodesic.trajectory[1]
         A = coordinates[0]
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index d79366c..6ed7fd5 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -43,7 +43,18 @@ class StaticGeodesicPlotter:
                 PendingDeprecationWarning,
             )
 
-    def _draw_bh(self, a, figsize=(6, 6)):
+    @staticmethod
+    def _bh_params(geodesic):
+        """
+        Returns dimensionless spin and charge of the Black Hole
+
+        """
+        params = geodesic.metric_params
+        Q = params[1] if geodesic.metric_name == "KerrNewman" else 0.0
+
+        return params[0], Q
+
+    def _draw_bh(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 3D
 
@@ -55,6 +66,9 @@ class StaticGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         self.fig, self.ax = plt.subplots(figsize=figsize)
@@ -69,7 +83,7 @@ class StaticGeodesicPlotter:
         THETA, PHI = np.meshgrid(theta, phi)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(PHI) * np.cos(THETA)
         YH = rh_outer * np.sin(PHI) * np.sin(THETA)
@@ -92,7 +106,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(PHI)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(PHI) * np.sin(THETA)
             YE = rE_outer * np.sin(PHI) * np.cos(THETA)
@@ -113,7 +127,7 @@ class StaticGeodesicPlotter:
             surface2._facecolors2d = surface2._facecolor3d
             surface2._edgecolors2d = surface2._edgecolor3d
 
-    def _draw_bh_2D(self, a, figsize=(6, 6)):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
         """
         Plots the Black Hole in 2D
 
@@ -125,6 +139,9 @@ class StaticGeodesicPlotter:
         figsize : tuple, optional
             2-Tuple of Figure Size in inches
             Defaults to ``(6, 6)``
+        Q : float, optional
+            Dimensionless Charge of the Black Hole
+            Defaults to ``0.0``
 
         """
         self.fig, self.ax = plt.subplots(figsize=figsize)
@@ -133,7 +150,7 @@ class StaticGeodesicPlotter:
         theta = np.linspace(0, 2 * np.pi, 50)
 
         # Outer Event Horizon
-        rh_outer = 1 + np.sqrt(1 - a**2)
+        rh_outer = 1 + np.sqrt(1 - a**2 - Q**2)
 
         XH = rh_outer * np.sin(theta)
         YH = rh_outer * np.cos(theta)
@@ -144,7 +161,7 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2)
+            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -194,8 +211,8 @@ class StaticGeodesicPlotter:
                 f"Invalid aspect type. Expected one of {aspects}. Received '{aspect}'."
             )
 
-        a = geodesic.metric_params[0]
-        self._draw_bh(a, figsize)
+        a, Q = self._bh_params(geodesic)
+        self._draw_bh(a, figsize, Q)
 
         traj = geodesic.trajectory[1]
         x = traj[:, 1]
@@ -243,8 +260,8 @@ class StaticGeodesicPlotter:
             If indices in ``coordinates`` do not take values from ``(1, 2, 3)``
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh_2D(a, figsize)
+        a, Q = self._bh_params(geodesic)
+        self._draw_bh_2D(a, figsize, Q)
 
         traj = geodesic.trajectory[1]
         A = coordinates[0]
@@ -330,8 +347,8 @@ class StaticGeodesicPlotter:
             Picks a random color by default
 
         """
-        a = geodesic.metric_params[0]
-        self._draw_bh(a)
+        a, Q = self._bh_params(geodesic)
+        self._draw_bh(a, Q=Q)
 
         traj = geodesic.trajectory
         x = traj[1][:, 1]
-- 
2.43.0


From 17af22a48b5fb00b36fdb5c2f3da47c59785061a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 18/36] fix: do not truncate the mass in the turning point
 equation of Shadow

---
 src/einsteinpy/rays/shadow.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index f09adab..dd2755a 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -48,7 +48,7 @@ class Shadow:
         Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
         """
         # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * int(self.mass.value) / r_tp)) - i
+        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0


From a4895c4c3a63483e6ca1d275f6b995731047438d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:29 +0000
Subject: [PATCH 19/36] fix: keep every ray outside the critical impact
 parameter in Shadow

The secant search for the turning point started inside the horizon and
converged to complex numbers for most rays, which were silently dropped.
---
 src/einsteinpy/rays/shadow.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/einsteinpy/rays/shadow.py b/src/einsteinpy/rays/shadow.py
index dd2755a..d1b403d 100644
--- a/src/einsteinpy/rays/shadow.py
+++ b/src/einsteinpy/rays/shadow.py
@@ -4,7 +4,6 @@ import numpy as np
 from astropy import units as u
 from scipy.integrate import fixed_quad
 from scipy.interpolate import interp1d
-from scipy.optimize import newton
 
 
 class Shadow:
@@ -25,10 +24,9 @@ class Shadow:
         self.z = list()
         self.bfin = list()
         for i in self.b:
-            root = newton(self._root_equation, 0.1, args=(i,))
-            if np.isreal(root):
+            if i > self.b_crit.value:
                 self.bfin.append(i)
-                self.z.append([i, np.real(root)])
+                self.z.append([i, self._turning_point(i)])
         self.z = np.array(self.z)
         self.k0 = self._intensity()
         self.k1 = self._intensity_from_event_horizon()
@@ -43,12 +41,12 @@ class Shadow:
         """
         return np.linspace(self.b_crit.value, self.fov.value, self.n_rays)
 
-    def _root_equation(self, r_tp, i):
+    def _turning_point(self, b):
         """
-        Returns the root of the equation for ``r_tp`` (turning points) for some impact parameter
+        Returns the turning point for some impact parameter ``b``, greater than
+        the critical one, i.e. the largest root of ``r**3 - b**2 * (r - 2 * M)``
         """
-        # emath.sqrt is domain-agnostic and this is a complex equation
-        return r_tp / np.emath.sqrt(1 - (2 * self.mass.value / r_tp)) - i
+        return (2 * b / np.sqrt(3)) * np.cos(np.arccos(-self.b_crit.value / b) / 3)
 
     def _intensity_blue_sch(self, r, b):
         """
-- 
2.43.0


From eb6c218c61746297b72ce8b1f6642473a241f7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:03 +0000
Subject: [PATCH 20/36] fix: DualNumber to the power of zero is one everywhere,
 also at zero

---
 src/einsteinpy/utils/dual.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/einsteinpy/utils/dual.py b/src/einsteinpy/utils/dual.py
index b136e79..86ecbe1 100644
--- a/src/einsteinpy/utils/dual.py
+++ b/src/einsteinpy/utils/dual.py
@@ -104,6 +104,10 @@ class DualNumber:
         return DualNumber(-self.val, -self.deriv)
 
     def __pow__(self, power):
+        if power == 0:
+            # Constant, also where `val ** (power - 1)` is undefined
+            return DualNumber(1.0, 0.0)
+
         return DualNumber(
             self.val**power, self.deriv * power * self.val ** (power - 1)
         )
-- 
2.43.0


From 2e6c05091d97068ab39a177529c298a8c880180f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 21/36] fix: electromagnetic field of a Kerr-Newman black hole
 has the sign of its charge

---
 src/einsteinpy/metric/kerrnewman.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index ddc2766..83d6d05 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -431,7 +431,7 @@ class KerrNewman(BaseMetric):
 
         alpha = super().alpha(M, a)
         # Geometrized Charge
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
 
         A = np.zeros((4,), dtype=float)
@@ -483,7 +483,7 @@ class KerrNewman(BaseMetric):
         M, a, Q = self.M.value, self.a.value, self.Q.value
 
         alpha = super().alpha(M, a)
-        r_Q = np.sqrt((Q**2 * _G * _Cc) / _c**4)
+        r_Q = Q * np.sqrt(_G * _Cc) / _c**2
         rho2 = super().rho(r, th, M, a) ** 2
         # Partial derivatives of rho2
         drho2_dr = 2 * r
-- 
2.43.0


From e0af0012b2946178c47889eba684d9ef23a025c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:58 +0000
Subject: [PATCH 22/36] fix: invert the metric without losing small
 off-diagonal terms to rounding

---
 src/einsteinpy/metric/base_metric.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 7005303..9ab6619 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -391,8 +391,13 @@ class BaseMetric:
             Contravariant Metric Tensor
 
         """
-        g_cov = self.metric_covariant(x_vec)
-        g_contra = np.linalg.inv(g_cov)
+        g_cov = np.asarray(self.metric_covariant(x_vec))
+        # Components differ by many orders of magnitude (SI units), so scale
+        # the diagonal to +-1, to not lose the off-diagonal terms to rounding
+        scale = np.sqrt(np.abs(np.diag(g_cov)))
+        scale[scale == 0] = 1.0
+        scale = np.outer(scale, scale)
+        g_contra = np.linalg.inv(g_cov / scale) / scale
 
         return g_contra
 
-- 
2.43.0


From fbcc52ee5013142877aa2a39fdc39a6ffe12340f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:57 +0000
Subject: [PATCH 23/36] fix: sign of the frame dragging term in d g_phi_phi /
 dr of the Kerr metric

---
 src/einsteinpy/metric/kerr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index e13592a..9efc5ba 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -182,7 +182,7 @@ class Kerr(BaseMetric):
             dgdx[1, 0, 0] = -tmp * _c**2
             dgdx[1, 1, 1] = -(dsdr - (sg * (dddr / dl))) / dl
             dgdx[1, 2, 2] = -dsdr
-            dgdx[1, 3, 3] = (-2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
+            dgdx[1, 3, 3] = -(2 * r + ((alpha * np.sin(th)) ** 2) * tmp) * (
                 np.sin(th) ** 2
             )
             dgdx[1, 0, 3] = dgdx[1, 3, 0] = _c * alpha * (np.sin(th) ** 2) * tmp
-- 
2.43.0


From 453ce811a6fad5690686f77a7ff5401d20b1addf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:32 +0000
Subject: [PATCH 24/36] fix: sign of the cosmological term of the
 stress-energy-momentum tensor

The field equations (docs/source/gr_primer.rst) are G_ab + Lambda g_ab = 8 pi G/c^4 T_ab,
so that a cosmological vacuum such as de Sitter space has T_ab = 0.
---
 src/einsteinpy/symbolic/stress_energy_momentum.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/stress_energy_momentum.py b/src/einsteinpy/symbolic/stress_energy_momentum.py
index b1eb724..1ca16ff 100644
--- a/src/einsteinpy/symbolic/stress_energy_momentum.py
+++ b/src/einsteinpy/symbolic/stress_energy_momentum.py
@@ -59,7 +59,7 @@ class StressEnergyMomentumTensor(BaseRelativityTensor):
         stress_tensor = (
             c**4
             / (8 * np.pi * G)
-            * (t_einstein.tensor() - Cosmo_Const * metric.lower_config().tensor())
+            * (t_einstein.tensor() + Cosmo_Const * metric.lower_config().tensor())
         )
         return cls(stress_tensor, metric.syms, config="ll", parent_metric=metric)
 
-- 
2.43.0


From 7247ba6376a30a6c9aa489f795eacd40e8b366bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:47 +0000
Subject: [PATCH 25/36] fix: products and transforms of tensors know all their
 variables and functions

The result of tensor_product carried only the variables of the first factor and
lorentz_transform omitted those of the matrix, so tensor_lambdify returned
expressions instead of numbers.
---
 src/einsteinpy/symbolic/tensor.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 4ba359b..9258b2c 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -111,8 +111,6 @@ def tensor_product(tensor1, tensor2, i=None, j=None):
         syms=tensor1.syms,
         config=newconfig,
         parent_metric=tensor1.parent_metric,
-        variables=tensor1.variables,
-        functions=tensor1.functions,
     )
 
 
@@ -457,7 +455,5 @@ class BaseRelativityTensor(Tensor):
             syms=self.syms,
             config=self.config,
             parent_metric=None,
-            variables=self.variables,
-            functions=self.functions,
             name=_change_name(self.name, context="__lt"),
         )
-- 
2.43.0


From 1e3c95935071fbbd3ea2b66019dbb9d5602fa0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 26/36] fix: TransformationMatrix objects can be indexed by row
 and used in lorentz_transform

---
 src/einsteinpy/symbolic/helpers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/einsteinpy/symbolic/helpers.py b/src/einsteinpy/symbolic/helpers.py
index cd21b89..1010b2c 100644
--- a/src/einsteinpy/symbolic/helpers.py
+++ b/src/einsteinpy/symbolic/helpers.py
@@ -133,6 +133,10 @@ class TransformationMatrix(ImmutableDenseNDimArray):
 
         return obj
 
+    def __getitem__(self, index):
+        # rows and sub-arrays of the matrix are plain arrays
+        return ImmutableDenseNDimArray(self._array, self.shape)[index]
+
     @classmethod
     def from_new2old(cls, old_coords, new_coords, new2old, **kwargs):
         """
-- 
2.43.0


From ee747c31bcf8dacead3a876748f8cc949f3aeda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:03 +0000
Subject: [PATCH 27/36] fix: every dimension of a tensor has to agree with its
 coordinates

BaseRelativityTensor compared only the first dimension of the array with the number
of coordinates, so that a 2x3 array was accepted as a tensor in two dimensions.
---
 src/einsteinpy/symbolic/tensor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/einsteinpy/symbolic/tensor.py b/src/einsteinpy/symbolic/tensor.py
index 9258b2c..2c39cb4 100644
--- a/src/einsteinpy/symbolic/tensor.py
+++ b/src/einsteinpy/symbolic/tensor.py
@@ -330,7 +330,7 @@ class BaseRelativityTensor(Tensor):
         """
         super(BaseRelativityTensor, self).__init__(arr=arr, config=config, name=name)
 
-        if len(self.arr.shape) != 0 and self.arr.shape[0] != len(syms):
+        if any(dim != len(syms) for dim in self.arr.shape):
             raise ValueError("invalid shape of argument arr for syms: {}".format(syms))
 
         # Cannot implement the check that parent metric belongs to the class MetricTensor
-- 
2.43.0


From 541326f456a4e3332fa5af9b22228ffa49c3c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:09:12 +0000
Subject: [PATCH 28/36] fix: compiled coordinate conversions do not overflow
 for integer arguments

---
 src/einsteinpy/coordinates/utils.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/einsteinpy/coordinates/utils.py b/src/einsteinpy/coordinates/utils.py
index b87bf35..4b37780 100644
--- a/src/einsteinpy/coordinates/utils.py
+++ b/src/einsteinpy/coordinates/utils.py
@@ -21,6 +21,8 @@ def cartesian_to_spherical(t, x, y, z, v_x, v_y, v_z):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # floats: squares of large integers would overflow in compiled code
+    x, y, z = 1.0 * x, 1.0 * y, 1.0 * z
     hxy = np.hypot(x, y)
     r = np.hypot(hxy, z)
     theta = np.arctan2(hxy, z)
@@ -64,6 +66,8 @@ def cartesian_to_bl(t, x, y, z, alpha, v_x, v_y, v_z):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # floats: squares of large integers would overflow in compiled code
+    x, y, z, alpha = 1.0 * x, 1.0 * y, 1.0 * z, 1.0 * alpha
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
     sin_th = np.hypot(x, y) / np.sqrt(r**2 + alpha**2)
@@ -90,6 +94,8 @@ def cartesian_to_bl_novel(t, x, y, z, alpha):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # floats: squares of large integers would overflow in compiled code
+    x, y, z, alpha = 1.0 * x, 1.0 * y, 1.0 * z, 1.0 * alpha
     w = (x**2 + y**2 + z**2) - (alpha**2)
     r = np.sqrt(0.5 * (w + np.sqrt((w**2) + (4 * (alpha**2) * (z**2)))))
     sin_th = np.hypot(x, y) / np.sqrt(r**2 + alpha**2)
@@ -161,6 +167,8 @@ def bl_to_cartesian(t, r, th, p, alpha, v_r, v_th, v_p):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # floats: squares of large integers would overflow in compiled code
+    r, alpha = 1.0 * r, 1.0 * alpha
     xa = np.sqrt(r**2 + alpha**2)
     sin_norm = xa * np.sin(th)
     x = sin_norm * np.cos(p)
@@ -188,6 +196,8 @@ def bl_to_cartesian_novel(t, r, th, p, alpha):
     This function should eventually result in Coordinate Transformation Graph!
 
     """
+    # floats: squares of large integers would overflow in compiled code
+    r, alpha = 1.0 * r, 1.0 * alpha
     xa = np.sqrt(r**2 + alpha**2)
     sin_norm = xa * np.sin(th)
     x = sin_norm * np.cos(p)
-- 
2.43.0


From 6a530c22433ad4b58bfac38dc73c2e6db152b920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 29/36] fix: finite slope of the Schwarzschild embedding at the
 throat

For masses above 3e4 solar masses 3M + 1e-4 is not distinguishable from 3M,
where the slope was computed as 0 / 0, so that all heights became NaN.
---
 src/einsteinpy/hypersurface/schwarzschildembedding.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/hypersurface/schwarzschildembedding.py b/src/einsteinpy/hypersurface/schwarzschildembedding.py
index 164be8a..31525ec 100644
--- a/src/einsteinpy/hypersurface/schwarzschildembedding.py
+++ b/src/einsteinpy/hypersurface/schwarzschildembedding.py
@@ -60,10 +60,10 @@ class SchwarzschildEmbedding:
 
         """
         R = r / np.sqrt(1 - (2 * self.M.value / r))
-        num_one = 1 - (3 * self.M.value / r)
+        # (1 - 3M/r) / |r - 3M|, which would be 0 / 0 at 3M, up to rounding
+        num_one = np.where(1 - (3 * self.M.value / r) < -1e-12, -1.0, 1.0)[()] / r
         num_two = np.sqrt(
-            ((4 * self.M.value * r - 9 * self.M.value * self.M.value) * R)
-            / (r - 3 * self.M.value) ** 2
+            (4 * self.M.value * r - 9 * self.M.value * self.M.value) * R
         )
         deno = np.sqrt(1 - (2 * self.M.value / r)) ** 3
 
-- 
2.43.0


From 5fa2c74462a804bbb39c09f68401cf7b4c702a89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:46 +0000
Subject: [PATCH 30/36] fix: bodies do not share their default mass, charge and
 radius

Changing the mass of one body in place changed the default of all others.
---
 src/einsteinpy/bodies.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/einsteinpy/bodies.py b/src/einsteinpy/bodies.py
index e8d52fb..6293427 100644
--- a/src/einsteinpy/bodies.py
+++ b/src/einsteinpy/bodies.py
@@ -15,7 +15,7 @@ and a way to define new bodies (:py:class:`~Body` class).
 Data references can be found in :py:mod:`~einsteinpy.constant`
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from textwrap import dedent
 from typing import Union
 
@@ -61,9 +61,9 @@ class Body:
     """
 
     name: str = "Generic Body"
-    mass: u.kg = 0 * u.kg
-    q: u.C = 0 * u.C
-    R: u.km = 0 * u.km
+    mass: u.kg = field(default_factory=lambda: 0 * u.kg)
+    q: u.C = field(default_factory=lambda: 0 * u.C)
+    R: u.km = field(default_factory=lambda: 0 * u.km)
     coords: Union[
         CartesianDifferential, SphericalDifferential, BoyerLindquistDifferential, None
     ] = None
-- 
2.43.0


From e71f14c327933712f353d4ba9a95368e38e06d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 31/36] fix: draw the ergosphere as it is in the plane of the
 selected coordinates

The ergosphere was flattened along the vertical axis for every choice of
coordinates, also in the equatorial plane.
---
 src/einsteinpy/plotting/geodesic/interactive.py | 17 ++++++++++++++---
 src/einsteinpy/plotting/geodesic/static.py      | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/interactive.py b/src/einsteinpy/plotting/geodesic/interactive.py
index 6a947ed..3e228bf 100644
--- a/src/einsteinpy/plotting/geodesic/interactive.py
+++ b/src/einsteinpy/plotting/geodesic/interactive.py
@@ -98,7 +98,7 @@ class InteractiveGeodesicPlotter:
                 )
             )
 
-    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0, coordinates=(1, 2)):
         """
         Plots the Black Hole in 2D
 
@@ -113,6 +113,9 @@ class InteractiveGeodesicPlotter:
         Q : float, optional
             Dimensionless Charge of the Black Hole
             Defaults to ``0.0``
+        coordinates : tuple, optional
+            2-Tuple, containing labels for the horizontal and vertical axes
+            Defaults to ``(1, 2)`` (X, Y)
 
         """
         theta = np.linspace(0, 2 * np.pi, 50)
@@ -137,7 +140,15 @@ class InteractiveGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2 - Q**2)
+            # Cosine of the polar angle, i.e. the angle to the Z-axis
+            if coordinates[1] == 3:
+                cos_polar = np.cos(theta)
+            elif coordinates[0] == 3:
+                cos_polar = np.sin(theta)
+            else:
+                cos_polar = np.zeros_like(theta)
+
+            rE_outer = 1 + np.sqrt(1 - (a * cos_polar) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -265,7 +276,7 @@ class InteractiveGeodesicPlotter:
 
         """
         a, Q = self._bh_params(geodesic)
-        self._draw_bh_2D(a, figsize, Q)
+        self._draw_bh_2D(a, figsize, Q, coordinates)
 
         traj = geodesic.trajectory[1]
         A = coordinates[0]
diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 6ed7fd5..f9cdcae 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -127,7 +127,7 @@ class StaticGeodesicPlotter:
             surface2._facecolors2d = surface2._facecolor3d
             surface2._edgecolors2d = surface2._edgecolor3d
 
-    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0):
+    def _draw_bh_2D(self, a, figsize=(6, 6), Q=0.0, coordinates=(1, 2)):
         """
         Plots the Black Hole in 2D
 
@@ -142,6 +142,9 @@ class StaticGeodesicPlotter:
         Q : float, optional
             Dimensionless Charge of the Black Hole
             Defaults to ``0.0``
+        coordinates : tuple, optional
+            2-Tuple, containing labels for the horizontal and vertical axes
+            Defaults to ``(1, 2)`` (X, Y)
 
         """
         self.fig, self.ax = plt.subplots(figsize=figsize)
@@ -161,7 +164,15 @@ class StaticGeodesicPlotter:
 
         # Outer Ergosphere
         if self.draw_ergosphere:
-            rE_outer = 1 + np.sqrt(1 - (a * np.cos(theta)) ** 2 - Q**2)
+            # Cosine of the polar angle, i.e. the angle to the Z-axis
+            if coordinates[1] == 3:
+                cos_polar = np.cos(theta)
+            elif coordinates[0] == 3:
+                cos_polar = np.sin(theta)
+            else:
+                cos_polar = np.zeros_like(theta)
+
+            rE_outer = 1 + np.sqrt(1 - (a * cos_polar) ** 2 - Q**2)
 
             XE = rE_outer * np.sin(theta)
             YE = rE_outer * np.cos(theta)
@@ -261,7 +272,7 @@ class StaticGeodesicPlotter:
 
         """
         a, Q = self._bh_params(geodesic)
-        self._draw_bh_2D(a, figsize, Q)
+        self._draw_bh_2D(a, figsize, Q, coordinates)
 
         traj = geodesic.trajectory[1]
         A = coordinates[0]
-- 
2.43.0


From 6aff13b5f7d8964771628e4c7dc0a7941ce4bb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:13 +0000
Subject: [PATCH 32/36] fix: show and save the figure of the plotter, not the
 latest one

---
 src/einsteinpy/plotting/geodesic/static.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index f9cdcae..3fe6188 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -412,6 +412,7 @@ class StaticGeodesicPlotter:
         fontsize = max(figsize) + 1.5
         if self.ax.name == "3d":
             self.ax.view_init(azim=azim, elev=elev)
+        plt.figure(self.fig.number)
         plt.legend(prop={"size": fontsize})
 
         plt.show()
@@ -439,4 +440,5 @@ class StaticGeodesicPlotter:
         if self.ax.name != "3d" and name == "Geodesic.png":
             name = "Parametric.png"
 
+        plt.figure(self.fig.number)
         plt.savefig(name)
-- 
2.43.0


From 17b4ae51b4114b79d4887c446a4b6b8ae5ebfff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:52 +0000
Subject: [PATCH 33/36] fix: animate geodesics up to their last point

---
 src/einsteinpy/plotting/geodesic/static.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/einsteinpy/plotting/geodesic/static.py b/src/einsteinpy/plotting/geodesic/static.py
index 3fe6188..236a2d6 100644
--- a/src/einsteinpy/plotting/geodesic/static.py
+++ b/src/einsteinpy/plotting/geodesic/static.py
@@ -382,8 +382,8 @@ class StaticGeodesicPlotter:
         (line,) = self.ax.plot(data[0, 0:1], data[1, 0:1], data[2, 0:1])
 
         def _update(num, data, line):
-            line.set_data(data[:2, :num])
-            line.set_3d_properties(data[2, :num])
+            line.set_data(data[:2, : num + 1])
+            line.set_3d_properties(data[2, : num + 1])
 
             return (line,)
 
-- 
2.43.0


From 6b95130e079e073e0da877f77dd84b4d4b1a5c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:11 +0000
Subject: [PATCH 34/36] fix: show the contour plot of a shadow

---
 src/einsteinpy/plotting/rays/shadow.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/einsteinpy/plotting/rays/shadow.py b/src/einsteinpy/plotting/rays/shadow.py
index 2c20d6f..b9ff528 100644
--- a/src/einsteinpy/plotting/rays/shadow.py
+++ b/src/einsteinpy/plotting/rays/shadow.py
@@ -51,3 +51,4 @@ class ShadowPlotter:
             plt.pcolormesh(xx, yy, self.values1, cmap=plt.cm.afmhot, shading="gouraud")
             plt.title("Schwarzschild Black Hole")
             plt.gca().set_aspect("equal", adjustable="box")
+            plt.show()
-- 
2.43.0


From 26052704ed284cdd77ab9bbd885e399877dc76cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:32 +0000
Subject: [PATCH 35/36] fix: right-hand sides of integer states are not
 truncated

---
 src/einsteinpy/metric/kerr.py          | 2 +-
 src/einsteinpy/metric/kerrnewman.py    | 2 +-
 src/einsteinpy/metric/schwarzschild.py | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index 9efc5ba..1a27f02 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -341,7 +341,7 @@ class Kerr(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=float)
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 83d6d05..9ece6aa 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -372,7 +372,7 @@ class KerrNewman(BaseMetric):
         F_contra = self.em_tensor_contravariant(vec[:4])
         g_cov = self.metric_covariant(vec[:4])
 
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=float)
 
         vals[:4] = vec[4:]
 
diff --git a/src/einsteinpy/metric/schwarzschild.py b/src/einsteinpy/metric/schwarzschild.py
index d8226df..171a43b 100644
--- a/src/einsteinpy/metric/schwarzschild.py
+++ b/src/einsteinpy/metric/schwarzschild.py
@@ -208,7 +208,7 @@ class Schwarzschild(BaseMetric):
 
         """
         chl = self.christoffels(vec[:4])
-        vals = np.zeros(shape=vec.shape, dtype=vec.dtype)
+        vals = np.zeros(shape=vec.shape, dtype=float)
 
         vals[:4] = vec[4:]
         vals[4] = -2 * chl[0, 0, 1] * vec[4] * vec[5]
-- 
2.43.0


From 35ae9b9279fa21571dca31f6855965048fcb1759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:25 +0000
Subject: [PATCH 36/36] fix: events given as integers do not overflow in
 metrics

---
 src/einsteinpy/metric/base_metric.py   | 2 ++
 src/einsteinpy/metric/kerr.py          | 4 ++--
 src/einsteinpy/metric/kerrnewman.py    | 8 ++++----
 src/einsteinpy/metric/schwarzschild.py | 5 +++--
 4 files changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/einsteinpy/metric/base_metric.py b/src/einsteinpy/metric/base_metric.py
index 9ab6619..dd6d663 100644
--- a/src/einsteinpy/metric/base_metric.py
+++ b/src/einsteinpy/metric/base_metric.py
@@ -148,6 +148,7 @@ class BaseMetric:
 
         """
         r, theta, M, a = primitive(r, theta, M, a)
+        r = 1.0 * r  # powers of integers may overflow
         alpha = BaseMetric.alpha(M, a)
         sigma = (r**2) + ((alpha * np.cos(theta)) ** 2)
         return sigma
@@ -178,6 +179,7 @@ class BaseMetric:
 
         """
         r, M, a, Q = primitive(r, M, a, Q)
+        r, Q = 1.0 * r, 1.0 * Q  # powers of integers may overflow
         r_s = 2 * M * _G / _c**2
         alpha = BaseMetric.alpha(M, a)
         # Square of Geometrized Charge
diff --git a/src/einsteinpy/metric/kerr.py b/src/einsteinpy/metric/kerr.py
index 1a27f02..99a54b5 100644
--- a/src/einsteinpy/metric/kerr.py
+++ b/src/einsteinpy/metric/kerr.py
@@ -124,7 +124,7 @@ class Kerr(BaseMetric):
             Numpy array of shape (4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s, M, a = self.sch_rad, self.M.value, self.a.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
@@ -165,7 +165,7 @@ class Kerr(BaseMetric):
             derivatives of metric w.r.t. t, r, theta & phi respectively
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s, M, a = self.sch_rad, self.M.value, self.a.value
         alpha = super().alpha(M, a)
         sg, dl = super().sigma(r, th, M, a), super().delta(r, M, a)
diff --git a/src/einsteinpy/metric/kerrnewman.py b/src/einsteinpy/metric/kerrnewman.py
index 9ece6aa..9615852 100644
--- a/src/einsteinpy/metric/kerrnewman.py
+++ b/src/einsteinpy/metric/kerrnewman.py
@@ -133,7 +133,7 @@ class KerrNewman(BaseMetric):
             Numpy array of shape (4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
@@ -174,7 +174,7 @@ class KerrNewman(BaseMetric):
             derivatives of metric w.r.t. t, r, theta & phi respectively
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.value, self.a.value, self.Q.value
         alpha = super().alpha(M, a)
         rho2, dl = super().rho(r, th, M, a) ** 2, super().delta(r, M, a, Q)
@@ -426,7 +426,7 @@ class KerrNewman(BaseMetric):
             Numpy array of shape (4,)
 
         """
-        _, r, th, _ = x_vec
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.value, self.a.value, self.Q.value
 
         alpha = super().alpha(M, a)
@@ -479,7 +479,7 @@ class KerrNewman(BaseMetric):
             Numpy array of shape (4, 4)
 
         """
-        _, r, th, _ = x_vec
+        r, th = 1.0 * x_vec[1], x_vec[2]
         M, a, Q = self.M.value, self.a.value, self.Q.value
 
         alpha = super().alpha(M, a)
diff --git a/src/einsteinpy/metric/schwarzschild.py b/src/einsteinpy/metric/schwarzschild.py
index 171a43b..f92d28f 100644
--- a/src/einsteinpy/metric/schwarzschild.py
+++ b/src/einsteinpy/metric/schwarzschild.py
@@ -77,7 +77,7 @@ class Schwarzschild(BaseMetric):
             Numpy array of shape (4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s = self.sch_rad
         g_cov = np.zeros(shape=(4, 4), dtype=float)
 
@@ -137,7 +137,7 @@ class Schwarzschild(BaseMetric):
             Numpy array of shape (4,4,4)
 
         """
-        r, th = x_vec[1], x_vec[2]
+        r, th = 1.0 * x_vec[1], x_vec[2]
         r_s = self.sch_rad
         chl = np.zeros(shape=(4, 4, 4), dtype=float)
 
@@ -207,6 +207,7 @@ class Schwarzschild(BaseMetric):
             Numpy array of shape (8)
 
         """
+        vec = 1.0 * vec
         chl = self.christoffels(vec[:4])
         vals = np.zeros(shape=vec.shape, dtype=float)
 
-- 
2.43.0

