From 5ccefaf7573eda394225f30f7c1e9ac837dc87f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 01/39] fix: honour parallax when light_delay=True

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index a303a81..c94b788 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -394,7 +394,9 @@ class KeplerianOrbit:
 
         """
         if light_delay:
-            return self._get_retarded_position(a, t, parallax=None, _pad=_pad)
+            return self._get_retarded_position(
+                a, t, parallax=parallax, _pad=_pad
+            )
 
         sinf, cosf = self._get_true_anomaly(t, _pad=_pad)
         if self.ecc is None:
-- 
2.43.0


From 74a81bc64d7fc734d2121dffe745dc5dc1eebf92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 02/39] fix: star acceleration is zero, not NaN, for massless
 planets

---
 src/exoplanet/orbits/keplerian.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index c94b788..02ef43b 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -678,33 +678,37 @@ class KeplerianOrbit:
         v = self.get_star_velocity(t)
         return -conv * v[2]
 
-    def _get_acceleration(self, a, m, t):
+    def _get_acceleration(self, m, t):
         sinf, cosf = self._get_true_anomaly(t)
         K = self.K0 * m
         if self.ecc is None:
-            factor = -(K**2) / a
+            factor = -K * self.K0 * self.m_total / self.a
         else:
             factor = (
-                K**2 * (self.ecc * cosf + 1) ** 2 / (a * (self.ecc**2 - 1))
+                K
+                * self.K0
+                * self.m_total
+                * (self.ecc * cosf + 1) ** 2
+                / (self.a * (self.ecc**2 - 1))
             )
         return self._rotate_vector(factor * cosf, factor * sinf)
 
     def get_planet_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_planet, -self.m_star, t)
+            for x in self._get_acceleration(-self.m_star, t)
         )
 
     def get_star_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(self.a_star, self.m_planet, t)
+            for x in self._get_acceleration(self.m_planet, t)
         )
 
     def get_relative_acceleration(self, t):
         return tuple(
             pt.squeeze(x)
-            for x in self._get_acceleration(-self.a, -self.m_total, t)
+            for x in self._get_acceleration(-self.m_total, t)
         )
 
     def in_transit(self, t, r=0.0, texp=None, light_delay=False):
-- 
2.43.0


From b9172ddfbd657ccf2ba306653ddaef2149967137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:06 +0000
Subject: [PATCH 03/39] fix: reference mean anomaly for transits exactly at
 apastron

---
 src/exoplanet/orbits/keplerian.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 02ef43b..49cbe13 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -202,10 +202,11 @@ class KeplerianOrbit:
             else:
                 raise ValueError("both e and omega must be provided")
 
-            opsw = 1 + self.sin_omega
-            E0 = 2 * pt.arctan2(
-                pt.sqrt(1 - self.ecc) * self.cos_omega,
-                pt.sqrt(1 + self.ecc) * opsw,
+            # This form is well defined for every omega, including transits at
+            # apastron where sin(omega) = -1
+            E0 = pt.arctan2(
+                pt.sqrt(1 - self.ecc**2) * self.cos_omega,
+                self.ecc + self.sin_omega,
             )
             self.M0 = E0 - self.ecc * pt.sin(E0)
 
-- 
2.43.0


From 739aaf207d0ac57d765b3492fa30ccab3604ed33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 04/39] fix: in_transit for eccentric orbits mixing scalar and
 vector parameters

---
 src/exoplanet/orbits/keplerian.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 49cbe13..2be6084 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -729,7 +729,11 @@ class KeplerianOrbit:
                 "Light travel time delay not yet implemented for `in_transit`"
             )
 
-        z = pt.zeros_like(self.a)
+        # The orbital parameters can be any mix of scalars and vectors with one
+        # entry per planet, but they must all have the same shape below
+        z = pt.zeros_like(self.a) + pt.zeros_like(self.cos_incl)
+        if self.ecc is not None:
+            z += pt.zeros_like(self.ecc) + pt.zeros_like(self.omega)
         r = as_tensor_variable(r) + z
         R = self.r_star + z
 
@@ -749,10 +753,10 @@ class KeplerianOrbit:
 
         else:
             M_contact = ops.contact_points(
-                self.a,
-                self.ecc,
-                self.cos_omega,
-                self.sin_omega,
+                self.a + z,
+                self.ecc + z,
+                self.cos_omega + z,
+                self.sin_omega + z,
                 self.cos_incl + z,
                 self.sin_incl + z,
                 R + r,
-- 
2.43.0


From 4081f817fba81487db57bf88392ac7b6658f7d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 05/39] fix: KeplerianOrbit.in_transit with per-observation
 exposure times

---
 src/exoplanet/orbits/keplerian.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 2be6084..d9141c6 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -774,6 +774,9 @@ class KeplerianOrbit:
             t_end = pt.switch(pt.lt(t_end, 0.0), t_end + self.period, t_end)
 
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim > 0:
+                texp = pt.shape_padright(texp)
             t_start -= 0.5 * texp
             t_end += 0.5 * texp
 
-- 
2.43.0


From 4e17a19ee360d8425c5fc43a33c6bd6a1f852b01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 06/39] fix: SimpleTransitOrbit.in_transit with per-observation
 exposure times

---
 src/exoplanet/orbits/simple.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index afbb087..5b7a0d4 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -98,6 +98,9 @@ class SimpleTransitOrbit:
             x = (r + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
+            texp = as_tensor_variable(texp)
+            if texp.ndim > 0:
+                texp = pt.shape_padright(texp)
             tol += 0.5 * texp
         mask = pt.any(pt.abs(dt) < tol, axis=-1)
         return pt.arange(t.size)[mask]
-- 
2.43.0


From 7c84e2be8a7334da7435e6cf39a6020e83e38fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 07/39] fix: SimpleTransitOrbit accepts lists like the other
 orbits

---
 src/exoplanet/orbits/simple.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 5b7a0d4..54dfd91 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -1,7 +1,5 @@
 __all__ = ["SimpleTransitOrbit"]
 
-import numpy as np
-
 from exoplanet.compat import tensor as pt
 from exoplanet.utils import as_tensor_variable
 
@@ -29,8 +27,9 @@ class SimpleTransitOrbit:
         self.r_star = as_tensor_variable(r_star)
 
         self._b_norm = self.b * self.r_star
-        x2 = r_star**2 * ((1 + ror) ** 2 - b**2)
-        self.speed = 2 * np.sqrt(x2) / duration
+        ror = as_tensor_variable(ror)
+        x2 = self.r_star**2 * ((1 + ror) ** 2 - self.b**2)
+        self.speed = 2 * pt.sqrt(x2) / self.duration
 
         self._half_period = 0.5 * self.period
         self._ref_time = self.t0 - self._half_period
-- 
2.43.0


From 1f0af2e622a0c4342d0060dadb9553d055edb8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:39 +0000
Subject: [PATCH 08/39] fix: SimpleTransitOrbit.get_planet_position must not
 ignore light_delay

---
 src/exoplanet/orbits/simple.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 54dfd91..2de129e 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -39,7 +39,7 @@ class SimpleTransitOrbit:
         return nothing, nothing, nothing
 
     def get_planet_position(self, t, light_delay=False):
-        return self.get_relative_position(t, light_delay=False)
+        return self.get_relative_position(t, light_delay=light_delay)
 
     def get_relative_position(self, t, light_delay=False):
         """The planets' positions relative to the star
-- 
2.43.0


From cc44c682851b4fb5bcfb567afe18c4cd578cf3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 09/39] fix: TTVOrbit with light_delay=True

---
 src/exoplanet/orbits/ttv.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 4194a08..050ea9c 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -172,10 +172,12 @@ class TTVOrbit(KeplerianOrbit):
             for i, tts in enumerate(self.all_transit_times)
         ]
 
-    def _get_model_dt(self, t):
+    def _get_model_dt(self, t, _pad=True):
         vals = []
         for i in range(len(self.ttvs)):
-            inds = pt.extra_ops.searchsorted(self._bin_edges[i], t)
+            # If "_pad" is False, the last axis of "t" already runs over planets
+            ti = t if _pad else t[..., i]
+            inds = pt.extra_ops.searchsorted(self._bin_edges[i], ti)
             vals.append(self._bin_values[i][inds])
         return pt.stack(vals, -1)
 
@@ -184,4 +186,4 @@ class TTVOrbit(KeplerianOrbit):
         # stretching the time axis around each transit
         if _pad:
             return pt.shape_padright(t) - self._get_model_dt(t)
-        return t - self._get_model_dt(t)
+        return t - self._get_model_dt(t, _pad=False)
-- 
2.43.0


From c601e993062224e0d30b35801e26170496492e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 10/39] fix: use the transit ephemeris, not the shape period,
 for unobserved transits

---
 src/exoplanet/orbits/ttv.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 050ea9c..7c6b0bf 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -151,7 +151,9 @@ class TTVOrbit(KeplerianOrbit):
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.period[i] * pt.arange(inds.max() + 1)
+            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
+                inds.max() + 1
+            )
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From 5be85df6b7d3661d87528385adabbdc572479650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 11/39] fix: include an expected transit exactly at max_time

---
 src/exoplanet/orbits/ttv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 7c6b0bf..2c54c57 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -26,7 +26,7 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
     for period, t0 in zip(periods, t0s):
         min_ind = np.floor((min_time - t0) / period)
         max_ind = np.ceil((max_time - t0) / period)
-        times = t0 + period * np.arange(min_ind, max_ind, 1)
+        times = t0 + period * np.arange(min_ind, max_ind + 1, 1)
         times = times[(min_time <= times) & (times <= max_time)]
         transit_times.append(times)
     return transit_times
-- 
2.43.0


From ebe06cb9c4f27144479f9973f54c739dc8b3edf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 12/39] fix: the lower edge of the grid is not out of bounds in
 regular_grid_interp

---
 src/exoplanet/interp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index e0c0bd6..b2f964b 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -39,7 +39,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     for n, grid in enumerate(points):
         x = coords[..., n]
         i = pt.extra_ops.searchsorted(grid, x) - 1
-        out_of_bounds |= (i < 0) | (i >= grid.shape[0] - 1)
+        out_of_bounds |= (x < grid[0]) | (i >= grid.shape[0] - 1)
         i = pt.clip(i, 0, grid.shape[0] - 2)
         indices.append(i)
         norm_distances.append((x - grid[i]) / (grid[i + 1] - grid[i]))
-- 
2.43.0


From b3ed3fe427f2f8b7718af59c1796909549c953f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:40 +0000
Subject: [PATCH 13/39] fix: regular_grid_interp with trailing output
 dimensions

---
 src/exoplanet/interp.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/interp.py b/src/exoplanet/interp.py
index b2f964b..679bc20 100644
--- a/src/exoplanet/interp.py
+++ b/src/exoplanet/interp.py
@@ -31,6 +31,7 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
     ndim = len(points)
     values = as_tensor_variable(values)
     coords = as_tensor_variable(coords)
+    nout = values.ndim - ndim
 
     # Find where the points should be inserted
     indices = []
@@ -49,10 +50,12 @@ def regular_grid_interp(points, values, coords, *, fill_value=None):
         weight = pt.ones(coords.shape[:-1])
         for ei, i, yi in zip(edge_indices, indices, norm_distances):
             weight *= pt.where(pt.eq(ei, i), 1 - yi, yi)
-        result += values[edge_indices] * weight
+        result += values[edge_indices] * pt.shape_padright(weight, nout)
 
     if fill_value is not None:
-        result = pt.switch(out_of_bounds, fill_value, result)
+        result = pt.switch(
+            pt.shape_padright(out_of_bounds, nout), fill_value, result
+        )
 
     return result
 
-- 
2.43.0


From 1a284327e04fec734426db5f46838109c8a6f914 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 14/39] fix: respect units of the inputs when a circular orbit
 is given a duration

---
 src/exoplanet/orbits/keplerian.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index d9141c6..ee67664 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -124,8 +124,12 @@ class KeplerianOrbit:
                     "the 'ror' parameter should also be provided.",
                     UserWarning,
                 )
+            r_star = as_tensor_variable(to_unit(r_star, u.R_sun))
             aor, daordtau = get_aor_from_transit_duration(
-                duration, period, b, ror=ror
+                as_tensor_variable(to_unit(duration, u.day)),
+                as_tensor_variable(to_unit(period, u.day)),
+                as_tensor_variable(b),
+                ror=None if ror is None else as_tensor_variable(ror),
             )
             a = r_star * aor
             duration = None
-- 
2.43.0


From 427f18b162d53eff30aea4b7c92c91038cfbcc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 15/39] fix: duration Jacobians of a_star and a_planet for
 massive planets

---
 src/exoplanet/orbits/keplerian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index ee67664..117b132 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -155,11 +155,13 @@ class KeplerianOrbit:
         if daordtau is not None:
             dadtau = self.r_star * daordtau
             self.jacobians["duration"]["a"] = dadtau
+            # At fixed period and planet mass, the total mass is implied by the
+            # semimajor axis: m_total ~ a**3 -> a_star ~ a**(-2)
             self.jacobians["duration"]["a_star"] = (
-                dadtau * self.m_planet / self.m_total
+                -2 * dadtau * self.m_planet / self.m_total
             )
             self.jacobians["duration"]["a_planet"] = (
-                -dadtau * self.m_star / self.m_total
+                self.jacobians["duration"]["a_star"] - dadtau
             )
 
             # rho = 3 * pi * (a/R)**3 / (G * P**2)
-- 
2.43.0


From b8b68345f25a1280cdafc5050a6ed5d4f3c0749a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 16/39] fix: impact parameter implied by the duration of an
 eccentric orbit

---
 src/exoplanet/orbits/keplerian.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 117b132..0d252a1 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -247,12 +247,20 @@ class KeplerianOrbit:
             assert self.ecc is not None
 
             self.duration = as_tensor_variable(to_unit(duration, u.day))
-            c = pt.sin(np.pi * self.duration * incl_factor / self.period)
+            # Equations 14 and 16 from Winn (2010)
+            c = pt.sin(
+                np.pi
+                * self.duration
+                * incl_factor
+                * pt.sqrt(ome2)
+                / self.period
+            )
             c2 = c * c
-            aor = self.a_planet / self.r_star
+            aor = self.a / self.r_star
+            opk = 1 if ror is None else 1 + as_tensor_variable(ror)
             esinw = self.ecc * self.sin_omega
             self.b = pt.sqrt(
-                (aor**2 * c2 - 1)
+                (aor**2 * c2 - opk**2)
                 / (
                     c2 * esinw**2
                     + 2 * c2 * esinw
-- 
2.43.0


From 736cbaeb65355d6fdf70aff5e1a8e33fa4f63e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 17/39] fix: estimate_semi_amplitude with a Quantity and no
 uncertainties

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 39d07fe..2cbd0bf 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -64,7 +64,7 @@ def estimate_semi_amplitude(periods, x, y, yerr=None, t0s=None):
 
     """
     if yerr is None:
-        ivar = np.ones_like(y)
+        ivar = np.ones(np.shape(y))
     else:
         ivar = 1.0 / yerr**2
 
-- 
2.43.0


From cdec0c3c1646705bdaa3811f2530c658b27606fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 18/39] fix: find_peaks returned the index of the sample after
 the peak

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 2cbd0bf..8d54426 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -146,7 +146,7 @@ def find_peaks(freq, power, max_peaks=0):
         freq0 = w[1] * sigma2
         peaks.append(
             dict(
-                index=i + 1,
+                index=i,
                 log_power=w[2] + 0.5 * freq0**2 / sigma2,
                 period=1.0 / freq0,
                 period_uncert=np.sqrt(sigma2 / freq0**4),
-- 
2.43.0


From 9621447a8c9be44a1c230f78c44b0351653a1636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 19/39] fix: bls_estimator ignored the minimum_period argument

---
 src/exoplanet/estimators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/estimators.py b/src/exoplanet/estimators.py
index 8d54426..0d7ba2d 100644
--- a/src/exoplanet/estimators.py
+++ b/src/exoplanet/estimators.py
@@ -357,7 +357,7 @@ def bls_estimator(
         the key ``peaks``.
 
     """
-    kwargs["minimum_period"] = kwargs.get("minimim_period", min_period)
+    kwargs["minimum_period"] = kwargs.get("minimum_period", min_period)
     kwargs["maximum_period"] = kwargs.get("maximum_period", max_period)
 
     x_ref = 0.5 * (np.min(x) + np.max(x))
-- 
2.43.0


From a33de5f3b83d1a655100eeebea63177f84dfcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 20/39] fix: unit_disk starts at the requested initval

---
 src/exoplanet/distributions/distributions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index 9c3d8cc..c04f599 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -67,7 +67,7 @@ def unit_disk(name_x, name_y, **kwargs):
     x2 = pm.Uniform(
         f"__{name_y}_unit_disk",
         **_with_initval(
-            initval=initval[1] * np.sqrt(1 - initval[0] ** 2), **kwargs
+            initval=initval[1] / np.sqrt(1 - initval[0] ** 2), **kwargs
         ),
     )
     norm = pt.sqrt(1 - x1**2)
-- 
2.43.0


From c902293e6da3d5c566e6f786a6517cc117788de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:27 +0000
Subject: [PATCH 21/39] fix: SecondaryEclipseLightCurve for systems with more
 than one companion

---
 src/exoplanet/light_curves/secondary_eclipse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/secondary_eclipse.py b/src/exoplanet/light_curves/secondary_eclipse.py
index b3ca3e5..897d395 100644
--- a/src/exoplanet/light_curves/secondary_eclipse.py
+++ b/src/exoplanet/light_curves/secondary_eclipse.py
@@ -1,5 +1,6 @@
 __all__ = ["SecondaryEclipseLightCurve"]
 
+from exoplanet.compat import tensor as pt
 from exoplanet.light_curves.limb_dark import LimbDarkLightCurve
 from exoplanet.utils import as_tensor_variable
 
@@ -55,7 +56,7 @@ class SecondaryEclipseLightCurve:
         )
         lc2 = self.secondary.get_light_curve(
             orbit=orbit2,
-            r=orbit.r_star,
+            r=orbit.r_star + pt.zeros_like(r),
             t=t,
             texp=texp,
             oversample=oversample,
-- 
2.43.0


From 3ef96574c1548b1f405a597c970b23c92630e357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:48 +0000
Subject: [PATCH 22/39] fix: occultations with light travel time delay are
 late, not early

---
 .../light_curves/secondary_eclipse.py          | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/secondary_eclipse.py b/src/exoplanet/light_curves/secondary_eclipse.py
index 897d395..ab5eab4 100644
--- a/src/exoplanet/light_curves/secondary_eclipse.py
+++ b/src/exoplanet/light_curves/secondary_eclipse.py
@@ -5,6 +5,22 @@ from exoplanet.light_curves.limb_dark import LimbDarkLightCurve
 from exoplanet.utils import as_tensor_variable
 
 
+class _DelayedFlip:
+    """The star relative to its companions, including light travel time
+
+    The star is the reference for the light travel time, also during an
+    occultation, so these are the mirrored relative positions of ``orbit``.
+    """
+
+    def __init__(self, orbit, r_star):
+        self.orbit = orbit
+        self.r_star = r_star
+
+    def get_relative_position(self, t, light_delay=True):
+        coords = self.orbit.get_relative_position(t, light_delay=light_delay)
+        return tuple(-x for x in coords)
+
+
 class SecondaryEclipseLightCurve:
     """The light curve for a secondary eclipse model computed using starry
 
@@ -43,7 +59,7 @@ class SecondaryEclipseLightCurve:
         light_delay=False,
     ):
         r = as_tensor_variable(r)
-        orbit2 = orbit._flip(r)
+        orbit2 = _DelayedFlip(orbit, r) if light_delay else orbit._flip(r)
         lc1 = self.primary.get_light_curve(
             orbit=orbit,
             r=r,
-- 
2.43.0


From caaafafedbd5c884abb77a5fd77d8e66fee1920e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:16 +0000
Subject: [PATCH 23/39] fix: star position with light delay is not NaN for
 massless planets

---
 src/exoplanet/orbits/keplerian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 0d252a1..64307fc 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -447,11 +447,13 @@ class KeplerianOrbit:
         # in the z direction
         angvel = 2 * np.pi / self.period
         if self.ecc is None:
+            roa = 1.0
             r = a
             vamp = angvel * a
             vz = vamp * self.sin_incl * cosf
         else:
-            r = a * (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
+            roa = (1.0 - self.ecc**2) / (1 + self.ecc * cosf)
+            r = a * roa
             vamp = angvel * a / pt.sqrt(1 - self.ecc**2)
             cwf = self.cos_omega * cosf - self.sin_omega * sinf
             vz = vamp * self.sin_incl * (self.ecc * self.cos_omega + cwf)
@@ -460,7 +462,7 @@ class KeplerianOrbit:
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
         # Component of the acceleration in the z direction
-        az = -(angvel**2) * (a / r) ** 3 * z
+        az = -(angvel**2) * z / roa**3
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From 65909b2b1cb1cefaac778c19ef0fa69d479a3b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:47 +0000
Subject: [PATCH 24/39] fix: sign of the acceleration in the light travel time
 delay

---
 src/exoplanet/orbits/keplerian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 64307fc..56c3300 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -461,8 +461,9 @@ class KeplerianOrbit:
         # True position of the body
         x, y, z = self._rotate_vector(r * cosf, r * sinf)
 
-        # Component of the acceleration in the z direction
-        az = -(angvel**2) * z / roa**3
+        # Component of the acceleration in the z direction, which points away
+        # from the observer here, just like the one of the velocity
+        az = angvel**2 * z / roa**3
 
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
-- 
2.43.0


From cf7099c211e9fe2d02fc3e25606225697a669e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:55 +0000
Subject: [PATCH 25/39] fix: cancellation in the light travel time delay for
 small accelerations

---
 src/exoplanet/orbits/keplerian.py | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 56c3300..96c48cc 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -468,17 +468,11 @@ class KeplerianOrbit:
         # Compute the time delay at the **retarded** position, accounting
         # for the instantaneous velocity and acceleration of the body.
         # See the derivation at https://github.com/rodluger/starry/issues/66
-        delay = pt.switch(
-            pt.lt(pt.abs(az), 1.0e-10),
-            (z0 - z) / (c_light + vz),
-            (c_light / az)
-            * (
-                (1 + vz / c_light)
-                - pt.sqrt(
-                    (1 + vz / c_light) * (1 + vz / c_light)
-                    - 2 * az * (z0 - z) / c_light**2
-                )
-            ),
+        # This is the root of the quadratic that vanishes with (z0 - z), in the
+        # form without a cancellation (or singularity) for small accelerations
+        beta = 1 + vz / c_light
+        delay = (2 * (z0 - z) / c_light) / (
+            beta + pt.sqrt(beta * beta - 2 * az * (z0 - z) / c_light**2)
         )
 
         if _pad:
-- 
2.43.0


From aeb0c4a126b245707627234622bc14cb8a625323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 26/39] fix: quad_limb_dark with a shape and no initval

---
 src/exoplanet/distributions/distributions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/distributions.py b/src/exoplanet/distributions/distributions.py
index c04f599..e1940d8 100644
--- a/src/exoplanet/distributions/distributions.py
+++ b/src/exoplanet/distributions/distributions.py
@@ -84,7 +84,9 @@ def quad_limb_dark(name, **kwargs):
     """
     add_citations_to_model(("kipping13",), kwargs.get("model", None))
 
-    u = kwargs.pop("initval", kwargs.pop("testval", [np.sqrt(0.5), 0.0]))
+    shape_arg = kwargs.get("shape", ())
+    default = [np.full(shape_arg, np.sqrt(0.5)), np.zeros(shape_arg)]
+    u = kwargs.pop("initval", kwargs.pop("testval", default))
     u1 = u[0]
     u2 = u[1]
     kwargs["lower"] = 0.0
-- 
2.43.0


From dd5d5dde7865e8a0e62f846d30268709c0fd4ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:23 +0000
Subject: [PATCH 27/39] fix: kipping13 with bounds, a shape and no initval

---
 src/exoplanet/distributions/eccentricity.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/distributions/eccentricity.py b/src/exoplanet/distributions/eccentricity.py
index 0ef5e01..d793408 100644
--- a/src/exoplanet/distributions/eccentricity.py
+++ b/src/exoplanet/distributions/eccentricity.py
@@ -85,8 +85,11 @@ def kipping13(
             lower = 0.0 if lower is None else lower
             upper = 1.0 if upper is None else upper
             if ecc is None:
+                default = 0.5 * (lower + upper) + np.zeros(
+                    kwargs.get("shape", ())
+                )
                 kwargs["initval"] = kwargs.pop(
-                    "initval", kwargs.pop("testval", 0.5 * (lower + upper))
+                    "initval", kwargs.pop("testval", default)
                 )
                 return _truncate(
                     name,
-- 
2.43.0


From 02d391226fc613fecc57e18b2de63f344ef3bc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 28/39] fix: InterpolatedLightCurve with vector parameters of a
 single planet

and with parameters that are shared between planets
---
 src/exoplanet/light_curves/interpolated.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/exoplanet/light_curves/interpolated.py b/src/exoplanet/light_curves/interpolated.py
index 876dfd7..eba2340 100644
--- a/src/exoplanet/light_curves/interpolated.py
+++ b/src/exoplanet/light_curves/interpolated.py
@@ -75,6 +75,10 @@ class InterpolatedLightCurve:
         else:
             num_planets = int(self.num_planets)
 
+        # The parameters can be scalars or vectors
+        t0 = orbit.t0 + pt.zeros(max(num_planets, 1))
+        period = orbit.period + pt.zeros(max(num_planets, 1))
+
         if num_planets <= 1:
             func = _wrapper(
                 self.base_light_curve,
@@ -86,11 +90,11 @@ class InterpolatedLightCurve:
                 use_in_transit=use_in_transit,
                 light_delay=light_delay,
             )
-            mn = orbit.t0
-            mx = orbit.t0 + orbit.period
+            mn = t0[0]
+            mx = t0[0] + period[0]
             return interp(
                 0,
-                pt.mod(t - orbit.t0, orbit.period) + orbit.t0,
+                pt.mod(t - t0[0], period[0]) + t0[0],
                 mn,
                 mx,
                 (mx - mn) / (self.num_phase + 1),
@@ -109,12 +113,12 @@ class InterpolatedLightCurve:
                 use_in_transit=use_in_transit,
                 light_delay=light_delay,
             )
-            mn = orbit.t0[n]
-            mx = orbit.t0[n] + orbit.period[n]
+            mn = t0[n]
+            mx = t0[n] + period[n]
             ys.append(
                 interp(
                     n,
-                    pt.mod(t - orbit.t0[n], orbit.period[n]) + orbit.t0[n],
+                    pt.mod(t - t0[n], period[n]) + t0[n],
                     mn,
                     mx,
                     (mx - mn) / (self.num_phase + 1),
-- 
2.43.0


From 8ac2984e3d41cd010144a5837ef7426dcfd70739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:58 +0000
Subject: [PATCH 29/39] fix: KeplerianOrbit.in_transit with a list of times

---
 src/exoplanet/orbits/keplerian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 96c48cc..8971591 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -740,6 +740,8 @@ class KeplerianOrbit:
                 "Light travel time delay not yet implemented for `in_transit`"
             )
 
+        t = as_tensor_variable(t)
+
         # The orbital parameters can be any mix of scalars and vectors with one
         # entry per planet, but they must all have the same shape below
         z = pt.zeros_like(self.a) + pt.zeros_like(self.cos_incl)
-- 
2.43.0


From 70b1ed2b95325cda12fea3d142947d26f192e3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:37 +0000
Subject: [PATCH 30/39] fix: SimpleTransitOrbit.in_transit with lists

---
 src/exoplanet/orbits/simple.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 2de129e..1bc1179 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -89,12 +89,13 @@ class SimpleTransitOrbit:
             raise NotImplementedError(
                 "Light travel time delay is not implemented for simple orbits"
             )
+        t = as_tensor_variable(t)
         dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
         dt -= self._half_period
         if r is None:
             tol = 0.5 * self.duration
         else:
-            x = (r + self.r_star) ** 2 - self._b_norm**2
+            x = (as_tensor_variable(r) + self.r_star) ** 2 - self._b_norm**2
             tol = pt.sqrt(x) / self.speed
         if texp is not None:
             texp = as_tensor_variable(texp)
-- 
2.43.0


From f0d098317307a3f62157f1afca325b23faced52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:56 +0000
Subject: [PATCH 31/39] fix: give the components of a coordinate the same shape

When only some of the parameters of an orbit have one entry per planet (or a
symbolic length), the components of its positions and velocities did not have
the same shape, because an axis of known length one was dropped from some of
them: light curves failed or, with as many times as planets, combined the x of
one time with the y of another one.
---
 src/exoplanet/orbits/keplerian.py | 9 +++++++--
 src/exoplanet/orbits/simple.py    | 2 ++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 8971591..1901f98 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -328,13 +328,18 @@ class KeplerianOrbit:
         # z3 = z2, subsequent rotation by Omega doesn't affect it
         Z = -self.sin_incl * y1
 
+        # The angles can have one entry per planet when the coordinates in the
+        # plane of the orbit don't, but all the components need the same shape
+        zero = pt.zeros_like(x2) + pt.zeros_like(y2) + pt.zeros_like(Z)
+
         # 3) rotate about z2 axis by Omega
         if self.Omega is None:
-            return (x2, y2, Z)
+            return x2 + zero, y2 + zero, Z + zero
 
         X = self.cos_Omega * x2 - self.sin_Omega * y2
         Y = self.sin_Omega * x2 + self.cos_Omega * y2
-        return X, Y, Z
+        zero = zero + pt.zeros_like(X)
+        return X + zero, Y + zero, Z + zero
 
     def _warp_times(self, t, _pad=True):
         if _pad:
diff --git a/src/exoplanet/orbits/simple.py b/src/exoplanet/orbits/simple.py
index 1bc1179..3598307 100644
--- a/src/exoplanet/orbits/simple.py
+++ b/src/exoplanet/orbits/simple.py
@@ -58,6 +58,8 @@ class SimpleTransitOrbit:
             )
         dt = pt.mod(pt.shape_padright(t) - self._ref_time, self.period)
         dt -= self._half_period
+        # Every coordinate needs the shape implied by all of the parameters
+        dt += pt.zeros_like(self.speed)
         x = pt.squeeze(self.speed * dt)
         y = pt.squeeze(self._b_norm + pt.zeros_like(dt))
         m = pt.abs(dt) < 0.5 * self.duration
-- 
2.43.0


From 46f8f5bc7f669b6f7c2ec4e163101e2a1afdc74e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 32/39] fix: light curves for times that are not a vector

in_transit works on a vector of times, so the default of evaluating the model
in transit only failed for scalars and arrays of times with more dimensions.
---
 src/exoplanet/light_curves/limb_dark.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/exoplanet/light_curves/limb_dark.py b/src/exoplanet/light_curves/limb_dark.py
index efc6e55..395e8ae 100644
--- a/src/exoplanet/light_curves/limb_dark.py
+++ b/src/exoplanet/light_curves/limb_dark.py
@@ -163,6 +163,14 @@ class LimbDarkLightCurve:
         # If use_in_transit, we should only evaluate the model at times where
         # at least one planet is transiting
         if use_in_transit:
+            # The indices of the times in transit only make sense for a vector
+            t_shape = tuple(t.shape[n] for n in range(t.ndim))
+            if t.ndim != 1:
+                t = pt.flatten(t)
+                if texp is not None:
+                    texp = as_tensor_variable(texp)
+                    texp = pt.flatten(texp) if texp.ndim > 0 else texp
+
             transit_model = pt.shape_padleft(
                 pt.zeros_like(r), t.ndim
             ) + pt.shape_padright(pt.zeros_like(t), r.ndim)
@@ -227,6 +235,8 @@ class LimbDarkLightCurve:
 
         if use_in_transit:
             transit_model = pt.set_subtensor(transit_model[inds], lc)
+            if len(t_shape) != 1:
+                transit_model = pt.reshape(transit_model, t_shape + (r.size,))
             return transit_model
         else:
             return lc
-- 
2.43.0


From 93145a2c9758f6ac5097c0399200e0e236baa993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:15 +0000
Subject: [PATCH 33/39] fix: shape of interpolated light curves for times that
 are not a vector

---
 src/exoplanet/light_curves/interpolated.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exoplanet/light_curves/interpolated.py b/src/exoplanet/light_curves/interpolated.py
index eba2340..a287386 100644
--- a/src/exoplanet/light_curves/interpolated.py
+++ b/src/exoplanet/light_curves/interpolated.py
@@ -99,7 +99,7 @@ class InterpolatedLightCurve:
                 mx,
                 (mx - mn) / (self.num_phase + 1),
                 func,
-            )[:, None]
+            )[..., None]
 
         ys = []
         for n in range(num_planets):
-- 
2.43.0


From 33f35dba453e3b1323b426b84f35639df1d8b99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:33 +0000
Subject: [PATCH 34/39] fix: in_transit for planets that share their orbit but
 not their radius

---
 src/exoplanet/orbits/keplerian.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 1901f98..30f8064 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -749,10 +749,12 @@ class KeplerianOrbit:
 
         # The orbital parameters can be any mix of scalars and vectors with one
         # entry per planet, but they must all have the same shape below
+        r = as_tensor_variable(r)
         z = pt.zeros_like(self.a) + pt.zeros_like(self.cos_incl)
+        z += pt.zeros_like(r)
         if self.ecc is not None:
             z += pt.zeros_like(self.ecc) + pt.zeros_like(self.omega)
-        r = as_tensor_variable(r) + z
+        r += z
         R = self.r_star + z
 
         # Wrap the times into time since transit
-- 
2.43.0


From 65c6145010ad3c7a9ab17764719cb050c336edea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:25 +0000
Subject: [PATCH 35/39] fix: TTVOrbit with a period or reference transit that
 is not a vector

---
 src/exoplanet/orbits/ttv.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 2c54c57..6e87993 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -141,19 +141,21 @@ class TTVOrbit(KeplerianOrbit):
 
         super(TTVOrbit, self).__init__(*args, **kwargs)
 
+        # The planets can share a reference transit or a period
+        z = pt.zeros(len(self.ttvs))
+        t0 = self.t0 + z
+
         if ttvs is not None:
-            self.ttv_period = self.period
+            self.ttv_period = self.period + z
             self.transit_times = [
-                self.t0[i] + self.period[i] * self.transit_inds[i] + ttv
+                t0[i] + self.ttv_period[i] * self.transit_inds[i] + ttv
                 for i, ttv in enumerate(self.ttvs)
             ]
 
         # Compute the full set of transit times
         self.all_transit_times = []
         for i, inds in enumerate(self.transit_inds):
-            expect = self.t0[i] + self.ttv_period[i] * pt.arange(
-                inds.max() + 1
-            )
+            expect = t0[i] + self.ttv_period[i] * pt.arange(inds.max() + 1)
             self.all_transit_times.append(
                 pt.set_subtensor(expect[inds], self.transit_times[i])
             )
-- 
2.43.0


From 5d96ab5e88b512a419a45fdf47cbb972810750f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:08 +0000
Subject: [PATCH 36/39] fix: refuse a TTVOrbit with both ttvs and transit_times

The documentation says that only one of the two can be given, but the
transit times were silently ignored.
---
 src/exoplanet/orbits/ttv.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 6e87993..8995149 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -76,6 +76,10 @@ class TTVOrbit(KeplerianOrbit):
             raise ValueError(
                 "one of 'ttvs' or 'transit_times' must be " "defined"
             )
+        if ttvs is not None and transit_times is not None:
+            raise ValueError(
+                "only one of 'ttvs' and 'transit_times' can be given"
+            )
         if ttvs is not None:
             self.ttvs = [as_tensor_variable(ttv, ndim=1) for ttv in ttvs]
             if transit_inds is None:
-- 
2.43.0


From a899b809cc820892ecbf722b0f54e43b3f9d9a79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:00:17 +0000
Subject: [PATCH 37/39] fix: refuse a semimajor axis together with the duration
 of a circular orbit

The semimajor axis that was given was silently replaced by the one that
the duration implies.
---
 src/exoplanet/orbits/keplerian.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/exoplanet/orbits/keplerian.py b/src/exoplanet/orbits/keplerian.py
index 30f8064..f2cb46b 100644
--- a/src/exoplanet/orbits/keplerian.py
+++ b/src/exoplanet/orbits/keplerian.py
@@ -118,6 +118,11 @@ class KeplerianOrbit:
                     "'b' must be provided for a circular orbit with a "
                     "'duration'"
                 )
+            if a is not None:
+                raise ValueError(
+                    "only one of 'a' and 'duration' can be given for a "
+                    "circular orbit"
+                )
             if ror is None:
                 warnings.warn(
                     "When using the 'duration' parameter in KeplerianOrbit, "
-- 
2.43.0


From bde1b502a3760123500a5540ddd1671c826f4aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:02 +0000
Subject: [PATCH 38/39] fix: citations of the components of nested models were
 missing for their parents

---
 src/exoplanet/citations.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/exoplanet/citations.py b/src/exoplanet/citations.py
index df8fea7..7bf93e5 100644
--- a/src/exoplanet/citations.py
+++ b/src/exoplanet/citations.py
@@ -9,10 +9,13 @@ from exoplanet.compat import USING_PYMC3, pm
 def add_citations_to_model(citations, model=None):
     try:
         model = pm.modelcontext(model)
-        if not hasattr(model, "__citations__"):
-            model.__citations__ = dict()
-        for k in citations:
-            model.__citations__[k] = CITATIONS[k]
+        # What is part of a nested model is also part of its parents
+        while model is not None:
+            if not hasattr(model, "__citations__"):
+                model.__citations__ = dict()
+            for k in citations:
+                model.__citations__[k] = CITATIONS[k]
+            model = model.parent
 
     except TypeError:
         pass
-- 
2.43.0


From c171053a9eb897df5062e3d73751f9fe24f683f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:52 +0000
Subject: [PATCH 39/39] fix: expected transit times of planets that share a
 period or t0 were left out

---
 src/exoplanet/orbits/ttv.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exoplanet/orbits/ttv.py b/src/exoplanet/orbits/ttv.py
index 8995149..ea81677 100644
--- a/src/exoplanet/orbits/ttv.py
+++ b/src/exoplanet/orbits/ttv.py
@@ -20,6 +20,8 @@ def compute_expected_transit_times(min_time, max_time, period, t0):
         A list of arrays of expected transit times for each planet
 
     """
+    # A period or reference time can be shared by all planets
+    period, t0 = np.broadcast_arrays(period, t0, subok=True)
     periods = np.atleast_1d(period)
     t0s = np.atleast_1d(t0)
     transit_times = []
-- 
2.43.0

