From a7711d36ebd85fc85702144697e1b9bfd2dec55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 01/17] fix: Mu5Nmb scaled its class level error weights in
 place

Every new instance changed E and Ep of the class, so that the error
estimate of later solvers got smaller and smaller.
---
 extensisq/murua.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/murua.py b/extensisq/murua.py
index 7a8669a..5981f8b 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -222,8 +222,9 @@ class Mu5Nmb(RungeKuttaNystrom):
             self.K = self.K_extended[:self.n_stages+1]
         if scale_embedded:
             factor = 0.75
-            self.E *= factor
-            self.Ep *= factor
+            # don't modify the class attributes in place
+            self.E = self.E * factor
+            self.Ep = self.Ep * factor
 
     def _dense_output_impl(self):
         if self.interpolant == 'free':
-- 
2.43.0


From e90edbd02f43356933634a58eb35d280daf1e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 02/17] fix: SWAG wrote into the array returned by the user's
 function

yp is updated in place. Without a copy this modifies data of the user, or
even the solution if fun returns its argument.
---
 extensisq/shampine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e5ca237..0da4b3b 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -108,7 +108,7 @@ class SWAG(OdeSolver):
         self.rtol, self.atol = validate_tol(rtol, atol, self.y)
 
         # starting step size
-        self.yp = self.fun(self.t, self.y)                 # initial evaluation
+        self.yp = self.fun(self.t, self.y).copy()          # initial evaluation
         if first_step is None:
             b = self.t + copysign(min(abs(self.t_bound - self.t),
                                       self.max_step), self.direction)
-- 
2.43.0


From 37b48493850c3e755958a3b1f55b80f185766c33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 03/17] fix: dense output of CKdisc fallback steps changed
 after the next step

Views of K were stored in the interpolant.
---
 extensisq/cash.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/cash.py b/extensisq/cash.py
index da26938..2a4a976 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -413,4 +413,4 @@ class CKdisc(RungeKutta):
             return HornerDenseOutput(self.t_old, self.t, self.y_old, Q)
         # low order solution
         return CubicDenseOutput(self.t_old, self.t, self.y_old, self.y,
-                                self.K[0, :], self.K[-1, :])
+                                self.K[0, :].copy(), self.K[-1, :].copy())
-- 
2.43.0


From f791fa493a46bddb3ba1d57112afbf4c1e771454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 04/17] fix: initial step size of SSV2stab for backward
 integration

The trial evaluation was made on the wrong side of t0, outside the interval
of integration.
---
 extensisq/sommeijer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index e52d95f..ab8123b 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -149,8 +149,9 @@ class SSV2stab(OdeSolver):
         if self.sprad * absh > 1.0:
             absh = 1.0 / self.sprad
         absh = max(absh, self.hmin)
-        vtemp1[:] = yn + absh * fn
-        vtemp2[:] = self.fun(t + absh, vtemp1)                       # evaluate
+        h = self.direction * absh
+        vtemp1[:] = yn + h * fn
+        vtemp2[:] = self.fun(t + h, vtemp1)                          # evaluate
         wt = self.atol + self.rtol * np.abs(yn)
         est = absh * norm((vtemp2 - fn) / wt)
         if 0.1 * absh < self.max_step * sqrt(est):
-- 
2.43.0


From a22b8ab9d8d781a9770be33c72b700e6a609bad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 05/17] fix: SSV2stab could exceed max_step

The last step was stretched by up to 10% and first_step was not limited.
---
 extensisq/sommeijer.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index ab8123b..4a30c4c 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -188,8 +188,11 @@ class SSV2stab(OdeSolver):
                 absh = self._init_step_size(t, yn, fn, vtemp1, vtemp2)
 
             #  Adjust the step size and determine the number of stages m.
-            if 1.1 * absh >= abs(self.t_bound - t):
-                absh = abs(self.t_bound - t)
+            d = abs(self.t_bound - t)
+            absh = min(absh, self.max_step)
+            if 1.1 * absh >= d:
+                # don't stretch the last step beyond max_step
+                absh = d if d <= self.max_step else 0.5 * d
             m = 1 + int(sqrt(1.54 * absh * self.sprad + 1.0))
 
             # Limit m to mmax to control the growth of roundoff error.
-- 
2.43.0


From 5d57a8472304fb830aec2a2ee05617b09080dd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 06/17] fix: the last step of implicit methods could exceed
 max_step

---
 extensisq/common.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 677484c..51b10a7 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2174,9 +2174,12 @@ class ESDIRK(OdeSolver):
 
         # handle final integration steps
         d = abs(self.t_bound - t)                          # remaining interval
-        if (abs(d/h_abs - 1) < 1e-2) or (d < h_abs):
-            # d <= h_abs: Don't step over t_bound or stop just below it.
+        if d < h_abs:
+            # Don't step over t_bound
             h_abs = d
+        elif d/h_abs - 1 < 1e-2:
+            # Don't stop just below t_bound, but respect max_step
+            h_abs = d if d <= self.max_step else 0.5 * d
 
         return h_abs, min_step
 
-- 
2.43.0


From 2cb3cf818e97ef14fbe42c869821cc8e8336d200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:15 +0000
Subject: [PATCH 07/17] fix: nan error norm made the step size of implicit
 methods nan

---
 extensisq/common.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 51b10a7..12a668f 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2153,8 +2153,9 @@ class ESDIRK(OdeSolver):
         else:
             step_accepted = False
             NFS[()] += 1
-            factor = max(self.safety * error_norm**self.error_exponent,
-                         self.min_factor)
+            # the order of arguments matters: nan should not become the factor
+            factor = max(self.min_factor,
+                         self.safety * error_norm**self.error_exponent)
             self.standard_sc = True
 
         # reduce max_factor when on scale
-- 
2.43.0


From f0d745ce8f2e767aa6063ca10ec0df965cd9762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:23 +0000
Subject: [PATCH 08/17] fix: yp_old of implicit methods was not the slope at
 the old solution

---
 extensisq/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 12a668f..d931f6d 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -2093,7 +2093,7 @@ class ESDIRK(OdeSolver):
 
         # step accepted, set or store for next step
         self.y_old = y.copy()
-        self.yp_old = self.f.copy()
+        self.yp_old = self.yp
         self.yp = K[-1, :].copy()
         self.error_norm_old = error_norm
         self.h_previous = h
-- 
2.43.0


From aaff6466cb6b1f813c61e82197b5cddce4e419c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 09/17] fix: Fi5N ignored sc_params

---
 extensisq/fine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/fine.py b/extensisq/fine.py
index d6eae78..b4b8f9d 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -363,7 +363,8 @@ class Fi5N(RungeKuttaNystrom):
 
     def __init__(self, fun, t0, y0, t_bound,
                  sc_params=None, interpolant=0, **extraneous):
-        super().__init__(fun, t0, y0, t_bound, **extraneous)
+        super().__init__(fun, t0, y0, t_bound, sc_params=sc_params,
+                         **extraneous)
         # custom initialization to create extended storage for dense output
         if interpolant not in range(4):
             raise ValueError(
-- 
2.43.0


From 4e736572cb1f4bab8e494ad26316eca4f8c086ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 10/17] fix: documented value "W" of sc_params was rejected

The docstrings listed "H" where the controller "S" is meant.
---
 extensisq/bogacki.py   |  2 +-
 extensisq/calvo.py     |  2 +-
 extensisq/cash.py      |  2 +-
 extensisq/common.py    |  2 ++
 extensisq/fine.py      |  4 ++--
 extensisq/hosea.py     |  6 +++---
 extensisq/kennedy.py   | 12 ++++++------
 extensisq/kvaerno.py   |  4 ++--
 extensisq/merson.py    |  2 +-
 extensisq/mikkawy.py   |  2 +-
 extensisq/murua.py     |  2 +-
 extensisq/prince.py    |  6 +++---
 extensisq/tsitouras.py |  2 +-
 13 files changed, 25 insertions(+), 23 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index 7f8a43b..efe29ee 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -64,7 +64,7 @@ class BS5(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index 401240b..e8feacf 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -63,7 +63,7 @@ class CFMR7osc(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/cash.py b/extensisq/cash.py
index 2a4a976..b542556 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -60,7 +60,7 @@ class CK5(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/common.py b/extensisq/common.py
index d931f6d..684712f 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -166,6 +166,7 @@ class RungeKutta(OdeSolver):
     def _init_sc_control(self, sc_params):
         coefs = {"G": (0.7, -0.4, 0, 0.9),      # Gustafsson
                  "S": (0.6, -0.2, 0, 0.9),      # Soderlind
+                 "W": (2, -1, -1, 0.8),         # Watts
                  "standard": (1, 0, 0, 0.9)}
         # use default controller of method if not specified otherwise
         sc_params = sc_params or self.sc_params
@@ -1685,6 +1686,7 @@ class ESDIRK(OdeSolver):
         # implement different controller, see Kennedy 2019
         coefs = {"G": (2., -1., -1., 0.8),     # Gustafsson
                  "S": (1.1, -0.7, -1., 0.8),   # Soderlind
+                 "W": (2., -1., -1., 0.8),     # Watts
                  "standard": (1, 0, 0, 0.8)}
         # use default controller of method if not specified otherwise
         sc_params = sc_params or self.sc_params
diff --git a/extensisq/fine.py b/extensisq/fine.py
index b4b8f9d..ecf34a3 100644
--- a/extensisq/fine.py
+++ b/extensisq/fine.py
@@ -65,7 +65,7 @@ class Fi4N(RungeKuttaNystrom):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -176,7 +176,7 @@ class Fi5N(RungeKuttaNystrom):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/hosea.py b/extensisq/hosea.py
index 8da8dfe..33f4916 100644
--- a/extensisq/hosea.py
+++ b/extensisq/hosea.py
@@ -144,13 +144,13 @@ class TRBDF2(HS):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "S", "S2" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -300,7 +300,7 @@ class TRX2(HS):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/kennedy.py b/extensisq/kennedy.py
index 0487056..cb51f42 100644
--- a/extensisq/kennedy.py
+++ b/extensisq/kennedy.py
@@ -128,13 +128,13 @@ class KC3I(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -334,13 +334,13 @@ class KC4I(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -538,13 +538,13 @@ class KC4Ia(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/kvaerno.py b/extensisq/kvaerno.py
index 522d125..6c434ba 100644
--- a/extensisq/kvaerno.py
+++ b/extensisq/kvaerno.py
@@ -108,13 +108,13 @@ class Kv3I(KC):
         Setting ``vectorized=True`` allows for faster finite difference
         approximation of the Jacobian by this method, but may result in slower
         execution overall in some circumstances (e.g. small ``len(y0)``).
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
             h_n = h * g**(k*b1 + k*b2) * (h/h_o)**-a2
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
-        sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+        sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/merson.py b/extensisq/merson.py
index ade79b7..10f2ed5 100644
--- a/extensisq/merson.py
+++ b/extensisq/merson.py
@@ -57,7 +57,7 @@ class Me4(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/mikkawy.py b/extensisq/mikkawy.py
index c289285..1f53b6a 100644
--- a/extensisq/mikkawy.py
+++ b/extensisq/mikkawy.py
@@ -62,7 +62,7 @@ class MR6NN(RungeKuttaNystrom):
     vectorized : bool, optional
         Whether `fun` is implemented in a vectorized fashion. A vectorized
         implementation offers no advantages for this solver. Default is False.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/murua.py b/extensisq/murua.py
index 5981f8b..71542b4 100644
--- a/extensisq/murua.py
+++ b/extensisq/murua.py
@@ -69,7 +69,7 @@ class Mu5Nmb(RungeKuttaNystrom):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/prince.py b/extensisq/prince.py
index 04c543e..636e428 100644
--- a/extensisq/prince.py
+++ b/extensisq/prince.py
@@ -54,7 +54,7 @@ class Pr7(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -180,7 +180,7 @@ class Pr8(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
@@ -424,7 +424,7 @@ class Pr9(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
diff --git a/extensisq/tsitouras.py b/extensisq/tsitouras.py
index 56cbb6b..15b3a9c 100644
--- a/extensisq/tsitouras.py
+++ b/extensisq/tsitouras.py
@@ -57,7 +57,7 @@ class Ts5(RungeKutta):
         of `nfev_stiff_detect`. For the assessment itself, the problem is
         assessed as non-stiff if the predicted nfev to complete the integration
         is lower than `nfev_stiff_detect`. The default value is 5000.
-    sc_params : tuple of size 4, "standard", "G", "H" or "W", optional
+    sc_params : tuple of size 4, "standard", "G", "S" or "W", optional
         Parameters for the stepsize controller (k*b1, k*b2, a2, g). The step
         size controller is, with k the exponent of the standard controller,
         _n for new and _o for old:
-- 
2.43.0


From 182704658bf8fbfc8525aa21b9ace2df55823cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:18 +0000
Subject: [PATCH 11/17] fix: Nystrom methods bypassed the wrapper of fun

The problem check and the stiffness detection called the function of the
user directly. This failed for vectorized functions and was not counted in
nfev.
---
 extensisq/common.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index 684712f..ad540b5 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -1255,7 +1255,8 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[:self.n] == y_test[self.n:]):
+            f_test = self.fun(self.t, y_test)
+            if not np.all(f_test[:self.n] == y_test[self.n:]):
                 raise AssertionError(msg)
         if self.Ap is NotImplemented:
             msg = ("This method is for velocity independent ODEs, "
@@ -1263,7 +1264,8 @@ class RungeKuttaNystrom(RungeKutta):
             y_test = self.y.copy()
             y_test[self.n:] *= 1 + 1e-8
             y_test[self.n:] += 1e-8
-            if not np.all(fun(t0, y_test)[self.n:] == self.f[self.n:]):
+            f_test = self.fun(self.t, y_test)
+            if not np.all(f_test[self.n:] == self.f[self.n:]):
                 raise AssertionError(msg)
             self.Ap = np.zeros((self.n_stages, self.n_stages))          # dummy
         # check Ep, (E is already checked)
@@ -1272,7 +1274,7 @@ class RungeKuttaNystrom(RungeKutta):
         # need storage for accelerations only
         self.K = np.empty((self.n_stages + 1, self.n), self.y.dtype)
         self.f = self.f[self.n:]
-        self.fun_first_order = fun
+        self.fun_first_order = self.fun
 
         def fun(*args, fun=self.fun, n=self.n):
             return fun(*args)[n:]
-- 
2.43.0


From fbaeb1be1271ddb12434d2677b5157549066d3d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:25 +0000
Subject: [PATCH 12/17] fix: sens_forward failed for a list or tuple of
 absolute tolerances

---
 extensisq/sensitivity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/extensisq/sensitivity.py b/extensisq/sensitivity.py
index e4f683c..f9745bb 100644
--- a/extensisq/sensitivity.py
+++ b/extensisq/sensitivity.py
@@ -167,7 +167,7 @@ def sens_forward(fun, t_span, y0, jac, dfdp, dy0dp, p, atol=1e-6, rtol=1e-3,
     for i, _p in enumerate(p, start=1):
         factor = abs(_p)
         factor = factor or 1.
-        total_atol[i*Ny:(i+1)*Ny] = atol/factor
+        total_atol[i*Ny:(i+1)*Ny] = total_atol[:Ny]/factor
 
     # function to integrate
     def total_fun(t, total_y, fun=fun, dfdy=jac, dfdp=dfdp, Ny=Ny, Np=Np):
-- 
2.43.0


From 29b97c2a5ae857aee2a9758f51ffefe65094ed18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:13 +0000
Subject: [PATCH 13/17] fix: the last step could miss t_bound by a rounding
 error

---
 extensisq/bogacki.py   |  4 ++--
 extensisq/calvo.py     |  4 ++--
 extensisq/cash.py      |  6 +++---
 extensisq/common.py    | 10 ++++++++--
 extensisq/shampine.py  |  5 +++--
 extensisq/sommeijer.py |  4 ++--
 6 files changed, 20 insertions(+), 13 deletions(-)

diff --git a/extensisq/bogacki.py b/extensisq/bogacki.py
index efe29ee..c5e25bb 100644
--- a/extensisq/bogacki.py
+++ b/extensisq/bogacki.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (norm, RungeKutta, HornerDenseOutput, NFS,
-                              calculate_scale, MAX_FACTOR)
+                              calculate_scale, end_of_step, MAX_FACTOR)
 
 
 class BS5(RungeKutta):
@@ -252,7 +252,7 @@ class BS5(RungeKutta):
                 return False, self.TOO_SMALL_STEP
 
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             # calculate stages, except last two
             self.K[0] = self.f
diff --git a/extensisq/calvo.py b/extensisq/calvo.py
index e8feacf..b13bc16 100644
--- a/extensisq/calvo.py
+++ b/extensisq/calvo.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (
-    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale)
+    RungeKutta, NFS, norm, MAX_FACTOR, calculate_scale, end_of_step)
 
 
 class CFMR7osc(RungeKutta):
@@ -164,7 +164,7 @@ class CFMR7osc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             # calculate stages needed for error evaluation
             self.K[0] = self.f
diff --git a/extensisq/cash.py b/extensisq/cash.py
index b542556..b4236d6 100644
--- a/extensisq/cash.py
+++ b/extensisq/cash.py
@@ -1,6 +1,6 @@
 import numpy as np
 from extensisq.common import (RungeKutta, HornerDenseOutput, CubicDenseOutput,
-                              NFS, calculate_scale, norm)
+                              NFS, calculate_scale, end_of_step, norm)
 
 
 SAFETY = 0.9
@@ -265,7 +265,7 @@ class CKdisc(RungeKutta):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             # start the integration, two stages at a time
             self.K[0] = self.f                                        # stage 0
@@ -377,7 +377,7 @@ class CKdisc(RungeKutta):
 
         # calculate the derivative of the accepted solution
         # for first stage of next step and for interpolation
-        t_new = t + h
+        t_new = end_of_step(t, h, self.t_bound)
         f_new = self.fun(t_new, y_new)
         self.K[-1, :] = f_new
 
diff --git a/extensisq/common.py b/extensisq/common.py
index ad540b5..d65ddc2 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -61,6 +61,12 @@ def calculate_scale(atol, rtol, y, y_new, _mean=False):
     return atol + rtol * np.maximum(np.abs(y), np.abs(y_new))
 
 
+def end_of_step(t, h, t_bound):
+    """Time at the end of a step. The sum t + h can miss t_bound by a rounding
+    error, also if h is the remaining interval t_bound - t."""
+    return t_bound if h == t_bound - t else t + h
+
+
 def norm(x):
     """Compute RMS norm."""
     return (np.real(x @ x.conjugate()) / x.size) ** 0.5
@@ -235,7 +241,7 @@ class RungeKutta(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             # calculate stages needed for output
             self.K[0] = self.f
@@ -2031,7 +2037,7 @@ class ESDIRK(OdeSolver):
             if h_abs < min_step:
                 return False, self.TOO_SMALL_STEP
             h = h_abs * self.direction
-            t_new = t + h
+            t_new = end_of_step(t, h, self.t_bound)
 
             if (LU is None) or self.jac_each_step or (
                                             self.linear and (h != self.h_LU)):
diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index 0da4b3b..e573257 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -2,7 +2,8 @@ import numpy as np
 from warnings import warn
 from math import copysign, sqrt
 from scipy.integrate._ivp.base import OdeSolver, DenseOutput
-from extensisq.common import h_start, validate_tol, NFS, calculate_scale, norm
+from extensisq.common import (h_start, validate_tol, NFS, calculate_scale,
+                              end_of_step, norm)
 from scipy.integrate._ivp.common import (
     validate_max_step, warn_extraneous, validate_first_step)
 
@@ -331,7 +332,7 @@ class SWAG(OdeSolver):
             p = h * (phi[:, :k] @ g[:k]) + y
             phi[:, km1::-1] = np.cumsum(phi[:, km1::-1], axis=1)
             xold = x
-            x += h
+            x = end_of_step(x, h, self.t_bound)
             absh = abs(h)
             yp[:] = self.fun(x, p)                                   # evaluate
 
diff --git a/extensisq/sommeijer.py b/extensisq/sommeijer.py
index 4a30c4c..ab930c4 100644
--- a/extensisq/sommeijer.py
+++ b/extensisq/sommeijer.py
@@ -5,7 +5,7 @@ from scipy.integrate._ivp.common import (
     validate_max_step, validate_first_step, warn_extraneous)
 from scipy.integrate._ivp.base import OdeSolver
 from extensisq.common import (validate_tol, CubicDenseOutput, NFS, norm,
-                              calculate_scale)
+                              calculate_scale, end_of_step)
 
 
 # global counters, several were removed
@@ -239,7 +239,7 @@ class SSV2stab(OdeSolver):
                     self.absh = absh
 
         # Step is accepted.
-        t += h
+        t = end_of_step(t, h, self.t_bound)
         self.jacatt = self.const_jac
         self.nstsig = (self.nstsig + 1) % 25
         self.newspc = False
-- 
2.43.0


From 57c8de95613a948898faa940ed4e53ff7b2e9a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:19 +0000
Subject: [PATCH 14/17] fix: SWAG did not reset the failed step counter

---
 extensisq/shampine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index e573257..fdc0ced 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -177,6 +177,7 @@ class SWAG(OdeSolver):
 
         # from ddes.f, for stiffness detection
         self.kle4 = 0
+        NFS[()] = 0                                # global failed step counter
 
     def _step_impl(self):
 
-- 
2.43.0


From 58bd907f153fa17661bfcd6228f9123e2f9113f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:17 +0000
Subject: [PATCH 15/17] fix: a small nfev_stiff_detect stopped the integration
 with ZeroDivisionError

---
 extensisq/common.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/extensisq/common.py b/extensisq/common.py
index d65ddc2..f65f918 100644
--- a/extensisq/common.py
+++ b/extensisq/common.py
@@ -409,7 +409,7 @@ class RungeKutta(OdeSolver):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
@@ -1365,7 +1365,7 @@ class RungeKuttaNystrom(RungeKutta):
 
         # Test for stifness after each nfev_stiff_detect evaluations
         # then toomch = True
-        many_steps = self.nfev_stiff_detect//self.n_stages
+        many_steps = max(1, self.nfev_stiff_detect//self.n_stages)
         toomch = self.okstp % many_steps == many_steps - 1
 
         # If either too much work has been done or there are lots of failed
-- 
2.43.0


From 20ab7d08cfd8e9de1ec21e2bc82f73296ce6bc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:14 +0000
Subject: [PATCH 16/17] fix: SWAG step sizes could underflow to zero at t=0 and
 step() then made no progress

---
 extensisq/shampine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/extensisq/shampine.py b/extensisq/shampine.py
index fdc0ced..b403c57 100644
--- a/extensisq/shampine.py
+++ b/extensisq/shampine.py
@@ -123,6 +123,7 @@ class SWAG(OdeSolver):
         small = np.nextafter(np.finfo(self.y.dtype).epsneg, 1)
         self.twou = 2.0 * small
         self.fouru = 4.0 * small
+        self.h_min_b = sqrt(np.finfo(self.y.dtype).tiny)                # added
         self.two = (2.0, 4.0, 8.0, 16.0, 32.0, 64.0, 128.0, 256.0, 512.0,
                     1024.0, 2048.0, 4096.0, 8192.0)
         self.gstr = (0.5, 0.0833, 0.0417, 0.0264, 0.0188, 0.0143, 0.0114,
@@ -195,7 +196,7 @@ class SWAG(OdeSolver):
           self.gi, self.gstr, self.iqq, self.eps, self.p5eps)
 
         # from *** ddes.f ***
-        min_step = self.fouru * abs(x)                                  # added
+        min_step = max(self.fouru * abs(x), self.h_min_b)               # added
 
         # stiffness detection
         if kold > 4:
-- 
2.43.0


From 065bc2e468f068a81cae89837da435f873855ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:40 +0000
Subject: [PATCH 17/17] fix: document the predefined "S" controller of the
 implicit methods as implemented

---
 extensisq/hosea.py   | 4 ++--
 extensisq/kennedy.py | 6 +++---
 extensisq/kvaerno.py | 2 +-
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/extensisq/hosea.py b/extensisq/hosea.py
index 33f4916..1d10eaa 100644
--- a/extensisq/hosea.py
+++ b/extensisq/hosea.py
@@ -158,7 +158,7 @@ class TRBDF2(HS):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [4]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
@@ -308,7 +308,7 @@ class TRX2(HS):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
diff --git a/extensisq/kennedy.py b/extensisq/kennedy.py
index cb51f42..a927dc0 100644
--- a/extensisq/kennedy.py
+++ b/extensisq/kennedy.py
@@ -142,7 +142,7 @@ class KC3I(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
@@ -348,7 +348,7 @@ class KC4I(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
@@ -552,7 +552,7 @@ class KC4Ia(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
diff --git a/extensisq/kvaerno.py b/extensisq/kvaerno.py
index 6c434ba..543c59b 100644
--- a/extensisq/kvaerno.py
+++ b/extensisq/kvaerno.py
@@ -122,7 +122,7 @@ class Kv3I(KC):
                 * (err/tol)**-b1 * (err_o/tol_o)**-b2
         Predefined parameters are [3]_:
             Gustafsson "G"  (2, -1, -1, 0.8),
-            Soederlind "S" (0.6, -0.2, 0, 0.8),
+            Soederlind "S" (1.1, -0.7, -1, 0.8),
             and "standard" (1, 0, 0, 0.8).
         These coefficients are different than in explicit methods. The default
         for this method is "G".
-- 
2.43.0

