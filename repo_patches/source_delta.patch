From 4e04ac6a0279a9c17712e2642cd9b0f044a95251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 01/24] fix: make the default measure of ScipyFit usable

The default was the KLDivergence class itself, which the constructor rejects
with a TypeError because it is not an instance of Measure.
---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9b061ba..b533f69 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -467,7 +467,7 @@ class ScipyFit(_BaseFit):
 
     """
 
-    def __init__(self, grid, density, model, measure=KLDivergence, method="SLSQP", weights=None,
+    def __init__(self, grid, density, model, measure=KLDivergence(), method="SLSQP", weights=None,
                  integral_dens=None, spherical=False, mask_value=1e-18):
         r"""
         Construct the ScipyFit object.
-- 
2.43.0


From 80caa89129b15bd354eab5b8d84552800a877e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:47 +0000
Subject: [PATCH 02/24] fix: pass fixed parameters to the trust-constr
 normalization constraint

With only coefficients or only exponents being optimized, the constraint was
evaluated without the fixed parameters and raised a ValueError.
---
 bfit/fit.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index b533f69..02dfed0 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -592,7 +592,9 @@ class ScipyFit(_BaseFit):
             if self.method == "slsqp":
                 constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
             elif self.method == "trust-constr":
-                constraints = [NonlinearConstraint(self.const_norm, 0.0, 0.0, jac="3-point")]
+                # NonlinearConstraint takes no extra arguments, so the fixed parameters are bound here
+                constraints = [NonlinearConstraint(lambda x: self.const_norm(x, *args), 0.0, 0.0,
+                                                   jac="3-point")]
         # set optimization options
         if self.method == "slsqp":
             options = {"ftol": tol, "maxiter": maxiter, "disp": disp}
-- 
2.43.0


From b11d8de878ad01c2cbc1ef7c064a421e9db2ee93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:16 +0000
Subject: [PATCH 03/24] fix: return the Jacobian of the objective from
 trust-constr fits

res['jac'] of trust-constr is the list of constraint Jacobians.
---
 bfit/fit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 02dfed0..d9e5cec 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -689,12 +689,15 @@ class ScipyFit(_BaseFit):
             print(f"Coefficients {coeffs}")
             print(f"Exponents {expons}")
 
+        # trust-constr stores the objective's gradient in "grad" ("jac" is that of the constraints)
+        jacobian = res["grad"] if self.method == "trust-constr" else res["jac"]
+
         results = {"coeffs": coeffs,
                    "exps": expons,
                    "fun": res["fun"],
                    "success": res["success"],
                    "message": res["message"],
-                   "jacobian": res["jac"],
+                   "jacobian": jacobian,
                    "performance": np.array(self.goodness_of_fit(coeffs, expons)),
                    "time": time}
         return results
-- 
2.43.0


From f6e99ee9c07a813b62d20633128b3673d5544364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:12 +0000
Subject: [PATCH 04/24] fix: return the objective of ScipyFit in double
 precision

Grid points are extended precision by default, and an extended precision
objective value made scipy's trust-constr raise a TypeError.
---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index d9e5cec..844af01 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -728,7 +728,7 @@ class ScipyFit(_BaseFit):
         d_obj = np.zeros_like(x)
         for index in range(len(x)):
             d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
-        return obj, d_obj
+        return float(obj), d_obj
 
     def const_norm(self, x, *args):
         r"""Compute deviation in normalization constraint :math:`\sum c_i - \int f(x) dx`.
-- 
2.43.0


From 73bcc3c3f3831f6a6c30c19624245441050772ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:09 +0000
Subject: [PATCH 05/24] fix: give zero Kullback-Leibler contribution where the
 density is zero

0 * log(0) evaluated to NaN, so the divergence of any density with a zero
value on the grid was NaN.
---
 bfit/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 776ed7c..87855a5 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -222,6 +222,8 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
+        # points with zero density do not contribute, i.e., 0 * log(0) = 0
+        value[density == 0.] = 0.
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From 652c774fe1e998202277b8d1f4911c6362f45c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:41 +0000
Subject: [PATCH 06/24] fix: keep the Tsallis divergence finite for alpha less
 than one

Zero density or masked model values gave NaN or infinity from 0 to a negative
power.
---
 bfit/measure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 87855a5..02b69a2 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -344,7 +344,9 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
-        value = density * (np.power(ratio, self.alpha - 1.0) - 1.0)
+        # powers of zero ratio (masked or zero density) are zero, also if alpha is less than one
+        power = np.power(ratio, self.alpha - 1.0, out=np.zeros_like(ratio), where=ratio != 0.)
+        value = density * (power - 1.0)
         integrand = value / (self.alpha - 1.0)
         if deriv:
             return integrand, -np.power(ratio, self.alpha)
-- 
2.43.0


From 8be70d2b81f66b175cf853b5872f1559dcd22e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:37 +0000
Subject: [PATCH 07/24] fix: propagate undefined model values through KL and
 Tsallis

The masked division also masked NaN model values, so that a model of NaNs had
a divergence of zero, i.e., was reported as a perfect fit.
---
 bfit/measure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 02b69a2..30b8cd8 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -217,13 +217,15 @@ class KLDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=1.0)
+        # undefined model values are not masked
+        ratio[np.isnan(model)] = np.nan
 
         # compute KL divergence
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
         # points with zero density do not contribute, i.e., 0 * log(0) = 0
-        value[density == 0.] = 0.
+        value[ratio == 0.] = 0.
         # compute derivative
         if deriv:
             return value, -ratio
@@ -344,6 +346,8 @@ class TsallisDivergence(Measure):
         # compute ratio & replace masked values by 1.0
         ratio = density / np.ma.masked_less_equal(model, self.mask_value)
         ratio = np.ma.filled(ratio, fill_value=0.0)
+        # undefined model values are not masked
+        ratio[np.isnan(model)] = np.nan
         # powers of zero ratio (masked or zero density) are zero, also if alpha is less than one
         power = np.power(ratio, self.alpha - 1.0, out=np.zeros_like(ratio), where=ratio != 0.)
         value = density * (power - 1.0)
-- 
2.43.0


From acc3b0aba307a1102353a2a7248ec6b1f56a2795 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:09 +0000
Subject: [PATCH 08/24] fix: do not report success of the KL fixed point
 iteration with NaN parameters

Comparisons with NaN end the iteration immediately, which was taken for
convergence.
---
 bfit/fit.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 844af01..f34bdf2 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -420,6 +420,8 @@ class KLDivergenceFPI(_BaseFit):
         # check whether convergence is reached.
         if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
             success = False
+        elif not (np.all(np.isfinite(new_cs)) and np.all(np.isfinite(new_es))):
+            success = False
         else:
             success = True
 
-- 
2.43.0


From 8bd613025826b9f75db671c39b8e4b06a6d4e7b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:53 +0000
Subject: [PATCH 09/24] fix: never exceed the maximum number of functions in
 greedy pick-two

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index cf3a279..e63087c 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -517,7 +517,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             template_iters = self._print_header()
 
         success = True
-        while numb_funcs <= max_numb_funcs - 1 and numb_redum < 5 and \
+        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \
                 np.abs(best_gval - prev_gval) >= d_threshold:
             s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
 
-- 
2.43.0


From 06794b7a3bda2a346849b82a6f049d959005a8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:22 +0000
Subject: [PATCH 10/24] fix: let greedy choose among candidates of any finite
 cost

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index e63087c..810cb27 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -383,7 +383,7 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
-        best_local_value = 1e10
+        best_local_value = np.inf
         best_local_param = None
         is_s_optimal = False
         for i in range(0, num_s_choices + num_p_choices):
-- 
2.43.0


From 601b3b4f6e251a560e852ec11a253176767d366d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:16 +0000
Subject: [PATCH 11/24] fix: report greedy convergence one function below the
 maximum as success

---
 bfit/greedy.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 810cb27..0e8008e 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -601,11 +601,10 @@ class GreedyStrategy(metaclass=ABCMeta):
                     np.abs(best_gval - prev_gval)
                 ))
 
-        if numb_funcs == max_numb_funcs - 1 or numb_redum == 5:
+        if numb_redum == 5:
             success = False
-            if numb_redum == 5:
-                exit_info = f"Next Iteration Did Not Find The Best Choice at" \
-                            f" number of s-type {self.num_s} and p-type {self.num_p}"
+            exit_info = f"Next Iteration Did Not Find The Best Choice at" \
+                        f" number of s-type {self.num_s} and p-type {self.num_p}"
 
         if exit_info is None:
             exit_info = self._final_exit_info(
@@ -642,11 +641,11 @@ class GreedyStrategy(metaclass=ABCMeta):
     def _final_exit_info(num_func, max_func, best_val, prev_gval, d_threshold):
         r"""Return string that holds how the greedy algorithm teminated."""
         exit_info = None
-        if not num_func < max_func - 1:
-            exit_info = "Max number of functions reached,  " + str(num_func)
-        elif np.abs(best_val - prev_gval) < d_threshold:
+        if np.abs(best_val - prev_gval) < d_threshold:
             exit_info = "Cost function is less than some epsilon: " + \
                              str(best_val - prev_gval) + " <= " + str(d_threshold)
+        elif not num_func < max_func - 1:
+            exit_info = "Max number of functions reached,  " + str(num_func)
         if exit_info is None:
             raise RuntimeError(f"Exit information {exit_info} should not be None. "
                                f"There is an error in the termination of the algorithm.")
-- 
2.43.0


From 044be92c24c1cd35e5435112076c20d2c764a9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:57 +0000
Subject: [PATCH 12/24] fix: keep the total coefficient when removing chains of
 close exponents

---
 bfit/greedy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 0e8008e..db589e7 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -65,14 +65,19 @@ def remove_redundancies(coeffs, fparams, eps=1e-3):
 
     # Indexes where they're the same.
     indexes_same = []
+    removed = []
     for i, alpha in enumerate(fparams):
         similar_indexes = []
+        if i in removed:
+            # Already grouped with a previous exponent.
+            continue
         for j in range(i + 1, len(fparams)):
-            if j not in similar_indexes:
+            if j not in removed:
                 if np.abs(alpha - fparams[j]) < eps:
                     if i not in similar_indexes:
                         similar_indexes.append(i)
                     similar_indexes.append(j)
+                    removed.append(j)
         if len(similar_indexes) != 0:
             indexes_same.append(similar_indexes)
 
-- 
2.43.0


From bf76e1b45d55d18cdabcc769fadaf7e9d22a7952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:31 +0000
Subject: [PATCH 13/24] fix: start each greedy run from a single basis function

---
 bfit/greedy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index db589e7..8b76eaf 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -507,6 +507,11 @@ class GreedyStrategy(metaclass=ABCMeta):
         if factor <= 0.0:
             raise ValueError(f"Scale {factor} should be positive.")
 
+        # Start from a single s-type function, also when the same object is run again.
+        self.num_s, self.num_p = 1, 0
+        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
+        self.err_arr = []
+
         # Initialize all the variables
         gparams = self.get_best_one_function_solution()
         self.store_errors(gparams)
-- 
2.43.0


From 7eb43cde733b58559ecee174a55cfdf25d64f0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:08 +0000
Subject: [PATCH 14/24] fix: use the highest occupied orbital in core and
 valence densities

---
 bfit/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/density.py b/bfit/density.py
index 564c9e9..4de0873 100644
--- a/bfit/density.py
+++ b/bfit/density.py
@@ -349,10 +349,10 @@ class SlaterAtoms:
         # compute orbital occupation numbers
         orb_occs = self.orbitals_occupation
         if mode == "valence":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
         elif mode == "core":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
         # compute density
         dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
-- 
2.43.0


From 45ffb259880c4813e55413db564201c13ce900ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:47 +0000
Subject: [PATCH 15/24] fix: make the cubic grid of a molecule enclose all of
 its atoms

---
 bfit/grid.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 15df63c..a1c8eba 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -332,7 +332,8 @@ class CubicGrid:
             _, v = np.linalg.eigh(itensor)
             # Project the coordinates of atoms centered at the center of mass to the eigenvectors
             new_coordinates = np.dot((atcoords - com), v)
-            axes = spacing * v
+            # The eigenvectors are the columns of v, whereas the axes of the grid are rows.
+            axes = spacing * v.T
         else:
             # Just use the original coordinates
             new_coordinates = atcoords
@@ -347,9 +348,12 @@ class CubicGrid:
         # Add one to include the upper-bound as well.
         shape = np.ceil(shape)
         shape = np.array(shape, int)
-        # Compute origin by taking the center of mass then subtracting the half of the number
-        #    of points in the direction of the axes.
-        origin = com - np.dot((0.5 * shape), axes)
+        # Compute origin by taking the center of the molecule (mid-point of its bounding box) then
+        #    subtracting the half of the number of points in the direction of the axes.
+        center = 0.5 * (max_coordinate + min_coordinate)
+        if rotate:
+            center = com + np.dot(v, center)
+        origin = center - np.dot((0.5 * shape), axes)
         return cls(origin, axes, shape)
 
     def _calculate_volume(self, shape):
-- 
2.43.0


From dae7566030f54a0e4f581dbefcf320fe29729ab5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:40 +0000
Subject: [PATCH 16/24] fix: scale the greedy one-function solution for
 normalized models

---
 bfit/greedy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 8b76eaf..6131ba8 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -769,6 +769,9 @@ class GreedyLeastSquares(GreedyStrategy):
         big_b = (a * f - c * d) / (a * e - b * d)
         coefficient = np.exp(big_a)
         exponent = - big_b
+        if self.model.normalized:
+            # The amplitude is the coefficient times the normalization constant.
+            coefficient *= (np.pi / exponent) ** 1.5
         return np.array([coefficient, exponent])
 
     def get_best_one_function_solution(self):
-- 
2.43.0


From 3bd3fc4903ce1e6a068773621f4b8c662f3a0e95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:11 +0000
Subject: [PATCH 17/24] fix: solve least-squares coefficients in the basis of
 normalized greedy models

---
 bfit/greedy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 6131ba8..3419bcf 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -804,6 +804,9 @@ class GreedyLeastSquares(GreedyStrategy):
             exponential = np.hstack(
                 (exponential, grid_squared_col * np.exp(-exponents_p * grid_squared_col))
             )
+        if self.model.normalized:
+            exponential = exponential * (exponents / np.pi) ** 1.5
+            exponential[:, self.model.num_s:] *= exponents[self.model.num_s:] / 1.5
         return exponential
 
     @staticmethod
-- 
2.43.0


From 31cabac3b830e83da814b603de85126a8120cc9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:03 +0000
Subject: [PATCH 18/24] fix: reject greedy steps whose objective is undefined

---
 bfit/greedy.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 3419bcf..732e936 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -388,9 +388,10 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
+        # The first guess is used if the objective function is not finite for any guess.
         best_local_value = np.inf
-        best_local_param = None
-        is_s_optimal = False
+        best_local_param = param_list[0]
+        is_s_optimal = num_s_choices > 0
         for i in range(0, num_s_choices + num_p_choices):
             # Get the function parameter guess.
             param = param_list[i]
@@ -585,7 +586,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             p_coeffs_new, _ = remove_redundancies(p_coeffs, p_exps)
             found_s_redundances = self.num_s != len(s_coeffs_new)
             found_p_redundancies = self.num_p != len(p_coeffs_new)
-            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval:
+            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
                 # Move back one function and try a different factor to generate
                 #    better initial guesses.
                 numb_redum += 1  # Update the termination criteria
@@ -596,7 +597,7 @@ class GreedyStrategy(metaclass=ABCMeta):
                     self.num_p -= self.numb_func_increase
                 self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
                 numb_funcs -= self.numb_func_increase
-            elif opt_lvalue <= best_gval:
+            else:
                 # Take the best local choice and optimization even further.
                 gparams = opt_lparam  # Store for next iteration.
                 self.store_errors(gparams)
-- 
2.43.0


From 040e99f9f5512b44ebd5b3df566a2d3a0ec2ff66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:16 +0000
Subject: [PATCH 19/24] fix: report a model or density that is not an array as
 ValueError in measures

---
 bfit/measure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bfit/measure.py b/bfit/measure.py
index 30b8cd8..20eeb57 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -98,7 +98,7 @@ class SquaredDifference(Measure):
         """
         if not isinstance(model, np.ndarray):
             raise ValueError(
-                f"Argument model should be {density.shape} array."
+                f"Argument model {type(model)} should be a numpy array."
             )
         if not isinstance(density, np.ndarray) or density.ndim != 1:
             raise ValueError("Arguments density should be a 1D numpy array.")
@@ -198,7 +198,7 @@ class KLDivergence(Measure):
         # check model density
         if not isinstance(model, np.ndarray):
             raise ValueError(
-                f"Argument model should be {density.shape} array."
+                f"Argument model {type(model)} should be a numpy array."
             )
         if not isinstance(density, np.ndarray) or density.ndim != 1:
             raise ValueError("Arguments density should be a 1D numpy array.")
@@ -333,7 +333,7 @@ class TsallisDivergence(Measure):
         # check model density
         if not isinstance(model, np.ndarray):
             raise ValueError(
-                f"Argument model should be {density.shape} array."
+                f"Argument model {type(model)} should be a numpy array."
             )
         if not isinstance(density, np.ndarray) or density.ndim != 1:
             raise ValueError("Arguments density should be a 1D numpy array.")
-- 
2.43.0


From c129bc5c9be180b7edc72fd49f0b71694bc796d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:46 +0000
Subject: [PATCH 20/24] fix: reject a center of several coordinates for
 one-dimensional points

---
 bfit/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/model.py b/bfit/model.py
index 9928c12..9b6a496 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -79,7 +79,7 @@ class AtomicGaussianDensity:
         if center is not None:
             if not isinstance(center, np.ndarray) or center.ndim != 1:
                 raise ValueError("Argument center should be a 1D numpy array.")
-            if points.ndim > 1 and points.shape[1] != center.size:
+            if center.size != (points.shape[1] if points.ndim > 1 else 1):
                 raise ValueError("Points & center should have the same number of columns.")
         elif points.ndim > 1:
             center = np.array([0.] * points.shape[1])
-- 
2.43.0


From 6d4ecae99724c784929d77942fecf27a77f7471e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:17 +0000
Subject: [PATCH 21/24] fix: reject negative basis function indices

---
 bfit/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/model.py b/bfit/model.py
index 9b6a496..848a737 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -409,7 +409,7 @@ class MolecularGaussianDensity:
             The index of atomic center.
 
         """
-        if index >= self.nbasis:
+        if not 0 <= index < self.nbasis:
             raise ValueError(f"The {index} is invalid for {self.nbasis} basis.")
         # compute the number of basis on each center
         nbasis = np.sum(self._basis, axis=1)
-- 
2.43.0


From 71ba36dbe85c407ec0962d51d9a35d9c4bf0cc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:52 +0000
Subject: [PATCH 22/24] fix: check the number of initial parameters of an
 optimizer run

---
 bfit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index f34bdf2..8d3649e 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -573,6 +573,9 @@ class ScipyFit(_BaseFit):
         - The coefficients and exponents are bounded to be positive.
 
         """
+        # check the size of initial coeffs and expons
+        if len(c0) != self.model.nbasis or len(e0) != self.model.nbasis:
+            raise ValueError(f"Arguments c0 & e0 should have size {self.model.nbasis}.")
         # set bounds, initial guess & args
         if opt_coeffs and opt_expons:
             bounds = [(1.e-12, np.inf)] * 2 * self.model.nbasis
-- 
2.43.0


From 165b6bdd168eab69126ffba611bbb5555589f193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:45 +0000
Subject: [PATCH 23/24] fix: count the basis functions of narrow integer types
 without overflow

---
 bfit/model.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bfit/model.py b/bfit/model.py
index 848a737..e78b719 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -72,7 +72,7 @@ class AtomicGaussianDensity:
             raise TypeError("Argument num_s should be a positive integer.")
         if not isinstance(num_p, Integral) or num_p < 0:
             raise TypeError("Argument num_p should be a positive integer.")
-        if num_s + num_p == 0:
+        if num_s == 0 and num_p == 0:
             raise ValueError("Arguments num_s & num_p cannot both be zero!")
 
         # check & assign coordinates.
@@ -95,8 +95,9 @@ class AtomicGaussianDensity:
         self._radii = np.ravel(radii)
 
         self._points = points
-        self.ns = num_s
-        self.np = num_p
+        # numpy integers of a narrow type would overflow when the counts are added up
+        self.ns = int(num_s)
+        self.np = int(num_p)
         self.normalized = normalize
 
     @property
-- 
2.43.0


From c31a7923c456824da13333753240e8750bd2dc56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:24 +0000
Subject: [PATCH 24/24] fix: KLDivergenceFPI.run reported success when it
 stopped after one iteration with an undefined divergence

---
 bfit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 8d3649e..1ce41ad 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -422,6 +422,9 @@ class KLDivergenceFPI(_BaseFit):
             success = False
         elif not (np.all(np.isfinite(new_cs)) and np.all(np.isfinite(new_es))):
             success = False
+        elif niter == 1 and np.isnan(fun[0]):
+            # the change in divergence is not defined yet, so it doesn't tell this
+            success = False
         else:
             success = True
 
-- 
2.43.0

