From a3e30aa6323beb3f43bc9c55387d1aa62cdd3656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:39 +0000
Subject: [PATCH 01/16] fix: count zero-density points as zero in the
 Kullback-Leibler integrand

---
 bfit/measure.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/measure.py b/bfit/measure.py
index 776ed7c..8187396 100644
--- a/bfit/measure.py
+++ b/bfit/measure.py
@@ -222,6 +222,8 @@ class KLDivergence(Measure):
         # Add ignoring division by zero and multiplying by np.nan
         with np.errstate(divide='ignore', invalid="ignore"):
             value = density * np.log(ratio)
+        # points of zero density do not contribute, i.e., f ln(f/g) tends to zero
+        value[density == 0.] = 0.
         # compute derivative
         if deriv:
             return value, -ratio
-- 
2.43.0


From 8d73be50e2780742acca48225db340f5ad5ea6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:54 +0000
Subject: [PATCH 02/16] fix: enclose the molecule in CubicGrid.from_molecule

---
 bfit/grid.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/bfit/grid.py b/bfit/grid.py
index 15df63c..3b4558e 100644
--- a/bfit/grid.py
+++ b/bfit/grid.py
@@ -332,7 +332,8 @@ class CubicGrid:
             _, v = np.linalg.eigh(itensor)
             # Project the coordinates of atoms centered at the center of mass to the eigenvectors
             new_coordinates = np.dot((atcoords - com), v)
-            axes = spacing * v
+            # Each row of axes is the step along one direction of the grid
+            axes = spacing * v.T
         else:
             # Just use the original coordinates
             new_coordinates = atcoords
@@ -345,11 +346,15 @@ class CubicGrid:
         # Compute the required number of points along x, y, and z axis
         shape = (max_coordinate - min_coordinate + 2.0 * extension) / spacing
         # Add one to include the upper-bound as well.
-        shape = np.ceil(shape)
+        shape = np.ceil(shape) + 1
         shape = np.array(shape, int)
-        # Compute origin by taking the center of mass then subtracting the half of the number
-        #    of points in the direction of the axes.
-        origin = com - np.dot((0.5 * shape), axes)
+        # Compute the center of the box that encloses the atoms in the original coordinates
+        center = 0.5 * (max_coordinate + min_coordinate)
+        if rotate:
+            center = com + np.dot(v, center)
+        # Compute origin by taking the center of the box then subtracting the half of the number
+        #    of steps in the direction of the axes.
+        origin = center - np.dot(0.5 * (shape - 1), axes)
         return cls(origin, axes, shape)
 
     def _calculate_volume(self, shape):
-- 
2.43.0


From a5c6734a9ba7d6e6dd2b14e8c7ac60dec8f6efc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:23 +0000
Subject: [PATCH 03/16] fix: pass the fixed parameters to the trust-constr norm
 constraint

---
 bfit/fit.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 9b061ba..580cd49 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -592,7 +592,11 @@ class ScipyFit(_BaseFit):
             if self.method == "slsqp":
                 constraints = [{"fun": self.const_norm, "type": "eq", "args": args}]
             elif self.method == "trust-constr":
-                constraints = [NonlinearConstraint(self.const_norm, 0.0, 0.0, jac="3-point")]
+                # minimize() does not pass args to the constraint, so they are attached here
+                constraints = [
+                    NonlinearConstraint(lambda x: self.const_norm(x, *args), 0.0, 0.0,
+                                        jac="3-point")
+                ]
         # set optimization options
         if self.method == "slsqp":
             options = {"ftol": tol, "maxiter": maxiter, "disp": disp}
-- 
2.43.0


From d2697a39f6055fc14481ca75aac1a01d62efbc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:26 +0000
Subject: [PATCH 04/16] fix: report no success when a fixed-point run breaks
 down to NaN

---
 bfit/fit.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bfit/fit.py b/bfit/fit.py
index 580cd49..0ce9707 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -420,6 +420,9 @@ class KLDivergenceFPI(_BaseFit):
         # check whether convergence is reached.
         if (maxiter == niter and diff_divergence > d_threshold) or np.isnan(diff_divergence):
             success = False
+        elif np.any(np.isnan(new_cs)) or np.any(np.isnan(new_es)) or np.any(np.isnan(fun[-1:])):
+            # the iteration broke down, the comparisons with NaN above ended it
+            success = False
         else:
             success = True
 
-- 
2.43.0


From 20543b0a62d627dd4a1107b0bb282cdcbc1d72ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:31 +0000
Subject: [PATCH 05/16] fix: join each redundant exponent to exactly one kept
 exponent

---
 bfit/greedy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index cf3a279..da34397 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -65,14 +65,19 @@ def remove_redundancies(coeffs, fparams, eps=1e-3):
 
     # Indexes where they're the same.
     indexes_same = []
+    indexes_removed = []
     for i, alpha in enumerate(fparams):
         similar_indexes = []
+        # An index that already joined a group is removed, so nothing can be joined to it.
+        if i in indexes_removed:
+            continue
         for j in range(i + 1, len(fparams)):
-            if j not in similar_indexes:
+            if j not in indexes_removed:
                 if np.abs(alpha - fparams[j]) < eps:
                     if i not in similar_indexes:
                         similar_indexes.append(i)
                     similar_indexes.append(j)
+                    indexes_removed.append(j)
         if len(similar_indexes) != 0:
             indexes_same.append(similar_indexes)
 
-- 
2.43.0


From f7d7b86e49150433c220fb6f883d572d884e9842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:20 +0000
Subject: [PATCH 06/16] fix: reject a greedy extension whose objective is NaN

---
 bfit/greedy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index da34397..637a484 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -580,9 +580,9 @@ class GreedyStrategy(metaclass=ABCMeta):
             p_coeffs_new, _ = remove_redundancies(p_coeffs, p_exps)
             found_s_redundances = self.num_s != len(s_coeffs_new)
             found_p_redundancies = self.num_p != len(p_coeffs_new)
-            if found_s_redundances or found_p_redundancies or opt_lvalue > best_gval:
+            if found_s_redundances or found_p_redundancies or not opt_lvalue <= best_gval:
                 # Move back one function and try a different factor to generate
-                #    better initial guesses.
+                #    better initial guesses (an objective that is NaN is no improvement).
                 numb_redum += 1  # Update the termination criteria
                 factor *= 2      # Increase the factor that changes the kinds of potential choices.
                 if is_s_optimal:
@@ -591,7 +591,7 @@ class GreedyStrategy(metaclass=ABCMeta):
                     self.num_p -= self.numb_func_increase
                 self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
                 numb_funcs -= self.numb_func_increase
-            elif opt_lvalue <= best_gval:
+            else:
                 # Take the best local choice and optimization even further.
                 gparams = opt_lparam  # Store for next iteration.
                 self.store_errors(gparams)
-- 
2.43.0


From 2d4c65de539c317a9e1b75313510ed558398d8a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:49 +0000
Subject: [PATCH 07/16] fix: never exceed max_numb_funcs in the greedy fit with
 pick-two

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 637a484..8155583 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -522,7 +522,7 @@ class GreedyStrategy(metaclass=ABCMeta):
             template_iters = self._print_header()
 
         success = True
-        while numb_funcs <= max_numb_funcs - 1 and numb_redum < 5 and \
+        while numb_funcs + self.numb_func_increase <= max_numb_funcs and numb_redum < 5 and \
                 np.abs(best_gval - prev_gval) >= d_threshold:
             s_coeffs, s_exps, p_coeffs, p_exps = self._split_parameters(gparams)
 
-- 
2.43.0


From 3d3c6c34fc243bbb732ebab0d5579b1a47f31c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:46 +0000
Subject: [PATCH 08/16] fix: select the cheapest greedy candidate however large
 the objectives are

---
 bfit/greedy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 8155583..c4a951b 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -388,7 +388,7 @@ class GreedyStrategy(metaclass=ABCMeta):
 
         """
         # Initialize the values being returned.
-        best_local_value = 1e10
+        best_local_value = np.inf
         best_local_param = None
         is_s_optimal = False
         for i in range(0, num_s_choices + num_p_choices):
-- 
2.43.0


From ef5a6cbf9f71c87e802b3957d2093e3d1828d154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:54 +0000
Subject: [PATCH 09/16] fix: take the highest orbital energy as the HOMO in the
 core and valence densities

---
 bfit/density.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/density.py b/bfit/density.py
index 564c9e9..4de0873 100644
--- a/bfit/density.py
+++ b/bfit/density.py
@@ -349,10 +349,10 @@ class SlaterAtoms:
         # compute orbital occupation numbers
         orb_occs = self.orbitals_occupation
         if mode == "valence":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * np.exp(-(self.orbitals_energy - orb_homo)**2)
         elif mode == "core":
-            orb_homo = self.orbitals_energy[len(self.orbitals_occupation) - 1]
+            orb_homo = np.max(self.orbitals_energy)
             orb_occs = orb_occs * (1. - np.exp(-(self.orbitals_energy - orb_homo)**2))
         # compute density
         dens = np.dot(self.phi_matrix(points)**2, orb_occs).ravel() / (4 * np.pi)
-- 
2.43.0


From e2f4cc10a8b72fdddd6090fc8fffb2f72e910de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:39 +0000
Subject: [PATCH 10/16] fix: use a KLDivergence instance as the default measure
 of ScipyFit

---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index 0ce9707..e4424fc 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -470,7 +470,7 @@ class ScipyFit(_BaseFit):
 
     """
 
-    def __init__(self, grid, density, model, measure=KLDivergence, method="SLSQP", weights=None,
+    def __init__(self, grid, density, model, measure=KLDivergence(), method="SLSQP", weights=None,
                  integral_dens=None, spherical=False, mask_value=1e-18):
         r"""
         Construct the ScipyFit object.
-- 
2.43.0


From ac8513289d8790a155cebc31e919615cf3289218 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:21 +0000
Subject: [PATCH 11/16] fix: start every greedy run from one function and an
 empty history

---
 bfit/greedy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index c4a951b..bb29cf5 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -507,6 +507,10 @@ class GreedyStrategy(metaclass=ABCMeta):
         if factor <= 0.0:
             raise ValueError(f"Scale {factor} should be positive.")
 
+        # Start from one s-type function, also when an earlier run added more.
+        self.num_s, self.num_p = 1, 0
+        self.err_arr = []
+        self.model.change_numb_s_and_numb_p(self.num_s, self.num_p)
         # Initialize all the variables
         gparams = self.get_best_one_function_solution()
         self.store_errors(gparams)
-- 
2.43.0


From c9534f69ad5401993796c53c3019b344216f7a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:03 +0000
Subject: [PATCH 12/16] fix: refuse a centre or coordinates of more than one
 dimension with one-dimensional points

---
 bfit/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bfit/model.py b/bfit/model.py
index 9928c12..b7c6568 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -79,7 +79,7 @@ class AtomicGaussianDensity:
         if center is not None:
             if not isinstance(center, np.ndarray) or center.ndim != 1:
                 raise ValueError("Argument center should be a 1D numpy array.")
-            if points.ndim > 1 and points.shape[1] != center.size:
+            if (points.shape[1] if points.ndim > 1 else 1) != center.size:
                 raise ValueError("Points & center should have the same number of columns.")
         elif points.ndim > 1:
             center = np.array([0.] * points.shape[1])
@@ -352,7 +352,7 @@ class MolecularGaussianDensity:
             raise ValueError("Argument basis should be a 2D array with 2 columns.")
         if len(coords) != len(basis):
             raise ValueError("Argument coords & basis should represent the same number of atoms.")
-        if points.ndim > 1 and points.shape[1] != coords.shape[1]:
+        if (points.shape[1] if points.ndim > 1 else 1) != coords.shape[1]:
             raise ValueError("Arguments points & coords should have the same number of columns.")
 
         self._points = points
-- 
2.43.0


From 7b8a98908ef2c90ddc137f8f2f23edd6631f3820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:29 +0000
Subject: [PATCH 13/16] fix: refuse a negative or empty number of functions in
 change_numb_s_and_numb_p

---
 bfit/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bfit/model.py b/bfit/model.py
index b7c6568..84d3c3f 100644
--- a/bfit/model.py
+++ b/bfit/model.py
@@ -150,6 +150,8 @@ class AtomicGaussianDensity:
             raise TypeError(f"New number of s-type {new_s} should be of type int.")
         if not isinstance(new_p, int):
             raise TypeError(f"New number of p-type {new_p} should be of type int.")
+        if new_s < 0 or new_p < 0 or new_s + new_p == 0:
+            raise ValueError("New numbers of functions cannot be negative or both be zero.")
         self.ns = new_s
         self.np = new_p
 
-- 
2.43.0


From 21b913b8c824ed9c6fed44614145e50db289686b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:56 +0000
Subject: [PATCH 14/16] fix: leave points of zero density out of the
 logarithmic one-function fit

---
 bfit/greedy.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index bb29cf5..9ad579d 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -757,14 +757,18 @@ class GreedyLeastSquares(GreedyStrategy):
 
     def _solve_one_function_weight(self, weight):
         r"""Solve the best one-basis function solution."""
+        # The logarithm of the density is only defined where the density is not zero
+        nonzero = self.density > 0.
+        points, weight = self.grid.points[nonzero], weight[nonzero]
+        ln_density = np.log(self.density[nonzero])
         a = 2.0 * np.sum(weight)
-        sum_of_grid_squared = np.sum(weight * np.power(self.grid.points, 2))
+        sum_of_grid_squared = np.sum(weight * np.power(points, 2))
         b = 2.0 * sum_of_grid_squared
-        sum_ln_electron_density = np.sum(weight * np.log(self.density))
+        sum_ln_electron_density = np.sum(weight * ln_density)
         c = 2.0 * sum_ln_electron_density
         d = b
-        e = 2.0 * np.sum(weight * np.power(self.grid.points, 4))
-        f = 2.0 * np.sum(weight * np.power(self.grid.points, 2) * np.log(self.density))
+        e = 2.0 * np.sum(weight * np.power(points, 4))
+        f = 2.0 * np.sum(weight * np.power(points, 2) * ln_density)
         big_a = (b * f - c * e) / (b * d - a * e)
         big_b = (a * f - c * d) / (a * e - b * d)
         coefficient = np.exp(big_a)
-- 
2.43.0


From 9fd112b92f5b42d44353f844efebb65f557e0f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:55 +0000
Subject: [PATCH 15/16] fix: get_next_choices and get_two_next_choices accept
 integer parameters

---
 bfit/greedy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bfit/greedy.py b/bfit/greedy.py
index 9ad579d..9a5ffe1 100644
--- a/bfit/greedy.py
+++ b/bfit/greedy.py
@@ -126,6 +126,8 @@ def get_next_choices(factor, coeffs, fparams, coeff_val=100.):
         List of the next possible initial guesses for :math:`(n+1)` basis-functions,
         coefficients are listed first, then exponents.
     """
+    # np.insert keeps the data type, the new parameters are not integers in general
+    coeffs, fparams = np.asarray(coeffs) * 1.0, np.asarray(fparams) * 1.0
     size = fparams.shape[0]
     all_choices = []
     for index, exp in np.ndenumerate(fparams):
@@ -200,6 +202,8 @@ def get_two_next_choices(factor, coeffs, fparams, coeff_val=100.):
                 all_choices_of_coeffs.append(np.append(coeffs, np.array([coeff_val])))
         return all_choices_of_coeffs, all_choices_of_exponents
 
+    # np.insert keeps the data type, the new parameters are not integers in general
+    coeffs, fparams = np.asarray(coeffs) * 1.0, np.asarray(fparams) * 1.0
     size = len(fparams)
     choices_coeff = []
     choices_fparams = []
-- 
2.43.0


From 5fe3412ce54d23c305e5f7482c1137dd897a3319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:11:55 +0000
Subject: [PATCH 16/16] fix: gradient of ScipyFit.func is real for integer
 parameters

---
 bfit/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bfit/fit.py b/bfit/fit.py
index e4424fc..b5e4334 100644
--- a/bfit/fit.py
+++ b/bfit/fit.py
@@ -727,7 +727,7 @@ class ScipyFit(_BaseFit):
         k, dk = self.measure.evaluate(self.density, m, deriv=True)
         # compute objective function & its derivative
         obj = self.integrate(self.weights * k)
-        d_obj = np.zeros_like(x)
+        d_obj = np.zeros(len(x))
         for index in range(len(x)):
             d_obj[index] = self.integrate(self.weights * dk * dm[:, index])
         return obj, d_obj
-- 
2.43.0

