From 3f5a8f29d953d9b11bc53f4f634c3ce497df3ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 01/17] fix: absent coregionalized or diagonal part of a
 low-rank grid kernel is zero

The low-rank (slfm) representation used an identity matrix in place of the
coregionalized part when all kernels are independent, and in place of the
diagonal part when all kernels are SLFM, which added W W^T to the covariance.
---
 runlmc/lmc/grid_kernel.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runlmc/lmc/grid_kernel.py b/runlmc/lmc/grid_kernel.py
index 82ed108..106dc66 100644
--- a/runlmc/lmc/grid_kernel.py
+++ b/runlmc/lmc/grid_kernel.py
@@ -85,7 +85,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
     non_indep = fk.filter_non_indep_idxs(kidxs)
     all_coreg = [fk.coreg_vecs[idx] for idx in non_indep]
     if not all_coreg:
-        return Identity(m)
+        return Diag(np.zeros(m))
     ranks = np.array([len(coreg) for coreg in all_coreg])
     A_star = np.vstack(all_coreg).T
     I_m = Identity(np.prod(grid_k.shape[1:]))
@@ -102,7 +102,7 @@ def _gen_coreg_Ks(fk, grid_k, m, active_dim):
 
 def _gen_diag_Ks(fk, grid_k, m, active_dim):
     if fk.num_lmc[active_dim] == 0 and fk.num_indep[active_dim] == 0:
-        return Identity(m)
+        return Diag(np.zeros(m))
     kidxs = fk.active_dims[active_dim]
     diags = np.column_stack([fk.coreg_diags[kidx] for kidx in kidxs])
     Q = grid_k.shape[0]
-- 
2.43.0


From e100092982130cf86527c5ad9543cbce96f5f538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 02/17] fix: allow FunctionalKernel without LMC kernels

lmc_kernels and lmc_ranks default to None, but their lengths were taken
before the default was replaced, so SLFM-only and independent-only kernels
raised TypeError.
---
 runlmc/lmc/functional_kernel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runlmc/lmc/functional_kernel.py b/runlmc/lmc/functional_kernel.py
index d1bb0eb..61fdfce 100644
--- a/runlmc/lmc/functional_kernel.py
+++ b/runlmc/lmc/functional_kernel.py
@@ -95,13 +95,15 @@ class FunctionalKernel(Parameterized):
         if not lmc_kernels and not slfm_kernels and not indep_gp:
             raise ValueError('Number of kernels should be >0')
 
+        lmc_kernels = lmc_kernels or []
+        lmc_ranks = lmc_ranks or []
+
         if len(lmc_kernels) != len(lmc_ranks):
             raise ValueError('# LMC kernels should equal # LMC ranks')
 
         if not all(map(lambda rank: rank > 0, lmc_ranks)):
             raise ValueError('LMC ranks not positive')
 
-        lmc_kernels = lmc_kernels or []
         slfm_kernels = slfm_kernels or []
         indep_gp = indep_gp or []
         indep_gp_index = indep_gp_index or range(len(indep_gp))
-- 
2.43.0


From 63033c111d08da42efd722cd3e7d0edf1fc49304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 03/17] fix: evaluate the prior variance at an array of
 distances

Kernels are evaluated on arrays; the identity kernel failed on the scalar 0,
so no model containing it could predict.
---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index d867c28..1f52fe2 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -307,7 +307,7 @@ class InterpolatedLLGP(MultiGP):
                                  for per_output
                                  in self._functional_kernel.coreg_vecs)
         coregs += np.column_stack(self._functional_kernel.coreg_diags)
-        zero_dist = {v: 0 for v in self._functional_kernel.active_dims}
+        zero_dist = {v: np.zeros(1) for v in self._functional_kernel.active_dims}
         kernels = self._functional_kernel.eval_kernels(zero_dist)
         native_output_var = coregs.dot(kernels).reshape(-1)
         native_var = native_output_var + self._functional_kernel.noise
-- 
2.43.0


From 60a902555c33a76ceb129be50848c6610bb5769d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 04/17] fix: precompute mode with kernels that share a subset
 of the dimensions

There is a single interpolant in this case, but not necessarily one over all
input dimensions.
---
 runlmc/models/interpolated_llgp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index 1f52fe2..ada6478 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -369,7 +369,7 @@ class InterpolatedLLGP(MultiGP):
         if len(self.interpolants) != 1:
             raise ValueError(
                 'precompute prediction mode unavailable for split kernels')
-        W, WT = self.interpolants[tuple(range(self.input_dim))]
+        W, WT = list(self.interpolants.values()).pop()
         K_UU = self.kernel.K.Ks[0].grid_K
         # SKI should have a half_matrix() method returning these two,
         # in which case we'd just ask self.kernel.K.ski for them.
-- 
2.43.0


From 81e2e3153bd0e69d5bcf20b974c05ba22d87ea17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 05/17] fix: on-the-fly prediction with no test points at all

---
 runlmc/models/interpolated_llgp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/interpolated_llgp.py b/runlmc/models/interpolated_llgp.py
index ada6478..42619f9 100644
--- a/runlmc/models/interpolated_llgp.py
+++ b/runlmc/models/interpolated_llgp.py
@@ -391,7 +391,8 @@ class InterpolatedLLGP(MultiGP):
         K_test_X = ExactLMCLikelihood.kernel_from_indices(
             Xs, self.Xs, self._functional_kernel)
         ls = [(self.kernel.K, k_star) for k_star in K_test_X]
-        inverted = np.array(self._pool.starmap(Iterative.solve, ls)).T
+        inverted = np.array(self._pool.starmap(Iterative.solve, ls))
+        inverted = inverted.reshape(K_test_X.shape).T
 
         full_mat = K_test_X.dot(inverted)
         return np.diag(full_mat)
-- 
2.43.0


From 2a930294ab2cecfa9d2b745b131e6112795e1b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 06/17] fix: Jacobian gradient for the parameters of every
 prior

The comprehension iterated over the indices left over from the loop above it,
so only the parameters of one prior got their Jacobian term.
---
 runlmc/parameterization/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/parameterization/model.py b/runlmc/parameterization/model.py
index c2082fa..3979a4f 100644
--- a/runlmc/parameterization/model.py
+++ b/runlmc/parameterization/model.py
@@ -113,7 +113,7 @@ class Model(paramz.Model, _PriorizableNode):
 
         # Incorporate Jacobian for transformations again
         indices_with_prior = {
-            idx for idx in indices for _, indices in self.priors.items()}
+            idx for _, indices in self.priors.items() for idx in indices}
         for constraint, indices in self.constraints.items():
             if not isinstance(constraint, Transformation):
                 continue
-- 
2.43.0


From 8410afa4a256c0b4459f5e7d052030e8667cf140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 07/17] fix: autogrid does not alter the grid sizes passed in

---
 runlmc/approx/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 59e3897..25cbc42 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -209,7 +209,7 @@ def autogrid(Xs, lo, hi, m):
     delta = (hi - lo) / m
     lo -= 2 * delta
     hi += 2 * delta
-    m += 4
+    m = m + 4
 
     grids = [np.linspace(l, h, int(mm)) for l, h, mm in zip(lo, hi, m)]
     return grids
-- 
2.43.0


From 782f4d6a6ed77f12f418ec3275f9546d1ef949d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 08/17] fix: link the scale of a scaled kernel, so that it is
 learned

---
 runlmc/kern/scaled.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runlmc/kern/scaled.py b/runlmc/kern/scaled.py
index 6f17e51..59731f9 100644
--- a/runlmc/kern/scaled.py
+++ b/runlmc/kern/scaled.py
@@ -18,6 +18,7 @@ class Scaled(StationaryKern):
         self.k = k
         self.link_parameter(k)
         self.scale = Param('scale', 1, Logexp())
+        self.link_parameter(self.scale)
 
     def from_dist(self, dists):
         return self.scale * self.k.from_dist(dists)
-- 
2.43.0


From 141418d4bbbd86091718ec117adb24def97aa5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 09/17] fix: map_entries keeps positions for arrays not in C
 order

---
 runlmc/util/numpy_convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index b22445c..b2c9ae8 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -22,7 +22,7 @@ def map_entries(f, nparr):
     """
     if nparr.size == 0:
         return nparr
-    it = np.nditer(nparr)
+    it = np.nditer(nparr, order='C')
     shape = nparr.shape
     dtype = nparr.dtype
     return np.fromiter(map(f, it), dtype).reshape(shape)
-- 
2.43.0


From d05e377d65497b3815042c80fd3a842efdd8ee85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 10/17] fix: SKI.upper_eig_bound used an undefined attribute

It always raised AttributeError. Bound the norm of the interpolation matrix
instead.
---
 runlmc/approx/ski.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/runlmc/approx/ski.py b/runlmc/approx/ski.py
index ed095c6..ad4c622 100644
--- a/runlmc/approx/ski.py
+++ b/runlmc/approx/ski.py
@@ -20,4 +20,7 @@ class SKI(Composition):
         return self.W.dot(WKT.T)
 
     def upper_eig_bound(self):
-        return self.K.upper_eig_bound() * self.shape[0] / self.m
+        # ||W K W^T|| <= ||K|| ||W||^2, and ||W||^2 <= ||W||_1 ||W||_inf
+        absW = abs(self.W)
+        norm = absW.sum(axis=0).max() * absW.sum(axis=1).max()
+        return self.K.upper_eig_bound() * norm
-- 
2.43.0


From 64d3c79e060d90046cc28e2429c4b03db8fbf919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:40:48 +0000
Subject: [PATCH 11/17] fix: interpolation rejects grids that are not
 equispaced

As documented; the weights are meaningless on such grids.
---
 runlmc/approx/interpolation.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/runlmc/approx/interpolation.py b/runlmc/approx/interpolation.py
index 25cbc42..476efe9 100644
--- a/runlmc/approx/interpolation.py
+++ b/runlmc/approx/interpolation.py
@@ -53,6 +53,11 @@ def cubic_kernel(x):
     return y
 
 
+def _equispaced(grid):
+    deltas = np.diff(grid)
+    return np.allclose(deltas, deltas.mean(), rtol=1e-3, atol=0)
+
+
 def interp_cubic(grid, samples):
     """
     Given a one dimensional grid `grid` of size `m` (that's sorted) and
@@ -91,6 +96,9 @@ def interp_cubic(grid, samples):
     if grid_size < 4:
         raise ValueError('grid size {} must be >=4'.format(grid_size))
 
+    if not _equispaced(grid):
+        raise ValueError('grid is not equispaced')
+
     if samples.min() <= grid[0] or samples.max() >= grid[-1]:
         _LOG.warning('range of samples [%f, %f] outside grid range [%f, %f]',
                      samples.min(), samples.max(), grid[0], grid[-1])
@@ -247,6 +255,8 @@ def interp_bicubic(gridx, gridy, samples):  # pylint: disable=too-many-locals
             raise ValueError('{} dim {} should be 1'.format(s, grid.ndim))
         if grid.size < 4:
             raise ValueError('grid size {} must be >=4'.format(grid.size))
+        if not _equispaced(grid):
+            raise ValueError('{} is not equispaced'.format(s))
 
     if samples.ndim != 2 or samples.shape[1] != 2:
         raise ValueError(
-- 
2.43.0


From aa7335bc8f33b640759b42897a561522ab086aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:34 +0000
Subject: [PATCH 12/17] fix: half-Laplace log density gradient is elementwise

---
 runlmc/parameterization/priors.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runlmc/parameterization/priors.py b/runlmc/parameterization/priors.py
index 155d701..47c8f47 100644
--- a/runlmc/parameterization/priors.py
+++ b/runlmc/parameterization/priors.py
@@ -160,5 +160,5 @@ class HalfLaplace:
     def lnpdf(self, x):
         return self.constant - x / self.b
 
-    def lnpdf_grad(self, _):
-        return -1 / self.b
+    def lnpdf_grad(self, x):
+        return np.full(np.shape(x), -1 / self.b)[()]
-- 
2.43.0


From 6c8c97912ced94aaff04766ad9f72b0e9ac03267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:50:59 +0000
Subject: [PATCH 13/17] fix: property documentation inherited over more than
 one level

---
 runlmc/util/docs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/runlmc/util/docs.py b/runlmc/util/docs.py
index c5003dc..2d258c0 100644
--- a/runlmc/util/docs.py
+++ b/runlmc/util/docs.py
@@ -25,14 +25,14 @@ def inherit_doc(cls):
                 if parfunc and getattr(parfunc, '__doc__', None):
                     func.__doc__ = parfunc.__doc__
                     break
-        elif isinstance(func, property) and not func.fget.__doc__:
+        elif isinstance(func, property) and not func.__doc__:
             for parent in cls.__bases__:
                 parprop = getattr(parent, name, None)
-                if parprop and getattr(parprop.fget, '__doc__', None):
+                if parprop and getattr(parprop, '__doc__', None):
                     newprop = property(fget=func.fget,
                                        fset=func.fset,
                                        fdel=func.fdel,
-                                       doc=parprop.fget.__doc__)
+                                       doc=parprop.__doc__)
                     setattr(cls, name, newprop)
                     break
 
-- 
2.43.0


From c3b77e0dce6696ac365887b1fe1976135e92b32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:52 +0000
Subject: [PATCH 14/17] fix: outputs of equal values are rejected whatever
 their rounding

---
 runlmc/models/multigp.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runlmc/models/multigp.py b/runlmc/models/multigp.py
index c27a512..2512eeb 100644
--- a/runlmc/models/multigp.py
+++ b/runlmc/models/multigp.py
@@ -221,7 +221,8 @@ class MultiGP(Model):
                 'Found inputs of varying dimensions {}'.format(dims))
 
         for i, Y in enumerate(Ys):
-            if np.std(Y) == 0:
+            # rounding may give equal values a nonzero standard deviation
+            if np.std(Y) == 0 or (len(Y) and np.ptp(Y) == 0):
                 raise ValueError('Output {} has std dev 0'.format(i))
 
         return dims.pop(), len(Xs)
-- 
2.43.0


From c3c0b519299e1e84b1fe9f7669a95dae25737c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:40:45 +0000
Subject: [PATCH 15/17] fix: AdaDelta moves a copy of its starting point

---
 runlmc/models/optimization.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runlmc/models/optimization.py b/runlmc/models/optimization.py
index f1b09db..a8c80f8 100644
--- a/runlmc/models/optimization.py
+++ b/runlmc/models/optimization.py
@@ -2,6 +2,7 @@
 # Licensed under the BSD 3-clause license (see LICENSE)
 
 import climin
+import numpy as np
 from paramz.optimization import Optimizer
 import scipy.linalg as la
 
@@ -57,6 +58,9 @@ class AdaDelta(Optimizer):
                   'grad norm {:10.4e}'.format(grad_norm))
 
     def opt(self, x, f_fp=None, f=None, fp=None):
+        # climin moves its point in place, which must not be the caller's
+        # (for a model, this array is shared with the model itself)
+        x = np.array(x, dtype=float)
         ada = self._prepare_adadelta(x, fp)
 
         min_grad_ratio = self.kwargs['min_grad_ratio']
-- 
2.43.0


From 15adf2c8e234065e7d274ba61fec6cdb3780b880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:19 +0000
Subject: [PATCH 16/17] fix: search_descending compares entries, differences of
 unsigned ones wrap

---
 runlmc/util/numpy_convenience.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index b2c9ae8..7294816 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -62,7 +62,7 @@ def search_descending(x, xs, inclusive):
     :raises ValueError: if array is not weakly decreasing
     """
     xs = np.array(xs)
-    if np.any(np.diff(xs) > 0):
+    if np.any(xs[1:] > xs[:-1]):
         raise ValueError('array is not weakly decreasing:\n{}'.format(xs))
     option = 'left' if inclusive else 'right'
     idx = np.searchsorted(xs[::-1], x, option)
-- 
2.43.0


From 2b7ce778468be0b7091d148254da0bc88a460ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:19 +0000
Subject: [PATCH 17/17] fix: tesselate sums segment lengths as int, narrow
 numpy ones wrapped

---
 runlmc/util/numpy_convenience.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/runlmc/util/numpy_convenience.py b/runlmc/util/numpy_convenience.py
index 7294816..b2b87ea 100644
--- a/runlmc/util/numpy_convenience.py
+++ b/runlmc/util/numpy_convenience.py
@@ -5,8 +5,6 @@
 Convenience functions for working with numpy arrays.
 """
 
-from itertools import accumulate
-
 import numpy as np
 import scipy.linalg as la
 
@@ -40,7 +38,7 @@ def tesselate(nparr, lenit):
     :raise ValueError: if the sum of lengths doesn't correspond to the array
                        size.
     """
-    ends = np.fromiter(accumulate(lenit), dtype=np.int)
+    ends = np.cumsum(np.fromiter(lenit, dtype=np.int))
     if not ends.size:
         raise ValueError('no segment lengths specified')
     if nparr.shape[0] != ends[-1]:
-- 
2.43.0

