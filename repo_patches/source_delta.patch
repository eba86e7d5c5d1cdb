From b8ac33ac431859151e7d7830e03c0e4602ef20b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 01/18] fix: do not modify the caller's center array in place
 when a cut is applied

---
 src/ellalgo/ell.py        | 3 ++-
 src/ellalgo/ell_stable.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..66a006a 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -253,7 +253,8 @@ class Ell(SearchSpace[ArrayType]):
         rho, sigma, delta = result
 
         # Update center point: xc -= (rho/omega) * grad_t
-        self._xc -= (rho / omega) * grad_t
+        # (a new array: callers may still hold the previous center)
+        self._xc = self._xc - (rho / omega) * grad_t
         # Update matrix: M -= (sigma/omega) * grad_t * grad_t^T
         self._mq -= (sigma / omega) * np.outer(grad_t, grad_t)
         # Update scaling factor
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..400c917 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -230,7 +230,8 @@ class EllStable(SearchSpace[ArrayType]):
 
         # print(g_t)
         # calculate xc: n
-        self._xc -= (rho / omega) * g_t
+        # (a new array: callers may still hold the previous center)
+        self._xc = self._xc - (rho / omega) * g_t
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-- 
2.43.0


From 127bc175df652b2255ea1fb7d2d6793aa7b089f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 02/18] fix: EllStable.no_defer_trick must scale only the
 diagonal factor

---
 src/ellalgo/ell_stable.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 400c917..5d786bf 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -254,6 +254,8 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            # only inv(D) carries the scale; L is unit lower triangular
+            for i in range(self._ndim):
+                self._mq[i, i] *= self._kappa
             self._kappa = 1.0
         return status
-- 
2.43.0


From b589441e81392b4720e3bacb2b244b87f1c5f873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 03/18] fix: EllStable must not truncate with integer-typed
 gradients

---
 src/ellalgo/ell_stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 5d786bf..66eb3c9 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -193,6 +193,7 @@ class EllStable(SearchSpace[ArrayType]):
             CutStatus.Success
         """
         g, beta = cut
+        g = np.asarray(g, dtype=float)  # integer arrays would truncate below
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
-- 
2.43.0


From 1831238ee7a9c3600f80dc47a9a7f73e7f133da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 04/18] fix: accept integer-typed diagonals for the initial
 ellipsoid

---
 src/ellalgo/ell.py        | 2 +-
 src/ellalgo/ell_stable.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 66a006a..1f4f897 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -83,7 +83,7 @@ class Ell(SearchSpace[ArrayType]):
         else:
             # Case 2: val is a list/array, create diagonal matrix
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 66eb3c9..7af4f60 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -76,7 +76,7 @@ class EllStable(SearchSpace[ArrayType]):
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
-- 
2.43.0


From 4203f9c2a866b816e767ca3142e756e93f271f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 05/18] fix: conjugate_gradient returns an initial guess that
 already solves the system

---
 src/ellalgo/conjugate_gradient.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c0b6321..8fb2ece 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -58,12 +58,14 @@ def conjugate_gradient(
             dimension
         )  # Initialize solution vector with zeros if no initial guess
     else:
-        solution = x0.copy()  # Use provided initial guess
+        solution = np.array(x0, dtype=float)  # Use provided initial guess
 
     # Initial residual calculation: residual = b - A*solution
     residual = b - np.dot(A, solution)
     direction = residual.copy()  # Initial search direction is set to residual
     residual_norm_sq = np.dot(residual, residual)  # Squared norm of residual
+    if np.sqrt(residual_norm_sq) < tol:
+        return solution  # The initial guess already solves the system
 
     for iteration in range(max_iter):
         A_direction = np.dot(A, direction)  # Matrix-vector product for line search
-- 
2.43.0


From 2f1f3a972960547d61aceada2d6468c87b59196e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 06/18] fix: LDLTMgr.witness clears entries left by an earlier
 factorization

---
 src/ellalgo/oracles/ldlt_mgr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ellalgo/oracles/ldlt_mgr.py b/src/ellalgo/oracles/ldlt_mgr.py
index 4cce5c0..1e11f5a 100644
--- a/src/ellalgo/oracles/ldlt_mgr.py
+++ b/src/ellalgo/oracles/ldlt_mgr.py
@@ -210,6 +210,7 @@ class LDLTMgr:
             raise AssertionError()
         start, pos = self.pos
         m = pos - 1
+        self.wit[:] = 0.0  # drop entries of an earlier factorization
         self.wit[m] = 1.0
         for i in range(m, start, -1):
             self.wit[i - 1] = -self._storage[i:pos, i - 1].dot(self.wit[i:pos])
-- 
2.43.0


From ae9fb9216800c97f4cbf4dd10f76d8f61bfe11ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:36:21 +0000
Subject: [PATCH 07/18] fix: cutting_plane_optim_q keeps a copy of the best
 point

---
 src/ellalgo/cutting_plane.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index aa022eb..ea0a2ce 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -276,7 +276,7 @@ def cutting_plane_optim_q(
         cut, x_q, gamma1, more_alt = omega.assess_optim_q(space_q.xc(), gamma, retry)
         if gamma1 is not None:  # Improved objective value
             gamma = gamma1
-            x_best = x_q
+            x_best = copy.copy(x_q)
         # Update search space with quantized cut
         status = space_q.update_q(cut)
         if status == CutStatus.Success:
-- 
2.43.0


From d9c8f1d6082ab0f9041253edd4b92725291bea55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:35 +0000
Subject: [PATCH 08/18] fix: a parallel cut that misses the ellipsoid on the
 far side has no solution

---
 src/ellalgo/ell_calc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index a667d89..a8d6587 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -158,6 +158,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # both cuts miss the ellipsoid
         return (
             CutStatus.Success,
             self.helper.calc_parallel_bias_cut(beta0, beta1, tsq),
@@ -251,6 +253,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut_q(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # both cuts miss the ellipsoid
         b0b1 = beta0 * beta1
         eta = tsq + self._n_f * b0b1
         if eta <= 0.0:  # for discrete optimization
-- 
2.43.0


From e33743ec23a523f6b840bf46e2f3264284566bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:35 +0000
Subject: [PATCH 09/18] fix: a parallel bias cut too shallow to shrink the
 ellipsoid must not cut off solutions

---
 src/ellalgo/ell_calc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index a8d6587..1090bc0 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -160,6 +160,8 @@ class EllCalc:
             return self.calc_bias_cut(beta0, tsq)
         if beta1 < 0.0 and tsq < b1sq:
             return (CutStatus.NoSoln, None)  # both cuts miss the ellipsoid
+        if tsq + self._n_f * (beta0 * beta1) < 0.0:
+            return (CutStatus.NoEffect, None)  # too shallow to shrink anything
         return (
             CutStatus.Success,
             self.helper.calc_parallel_bias_cut(beta0, beta1, tsq),
-- 
2.43.0


From 55b62f92063a617509492929129397e06482f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:35 +0000
Subject: [PATCH 10/18] fix: cutting a flat ellipsoid has no effect instead of
 raising a domain error

---
 src/ellalgo/ell.py        | 4 ++--
 src/ellalgo/ell_stable.py | 2 ++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 1f4f897..0135ddf 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -238,10 +238,10 @@ class Ell(SearchSpace[ArrayType]):
         grad_t = self._mq @ grad  # n^2 multiplications
         # Calculate grad^T * (M * grad)
         omega = grad.dot(grad_t)  # n multiplications
-        if omega == 0.0:
-            return CutStatus.NoEffect
         # Update tsq measure
         self._tsq = self._kappa * omega
+        if self._tsq <= 0.0:  # the ellipsoid is flat along the gradient
+            return CutStatus.NoEffect
 
         # Get update parameters from the strategy
         status, result = cut_strategy(beta, self._tsq)
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 7af4f60..57da72f 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -215,6 +215,8 @@ class EllStable(SearchSpace[ArrayType]):
         omega = sum(gg_t)
 
         self._tsq = self._kappa * omega  # need for helper
+        if self._tsq <= 0.0:  # the ellipsoid is flat along the gradient
+            return CutStatus.NoEffect
 
         status, result = cut_strategy(beta, self._tsq)
 
-- 
2.43.0


From 35c21b798d40565c9fcefb95ecb2e854e3bef732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:37:35 +0000
Subject: [PATCH 11/18] fix: EllStable handles equality and tangent cuts
 without dividing by zero

---
 src/ellalgo/ell_stable.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 57da72f..a38d7bb 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -238,17 +238,22 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        mu = sigma / (1.0 - sigma)
-        if mu == 0.0:
-            return status
-        oldt = omega / mu  # initially
+        if sigma < 1.0:
+            mu = sigma / (1.0 - sigma)
+            if mu == 0.0:
+                return status
+            oldt = omega / mu  # initially
+        else:  # the ellipsoid becomes flat along g
+            oldt = 0.0
         v = g.copy()
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
-            beta2 = temp / newt
-            self._mq[j, j] *= oldt / newt  # update invD
+            beta2 = 0.0
+            if newt > 0.0:
+                beta2 = temp / newt
+                self._mq[j, j] *= oldt / newt  # update invD
             for k in range(j + 1, self._ndim):
                 v[k] -= self._mq[j, k]
                 self._mq[k, j] += beta2 * v[k]
-- 
2.43.0


From db6f71dedf22a033e498a49528864cc91a51fef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:02:07 +0000
Subject: [PATCH 12/18] fix: binary search over integers beyond 2**53 probed
 outside the interval

---
 src/ellalgo/cutting_plane.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/cutting_plane.py b/src/ellalgo/cutting_plane.py
index ea0a2ce..c60eb9e 100644
--- a/src/ellalgo/cutting_plane.py
+++ b/src/ellalgo/cutting_plane.py
@@ -327,7 +327,10 @@ def bsearch(
         tau = (upper - lower) / 2
         if tau < options.tolerance:  # Convergence check
             return upper, niter
-        gamma = T(lower + tau)
+        if isinstance(lower, int) and isinstance(upper, int):
+            gamma = lower + (upper - lower) // 2  # exact, however large
+        else:
+            gamma = T(lower + tau)
         if omega.assess_bs(gamma):  # Feasible -> move upper bound down
             upper = gamma
         else:  # Infeasible -> move lower bound up
-- 
2.43.0


From 7920fec4e667809e9f310f20c5d2dd9e390badc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:04 +0000
Subject: [PATCH 13/18] fix: LMIOldOracle raised on an integer constant matrix

---
 src/ellalgo/oracles/lmi_old_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/lmi_old_oracle.py b/src/ellalgo/oracles/lmi_old_oracle.py
index e9b6a10..7e65845 100644
--- a/src/ellalgo/oracles/lmi_old_oracle.py
+++ b/src/ellalgo/oracles/lmi_old_oracle.py
@@ -76,8 +76,7 @@ class LMIOldOracle(OracleFeas):
             True
         """
         n = len(xc)
-        A = self.mat_f0.copy()
-        A -= sum(self.mat_f[k] * xc[k] for k in range(n))
+        A = self.mat_f0 - sum(self.mat_f[k] * xc[k] for k in range(n))
         if not self.ldlt_mgr.factorize(A):
             ep = self.ldlt_mgr.witness()
             g = np.array([self.ldlt_mgr.sym_quad(self.mat_f[i]) for i in range(n)])
-- 
2.43.0


From 071d7cd3d590857be01405fb7f85ba65f6e97051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:47 +0000
Subject: [PATCH 14/18] fix: cut offsets given as NumPy scalars raised or lost
 precision

---
 src/ellalgo/ell_calc.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index 1090bc0..9c9ebcc 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -14,6 +14,7 @@ Cut types supported:
 """
 
 from math import sqrt
+from numbers import Real
 from typing import Optional, Tuple
 
 from .ell_calc_core import EllCalcCore
@@ -88,13 +89,13 @@ class EllCalc:
             A tuple containing the `CutStatus` and an optional tuple of the
             update parameters (rho, sigma, delta) if the cut is successful.
         """
-        if isinstance(beta, (int, float)):
-            return self.calc_bias_cut(beta, tsq)
+        if isinstance(beta, Real):  # NumPy scalars as well
+            return self.calc_bias_cut(float(beta), tsq)
         elif len(beta) < 2 or not self.use_parallel_cut:  # unlikely
-            return self.calc_bias_cut(beta[0], tsq)
+            return self.calc_bias_cut(float(beta[0]), tsq)
         b1 = beta[1]
         assert b1 is not None
-        return self.calc_parallel(beta[0], b1, tsq)
+        return self.calc_parallel(float(beta[0]), float(b1), tsq)
 
     def calc_single_or_parallel_central_cut(
         self, beta: CutChoice, tsq: float
@@ -122,10 +123,11 @@ class EllCalc:
             >>> result[0] == approx(0.02)
             True
         """
-        if isinstance(beta, (int, float)) or len(beta) < 2 or not self.use_parallel_cut:
+        if isinstance(beta, Real) or len(beta) < 2 or not self.use_parallel_cut:
             return (CutStatus.Success, self.helper.calc_central_cut(sqrt(tsq)))
         b1 = beta[1]
         assert b1 is not None
+        b1 = float(b1)
         if b1 < 0.0:
             return (CutStatus.NoSoln, None)
         b1sq = b1 * b1
@@ -226,13 +228,13 @@ class EllCalc:
         Returns:
             Status and optional result tuple.
         """
-        if isinstance(beta, (int, float)):
-            return self.calc_bias_cut_q(beta, tsq)
+        if isinstance(beta, Real):  # NumPy scalars as well
+            return self.calc_bias_cut_q(float(beta), tsq)
         elif len(beta) < 2 or not self.use_parallel_cut:  # unlikely
-            return self.calc_bias_cut_q(beta[0], tsq)
+            return self.calc_bias_cut_q(float(beta[0]), tsq)
         b1 = beta[1]
         assert b1 is not None
-        return self.calc_parallel_q(beta[0], b1, tsq)
+        return self.calc_parallel_q(float(beta[0]), float(b1), tsq)
 
     def calc_parallel_q(
         self, beta0: float, beta1: float, tsq: float
-- 
2.43.0


From 7e7c9d62aa6b429cd26b86765f534605d4474773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:57 +0000
Subject: [PATCH 15/18] fix: initial sizes given as NumPy scalars were refused

---
 src/ellalgo/ell.py        | 5 +++--
 src/ellalgo/ell_stable.py | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 0135ddf..100ca6a 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -12,6 +12,7 @@ Key operations:
     - update_q: Apply a cut for discrete/quantized optimization
 """
 
+from numbers import Real
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -76,9 +77,9 @@ class Ell(SearchSpace[ArrayType]):
         self.helper = EllCalc(ndim)
         self._xc = x_center
         self._tsq = 0.0
-        if isinstance(val, (int, float)):
+        if isinstance(val, Real):
             # Case 1: val is a scalar (kappa), create identity matrix
-            self._kappa = val
+            self._kappa = float(val)
             self._mq = np.eye(ndim)
         else:
             # Case 2: val is a list/array, create diagonal matrix
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index a38d7bb..dc5775a 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -12,6 +12,7 @@ Key differences from `Ell`:
     - Implements rank-one updates for the LDL^T factors
 """
 
+from numbers import Real
 from typing import Callable, Tuple, Union
 
 import numpy as np
@@ -71,8 +72,8 @@ class EllStable(SearchSpace[ArrayType]):
         self._xc = x_center
         self._tsq = 0.0
         self._ndim = ndim
-        if isinstance(val, (int, float)):
-            self._kappa = val
+        if isinstance(val, Real):
+            self._kappa = float(val)
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-- 
2.43.0


From c6866c9df40b7dbf62cdca784d8ec7fd934a55dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:12:02 +0000
Subject: [PATCH 16/18] fix: power_iteration3 underflowed to NaN when the
 dominant eigenvalue is below one

---
 experiment/power_iteration.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/experiment/power_iteration.py b/experiment/power_iteration.py
index 09f3f3a..4373e6a 100644
--- a/experiment/power_iteration.py
+++ b/experiment/power_iteration.py
@@ -128,7 +128,7 @@ def power_iteration3(
         ld1 = ld
         x[:] = new[:]
         dot = x @ x
-        if dot >= 1e150:
+        if not 1e-150 < dot < 1e150:
             x /= np.sqrt(np.sum(x**2))
             new = A @ x
             ld = x @ new
-- 
2.43.0


From 6ccce974647e7434f1d8a1141b6f6c42115bce48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:29:38 +0000
Subject: [PATCH 17/18] fix: EllStable amplified rounding noise in equality
 cuts after an earlier equality cut

---
 src/ellalgo/ell_stable.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index dc5775a..d221c5b 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -251,6 +251,8 @@ class EllStable(SearchSpace[ArrayType]):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
+            if newt <= 1e-24 * omega:  # flat along g: nothing but rounding so far
+                newt = 0.0
             beta2 = 0.0
             if newt > 0.0:
                 beta2 = temp / newt
-- 
2.43.0


From 19a57a5af30dec8fe771cd3d26a21a99f1d5f4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:12:59 +0000
Subject: [PATCH 18/18] fix: the robust profit oracle truncated integer-typed
 elasticities

---
 src/ellalgo/oracles/profit_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/profit_oracle.py b/src/ellalgo/oracles/profit_oracle.py
index 0506c69..7d3d27b 100644
--- a/src/ellalgo/oracles/profit_oracle.py
+++ b/src/ellalgo/oracles/profit_oracle.py
@@ -15,7 +15,6 @@ All oracles return cutting planes (subgradient + violation) that the
 cutting-plane algorithm uses to iteratively narrow the search space.
 """
 
-import copy
 import math
 from typing import Optional, Tuple
 
@@ -240,7 +239,7 @@ class ProfitRbOracle(OracleOptim):
         - Decreases effective α, β when y > 0 (conservative adjustment)
         - Increases effective α, β when y ≤ 0 (worst-case scenario)
         """
-        a_rb = copy.copy(self.elasticities)
+        a_rb = np.array(self.elasticities, dtype=float)
         for i in [0, 1]:
             a_rb[i] += -self.uie[i] if xc[i] > 0.0 else self.uie[i]
         self.omega.elasticities = a_rb
-- 
2.43.0

