From 90418dd158d33425018d11551c273f5c8958b280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:26 +0000
Subject: [PATCH 01/14] fix: EllStable.no_defer_trick must rescale only the
 diagonal of the LDL^T factors

Multiplying the whole storage by kappa also scaled the unit lower factor L, so
the represented ellipsoid changed shape after every update.
---
 src/ellalgo/ell_stable.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index d0786f1..505caa4 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -253,6 +253,7 @@ class EllStable(SearchSpace[ArrayType]):
         self._kappa *= delta
 
         if self.no_defer_trick:
-            self._mq *= self._kappa
+            for i in range(self._ndim):
+                self._mq[i, i] *= self._kappa  # only invD scales, not L
             self._kappa = 1.0
         return status
-- 
2.43.0


From 29f75030cf4345e5d107372f40df735c61487449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 02/14] fix: EllStable must survive a cut tangent to the
 ellipsoid (sigma == 1)

A deep cut with beta == tau is reported as Success by the calculator and handled
by Ell, but EllStable divided by 1 - sigma and raised ZeroDivisionError after the
centre had already been moved.
---
 src/ellalgo/ell_stable.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 505caa4..558177a 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -234,17 +234,18 @@ class EllStable(SearchSpace[ArrayType]):
 
         # rank-one update: 3*n + (n-1)*n/2
         # r = self._sigma / omega
-        mu = sigma / (1.0 - sigma)
-        if mu == 0.0:
+        if sigma == 0.0:
             return status
-        oldt = omega / mu  # initially
+        oldt = omega * (1.0 - sigma) / sigma  # initially (0 for a tangent cut)
         v = g.copy()
         for j in range(self._ndim):
             p = v[j]
             temp = inv_diag_inv_lower_g[j]
             newt = oldt + p * temp
-            beta2 = temp / newt
-            self._mq[j, j] *= oldt / newt  # update invD
+            beta2 = 0.0
+            if newt != 0.0:
+                beta2 = temp / newt
+                self._mq[j, j] *= oldt / newt  # update invD
             for k in range(j + 1, self._ndim):
                 v[k] -= self._mq[j, k]
                 self._mq[k, j] += beta2 * v[k]
-- 
2.43.0


From 020c9f958860906a5ebd4475d6ba0b6d0f92ebd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 03/14] fix: calc_parallel_q must report NoSoln when the slab
 lies beyond the ellipsoid

For beta0 <= beta1 < -tau the slab misses the ellipsoid entirely, but the cut was
reported as Success with a negative delta.
---
 src/ellalgo/ell_calc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index a667d89..4f8858e 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -251,6 +251,8 @@ class EllCalc:
         b1sq = beta1 * beta1
         if beta1 > 0.0 and tsq <= b1sq:
             return self.calc_bias_cut_q(beta0, tsq)
+        if beta1 < 0.0 and tsq < b1sq:
+            return (CutStatus.NoSoln, None)  # the slab misses the ellipsoid
         b0b1 = beta0 * beta1
         eta = tsq + self._n_f * b0b1
         if eta <= 0.0:  # for discrete optimization
-- 
2.43.0


From d5938c50e39c1de8bf9b421218964a8773fee730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 04/14] fix: conjugate_gradient must accept an initial guess
 that already solves the system

A zero initial residual (for example b = 0, or x0 exact) made the first search
direction zero and was reported as non-convergence.
---
 src/ellalgo/conjugate_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index c0b6321..2c9f989 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -64,6 +64,8 @@ def conjugate_gradient(
     residual = b - np.dot(A, solution)
     direction = residual.copy()  # Initial search direction is set to residual
     residual_norm_sq = np.dot(residual, residual)  # Squared norm of residual
+    if np.sqrt(residual_norm_sq) < tol:
+        return solution  # The initial guess already solves the system
 
     for iteration in range(max_iter):
         A_direction = np.dot(A, direction)  # Matrix-vector product for line search
-- 
2.43.0


From bed2c794b0fde5a5f8639e49d9c97fbc09496320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:21:55 +0000
Subject: [PATCH 05/14] fix: EllStable must reject a zero gradient like Ell
 does

Ell raises ValueError for a zero gradient and reports NoEffect for a direction in
which the ellipsoid is flat; EllStable ran into 0/0 instead.
---
 src/ellalgo/ell_stable.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 558177a..a42b526 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -193,6 +193,8 @@ class EllStable(SearchSpace[ArrayType]):
             CutStatus.Success
         """
         g, beta = cut
+        if np.all(g == 0.0):
+            raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
         inv_lower_g = g.copy()  # initially
@@ -212,6 +214,8 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
+        if omega == 0.0:
+            return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
 
-- 
2.43.0


From fd0fe95ebf7aa308774a54063357d9a95497a698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:34:59 +0000
Subject: [PATCH 06/14] fix: EllStable must accept a gradient of integers
 without truncating the factors

---
 src/ellalgo/ell_stable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index a42b526..40fe85d 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -197,6 +197,7 @@ class EllStable(SearchSpace[ArrayType]):
             raise ValueError("Gradient cannot be a zero vector.")
 
         # calculate inv(L)*g: (n-1)*n/2 multiplications
+        g = np.asarray(g, dtype=float)  # the factors are not integers, even if g is
         inv_lower_g = g.copy()  # initially
 
         for j in range(self._ndim - 1):
-- 
2.43.0


From bc035619f6d1b06c720df298cd4ac7360aba1e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:35:19 +0000
Subject: [PATCH 07/14] fix: Ell and EllStable must accept integer axes and
 centres

---
 src/ellalgo/ell.py        | 6 +++---
 src/ellalgo/ell_stable.py | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index ca45145..3b0637c 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -74,7 +74,7 @@ class Ell(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = np.asarray(x_center, dtype=float)
         self._tsq = 0.0
         if isinstance(val, (int, float)):
             # Case 1: val is a scalar (kappa), create identity matrix
@@ -83,7 +83,7 @@ class Ell(SearchSpace[ArrayType]):
         else:
             # Case 2: val is a list/array, create diagonal matrix
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
@@ -101,7 +101,7 @@ class Ell(SearchSpace[ArrayType]):
         Args:
             x_center: The new center point for the ellipsoid
         """
-        self._xc = x_center
+        self._xc = np.asarray(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index 40fe85d..f1bb0d7 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -68,7 +68,7 @@ class EllStable(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = x_center
+        self._xc = np.asarray(x_center, dtype=float)
         self._tsq = 0.0
         self._ndim = ndim
         if isinstance(val, (int, float)):
@@ -76,7 +76,7 @@ class EllStable(SearchSpace[ArrayType]):
             self._mq = np.eye(ndim)
         else:
             self._kappa = 1.0
-            self._mq = np.diag(val)
+            self._mq = np.diag(np.asarray(val, dtype=float))
 
     def xc(self) -> ArrayType:
         """
@@ -92,7 +92,7 @@ class EllStable(SearchSpace[ArrayType]):
         :param x_center: The parameter `x_center` is of type `ArrayType`
         :type x_center: ArrayType
         """
-        self._xc = x_center
+        self._xc = np.asarray(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
-- 
2.43.0


From d6802da9e890814542e93fcd0ec21d9306233d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:36:54 +0000
Subject: [PATCH 08/14] fix: conjugate_gradient must accept an initial guess of
 integers

---
 src/ellalgo/conjugate_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ellalgo/conjugate_gradient.py b/src/ellalgo/conjugate_gradient.py
index 2c9f989..8fb2ece 100644
--- a/src/ellalgo/conjugate_gradient.py
+++ b/src/ellalgo/conjugate_gradient.py
@@ -58,7 +58,7 @@ def conjugate_gradient(
             dimension
         )  # Initialize solution vector with zeros if no initial guess
     else:
-        solution = x0.copy()  # Use provided initial guess
+        solution = np.array(x0, dtype=float)  # Use provided initial guess
 
     # Initial residual calculation: residual = b - A*solution
     residual = b - np.dot(A, solution)
-- 
2.43.0


From c19e0b92e9f298025849e8a3b8a18f010419221d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:05 +0000
Subject: [PATCH 09/14] fix: ProfitRbOracle must not truncate the uncertainty
 of integer elasticities

---
 src/ellalgo/oracles/profit_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/profit_oracle.py b/src/ellalgo/oracles/profit_oracle.py
index 0506c69..7d3d27b 100644
--- a/src/ellalgo/oracles/profit_oracle.py
+++ b/src/ellalgo/oracles/profit_oracle.py
@@ -15,7 +15,6 @@ All oracles return cutting planes (subgradient + violation) that the
 cutting-plane algorithm uses to iteratively narrow the search space.
 """
 
-import copy
 import math
 from typing import Optional, Tuple
 
@@ -240,7 +239,7 @@ class ProfitRbOracle(OracleOptim):
         - Decreases effective α, β when y > 0 (conservative adjustment)
         - Increases effective α, β when y ≤ 0 (worst-case scenario)
         """
-        a_rb = copy.copy(self.elasticities)
+        a_rb = np.array(self.elasticities, dtype=float)
         for i in [0, 1]:
             a_rb[i] += -self.uie[i] if xc[i] > 0.0 else self.uie[i]
         self.omega.elasticities = a_rb
-- 
2.43.0


From 6a20568003773bb70d658cee3de1df6378f59de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:37:05 +0000
Subject: [PATCH 10/14] fix: LMIOldOracle must accept a constant term of
 integers

---
 src/ellalgo/oracles/lmi_old_oracle.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/ellalgo/oracles/lmi_old_oracle.py b/src/ellalgo/oracles/lmi_old_oracle.py
index e9b6a10..7e65845 100644
--- a/src/ellalgo/oracles/lmi_old_oracle.py
+++ b/src/ellalgo/oracles/lmi_old_oracle.py
@@ -76,8 +76,7 @@ class LMIOldOracle(OracleFeas):
             True
         """
         n = len(xc)
-        A = self.mat_f0.copy()
-        A -= sum(self.mat_f[k] * xc[k] for k in range(n))
+        A = self.mat_f0 - sum(self.mat_f[k] * xc[k] for k in range(n))
         if not self.ldlt_mgr.factorize(A):
             ep = self.ldlt_mgr.witness()
             g = np.array([self.ldlt_mgr.sym_quad(self.mat_f[i]) for i in range(n)])
-- 
2.43.0


From f4562d74151f839b34a8e4dfd0c53e4a1242e976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:36 +0000
Subject: [PATCH 11/14] fix: Ell and EllStable must not move the array their
 centre was given by

---
 src/ellalgo/ell.py        | 4 ++--
 src/ellalgo/ell_stable.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 3b0637c..5ec90ba 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -74,7 +74,7 @@ class Ell(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = np.asarray(x_center, dtype=float)
+        self._xc = np.array(x_center, dtype=float)
         self._tsq = 0.0
         if isinstance(val, (int, float)):
             # Case 1: val is a scalar (kappa), create identity matrix
@@ -101,7 +101,7 @@ class Ell(SearchSpace[ArrayType]):
         Args:
             x_center: The new center point for the ellipsoid
         """
-        self._xc = np.asarray(x_center, dtype=float)
+        self._xc = np.array(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index f1bb0d7..bf17658 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -68,7 +68,7 @@ class EllStable(SearchSpace[ArrayType]):
         """
         ndim = len(x_center)
         self.helper = EllCalc(ndim)
-        self._xc = np.asarray(x_center, dtype=float)
+        self._xc = np.array(x_center, dtype=float)
         self._tsq = 0.0
         self._ndim = ndim
         if isinstance(val, (int, float)):
@@ -92,7 +92,7 @@ class EllStable(SearchSpace[ArrayType]):
         :param x_center: The parameter `x_center` is of type `ArrayType`
         :type x_center: ArrayType
         """
-        self._xc = np.asarray(x_center, dtype=float)
+        self._xc = np.array(x_center, dtype=float)
 
     def tsq(self) -> float:
         """
-- 
2.43.0


From 131cbd64ffbda8f534ff9d0db9908d8bd7034878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:55:47 +0000
Subject: [PATCH 12/14] fix: LDLTMgr.witness must not keep entries of an
 earlier witness vector

---
 src/ellalgo/oracles/ldlt_mgr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ellalgo/oracles/ldlt_mgr.py b/src/ellalgo/oracles/ldlt_mgr.py
index 4cce5c0..9b0d1b4 100644
--- a/src/ellalgo/oracles/ldlt_mgr.py
+++ b/src/ellalgo/oracles/ldlt_mgr.py
@@ -210,6 +210,8 @@ class LDLTMgr:
             raise AssertionError()
         start, pos = self.pos
         m = pos - 1
+        self.wit[:start] = 0.0  # forget the witness of an earlier factorization
+        self.wit[pos:] = 0.0
         self.wit[m] = 1.0
         for i in range(m, start, -1):
             self.wit[i - 1] = -self._storage[i:pos, i - 1].dot(self.wit[i:pos])
-- 
2.43.0


From 8c4ec346970f2530a48059419323e943f23ae6ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:31:37 +0000
Subject: [PATCH 13/14] fix: a deep cut on an ellipsoid that is flat along the
 gradient must not divide by zero

---
 src/ellalgo/ell_calc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/ellalgo/ell_calc.py b/src/ellalgo/ell_calc.py
index 4f8858e..b19cdac 100644
--- a/src/ellalgo/ell_calc.py
+++ b/src/ellalgo/ell_calc.py
@@ -156,7 +156,7 @@ class EllCalc:
         if beta1 < beta0:
             return (CutStatus.NoSoln, None)  # no sol'n
         b1sq = beta1 * beta1
-        if beta1 > 0.0 and tsq <= b1sq:
+        if beta1 >= 0.0 and tsq <= b1sq:
             return self.calc_bias_cut(beta0, tsq)
         return (
             CutStatus.Success,
@@ -202,6 +202,8 @@ class EllCalc:
         if tsq < bsq:
             return (CutStatus.NoSoln, None)  # no sol'n
         tau = sqrt(tsq)
+        if tau == 0.0:  # flat along the gradient, and not cut off
+            return (CutStatus.Success, self.helper.calc_central_cut(tau))
         return (
             CutStatus.Success,
             self.helper.calc_bias_cut(beta, tau),
-- 
2.43.0


From 4f8650ca2b1b72aa6ee873bdc35b40dd930211d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:27 +0000
Subject: [PATCH 14/14] fix: a cut along a flat direction must report its
 status and width truthfully

---
 src/ellalgo/ell.py        | 4 +---
 src/ellalgo/ell_stable.py | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/ellalgo/ell.py b/src/ellalgo/ell.py
index 5ec90ba..16101b6 100644
--- a/src/ellalgo/ell.py
+++ b/src/ellalgo/ell.py
@@ -238,15 +238,13 @@ class Ell(SearchSpace[ArrayType]):
         grad_t = self._mq @ grad  # n^2 multiplications
         # Calculate grad^T * (M * grad)
         omega = grad.dot(grad_t)  # n multiplications
-        if omega == 0.0:
-            return CutStatus.NoEffect
         # Update tsq measure
         self._tsq = self._kappa * omega
 
         # Get update parameters from the strategy
         status, result = cut_strategy(beta, self._tsq)
 
-        if result is None:
+        if result is None or omega == 0.0:  # rejected, or already flat
             return status
 
         # Extract update parameters
diff --git a/src/ellalgo/ell_stable.py b/src/ellalgo/ell_stable.py
index bf17658..3244b80 100644
--- a/src/ellalgo/ell_stable.py
+++ b/src/ellalgo/ell_stable.py
@@ -215,14 +215,12 @@ class EllStable(SearchSpace[ArrayType]):
         # calculate omega: n
         gg_t = inv_lower_g * inv_diag_inv_lower_g
         omega = sum(gg_t)
-        if omega == 0.0:
-            return CutStatus.NoEffect
 
         self._tsq = self._kappa * omega  # need for helper
 
         status, result = cut_strategy(beta, self._tsq)
 
-        if result is None:
+        if result is None or omega == 0.0:  # rejected, or already flat
             return status
 
         rho, sigma, delta = result
-- 
2.43.0

