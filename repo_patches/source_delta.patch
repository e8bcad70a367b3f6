From 1f11a26d49d24934aa98ec46b1ee4d6d48eae7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 01/23] fix: handle_box_constraint no longer overwrites the
 caller's array

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 0b30c9b..9c6d3ff 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -267,7 +267,7 @@ def handle_box_constraint(x: np.ndarray, lb: np.ndarray, ub: np.ndarray) -> np.n
     Analysis" as alorithm 6.
 
     """
-    x = np.asarray(x, dtype="float")
+    x = np.array(x, dtype="float")  # copy: the caller's array must not be modified
     shape_ori = x.shape
     x = np.atleast_2d(x)
     lb = np.atleast_1d(lb)
-- 
2.43.0


From 74ce505f3ad0b4306ca2481045e77a900d564dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:15 +0000
Subject: [PATCH 02/23] fix: ReferenceSet.shift no longer replaces the entries
 of the caller's dictionary

---
 hvd/reference_set.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c3ada26..c919b1f 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -27,6 +27,7 @@ class ReferenceSet:
         """
         self._ref: Dict[int, np.ndarray] = {0: ref} if isinstance(ref, np.ndarray) else ref
         assert isinstance(self._ref, dict)
+        self._ref = dict(self._ref)  # `shift` re-assigns the entries: do not touch the caller's dictionary
         self.n_components: int = len(self._ref)  # the number of connected components of the reference set
         self.n_obj: int = self._ref[0].shape[1]
         self.Y_idx: List[np.ndarray] = Y_idx  # list of indices of clusters of the approximation set
-- 
2.43.0


From a1bbd26b196eeef0b304868531f24aee84969e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 03/23] fix: State.save deleted a non-existing attribute and
 always failed

---
 hvd/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 97260a6..6af91d3 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -281,7 +281,7 @@ class State:
         with open(filename + ".pkl", "wb") as file:
             __dict__ = self.__dict__.copy()
             del __dict__["func"]
-            del __dict__["_jac"]
+            del __dict__["jac"]
             del __dict__["h"]
             del __dict__["h_jac"]
             del __dict__["h_hess"]
-- 
2.43.0


From 4d3417f9c60a5c380621dba622724d22a71cab8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 04/23] fix: State owns its evaluations, so update_one works
 after evaluating a native problem

---
 hvd/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/base.py b/hvd/base.py
index 6af91d3..f339e0b 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -103,7 +103,8 @@ class State:
             return np.zeros((*prefix, *output_shape))
 
         evaluator = function if x.ndim == 1 else cls._get_batch_variant(function)
-        values = np.asarray(evaluator(x))
+        # copy: JAX hands out read-only buffers and a callback may keep the array it returned
+        values = np.array(evaluator(x))
         return values if output_shape is None else values.reshape(*prefix, *output_shape)
 
     @staticmethod
-- 
2.43.0


From eebeb3bd683ddc7ebe5c2e0b5badc35b1bbdac63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:55 +0000
Subject: [PATCH 05/23] fix: State.update without derivatives kept stale
 constraint Hessians and could not be sliced

---
 hvd/base.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index f339e0b..a917f82 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -156,8 +156,8 @@ class State:
         self.J = self.eval_jac(self.primal) if compute_gradient else None
         self.cstr_value, self.active_indices = self.eval_cstr(self.primal)
         self.cstr_grad = self.eval_cstr_jac(self.primal)
-        if compute_hessian:
-            self.cstr_hess = self.eval_cstr_hess(self.primal)
+        # never keep the Hessians of a previous population
+        self.cstr_hess = self.eval_cstr_hess(self.primal) if compute_hessian else None
 
     def update_one(self, x: np.ndarray, k: int) -> None:
         primal_vars = x[: self.n_var]
@@ -309,9 +309,9 @@ class State:
         obj.n_jac_evals = obj.n_jac_evals
         obj.X = obj.X[indices]
         obj.Y = obj.Y[indices]
-        obj.J = obj.J[indices]
+        obj.J = obj.J[indices] if obj.J is not None else None
         obj.cstr_value = obj.cstr_value[indices]
         obj.active_indices = obj.active_indices[indices]
         obj.cstr_grad = obj.cstr_grad[indices]
-        obj.cstr_hess = obj.cstr_hess[indices]
+        obj.cstr_hess = obj.cstr_hess[indices] if obj.cstr_hess is not None else None
         return obj
-- 
2.43.0


From 64f2b16570d2ba11e6715e7e0c726b3161979abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:44 +0000
Subject: [PATCH 06/23] fix: LoggerFormatter changed the default format of
 every other formatter

---
 hvd/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 9c6d3ff..5972b3e 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -161,7 +161,7 @@ class LoggerFormatter(logging.Formatter):
     }
 
     def __init__(self, fmt="%(asctime)s - %(levelname)s -- %(message)s"):
-        LoggerFormatter.FORMATS["DEFAULT"] = fmt
+        self.FORMATS = {**self.FORMATS, "DEFAULT": fmt}  # per formatter, not shared by all of them
         super().__init__(fmt=fmt, datefmt=None, style="%")
 
     def format(self, record):
-- 
2.43.0


From fdf2a6aa0dc5363df401b41888e957d11705649a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:27 +0000
Subject: [PATCH 07/23] fix: automatic differentiation of the hypervolume
 ignored a changed reference point

---
 hvd/hypervolume_derivatives.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index eae352d..78d89ed 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -78,9 +78,6 @@ class HypervolumeDerivatives:
         self.hessian = hessian if minimization else lambda x: -1 * hessian(x)
         self.minimization = minimization
         self.ref = ref
-        # compute those when needed for the first time
-        self._HV_Jac: callable = None
-        self._HV_Hessian: callable = None
 
     @property
     def ref(self):
@@ -91,6 +88,9 @@ class HypervolumeDerivatives:
         if not isinstance(r, np.ndarray):
             r = np.asarray(r)
         self._ref = r if self.minimization else -1 * r
+        # the automatic differentiation is built for a reference point: rebuild it when needed
+        self._HV_Jac: callable = None
+        self._HV_Hessian: callable = None
 
     @property
     def objective_points(self):
-- 
2.43.0


From e595b237d6bd58fc7df19ed06910797b3a84f91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:17:29 +0000
Subject: [PATCH 08/23] fix: a maximization hypervolume did not negate supplied
 objective values and Jacobians

---
 hvd/hypervolume_derivatives.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/hvd/hypervolume_derivatives.py b/hvd/hypervolume_derivatives.py
index 78d89ed..d2164fa 100644
--- a/hvd/hypervolume_derivatives.py
+++ b/hvd/hypervolume_derivatives.py
@@ -128,6 +128,8 @@ class HypervolumeDerivatives:
             assert self.func is not None
             X = self._check_X(X)
             Y = np.array([self.func(x) for x in X])
+        elif not self.minimization:
+            Y = -1 * np.asarray(Y)
         return hypervolume(Y, self.ref)
 
     def compute_derivatives(
@@ -387,9 +389,14 @@ class HypervolumeDerivatives:
         self.N = X.shape[0]  # number of points
         if Y is None:  # do not evaluate the function when `Y` is provided
             Y = np.array([self.func(x) for x in X])  # `(N, n_objective)`
+        elif not self.minimization:
+            Y = -1 * np.asarray(Y)
         # Jacobians
         # `(N, n_objective, n_decision_var)`
-        YdX = np.array([self.jac(x) for x in X]) if YdX is None else YdX.copy()
+        if YdX is None:
+            YdX = np.array([self.jac(x) for x in X])
+        else:
+            YdX = YdX.copy() if self.minimization else -1 * YdX
         YdX = block_diag(*YdX)  # `(N * n_objective, N * n_decision_var)` grouped by points
         # Hessians
         if compute_hessian:
-- 
2.43.0


From d077e57f36c28febbe6605e6a083b407476e9856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:11 +0000
Subject: [PATCH 09/23] fix: MMDMatching derivatives ignored a changed beta
 once traced

---
 hvd/mmd.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hvd/mmd.py b/hvd/mmd.py
index 138568c..289fa31 100644
--- a/hvd/mmd.py
+++ b/hvd/mmd.py
@@ -301,11 +301,11 @@ class MMDMatching:
         pairwise_dx = vmap(vmap(self.k_dx, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx = vmap(self.k_dx)
 
-        def gradient(Y, matched_reference_set):
+        def gradient(Y, matched_reference_set, beta):
             yy_dx = pairwise_dx(Y, Y)
             yy_dx = yy_dx.sum(axis=1) - jnp.einsum("iij->ij", yy_dx)
             return 2 * (
-                self.beta * yy_dx / len(Y) ** 2
+                beta * yy_dx / len(Y) ** 2
                 - matched_dx(Y, matched_reference_set) / len(Y)
             )
 
@@ -316,15 +316,15 @@ class MMDMatching:
         pairwise_dxdy = vmap(vmap(self.k_dxdy, in_axes=(None, 0)), in_axes=(0, None))
         matched_dx2 = vmap(self.k_dx2)
 
-        def hessian(Y, matched_reference_set):
+        def hessian(Y, matched_reference_set, beta):
             N = len(Y)
             yy_dx2 = pairwise_dx2(Y, Y)
             indices = jnp.arange(N)
             diagonal = 2 * (
-                self.beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
+                beta * (yy_dx2.sum(axis=1) - yy_dx2[indices, indices]) / N**2
                 - matched_dx2(Y, matched_reference_set) / N
             )
-            blocks = 2 * self.beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
+            blocks = 2 * beta * pairwise_dxdy(Y, Y).transpose(1, 0, 2, 3) / N**2
             return blocks.at[indices, indices].set(diagonal)
 
         return hessian
@@ -392,7 +392,7 @@ class MMDMatching:
         Y, YdX, YdX2 = self._compute_objective_derivatives(X, Y, jacobian, compute_hessian=False)
         self.ref.match(Y)  # matching `Y` to the medoids of the reference set
         MMDdY = np.asarray(
-            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_gradient(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdX = np.einsum("ijk,ij->ik", YdX, MMDdY)
         return dict(MMDdX=MMDdX, MMDdY=MMDdY, Y=Y, YdX=YdX, YdX2=YdX2)
@@ -413,7 +413,7 @@ class MMDMatching:
         YdX2 = np.array([self.hessian(x) for x in self._check_X(X)])
         N, dim_y = Y.shape
         MMDdY2_blocks = np.asarray(
-            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set))
+            self._kernel_hessian(jnp.asarray(Y), jnp.asarray(self.ref.reference_set), self.beta)
         )
         MMDdY2 = MMDdY2_blocks.transpose(0, 2, 1, 3).reshape(N * dim_y, N * dim_y)
         MMDdX2 = np.asarray(
-- 
2.43.0


From 33ec1a8ec47952b8fe724844b382a1ad09cb3f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:29 +0000
Subject: [PATCH 10/23] fix: IGD kept the size of the reference set it was
 built with

---
 hvd/delta_p.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index e6ff38d..8c18891 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -138,10 +138,14 @@ class InvertedGenerationalDistance:
         self.func = func
         self.jac = jac
         self.hess = hess
-        self.M = self.ref.N
         self.matching = matching
         self.re_match = True
 
+    @property
+    def M(self) -> int:
+        # not stored: the reference set can be replaced, and it shrinks to the medoids when it is matched
+        return self.ref.N
+
     def __str__(self) -> str:
         return "IGD (w/matching)" if self.matching else "IGD"
 
-- 
2.43.0


From aff337003e4aa6e48869cfd7aff60f3f73dc5a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 11/23] fix: SMSEMOA._advance without offspring used an
 unassigned population

---
 hvd/moea/sms_emoa.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index a600424..8396b5e 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -249,6 +249,7 @@ class SMSEMOA(GeneticAlgorithm):
             ideal, nadir = F.min(axis=0), F.max(axis=0) + 1e-32
 
         # merge the offsprings with the current population
+        pop = self.pop
         if infills is not None:
             pop = Population.merge(self.pop, infills)
 
-- 
2.43.0


From 8286a3fbc96090108f6a984b02f50c4f937b969e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 12/23] fix: bootstrap_reference_set failed when no bootstrap
 iteration was reached

---
 hvd/bootstrap.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index ac9aff8..af0145b 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -113,6 +113,8 @@ def bootstrap_reference_set(
     alpha: float = 0.05
     Y0: np.ndarray = optimizer.state.Y.copy()
     ref0: np.ndarray = optimizer.ref.reference_set.copy()
+    # the reference set in use, returned as it is if no bootstrap is triggered
+    ref: ReferenceSet = optimizer.ref
     ref_list: list = []
     X_list: list = []
     Y_list: list = []
-- 
2.43.0


From b1c0d8482d7510308b4179595551556492a55d51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:41:16 +0000
Subject: [PATCH 13/23] fix: RSG reports that more than two objectives are
 unsupported instead of failing on an unassigned name

---
 hvd/rsg.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hvd/rsg.py b/hvd/rsg.py
index 5610fb2..69e7ff0 100644
--- a/hvd/rsg.py
+++ b/hvd/rsg.py
@@ -109,5 +109,7 @@ def RSG(Py: np.ndarray, Nf: int, eps: float = 0.08, minpts: int = 2) -> np.ndarr
                 Fy_rows.append(Ii[j, :])
 
         Fy = np.vstack(Fy_rows) if len(Fy_rows) > 0 else np.zeros((0, Py.shape[1]), dtype=float)
+    else:
+        raise NotImplementedError(f"RSG is only implemented for two objectives, got {num_obj}")
 
     return Fy
-- 
2.43.0


From dead5738bdba849495e8107d380d5e38b65c8804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:47 +0000
Subject: [PATCH 14/23] fix: CF1-CF7 read a variable that does not exist and
 dropped the last one for an odd number of variables

---
 hvd/problems/cf.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/hvd/problems/cf.py b/hvd/problems/cf.py
index 7bd568f..750e397 100644
--- a/hvd/problems/cf.py
+++ b/hvd/problems/cf.py
@@ -46,8 +46,8 @@ class CF1(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = jnp.tile(x[:, [0]], (1, len(J1))) ** (
             0.5 * (1 + 3 * (jnp.tile(J1 + 1, (N, 1)) - 2) / (D - 2))
         )
@@ -103,8 +103,8 @@ class CF2(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         term1 = (
             x[:, J1] - jnp.sin(6 * pi * jnp.tile(x[:, [0]], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D)
         ) ** 2
@@ -161,8 +161,8 @@ class CF3(CMOP):
         x = jnp.clip(x, self.xl, self.xu)
         N = x.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = x - jnp.sin(6 * pi * jnp.tile(x[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         term1 = jnp.prod(jnp.cos(20 * Y[:, J1] * pi / jnp.sqrt(jnp.tile(J1 + 1, (N, 1)))), 1)
         term2 = jnp.prod(jnp.cos(20 * Y[:, J2] * pi / jnp.sqrt(jnp.tile(J2 + 1, (N, 1)))), 1)
@@ -212,8 +212,8 @@ class CF4(CMOP):
         X = jnp.clip(X, self.xl, self.xu)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y = X - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, D)) + jnp.tile(jnp.arange(1, D + 1), (N, 1)) * pi / D)
         temp = Y[:, 1] < 3 / 2 * (1 - jnp.sqrt(1 / 2))
         h = jax.numpy.where(
@@ -270,8 +270,8 @@ class CF5(CMOP):
         X = jnp.atleast_2d(X)
         N = X.shape[0]
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + jnp.tile(J1 + 1, (N, 1)) * pi / D
         )
@@ -333,8 +333,8 @@ class CF6(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - 0.8 * jnp.tile(X[:, 0], (1, len(J1))) * jnp.cos(
             6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D
         )
@@ -398,8 +398,8 @@ class CF7(CMOP):
     def _objective(self, X: jnp.ndarray) -> jnp.ndarray:
         X = jnp.atleast_2d(X)
         D = self.n_var
-        J1 = jnp.arange(3, self.n_var, 2) - 1
-        J2 = jnp.arange(2, self.n_var + 2, 2) - 1
+        J1 = jnp.arange(3, self.n_var + 1, 2) - 1
+        J2 = jnp.arange(2, self.n_var + 1, 2) - 1
         Y1 = X[:, J1] - jnp.cos(6 * pi * jnp.tile(X[:, 0], (1, len(J1))) + (J1 + 1) * pi / D)
         Y2 = X[:, J2] - jnp.sin(6 * pi * jnp.tile(X[:, 0], (1, len(J2))) + (J2 + 1) * pi / D)
         h1 = 2 * Y1**2 - jnp.cos(4 * pi * Y1) + 1
-- 
2.43.0


From 8ce25acdb95bb7dfcfe69a3ae10ab580ac09db82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:01:35 +0000
Subject: [PATCH 15/23] fix: double precision was silently lost when JAX was
 imported before hvd

---
 hvd/__init__.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hvd/__init__.py b/hvd/__init__.py
index 1c46177..423bb54 100644
--- a/hvd/__init__.py
+++ b/hvd/__init__.py
@@ -4,6 +4,11 @@ import os
 # import so direct imports such as ``hvd.mmd`` and ``hvd.problems`` agree.
 os.environ["JAX_ENABLE_X64"] = "True"
 
+import jax
+
+# The variable above has no effect when the caller has already imported JAX.
+jax.config.update("jax_enable_x64", True)
+
 from .delta_p import GenerationalDistance, InvertedGenerationalDistance
 from .hypervolume_derivatives import HypervolumeDerivatives
 from .newton import HVN, DpN
-- 
2.43.0


From 3d7ed70677564158400a9aff65d7994e0a97a5d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:42 +0000
Subject: [PATCH 16/23] fix: line-search trials of DpN and MMDNewton keep the
 incumbent matching

The trial residuals switched an attribute of the indicator that nothing
reads, so every trial re-matched the live reference set.
---
 hvd/delta_p.py    | 1 -
 hvd/mmd_newton.py | 8 ++++----
 hvd/newton.py     | 4 ++--
 3 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index 8c18891..203e46d 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -139,7 +139,6 @@ class InvertedGenerationalDistance:
         self.jac = jac
         self.hess = hess
         self.matching = matching
-        self.re_match = True
 
     @property
     def M(self) -> int:
diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 23aca68..90f18c3 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -301,9 +301,9 @@ class MMDNewton:
         def phi_func(alpha):
             state_ = deepcopy(self.state)
             state_.update(state_.X + alpha * step)
-            self.indicator.re_match = False
+            self.ref.re_match = False
             R_ = self._compute_R(state_)[0]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             return np.linalg.norm(R_)
 
         step_size = min(max_step_size) if max_step_size is not None else 1
@@ -337,10 +337,10 @@ class MMDNewton:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.indicator.re_match = False
+            self.ref.re_match = False
             # this step takes too long since we compute the gradient at all points while only one changes
             R_ = self._compute_R(state)[0][i]
-            self.indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
diff --git a/hvd/newton.py b/hvd/newton.py
index d95569b..844e7e5 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -621,9 +621,9 @@ class DpN:
             x = state.X[i].copy()
             x += alpha * step[i]
             state.update_one(x, i)
-            self.active_indicator.re_match = False
+            self.ref.re_match = False
             R_ = self._compute_R(state)[0][i]
-            self.active_indicator.re_match = True
+            self.ref.re_match = True
             self.state.n_jac_evals = state.n_jac_evals
             return np.linalg.norm(R_)
 
-- 
2.43.0


From cb35bd383a0431e76f2fd81981319f10fb0b8b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:18 +0000
Subject: [PATCH 17/23] fix: count the evaluations made by line-search trials

HVN and MMDNewton dropped the Jacobian evaluations of all trials, DpN those of the constraints.
---
 hvd/base.py       | 6 ++++++
 hvd/mmd_newton.py | 3 ++-
 hvd/newton.py     | 3 ++-
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/hvd/base.py b/hvd/base.py
index a917f82..456096c 100644
--- a/hvd/base.py
+++ b/hvd/base.py
@@ -111,6 +111,12 @@ class State:
     def _count(x: np.ndarray) -> int:
         return len(x) if np.ndim(x) == 2 else 1
 
+    def add_evaluations(self, after: Self, before: Self) -> None:
+        """Count the evaluations by which the copy `after` of this state is ahead of `before`"""
+        self.n_jac_evals += after.n_jac_evals - before.n_jac_evals
+        self.n_cstr_jac_evals += after.n_cstr_jac_evals - before.n_cstr_jac_evals
+        self.n_cstr_hess_evals += after.n_cstr_hess_evals - before.n_cstr_hess_evals
+
     def eval_jac(self, x: np.ndarray) -> np.ndarray:
         """Jacobian of the objective function"""
         self.n_jac_evals += self._count(x)
diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 90f18c3..7c319ad 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -301,6 +301,7 @@ class MMDNewton:
         def phi_func(alpha):
             state_ = deepcopy(self.state)
             state_.update(state_.X + alpha * step)
+            self.state.add_evaluations(state_, self.state)
             self.ref.re_match = False
             R_ = self._compute_R(state_)[0]
             self.ref.re_match = True
@@ -341,7 +342,7 @@ class MMDNewton:
             # this step takes too long since we compute the gradient at all points while only one changes
             R_ = self._compute_R(state)[0][i]
             self.ref.re_match = True
-            self.state.n_jac_evals = state.n_jac_evals
+            self.state.add_evaluations(state, self.state)
             return np.linalg.norm(R_)
 
         step_size = max_step_size if max_step_size is not None else np.ones(self.N)
diff --git a/hvd/newton.py b/hvd/newton.py
index 844e7e5..6b00de2 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -279,6 +279,7 @@ class HVN:
         def phi_func(alpha: float) -> float:
             state_ = deepcopy(state)
             state_.update(state.X + alpha * step)
+            self.state.add_evaluations(state_, state)
             R = self._compute_R(state_)[0]
             return np.linalg.norm(R)
 
@@ -624,7 +625,7 @@ class DpN:
             self.ref.re_match = False
             R_ = self._compute_R(state)[0][i]
             self.ref.re_match = True
-            self.state.n_jac_evals = state.n_jac_evals
+            self.state.add_evaluations(state, self.state)
             return np.linalg.norm(R_)
 
         if max_step_size is not None:
-- 
2.43.0


From feef2e51c1b2f1b4aef63c483b6bb8bd9b703f2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:27:10 +0000
Subject: [PATCH 18/23] fix: get_non_dominated dropped every copy of a
 duplicated non-dominated point

---
 hvd/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/hvd/utils.py b/hvd/utils.py
index 5972b3e..c025827 100644
--- a/hvd/utils.py
+++ b/hvd/utils.py
@@ -229,8 +229,9 @@ def get_non_dominated(pareto_front: np.ndarray, return_index: bool = False, weak
     pareto_indices = []
     for idx, p in enumerate(pareto_front):
         if weakly_dominated:
+            # a later copy of the same point does not dominate it: the first copy is kept
             cond = np.all(np.any(pareto_front[:idx] > p, axis=1)) and np.all(
-                np.any(pareto_front[idx + 1 :] > p, axis=1)
+                np.any(pareto_front[idx + 1 :] > p, axis=1) | np.all(pareto_front[idx + 1 :] == p, axis=1)
             )
         else:
             cond = np.all(
-- 
2.43.0


From ab0d73acbb875d8f66837e6973409f7910f4b3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:17 +0000
Subject: [PATCH 19/23] fix: match each partition with the reference component
 it is assigned to

With fewer partitions than components, the column indices of the assignment
were paired with components 0, 1, ... instead of the assigned ones.
---
 hvd/reference_set.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/hvd/reference_set.py b/hvd/reference_set.py
index c919b1f..536e95d 100644
--- a/hvd/reference_set.py
+++ b/hvd/reference_set.py
@@ -1,4 +1,4 @@
-from typing import Dict, List, Optional, Union
+from typing import Dict, List, Optional, Tuple, Union
 
 import numpy as np
 from scipy.optimize import linear_sum_assignment
@@ -57,10 +57,10 @@ class ReferenceSet:
         Y = self._partition_Y(Y)
         N = sum([len(y) for y in Y])
         # match the components of the reference set and `Y`
-        idx = self._match_components(Y)
+        pairs = self._match_components(Y)
         out = np.zeros((N, self.n_obj))
         self._medoids_idx = np.empty(N, dtype=object)
-        for k, v in enumerate(idx):
+        for k, v in pairs:
             Y_ = Y[v]
             assert len(self._ref[k]) >= len(Y_)
             try:
@@ -133,18 +133,19 @@ class ReferenceSet:
             Y_partitions = [Y[idx] for idx in self.Y_idx]
         return Y_partitions
 
-    def _match_components(self, Y: Dict[int, np.ndarray]) -> np.ndarray:
+    def _match_components(self, Y: Dict[int, np.ndarray]) -> List[Tuple[int, int]]:
+        """pairs of (component of the reference set, partition of the approximation set)"""
         n, m = self.n_components, len(Y)
         assert n >= m  # TODO: find a solution here
         if n == 1 and m == 1:
-            idx = [0]
+            pairs = [(0, 0)]
         else:
             # match the clusters of `X` and `Y`
-            idx = np.zeros(m)
             cost = np.array([directed_hausdorff(self._ref[i], Y[j])[0] for i in range(n) for j in range(m)])
             cost = cost.reshape(n, m)
-            idx = linear_sum_assignment(cost)[1]
-        return idx
+            # with fewer partitions than components, only some of the components are matched
+            pairs = list(zip(*linear_sum_assignment(cost)))
+        return pairs
 
     def _cluster(self, component: np.ndarray, k: int) -> np.ndarray:
         """cluster the reference components with k-medoids method
-- 
2.43.0


From a605ca246f94d841623e943d16d5ccb92d586dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:06 +0000
Subject: [PATCH 20/23] fix: SMS-EMOA for three objectives: plain NumPy helpers
 must not be jit-compiled

alpha, hv_monte_carlo and hvc_monte_carlo build NumPy arrays whose sizes and values depend on their arguments, which raises a
tracer error under jit, so every survival selection with three or more objectives failed.
---
 hvd/moea/sms_emoa.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/hvd/moea/sms_emoa.py b/hvd/moea/sms_emoa.py
index 8396b5e..e7f5031 100644
--- a/hvd/moea/sms_emoa.py
+++ b/hvd/moea/sms_emoa.py
@@ -1,5 +1,4 @@
 import numpy as np
-from jax import jit
 from pymoo.algorithms.base.genetic import GeneticAlgorithm
 from pymoo.core.population import Population
 from pymoo.core.survival import Survival
@@ -20,7 +19,6 @@ from ..exact import ExactHypervolume
 # NOTE: speedup the MC hypervolume contribution with `numba`
 
 
-@jit
 def alpha(N, k):
     alpha = np.zeros(N + 1)
 
@@ -30,7 +28,6 @@ def alpha(N, k):
     return alpha
 
 
-@jit
 def hv_monte_carlo(dom, V, n_dom=None):
     N, n_samples = dom.shape
     if n_dom is None:
@@ -41,7 +38,6 @@ def hv_monte_carlo(dom, V, n_dom=None):
     return hv
 
 
-@jit
 def hvc_monte_carlo(dom, V, n_dom=None, k=1):
     N, n_samples = dom.shape
     if n_dom is None:
-- 
2.43.0


From 2979660f2453e8ea99e59fbfea5125bf611d5999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:14 +0000
Subject: [PATCH 21/23] fix: count the constraints of a scalar-valued
 constraint function returned as a 0-d array

---
 hvd/mmd_newton.py | 4 ++--
 hvd/newton.py     | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/hvd/mmd_newton.py b/hvd/mmd_newton.py
index 7c319ad..7b00b63 100644
--- a/hvd/mmd_newton.py
+++ b/hvd/mmd_newton.py
@@ -120,10 +120,10 @@ class MMDNewton:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
diff --git a/hvd/newton.py b/hvd/newton.py
index 6b00de2..94cb8f0 100644
--- a/hvd/newton.py
+++ b/hvd/newton.py
@@ -87,10 +87,10 @@ class HVN:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
@@ -414,10 +414,10 @@ class DpN:
         x = np.random.rand(self.dim_p) * (self.xu - self.xl) + self.xl
         if h is not None:
             v = h(x)
-            self.n_eq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_eq = np.size(v)
         if g is not None:
             v = g(x)
-            self.n_ieq = 1 if isinstance(v, (int, float)) else len(v)
+            self.n_ieq = np.size(v)
         self.dim_d = self.n_eq + self.n_ieq
         self.dim = self.dim_p + self.dim_d
 
-- 
2.43.0


From 5b020b52442036173101c42fb8de4dc10f2508a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:23:15 +0000
Subject: [PATCH 22/23] fix: bootstrap with an indicator without spread weight
 (MMD without matching)

---
 hvd/bootstrap.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hvd/bootstrap.py b/hvd/bootstrap.py
index af0145b..46fa55a 100644
--- a/hvd/bootstrap.py
+++ b/hvd/bootstrap.py
@@ -181,7 +181,9 @@ def bootstrap_reference_set(
             optimizer.indicator.ref = optimizer.ref = ref
             optimizer.indicator.compute(Y=optimizer.state.Y)
             # discount the weight of the spread term to reduce spread effect in the following iterations
-            optimizer.indicator.beta = optimizer.indicator.beta * 0.8
+            # (`MMD` without matching has no spread weight)
+            if hasattr(optimizer.indicator, "beta"):
+                optimizer.indicator.beta = optimizer.indicator.beta * 0.8
 
         # the next iteration
         optimizer.newton_iteration()
-- 
2.43.0


From 8f8638b179541b71ea916dd5d55f33ab01804a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:18 +0000
Subject: [PATCH 23/23] fix: Hessian of the generational distance for p != 2
 (factor of the second-order term)

---
 hvd/delta_p.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hvd/delta_p.py b/hvd/delta_p.py
index 203e46d..f2ac4a2 100644
--- a/hvd/delta_p.py
+++ b/hvd/delta_p.py
@@ -104,7 +104,7 @@ class GenerationalDistance:
                 if self.p != 2
                 else 0
             )
-            hessian = term + c1 * (
+            hessian = term + c1 * diff_norm[..., np.newaxis] ** (self.p - 2) * (
                 np.einsum("ijk,ijl->ikl", J, J) + np.einsum("ijkl,ij->ikl", H, diff)
             )  # (N, dim, dim)
             return grad, hessian
-- 
2.43.0

