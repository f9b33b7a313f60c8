From 5770bebef7b1d564ab608cd1248093bf01c80197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 01/55] fix: simplex projection of a point whose entries sum to
 the radius (np.alltrue is gone from numpy 2)

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index c6990ac..531ebcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -219,7 +219,7 @@ def euclidean_proj_simplex(v, s=1.0):
     assert s > 0, "Radius s must be strictly positive (%d <= 0)" % s
     (n,) = v.shape  # will raise ValueError if v is not 1-D
     # check if we are already on the simplex
-    if v.sum() == s and np.alltrue(v >= 0):
+    if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-- 
2.43.0


From bab66fd66dc16632725e01a6f4d1d801b714504c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 02/55] fix: SimplexConstraint.lmo returns a vertex of the
 simplex and accepts the active set argument

---
 copt/constraint.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 531ebcc..3248dcc 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -176,16 +176,14 @@ class SimplexConstraint:
     def prox(self, x, step_size):
         return euclidean_proj_simplex(x, self.s)
 
-    def lmo(self, u, x):
-        """Return v - x, s solving the linear problem
-    max_{||v||_1 <= s, v >= 0} <u, v>
+    def lmo(self, u, x, active_set=None):
+        """Return v - x, v solving the linear problem
+    max_{sum(v) = s, v >= 0} <u, v>
     """
         largest_coordinate = np.argmax(u)
 
         update_direction = -x.copy()
-        update_direction[largest_coordinate] += self.s * np.sign(
-            u[largest_coordinate]
-        )
+        update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
 
-- 
2.43.0


From 923a1368d43c6fb57d11ed9c3fe54340aec9c3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 03/55] fix: scale of the regularization term in LogLoss
 Hessian-vector products

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index aa37694..626f333 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -125,7 +125,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
@@ -165,7 +165,7 @@ class LogLoss:
         def _Hs(s):
             ret = np.empty_like(s)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
-            ret[:n_features] += self.alpha * s[:n_features]
+            ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
             # For the fit intercept case.
             if self.intercept:
-- 
2.43.0


From 3d4a730c87eefc38aa045edae7714600f61f1670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 04/55] fix: LogLoss.f_grad with intercept returns the loss
 together with the gradient

---
 copt/loss.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/loss.py b/copt/loss.py
index 626f333..f6990d6 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -92,7 +92,7 @@ class LogLoss:
         grad = np.asarray(grad).ravel()
         grad_c = z0_b.mean()
         if self.intercept:
-            return np.concatenate((grad, [grad_c]))
+            return loss, np.concatenate((grad, [grad_c]))
 
         return loss, grad
 
-- 
2.43.0


From 93851435ca5c552a37cd5c7b3b1ee89ff9e97dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:45 +0000
Subject: [PATCH 05/55] fix: HuberLoss gradient for sparse formats that do not
 support row indexing (coo, dia, bsr)

---
 copt/loss.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index f6990d6..7e7ed67 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -287,9 +287,9 @@ class HuberLoss:
         )
         if not return_gradient:
             return loss
-        grad = self.A[idx].T.dot(z[idx]) / self.A.shape[0] + self.alpha * x.T
-        grad = np.asarray(grad)
-        grad += self.A[~idx].T.dot(self.delta * np.sign(z[~idx])) / self.A.shape[0]
+        # derivative of the Huber function, does not need to index the rows of A
+        z[~idx] = self.delta * np.sign(z[~idx])
+        grad = safe_sparse_add(self.A.T.dot(z) / self.A.shape[0], self.alpha * x.T)
         return loss, np.asarray(grad).ravel()
 
     @property
-- 
2.43.0


From 82500a7f987add8274bb3c8c3c06c06d3e785f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 06/55] fix: LogLoss Hessian-vector products with an integer
 vector are no longer truncated

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 7e7ed67..2f2e984 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -123,7 +123,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=float)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
@@ -163,7 +163,7 @@ class LogLoss:
             dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
 
         def _Hs(s):
-            ret = np.empty_like(s)
+            ret = np.empty_like(s, dtype=float)
             ret[:n_features] = self.A.T.dot(dX.dot(s[:n_features]))
             ret[:n_features] += n_samples * self.alpha * s[:n_features]
 
-- 
2.43.0


From 83b1175c337ea18b2cf9f15abe0d47e4d978aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:35 +0000
Subject: [PATCH 07/55] fix: finite difference estimation of the gradient
 (jac='2-point' or False)

---
 copt/utils.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index 7f6be72..9544b33 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -34,19 +34,23 @@ except ImportError:
 
 def build_func_grad(jac, fun, args, eps):
     if not callable(jac):
-        if bool(jac):
+        if isinstance(jac, str) and jac != "2-point":
+            raise NotImplementedError("jac has unexpected value.")
+        if bool(jac) and jac != "2-point":
             fun = optimize._optimize.MemoizeJac(fun)
             jac = fun.derivative
-        elif jac == "2-point":
-            jac = None
         else:
-            raise NotImplementedError("jac has unexpected value.")
+            jac = None
 
     if jac is None:
 
         def func_and_grad(x):
             f = fun(x, *args)
-            g = optimize._approx_fprime_helper(x, fun, eps, args=args, f0=f)
+            if isinstance(f, (tuple, list)):
+                # fun already returns the gradient along with the objective
+                return f
+            g = optimize.approx_fprime(x, fun, eps, *args)
+            return f, g
 
     else:
 
-- 
2.43.0


From b2c986ddbb4bd4846b61a54a7f9d644d08792c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:42 +0000
Subject: [PATCH 08/55] fix: solvers no longer truncate their iterates when x0
 is integer-valued, and vrtos does not overwrite x0

---
 copt/proximal_gradient.py | 4 ++--
 copt/randomized.py        | 6 ++++--
 copt/splitting.py         | 3 ++-
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index b7acfc3..506eff7 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -109,7 +109,7 @@ def minimize_proximal_gradient(
   Examples:
     * :ref:`sphx_glr_auto_examples_plot_group_lasso.py`
   """
-    x = np.asarray(x0).flatten()
+    x = np.asarray(x0, dtype=float).flatten()
     if max_iter_backtracking <= 0:
         raise ValueError("Line search iterations need to be greater than 0")
 
@@ -127,7 +127,7 @@ def minimize_proximal_gradient(
 
     # find initial step-size
     if step == "backtracking":
-        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x0)
+        step_size = 1.8 / utils.init_lipschitz(func_and_grad, x)
     else:
         # to avoid step_size being undefined upon return
         step_size = None
diff --git a/copt/randomized.py b/copt/randomized.py
index 21f7981..072b6dc 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -130,7 +130,7 @@ def minimize_saga(
     # convert any input to CSR sparse matrix representation. In the future we
     # might want to implement also a version for dense data (numpy arrays) to
     # better exploit data locality
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -305,7 +305,7 @@ def minimize_svrg(
       for Composite Optimization." Advances in Neural Information
       Processing Systems (NIPS) 2017.
     """
-    x = np.ascontiguousarray(x0).copy()
+    x = np.array(x0, dtype=float)
     n_samples, n_features = A.shape
     A = sparse.csr_matrix(A)
 
@@ -494,6 +494,8 @@ def minimize_vrtos(
     else:
         blocks_2 = sparse.eye(n_features, n_features, format="csr")
 
+    # the epochs work in place, do not modify the starting point of the caller
+    x0 = np.array(x0, dtype=float)
     Y = np.zeros((2, x0.size))
     z = x0.copy()
 
diff --git a/copt/splitting.py b/copt/splitting.py
index c8ca10a..d6a9676 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -113,6 +113,7 @@ def minimize_three_split(
         def prox_2(x, s, *args):
             return x
 
+    x0 = np.asarray(x0, dtype=float)
     if step_size is None:
         line_search = True
         step_size = 1.0 / utils.init_lipschitz(f_grad, x0)
@@ -249,7 +250,7 @@ def minimize_primal_dual(
         involving Lipschitzian, proximable and linear composite terms." Journal of
         Optimization Theory and Applications (2013).
     """
-    x = np.array(x0, copy=True)
+    x = np.array(x0, dtype=float, copy=True)
     n_features = x.size
 
     if L is None:
-- 
2.43.0


From 8a0ddc3d51bc4a883df49a7d3103dda951e7b11e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:42 +0000
Subject: [PATCH 09/55] fix: reweighting of the blocks when the last ones are
 not in the support of any sample

---
 copt/randomized.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 072b6dc..8098e2c 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -160,7 +160,9 @@ def minimize_saga(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -335,7 +337,9 @@ def minimize_svrg(
     bs_data, bs_indices, bs_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_indices, blocks.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_data, bs_indices, bs_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_data, bs_indices, bs_indptr), shape=(n_samples, blocks.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
@@ -581,13 +585,17 @@ def _factory_sparse_vrtos(
     bs_1_data, bs_1_indices, bs_1_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_1_indices, blocks_1.shape[0]
     )
-    csr_blocks_1 = sparse.csr_matrix((bs_1_data, bs_1_indices, bs_1_indptr))
+    csr_blocks_1 = sparse.csr_matrix(
+        (bs_1_data, bs_1_indices, bs_1_indptr), shape=(n_samples, blocks_1.shape[0])
+    )
 
     rblocks_2_indices = blocks_2.T.tocsr().indices
     bs_2_data, bs_2_indices, bs_2_indptr = _support_matrix(
         A_indices, A_indptr, rblocks_2_indices, blocks_2.shape[0]
     )
-    csr_blocks_2 = sparse.csr_matrix((bs_2_data, bs_2_indices, bs_2_indptr))
+    csr_blocks_2 = sparse.csr_matrix(
+        (bs_2_data, bs_2_indices, bs_2_indptr), shape=(n_samples, blocks_2.shape[0])
+    )
 
     # .. diagonal reweighting ..
     d1 = np.array(csr_blocks_1.sum(0), dtype=float).ravel()
-- 
2.43.0


From 24f4a40268a40810ed8646d05c80dcfcd6096b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:42 +0000
Subject: [PATCH 10/55] fix: minimize_sfw accepts a callable step_size, as
 documented, and rejects unknown ones

---
 copt/randomized.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 8098e2c..7d45201 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -867,7 +867,10 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
         if lipschitz is None:
             raise ValueError('lipschitz needs to be specified with step_size="DR"')
         step_size_fun = step_size_DR
-
+    elif hasattr(step_size, "__call__"):
+        step_size_fun = step_size
+    else:
+        raise ValueError("Invalid option step_size=%s" % step_size)
 
     if lmo_variant == 'vanilla':
         active_set = None
-- 
2.43.0


From dd255bf2cf02890ccc34fe6f5d2bdc04809dc698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:42 +0000
Subject: [PATCH 11/55] fix: drop steps remove the vertex from the active set,
 pairwise Frank-Wolfe no longer stalls on it

---
 copt/frank_wolfe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 510df93..68dba7f 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -105,7 +105,7 @@ def update_active_set(active_set,
     if active_set[away_vertex_rep] == 0.:
         # drop step: remove vertex from active set
         del active_set[away_vertex_rep]
-    if active_set[away_vertex_rep] < 0.:
+    elif active_set[away_vertex_rep] < 0.:
         raise ValueError(f"The step size used is too large. "
                          f"{step_size: .3f} vs. {max_step_size:.3f}")
 
-- 
2.43.0


From fa4c507f1a5b8417bb402268818fade4822a8468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:42 +0000
Subject: [PATCH 12/55] fix: load_img1 returns an image with n_rows rows and
 n_cols columns

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 806492a..3223766 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -29,7 +29,7 @@ def load_img1(n_rows=20, n_cols=20):
     grid = np.loadtxt(os.path.join(dir_path, "data", "img1.csv"), delimiter=",")
     dim1 = int(np.sqrt(grid.shape[0]))
     grid = grid.reshape((dim1, dim1))
-    img = Image.fromarray(grid).resize((n_rows, n_cols))
+    img = Image.fromarray(grid).resize((n_cols, n_rows))
     return np.array(img)
 
 
-- 
2.43.0


From 419cfa6c4ffdcb459b0180dfc99246ad0ef441e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:42 +0000
Subject: [PATCH 13/55] fix: load_url and load_kdd12 do not use the removed
 alias np.int

---
 copt/datasets.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 3223766..092b92f 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -242,7 +242,7 @@ def load_url(md5_check=True):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
@@ -404,7 +404,7 @@ def load_kdd12(md5_check=True, verbose=0):
     X_indptr = np.load(data_indptr)
     X = sparse.csr_matrix((X_data, X_indices, X_indptr))
     y = np.load(data_target)
-    y = ((y + 1) // 2).astype(np.int)
+    y = ((y + 1) // 2).astype(int)
     return X, y
 
 
-- 
2.43.0


From a7a763460a72da000a1aef676bb27ac02d424145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 14/55] fix: Demyanov-Rubinov step-size in minimize_sfw is
 never NaN nor negative, so iterates stay feasible

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 7d45201..ff76ad4 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -732,6 +732,9 @@ def step_size_sfw(variant):
 def step_size_DR(kwargs):
     norm_update_direction = (kwargs['update_direction'] ** 2).sum()
     lipschitz = kwargs['lipschitz']
+    if kwargs['certificate'] <= 0 or norm_update_direction == 0:
+        # not a descent direction for the current gradient estimate
+        return 0., None
     return min(kwargs['certificate'] / (norm_update_direction * lipschitz),
                kwargs['max_step_size']), None
 
-- 
2.43.0


From 714638abab5e91154d82a19cfcaeb1672bab355f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 15/55] fix: minimize_sfw with step_size='DR' and variants MHK
 and LF

---
 copt/randomized.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index ff76ad4..01e3c56 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -900,6 +900,9 @@ From Convex Minimization to Submodular Maximization" <https://arxiv.org/abs/1804
             x_prev = x.copy()
             if step_size != 'DR':
                 step_size_x, step_size_agg = step_size_fun(locals())
+            else:
+                # the step-size in x is computed below, once the direction is known
+                _, step_size_agg = step_size_sfw(variant)(locals())
             dual_var_prev = dual_var[batch_idx].copy()
 
             if variant in {'SAG', 'SAGA'}:
-- 
2.43.0


From 10ba3716eca58ffe946213325ae7839e5d89ed80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 16/55] fix: TraceBall.lmo for a zero vector and for matrices
 with a single row or column

---
 copt/constraint.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 3248dcc..5efa6e1 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -319,6 +319,11 @@ class TraceBall:
           max_step_size: 1. for a Frank-Wolfe step.
         """
         u_mat = u.reshape(self.shape)
-        ut, _, vt = splinalg.svds(u_mat, k=1)
+        if min(self.shape) == 1 or not np.any(u_mat):
+            # not supported by the iterative solver
+            ut, _, vt = linalg.svd(u_mat, full_matrices=False)
+            ut, vt = ut[:, 0], vt[0]
+        else:
+            ut, _, vt = splinalg.svds(u_mat, k=1)
         vertex = self.alpha * np.outer(ut, vt).ravel()
         return vertex - x, None, None, 1.
-- 
2.43.0


From fdf69ecb458f6746f81ede9d32222a67b87e20af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 17/55] fix: lipschitz constant of the losses when A has a
 single row or column

---
 copt/loss.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 2f2e984..75be2e2 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -6,6 +6,14 @@ from sklearn.utils.extmath import safe_sparse_dot
 from copt.utils import safe_sparse_add, njit, prange
 
 
+def _spectral_norm(A):
+    """Largest singular value of A."""
+    if min(A.shape) == 1:
+        # not supported by the iterative solver
+        return np.sqrt(A.multiply(A).sum() if sparse.issparse(A) else np.sum(A * A))
+    return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
+
+
 class LogLoss:
     r"""Logistic loss function.
 
@@ -197,7 +205,7 @@ class LogLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return 0.25 * (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -251,7 +259,7 @@ class SquareLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
 
     @property
@@ -294,5 +302,5 @@ class HuberLoss:
 
     @property
     def lipschitz(self):
-        s = splinalg.svds(self.A, k=1, return_singular_vectors=False)[0]
+        s = _spectral_norm(self.A)
         return (s * s) / self.A.shape[0] + self.alpha
-- 
2.43.0


From 7b090f61727a30996722fb6b6d9803dfe44265e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:26 +0000
Subject: [PATCH 18/55] fix: certificate of the accelerated proximal gradient
 is the gradient mapping at the returned point

---
 copt/proximal_gradient.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 506eff7..44ac365 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -220,7 +220,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 tk = t_next
                 x = x_next.copy()
 
@@ -251,7 +251,7 @@ def minimize_proximal_gradient(
                     x_next - current_step_size * func_and_grad(x_next)[1],
                     current_step_size,
                 )
-                certificate = np.linalg.norm((x - x_prox) / current_step_size)
+                certificate = np.linalg.norm((x_next - x_prox) / current_step_size)
                 if trace_certificate:
                     certificate_list.append(certificate)
                 tk = t_next
-- 
2.43.0


From 8d0717d2eff85d292f83858d16feaf86f7074c02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:02 +0000
Subject: [PATCH 19/55] fix: accelerated proximal gradient rejects unknown
 step-size strategies instead of returning x0

---
 copt/proximal_gradient.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 44ac365..0317175 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -257,6 +257,9 @@ def minimize_proximal_gradient(
                 tk = t_next
                 x = x_next.copy()
 
+            else:
+                raise ValueError("Step-size strategy not understood")
+
             if certificate < tol:
                 success = True
                 break
-- 
2.43.0


From d0dc7ce6e0e14b8d93a5b8804c7edf1e28fd333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:04:57 +0000
Subject: [PATCH 20/55] fix: certificate and sufficient decrease of proximal
 gradient use the step size of the iterate they judge

---
 copt/proximal_gradient.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 0317175..8eae207 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -149,9 +149,9 @@ def minimize_proximal_gradient(
                 update_direction = x_next - x
                 f_next, grad_next = func_and_grad(x_next)
             elif step == "backtracking":
+                step_size *= 1.1
                 x_next = prox(x - step_size * grad_fk, step_size)
                 update_direction = x_next - x
-                step_size *= 1.1
                 for _ in range(max_iter_backtracking):
                     f_next, grad_next = func_and_grad(x_next)
                     rhs = (
-- 
2.43.0


From be7066004b4fbc54069375365a56837fa2ea464c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:25 +0000
Subject: [PATCH 21/55] fix: line search of minimize_primal_dual bounds the
 step by ||x_next - x||, it diverged for operators L of norm other than 1

---
 copt/splitting.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index d6a9676..1a1a7e2 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -301,12 +301,13 @@ def minimize_primal_dual(
                 sigma = ss_ratio * tau_next
                 y_bar = y_next + theta * (y_next - y)
                 x_next = prox_1(x - sigma * (L.rmatvec(y_bar) + grad_fk), sigma)
-                incr_x = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
+                incr_x = np.linalg.norm(x_next - x)
+                incr_Lx = np.linalg.norm(L.matvec(x_next) - L.matvec(x))
                 f_next, f_grad_next = f_grad(x_next)
                 if incr_x <= 1e-10:
                     break
 
-                tmp = (sigma * tau_next) * (incr_x ** 2)
+                tmp = (sigma * tau_next) * (incr_Lx ** 2)
                 tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
-- 
2.43.0


From eb1d2823e55f5e5595d70778b06f2709ddc70735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:25 +0000
Subject: [PATCH 22/55] fix: minimize_frank_wolfe reports success, as
 documented

---
 copt/frank_wolfe.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 68dba7f..5c85cd8 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -306,4 +306,5 @@ def minimize_frank_wolfe(
     if callback is not None:
         callback(locals())
     return optimize.OptimizeResult(x=x, nit=it, certificate=certificate,
+                                   success=bool(certificate <= tol),
                                    active_set=active_set)
-- 
2.43.0


From 46dffa74862bae7667d7a39b40824640dc7ba342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:25 +0000
Subject: [PATCH 23/55] fix: datasets can be loaded again after an interrupted
 download

---
 copt/datasets.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 092b92f..87f9d7d 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -40,10 +40,15 @@ def _load_dataset(name, subset, data_dir):
         file_exists = gfile.exists
         makedirs = gfile.makedirs
         file_loader = gfile.GFile
+
+        def rename(src, dst):
+            gfile.rename(src, dst, overwrite=True)
+
     else:
         file_exists = os.path.exists
         makedirs = os.makedirs
         file_loader = open
+        rename = os.replace
     dataset_dir = os.path.join(data_dir, name)
     files_train = (
         "X_train.data.npy",
@@ -51,10 +56,18 @@ def _load_dataset(name, subset, data_dir):
         "X_train.indptr.npy",
         "y_train.npy",
     )
+    files_test = (
+        "X_test.data.npy",
+        "X_test.indices.npy",
+        "X_test.indptr.npy",
+        "y_test.npy",
+    )
+    files_needed = files_train if subset == "train" else files_train + files_test
     if not np.all(
-        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_train]
+        [file_exists(os.path.join(dataset_dir, fname)) for fname in files_needed]
     ):
-        makedirs(dataset_dir)
+        if not file_exists(dataset_dir):
+            makedirs(dataset_dir)
         print(
             "%s dataset is not present in the folder %s. Downloading it ..."
             % (name, dataset_dir)
@@ -70,7 +83,9 @@ def _load_dataset(name, subset, data_dir):
                 continue
 
             print("Extracting data to %s" % os.path.join(data_dir, member.name))
-            f_dest = file_loader(os.path.join(data_dir, member.name), "wb")
+            # a file is only visible under its name once it is complete
+            dest = os.path.join(data_dir, member.name)
+            f_dest = file_loader(dest + ".part", "wb")
             chunk = 5000
             while True:
                 data = f_orig.read(chunk)
@@ -79,6 +94,7 @@ def _load_dataset(name, subset, data_dir):
                 f_dest.write(data)
             f_dest.close()
             f_orig.close()
+            rename(dest + ".part", dest)
 
     tmp_train = []
     for fname in files_train:
@@ -92,12 +108,7 @@ def _load_dataset(name, subset, data_dir):
         retval = (data_train, target_train)
     else:
         tmp_test = []
-        for fname in (
-            "X_test.data.npy",
-            "X_test.indices.npy",
-            "X_test.indptr.npy",
-            "y_test.npy",
-        ):
+        for fname in files_test:
             with file_loader(os.path.join(dataset_dir, fname), "rb") as f:
                 tmp_test.append(np.load(f))
 
-- 
2.43.0


From 4627e84e92cb1daacba68106e1d773b325ec7058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:25 +0000
Subject: [PATCH 24/55] fix: load_kdd12 retries its own download on a checksum
 mismatch

---
 copt/datasets.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index 87f9d7d..fc02e73 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -400,7 +400,7 @@ def load_kdd12(md5_check=True, verbose=0):
                 print("MD5 hash do not coincide")
                 print("Removing file and re-downloading")
                 os.remove(file_path)
-                return load_url()
+                return load_kdd12()
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
-- 
2.43.0


From b9275b83ea3d043fab04cf1520263d7575c6e84c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:26 +0000
Subject: [PATCH 25/55] fix: url, kdd and criteo datasets can be loaded again
 after an interrupted download or conversion

---
 copt/datasets.py | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/copt/datasets.py b/copt/datasets.py
index fc02e73..209100b 100755
--- a/copt/datasets.py
+++ b/copt/datasets.py
@@ -33,6 +33,21 @@ def load_img1(n_rows=20, n_cols=20):
     return np.array(img)
 
 
+def _download(url, file_path):
+    """Download url, file_path only exists once the download is complete."""
+    urllib.request.urlretrieve(url, file_path + ".part")
+    os.replace(file_path + ".part", file_path)
+
+
+def _save_last(file_path, arr):
+    """Save arr, file_path only exists once it is complete.
+
+    Marks the end of the conversion of a dataset."""
+    with open(file_path + ".part", "wb") as f:
+        np.save(f, arr)
+    os.replace(file_path + ".part", file_path)
+
+
 def _load_dataset(name, subset, data_dir):
     """Low level driver to download and return dataset"""
 
@@ -230,7 +245,7 @@ def load_url(md5_check=True):
     if not os.path.exists(file_path):
         print("URL dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/url_combined.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        _download(url, file_path)
         print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -239,6 +254,7 @@ def load_url(md5_check=True):
                 print("Removing file and re-downloading")
                 os.remove(file_path)
                 return load_url()
+    if not os.path.exists(data_target):
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
@@ -247,7 +263,7 @@ def load_url(md5_check=True):
         np.save(data_path, X.data)
         np.save(data_indices, X.indices)
         np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save_last(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -349,7 +365,7 @@ def load_kdd10(md5_check=True):
     if not os.path.exists(file_path):
         print("KDD10 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kddb.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        _download(url, file_path)
         print("Finished downloading")
     if md5_check:
         h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -392,7 +408,7 @@ def load_kdd12(md5_check=True, verbose=0):
     if not os.path.exists(file_path):
         print("KDD12 dataset is not present in data folder. Downloading it ...")
         url = "https://www.csie.ntu.edu.tw/~cjlin/libsvmtools/datasets/binary/kdd12.bz2"
-        urllib.request.urlretrieve(url, file_path)
+        _download(url, file_path)
         print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -401,6 +417,7 @@ def load_kdd12(md5_check=True, verbose=0):
                 print("Removing file and re-downloading")
                 os.remove(file_path)
                 return load_kdd12()
+    if not os.path.exists(data_target):
         zipfile = bz2.BZ2File(file_path)
         data = zipfile.read()
         newfilepath = file_path[:-4]
@@ -409,7 +426,7 @@ def load_kdd12(md5_check=True, verbose=0):
         np.save(data_path, X.data)
         np.save(data_indices, X.indices)
         np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save_last(data_target, y)
     X_data = np.load(data_path)
     X_indices = np.load(data_indices)
     X_indptr = np.load(data_indptr)
@@ -448,11 +465,7 @@ def load_criteo(md5_check=True):
     if not os.path.exists(file_path):
         print("criteo dataset is not present in data folder. Downloading it ...")
         url = "https://s3-us-west-2.amazonaws.com/criteo-public-svm-data/criteo.kaggle2014.svm.tar.gz"
-        urllib.request.urlretrieve(url, file_path)
-        import tarfile
-
-        tar = tarfile.open(file_path)
-        tar.extractall(DATA_DIR)
+        _download(url, file_path)
         print("Finished downloading")
         if md5_check:
             h = hashlib.md5(open(file_path, "rb").read()).hexdigest()
@@ -461,13 +474,16 @@ def load_criteo(md5_check=True):
                 print("Removing file and re-downloading")
                 os.remove(file_path)
                 return load_criteo()
+    if not os.path.exists(data_target):
+        tar = tarfile.open(file_path)
+        tar.extractall(DATA_DIR)
         X, y = datasets.load_svmlight_file(
             os.path.join(DATA_DIR, "criteo.kaggle2014.train.svm")
         )
         np.save(data_path, X.data)
         np.save(data_indices, X.indices)
         np.save(data_indptr, X.indptr)
-        np.save(data_target, y)
+        _save_last(data_target, y)
         # optionally delete files
     else:
         X_data = np.load(data_path)
-- 
2.43.0


From cbe5729893912e686f226219fc3ef9115c9e7f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:43 +0000
Subject: [PATCH 26/55] fix: SVRG gradient estimate ignores the gradients of
 other samples that share a block

---
 copt/randomized.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index 01e3c56..5b12676 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -390,6 +390,10 @@ def minimize_svrg(
                     x[b_j] -= step_size * (grad_tmp[b_j] + bias_term)
             prox(x, i, bs_indices, bs_indptr, d, step_size)
 
+            # .. other samples can share blocks with this one ..
+            for j in range(A_indptr[i], A_indptr[i + 1]):
+                grad_tmp[A_indices[j]] = 0
+
     idx = np.arange(n_samples)
     grad_tmp = np.zeros(n_features)
     success = False
-- 
2.43.0


From 34f660852e4eea26279a43401ff8d9b7b362da7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:45 +0000
Subject: [PATCH 27/55] fix: variance-reduced methods sum the duplicate entries
 of A, as its products do

---
 copt/randomized.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/randomized.py b/copt/randomized.py
index 5b12676..e26a136 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -183,7 +183,7 @@ def minimize_saga(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -378,7 +378,7 @@ def minimize_svrg(
             old_grad_i = f_deriv(np.array([p_old]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - old_grad_i) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - old_grad_i) * A_data[j]
 
             # .. update coefficients ..
             # .. first iterate on blocks ..
@@ -636,7 +636,7 @@ def _factory_sparse_vrtos(
             grad_i = f_deriv(np.array([p]), np.array([b[i]]))[0]
             for j in range(A_indptr[i], A_indptr[i + 1]):
                 j_idx = A_indices[j]
-                grad_tmp[j_idx] = (grad_i - memory_gradient[i]) * A_data[j]
+                grad_tmp[j_idx] += (grad_i - memory_gradient[i]) * A_data[j]
 
             # .. x update ..
             for h_j in range(bs_1_indptr[i], bs_1_indptr[i + 1]):
-- 
2.43.0


From e0e993216ddee2a5c1447f140c56b2785fe62ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:42 +0000
Subject: [PATCH 28/55] fix: HuberLoss gradient with integer data is not
 truncated

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 75be2e2..bcbd12b 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -296,8 +296,8 @@ class HuberLoss:
         if not return_gradient:
             return loss
         # derivative of the Huber function, does not need to index the rows of A
-        z[~idx] = self.delta * np.sign(z[~idx])
-        grad = safe_sparse_add(self.A.T.dot(z) / self.A.shape[0], self.alpha * x.T)
+        deriv = np.where(idx, z, self.delta * np.sign(z))
+        grad = safe_sparse_add(self.A.T.dot(deriv) / self.A.shape[0], self.alpha * x.T)
         return loss, np.asarray(grad).ravel()
 
     @property
-- 
2.43.0


From 8613addcc8dc7d3bb4347cf1851f3f790f5a8356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:15 +0000
Subject: [PATCH 29/55] fix: LogLoss with integer data, coefficients and
 intercept is not truncated

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index bcbd12b..5b7b128 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -58,7 +58,7 @@ class LogLoss:
 
     def logsig(self, x):
         """Compute log(1 / (1 + exp(-t))) component-wise."""
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, 1.0))
         idx0 = x < -33
         out[idx0] = x[idx0]
         idx1 = (x >= -33) & (x < -18)
@@ -72,7 +72,7 @@ class LogLoss:
     def expit_b(self, x, b):
         """Compute sigmoid(x) - b."""
         idx = x < 0
-        out = np.zeros_like(x)
+        out = np.zeros_like(x, dtype=np.result_type(x, 1.0))
         exp_x = np.exp(x[idx])
         b_idx = b[idx]
         out[idx] = ((1 - b_idx) * exp_x - b_idx) / (1 + exp_x)
-- 
2.43.0


From 6e6f4b647ddacf306581e4190d3da2153923ebf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 30/55] fix: LogLoss Hessian-vector products with an intercept
 and a single feature

---
 copt/loss.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 5b7b128..0b28ae6 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -128,7 +128,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.array(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s, dtype=float)
@@ -168,7 +168,7 @@ class LogLoss:
         if self.intercept:
             # Calculate the double derivative with respect to intercept
             # In the case of sparse matrices this returns a matrix object.
-            dd_intercept = np.squeeze(np.array(dX.sum(axis=0)))
+            dd_intercept = np.array(dX.sum(axis=0)).ravel()
 
         def _Hs(s):
             ret = np.empty_like(s, dtype=float)
-- 
2.43.0


From 98ffc6d6c109096d417dbbde7fda1e5c8186ef0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:27 +0000
Subject: [PATCH 31/55] fix: max_lipschitz sums the duplicate entries of sparse
 data

---
 copt/loss.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/copt/loss.py b/copt/loss.py
index 0b28ae6..f61dc26 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -14,6 +14,17 @@ def _spectral_norm(A):
     return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
 
 
+def _max_squared_row_norm(A):
+    """Largest squared norm of the rows of A."""
+    from sklearn.utils.extmath import row_norms
+
+    if sparse.issparse(A) and not getattr(A, "has_canonical_format", True):
+        # row_norms does not sum the duplicate entries
+        A = A.copy()
+        A.sum_duplicates()
+    return row_norms(A, squared=True).max()
+
+
 class LogLoss:
     r"""Logistic loss function.
 
@@ -210,9 +221,7 @@ class LogLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = _max_squared_row_norm(self.A)
 
         return 0.25 * max_squared_sum + self.alpha
 
@@ -264,9 +273,7 @@ class SquareLoss:
 
     @property
     def max_lipschitz(self):
-        from sklearn.utils.extmath import row_norms
-
-        max_squared_sum = row_norms(self.A, squared=True).max()
+        max_squared_sum = _max_squared_row_norm(self.A)
 
         return max_squared_sum + self.alpha
 
-- 
2.43.0


From 2a3a4ad4038f62ec91dfd2621fa27f40c58fee1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:18 +0000
Subject: [PATCH 32/55] fix: backtracking Frank-Wolfe recovers from a Lipschitz
 estimate of zero

---
 copt/frank_wolfe.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 5c85cd8..5f1e25b 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -261,6 +261,9 @@ def minimize_frank_wolfe(
             lipschitz_t = linalg.norm(grad - grad_eps) / (
                 eps * np.sqrt(norm_update_direction)
             )
+            # the gradient can be locally constant, the line search could
+            # not increase an estimate of zero
+            lipschitz_t = max(lipschitz_t, EPS)
             print("Estimated L_t = %s" % lipschitz_t)
 
         if certificate <= tol:
-- 
2.43.0


From 3b1396681d3a7f785c776be3244f9f364c8141f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:39 +0000
Subject: [PATCH 33/55] fix: proximal gradient line search is not fooled by
 rounding errors of the objective, it reported success away from the optimum

---
 copt/proximal_gradient.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 8eae207..67f5236 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -6,6 +6,17 @@ from scipy import optimize
 from copt import utils
 
 
+def _sufficient_decrease(fk, grad_fk, f_next, grad_next, update_direction, step_size):
+    """Sufficient decrease condition of the backtracking line-search."""
+    quadratic_term = update_direction.dot(update_direction) / (2.0 * step_size)
+    deviation = f_next - fk - grad_fk.dot(update_direction)
+    if abs(deviation) <= 10 * np.finfo(float).eps * abs(fk):
+        # rounding errors of f hide its deviation from linearity. Compare the
+        # gradients instead, this implies the other condition if f is convex
+        deviation = (grad_next - grad_fk).dot(update_direction)
+    return deviation <= quadratic_term
+
+
 def minimize_proximal_gradient(
         fun,
         x0,
@@ -154,12 +165,9 @@ def minimize_proximal_gradient(
                 update_direction = x_next - x
                 for _ in range(max_iter_backtracking):
                     f_next, grad_next = func_and_grad(x_next)
-                    rhs = (
-                        fk
-                        + grad_fk.dot(update_direction)
-                        + update_direction.dot(update_direction) / (2.0 * step_size)
-                    )
-                    if f_next <= rhs:
+                    if _sufficient_decrease(
+                        fk, grad_fk, f_next, grad_next, update_direction, step_size
+                    ):
                         # .. step size found ..
                         break
                     else:
@@ -229,10 +237,14 @@ def minimize_proximal_gradient(
                 x_next = prox(yk - current_step_size * grad_fk, current_step_size)
                 for _ in range(max_iter_backtracking):
                     update_direction = x_next - yk
-                    if func_and_grad(x_next)[0] <= func_and_grad(yk)[0] + grad_fk.dot(
-                        update_direction
-                    ) + update_direction.dot(update_direction) / (
-                        2.0 * current_step_size
+                    f_next, grad_next = func_and_grad(x_next)
+                    if _sufficient_decrease(
+                        func_and_grad(yk)[0],
+                        grad_fk,
+                        f_next,
+                        grad_next,
+                        update_direction,
+                        current_step_size,
                     ):
                         # .. step size found ..
                         break
-- 
2.43.0


From fb5ec0a84f6969804e6eb54d1da73065a7db48cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:09:24 +0000
Subject: [PATCH 34/55] fix: accelerated proximal gradient keeps its step size
 non-increasing, it could diverge

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 67f5236..07cc94e 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -256,6 +256,8 @@ def minimize_proximal_gradient(
                         )
                 else:
                     warnings.warn("Maxium number of line-search iterations reached")
+                # the accelerated variant needs non-increasing step sizes
+                step_size = current_step_size
                 t_next = (1 + np.sqrt(1 + 4 * tk * tk)) / 2
                 yk = x_next + ((tk - 1.0) / t_next) * (x_next - x)
 
-- 
2.43.0


From afa6be5d13ea93293c2365559fa0db931b3e676c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:15:42 +0000
Subject: [PATCH 35/55] fix: line search of minimize_primal_dual is not fooled
 by rounding errors of the objective

---
 copt/splitting.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 1a1a7e2..ca23b91 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -307,8 +307,13 @@ def minimize_primal_dual(
                 if incr_x <= 1e-10:
                     break
 
+                deviation = f_next - fk - grad_fk.dot(x_next - x)
+                if abs(deviation) <= 10 * np.finfo(float).eps * abs(fk):
+                    # hidden by the rounding errors of f, use an upper bound
+                    # for convex f that only involves gradients
+                    deviation = (f_grad_next - grad_fk).dot(x_next - x)
                 tmp = (sigma * tau_next) * (incr_Lx ** 2)
-                tmp += 2 * sigma * (f_next - fk - grad_fk.dot(x_next - x))
+                tmp += 2 * sigma * deviation
                 if tmp / delta <= (incr_x ** 2):
                     tau = tau_next
                     break
-- 
2.43.0


From 644a95ee252a73939bfef7c2c4567ccaae42c968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:16:33 +0000
Subject: [PATCH 36/55] fix: line search of minimize_three_split is not fooled
 by rounding errors of the objective, the step size collapsed

---
 copt/splitting.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index ca23b91..932ff71 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -137,8 +137,12 @@ def minimize_three_split(
                 x = prox_1(z - step_size * (u + grad_fk), step_size, *args_prox)
                 incr = x - z
                 norm_incr = np.linalg.norm(incr)
-                rhs = fk + grad_fk.dot(incr) + (norm_incr ** 2) / (2 * step_size)
-                ls_tol = f_grad(x, return_gradient=False) - rhs
+                deviation = f_grad(x, return_gradient=False) - fk - grad_fk.dot(incr)
+                if abs(deviation) <= 10 * LS_EPS * abs(fk):
+                    # hidden by the rounding errors of f, use an upper bound
+                    # for convex f that only involves gradients
+                    deviation = (f_grad(x)[1] - grad_fk).dot(incr)
+                ls_tol = deviation - (norm_incr ** 2) / (2 * step_size)
                 if ls_tol <= LS_EPS:
                     # step size found
                     # if ls_tol > 0:
-- 
2.43.0


From 99b0a9efb991015ea494aade1184ddc43c324641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:29 +0000
Subject: [PATCH 37/55] fix: a pairwise Frank-Wolfe step of size zero does not
 add a vertex of weight zero to the active set

---
 copt/frank_wolfe.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index 5f1e25b..b8c642a 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -98,6 +98,10 @@ def update_active_set(active_set,
                       fw_vertex_rep, away_vertex_rep,
                       step_size):
 
+    if step_size == 0:
+        # no weight is moved, a new vertex would enter with a weight of zero
+        return active_set
+
     max_step_size = active_set[away_vertex_rep]
     active_set[fw_vertex_rep] += step_size
     active_set[away_vertex_rep] -= step_size
-- 
2.43.0


From 0f3d2a7a40098ed6b1d18f1326d529561d968350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:10 +0000
Subject: [PATCH 38/55] fix: callbacks of minimize_vrtos find the current
 iterate under the name x, Trace raised a KeyError

---
 copt/randomized.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/randomized.py b/copt/randomized.py
index e26a136..15f5ba6 100644
--- a/copt/randomized.py
+++ b/copt/randomized.py
@@ -506,6 +506,7 @@ def minimize_vrtos(
     x0 = np.array(x0, dtype=float)
     Y = np.zeros((2, x0.size))
     z = x0.copy()
+    x = z  # the name under which callbacks like utils.Trace find the iterate
 
     assert A.shape[0] == b.size
 
-- 
2.43.0


From 9d2a48054460dc8bf2cbe3e11c2d906a1a0ddbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 39/55] fix: Lipschitz constants of the losses do not overflow
 for integer data

---
 copt/loss.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/copt/loss.py b/copt/loss.py
index f61dc26..381988b 100644
--- a/copt/loss.py
+++ b/copt/loss.py
@@ -10,6 +10,7 @@ def _spectral_norm(A):
     """Largest singular value of A."""
     if min(A.shape) == 1:
         # not supported by the iterative solver
+        A = A.astype(float)  # squares of integers could overflow
         return np.sqrt(A.multiply(A).sum() if sparse.issparse(A) else np.sum(A * A))
     return splinalg.svds(A, k=1, return_singular_vectors=False)[0]
 
@@ -22,6 +23,9 @@ def _max_squared_row_norm(A):
         # row_norms does not sum the duplicate entries
         A = A.copy()
         A.sum_duplicates()
+    if np.issubdtype(A.dtype, np.integer):
+        # squares of integers could overflow
+        A = A.astype(float)
     return row_norms(A, squared=True).max()
 
 
-- 
2.43.0


From daf4de07416cc4a4a5798b5bf36a0e20890553e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:02 +0000
Subject: [PATCH 40/55] fix: get_max_lipschitz sums duplicate entries and does
 not overflow, as max_lipschitz

---
 copt/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/copt/utils.py b/copt/utils.py
index 9544b33..c11334a 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -197,9 +197,9 @@ def get_max_lipschitz(A, loss, alpha=0):
 
   loss : {"logloss", "square", "huber"}
   """
-    from sklearn.utils.extmath import row_norms
+    from copt.loss import _max_squared_row_norm
 
-    max_squared_sum = row_norms(A, squared=True).max()
+    max_squared_sum = _max_squared_row_norm(A)
 
     if loss == "logloss":
         return 0.25 * max_squared_sum + alpha
-- 
2.43.0


From 94d6f5ba265e15c06bcfb4679aacf800faed4495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:09 +0000
Subject: [PATCH 41/55] fix: safe_sparse_add of a sparse column and a dense
 vector is a vector

---
 copt/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/utils.py b/copt/utils.py
index c11334a..c96bd38 100644
--- a/copt/utils.py
+++ b/copt/utils.py
@@ -71,7 +71,7 @@ def safe_sparse_add(a, b):
         if sparse.issparse(a):
             a = a.toarray()
             if a.ndim == 2 and b.ndim == 1:
-                b.ravel()
+                a = a.ravel()
         elif sparse.issparse(b):
             b = b.toarray()
             if b.ndim == 2 and a.ndim == 1:
-- 
2.43.0


From 93a326f7a796cd77db832c4305200f2b68851410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:19 +0000
Subject: [PATCH 42/55] fix: total variation of unsigned integers does not wrap
 around

---
 copt/penalty.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index b9774f3..845b5f8 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -156,7 +156,8 @@ class FusedLasso:
         self.alpha = alpha
 
     def __call__(self, x):
-        return self.alpha * np.sum(np.abs(np.diff(x)))
+        # differences of unsigned integers would wrap around
+        return self.alpha * np.sum(np.abs(np.diff(np.asarray(x, dtype=float))))
 
     def prox(self, x, step_size):
         # imported here to avoid circular imports
@@ -288,7 +289,8 @@ class TotalVariation2D:
         self.tol = tol
 
     def __call__(self, x):
-        img = x.reshape((self.n_rows, self.n_cols))
+        # differences of unsigned integers would wrap around
+        img = np.asarray(x, dtype=float).reshape((self.n_rows, self.n_cols))
         tmp1 = np.abs(np.diff(img, axis=0))
         tmp2 = np.abs(np.diff(img, axis=1))
         return self.alpha * (tmp1.sum() + tmp2.sum())
-- 
2.43.0


From 9f09533c3c9b23fb9da6a0500e986ac2034998e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 43/55] fix: proximal operator of the L1 norm of unsigned
 integers does not wrap around

---
 copt/penalty.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/penalty.py b/copt/penalty.py
index 845b5f8..6dee1e0 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -29,6 +29,7 @@ class L1Norm:
         minimize_proximal_gradient, minimize_three_split and
         minimize_primal_dual.
         """
+        x = x * 1.0  # opposites of unsigned integers would wrap around
         return np.fmax(x - self.alpha * step_size, 0) - np.fmax(
             -x - self.alpha * step_size, 0
         )
-- 
2.43.0


From 04f9d08a67a91f9b7db9bc1cb487cedc819f1477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 44/55] fix: proximal operator of the group lasso accepts
 integers, as the others

---
 copt/penalty.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/penalty.py b/copt/penalty.py
index 6dee1e0..34248ad 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -80,7 +80,7 @@ class GroupL1:
         return self.alpha * np.sum([np.linalg.norm(x[g]) for g in self.groups])
 
     def prox(self, x, step_size):
-        out = x.copy()
+        out = x * 1.0  # a copy, of floats if x is of integers
         for g in self.groups:
 
             norm = np.linalg.norm(x[g])
-- 
2.43.0


From 00d59840fbf9d31270802e1ff271e052da8d0e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 45/55] fix: projection onto the L2 ball does not overflow for
 integers

---
 copt/constraint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/copt/constraint.py b/copt/constraint.py
index 5efa6e1..5c09d5b 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -51,6 +51,7 @@ class L2Ball:
                 projection of x onto the L-2 ball.
         """
 
+        x = x * 1.0  # squares of small integers would overflow
         norm = np.sqrt((x ** 2).sum())
         if norm <= self.alpha:
             return x
-- 
2.43.0


From 9f8b4590a1d4ead4a6107725d0cce92f959789d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 46/55] fix: projection onto the simplex of unsigned integers
 does not wrap around

---
 copt/constraint.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 5c09d5b..e23c2d4 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -222,7 +222,8 @@ def euclidean_proj_simplex(v, s=1.0):
         # best projection: itself!
         return v
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-    u = np.sort(v)[::-1]
+    # (of floats, as differences of unsigned integers would wrap around)
+    u = np.sort(v * 1.0)[::-1]
     cssv = np.cumsum(u)
     # get the number of > 0 components of the optimal solution
     rho = np.nonzero(u * np.arange(1, n + 1) > (cssv - s))[0][-1]
-- 
2.43.0


From a048a046007c6ef7fc6ff8c5bc0b19ffb62229a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:10 +0000
Subject: [PATCH 47/55] fix: three operator splitting: the step stays finite
 when the line search with h_Lipschitz exhausts its trials

---
 copt/splitting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index 932ff71..af94f4a 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -160,7 +160,7 @@ def minimize_three_split(
                 step_size = step_size * 1.02
             else:
                 quot = h_Lipschitz ** 2
-                tmp = np.sqrt(step_size ** 2 + (2 * step_size / quot) * (-ls_tol))
+                tmp = np.sqrt(step_size ** 2 + (2 * step_size / quot) * max(-ls_tol, 0))
                 step_size = min(tmp, step_size * 1.02)
 
         if callback is not None:
-- 
2.43.0


From 64083127dc9c8378c797d5c77e89cd7782e54816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:09 +0000
Subject: [PATCH 48/55] fix: primal-dual splitting: linear operators that
 return their argument are supported

---
 copt/splitting.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/copt/splitting.py b/copt/splitting.py
index af94f4a..10e9a2d 100644
--- a/copt/splitting.py
+++ b/copt/splitting.py
@@ -261,7 +261,8 @@ def minimize_primal_dual(
         L = sparse.eye(n_features, n_features, format="csr")
     L = sparse.linalg.aslinearoperator(L)
 
-    y = L.matvec(x)
+    # a copy, as the operator could return its argument
+    y = np.array(L.matvec(x))
 
     success = False
     if not max_iter_ls > 0:
-- 
2.43.0


From 678a4b6bd23cb1ba7c76017e9ff648852d576f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:06 +0000
Subject: [PATCH 49/55] fix: proximal gradient: the gradient is evaluated at
 the iterate taken when the line search exhausts its trials

---
 copt/proximal_gradient.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/copt/proximal_gradient.py b/copt/proximal_gradient.py
index 07cc94e..3446558 100644
--- a/copt/proximal_gradient.py
+++ b/copt/proximal_gradient.py
@@ -177,6 +177,8 @@ def minimize_proximal_gradient(
                         update_direction = x_next - x
                 else:
                     warnings.warn("Maxium number of line-search iterations reached")
+                    # the last candidate is taken without having been evaluated
+                    f_next, grad_next = func_and_grad(x_next)
             elif step == "fixed":
                 x_next = prox(x - step_size * grad_fk, step_size)
                 update_direction = x_next - x
-- 
2.43.0


From 4ce74db735707f30d151cb2579d9f7f190827bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:31 +0000
Subject: [PATCH 50/55] fix: linear minimization oracles do not truncate the
 direction at integer points

---
 copt/constraint.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index e23c2d4..86522f0 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -116,11 +116,11 @@ class L1Ball:
           max_step_size: float
               1. for a Frank-Wolfe step.
         """
-        abs_u = np.abs(u)
+        abs_u = np.abs(u * 1.0)  # not of integers, whose smallest has no opposite
         largest_coordinate = np.argmax(abs_u)
         sign = np.sign(u[largest_coordinate])
 
-        update_direction = -x.copy()
+        update_direction = -1.0 * x  # of floats, also if x is of integers
         update_direction[largest_coordinate] += self.alpha * sign
 
         # Only useful for active_set management in pairwise FW
@@ -183,7 +183,7 @@ class SimplexConstraint:
     """
         largest_coordinate = np.argmax(u)
 
-        update_direction = -x.copy()
+        update_direction = -1.0 * x  # of floats, also if x is of integers
         update_direction[largest_coordinate] += self.s
 
         return update_direction, int(largest_coordinate), None, 1
-- 
2.43.0


From 93538abc673bd38c96a374b200e183ccd638c9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:31 +0000
Subject: [PATCH 51/55] fix: the l1 norm, ball and projection of the smallest
 integers do not wrap around

---
 copt/constraint.py | 5 +++--
 copt/penalty.py    | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 86522f0..9e6434f 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -74,7 +74,7 @@ class L1Ball:
         self.alpha = alpha
 
     def __call__(self, x):
-        if np.abs(x).sum() <= self.alpha:
+        if np.abs(x * 1.0).sum() <= self.alpha:
             return 0
         else:
             return np.inf
@@ -258,7 +258,8 @@ def euclidean_proj_l1ball(v, s=1):
     if len(v.shape) > 1:
         raise ValueError
     # compute the vector of absolute values
-    u = np.abs(v)
+    # (of floats, as the smallest integer has no opposite)
+    u = np.abs(v * 1.0)
     # check if v is already a solution
     if u.sum() <= s:
         # L1-norm is <= s
diff --git a/copt/penalty.py b/copt/penalty.py
index 34248ad..41531e7 100644
--- a/copt/penalty.py
+++ b/copt/penalty.py
@@ -20,7 +20,8 @@ class L1Norm:
         self.alpha = alpha
 
     def __call__(self, x):
-        return self.alpha * np.abs(x).sum()
+        # of floats, as the smallest integer has no opposite
+        return self.alpha * np.abs(x * 1.0).sum()
 
     def prox(self, x, step_size):
         """Proximal operator of the L1 norm.
-- 
2.43.0


From 67b6e9a5020bc21a30728d57172d5c7118e51d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:28 +0000
Subject: [PATCH 52/55] fix: projections on the simplex of points much larger
 than its radius do not fail or lose it to rounding

---
 copt/constraint.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 9e6434f..340e225 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -221,12 +221,18 @@ def euclidean_proj_simplex(v, s=1.0):
     if v.sum() == s and np.all(v >= 0):
         # best projection: itself!
         return v
+    # of floats, as differences of unsigned integers would wrap around
+    v = v * 1.0
+    # adding a constant to all entries does not change the projection: bring the
+    # largest into [0, s], as s would vanish next to entries much larger than it
+    v = v - (v.max() - np.clip(v.max(), 0, s))
     # get the array of cumulative sums of a sorted (decreasing) copy of v
-    # (of floats, as differences of unsigned integers would wrap around)
-    u = np.sort(v * 1.0)[::-1]
+    u = np.sort(v)[::-1]
     cssv = np.cumsum(u)
     # get the number of > 0 components of the optimal solution
-    rho = np.nonzero(u * np.arange(1, n + 1) > (cssv - s))[0][-1]
+    # (the first ones: beyond these, errors of the cumulative sums decide)
+    positive = np.logical_and.accumulate(u * np.arange(1, n + 1) > (cssv - s))
+    rho = np.nonzero(positive)[0][-1]
     # compute the Lagrange multiplier associated to the simplex constraint
     theta = (cssv[rho] - s) / (rho + 1.0)
     # compute the projection by thresholding v using theta
-- 
2.43.0


From b7b08abccb74c8f70613ad355b0e5134bf8bb363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:03 +0000
Subject: [PATCH 53/55] fix: the backtracking line search of Frank-Wolfe
 survives gaps whose squares underflow

---
 copt/frank_wolfe.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/copt/frank_wolfe.py b/copt/frank_wolfe.py
index b8c642a..df320f9 100644
--- a/copt/frank_wolfe.py
+++ b/copt/frank_wolfe.py
@@ -70,7 +70,9 @@ def backtracking_step_size(
     max_ls_iter = 100
     if old_f_t is not None:
         tmp = (certificate ** 2) / (2 * (old_f_t - f_t) * norm_update_direction)
-        lipschitz_t = max(min(tmp, lipschitz_t), lipschitz_t * ratio_decrease)
+        # (0 / 0, when neither the gap nor the decrease can be seen, tells nothing)
+        if not np.isnan(tmp):
+            lipschitz_t = max(min(tmp, lipschitz_t), lipschitz_t * ratio_decrease)
     for _ in range(max_ls_iter):
         step_size_t = certificate / (norm_update_direction * lipschitz_t)
         if step_size_t < max_step_size:
-- 
2.43.0


From dcb3686c63edd76bd29e03f75b68965b207315a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:09 +0000
Subject: [PATCH 54/55] fix: the 1-D total variation prox of steps much larger
 than the values does not lose them to rounding

---
 copt/tv_prox.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/copt/tv_prox.py b/copt/tv_prox.py
index 56fff90..b283137 100644
--- a/copt/tv_prox.py
+++ b/copt/tv_prox.py
@@ -45,6 +45,9 @@ def prox_tv1d(w, step_size):
 @utils.njit
 def _prox_tv1d(step_size, input, output):
     """low level function call, no checks are performed"""
+    # from some step size on the solution is constant, that of larger ones
+    # would only be hidden by rounding errors
+    step_size = min(step_size, input.size * (input.max() - input.min()))
     width = input.size + 1
     index_low = np.zeros(width, dtype=np.int32)
     slope_low = np.zeros(width, dtype=input.dtype)
-- 
2.43.0


From e619ded90a0200ab97d412f31e8245ecad167466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:21:45 +0000
Subject: [PATCH 55/55] fix: the radius of the trace ball is not rounded to
 single precision when a point is tested

---
 copt/constraint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/copt/constraint.py b/copt/constraint.py
index 340e225..13028f2 100644
--- a/copt/constraint.py
+++ b/copt/constraint.py
@@ -296,7 +296,7 @@ class TraceBall:
 
     def __call__(self, x):
         X = x.reshape(self.shape)
-        if linalg.svdvals(X).sum() <= self.alpha + np.finfo(np.float32).eps:
+        if linalg.svdvals(X).sum() <= self.alpha + float(np.finfo(np.float32).eps):
             return 0
         else:
             return np.inf
-- 
2.43.0

