From 36eb4cd62f763d200ed608223465836a301d07dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 01/27] fix: lens coordinates use the builtin complex dtype
 (np.complex_ is gone in NumPy 2)

---
 dreimac/lenscoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/lenscoords.py b/dreimac/lenscoords.py
index c8a3736..3b7d5a5 100644
--- a/dreimac/lenscoords.py
+++ b/dreimac/lenscoords.py
@@ -93,7 +93,7 @@ class LensCoords(EMCoords):
 
         root_of_unity = np.exp(2 * np.pi * 1j / self._prime)
 
-        cocycle_matrix = np.ones( (n_landmarks, n_landmarks), np.complex_ )
+        cocycle_matrix = np.ones((n_landmarks, n_landmarks), dtype=complex)
         cocycle_matrix[cocycle[:, 0], cocycle[:, 1]] = root_of_unity ** cocycle[:, 2]
         cocycle_matrix[cocycle[:, 1], cocycle[:, 0]] = (1 / root_of_unity) ** cocycle[:, 2]
 
-- 
2.43.0


From 44aead0991e8b8b160598d9b6ab95526e47cf34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 02/27] fix: complex projective class map uses the assembled
 phases, not a compile-time constant of zeros

---
 dreimac/complexprojectivecoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 936fa83..5a30a78 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -298,7 +298,7 @@ def _sparse_integrate(
                 class_map[b, i] += nu[i, ball_indx[b]]
                 for t in range(n_landmarks):
                     class_map[b, i] += varphi[t, b] * eta[i, ball_indx[b], t]
-        return np.exp(2 * np.pi * 1j * class_map0) * np.sqrt(varphi.T)
+        return np.exp(2 * np.pi * 1j * class_map) * np.sqrt(varphi.T)
 
     return _assemble(
         class_map0,
-- 
2.43.0


From 152d61b6a368074c3178744588746258efa73fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 03/27] fix: toroidal coordinates repair more than one class
 whose lift is not a cocycle

---
 dreimac/toroidalcoords.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 77e7438..da27edb 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -136,9 +136,10 @@ class ToroidalCoords(EMCoords):
                 if is_cocycle:
                     fixed_cocycles.append(cocycle_as_vector)
                 else:
-                    delta1 = delta1 or CohomologyUtils.make_delta1_compact(
-                        dist_land_land, rips_threshold, self._cns_lookup_table
-                    )
+                    if delta1 is None:
+                        delta1 = CohomologyUtils.make_delta1_compact(
+                            dist_land_land, rips_threshold, self._cns_lookup_table
+                        )
 
                     d1cocycle = delta1 @ cocycle_as_vector.T
 
-- 
2.43.0


From 9296ab9b4aa65831592b497d830b1d5f6662310e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 04/27] fix: partition of unity is not truncated when distances
 are integers

---
 dreimac/emcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index ea480a7..25c37d8 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -171,7 +171,7 @@ class EMCoords(object):
         """
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
-        phi = np.zeros_like(dist_land_data)
+        phi = np.zeros(dist_land_data.shape)
         phi[U] = partunity_fn(dist_land_data[U], r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
-- 
2.43.0


From 29009f982304b52d592aba51bad822f0748be3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 05/27] fix: moving_dot honours its dim parameter

---
 dreimac/utils.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index f89a935..1de6b5f 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -874,7 +874,6 @@ class GeometryExamples:
             kernel = np.outer(gauss_x, gauss_y)
             return kernel
 
-        dim = 10
         P = np.zeros((sqrt_num_images**2, dim * dim))
         bound = 15
         xs = bound * np.power(np.linspace(-1, 1, sqrt_num_images), 3)
-- 
2.43.0


From bc7ecd92704d21dd4ff75d08ca8e2b9910f4ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:59 +0000
Subject: [PATCH 06/27] fix: reported Gram matrix is that of the returned
 toroidal coordinates

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index da27edb..c95fb80 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -215,7 +215,7 @@ class ToroidalCoords(EMCoords):
             ) = _reduce_circular_coordinates(circ_coords, gram_mat)
 
             self._original_gram_matrix = gram_mat
-            self._gram_matrix = decorrelated_vectors @ decorrelated_vectors.T
+            self._gram_matrix = decorrelated_vectors.T @ decorrelated_vectors
             self._change_basis = change_basis
 
         return circ_coords
-- 
2.43.0


From 1522229a7b8cbad1e879d2efec5292ce28ba2d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 07/27] fix: points covered by no landmark do not destroy the
 projective coordinates of the others

---
 dreimac/utils.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 1de6b5f..d25a01d 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -740,10 +740,14 @@ class EquivariantPCA:
         X = class_map.T
         variance = np.zeros(X.shape[0] - 1)
         n_dim = class_map.shape[1]
+        # points without coordinates (not covered by any landmark) must not
+        # affect the principal components of the other points
+        covered = ~np.isnan(class_map).any(axis=1)
 
         def _one_step_linear_reduction(X, dims_to_keep):
             try:
-                _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                Z = X[:, covered]
+                _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                 U = np.fliplr(U)
             except:
                 U = np.eye(X.shape[0])
@@ -776,13 +780,14 @@ class EquivariantPCA:
                 if i == n_dim - proj_dim - 1:
                     XRet = X
                 try:
-                    _, U = np.linalg.eigh(X.dot(np.conjugate(X).T))
+                    Z = X[:, covered]
+                    _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X)))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X[:, covered])))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 8ddb492b232a12fae9b8e0c4a7040dbccc5232f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 08/27] fix: variance of complex projective components uses the
 Hermitian inner product

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index d25a01d..92e6b37 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -787,7 +787,7 @@ class EquivariantPCA:
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(U[:, -1][None, :].dot(X[:, covered])))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, covered])))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 9e2ea22864e1aa5e021bc49b7152ebdca9ac9d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:18 +0000
Subject: [PATCH 09/27] fix: one-by-one dimensionality reduction down to
 projective dimension zero

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 92e6b37..e412693 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -795,6 +795,8 @@ class EquivariantPCA:
                 Y = Y[0:-1, :]
                 # X = Y / np.sqrt(1 - np.abs(y) ** 2)[None, :]
                 X = Y / np.linalg.norm(Y, axis=0)[None, :]
+            if proj_dim == 0:
+                XRet = X
             if verbose:
                 print("Elapsed time ppca: %.3g" % (time.time() - tic))
 
-- 
2.43.0


From 168ed9f55a0f421769ce9005537000cceaf5ece5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 10/27] fix: rotmat is a rotation taking a to b also when the
 vectors are nearly parallel or opposite

---
 dreimac/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index e412693..c22d630 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1558,13 +1558,20 @@ class ProjectiveMapUtils:
 
         c = a - np.sum(b * a) * b
         # If a numerically coincides with b, don't rotate at all
-        if np.sqrt(np.sum(c**2)) < 1e-15:
+        lam = np.sum(b * a)
+        beta = np.sqrt(np.sum(c**2))
+        if d == 1 or (beta < 1e-15 and lam > 0):
             return np.eye(d)
 
+        # If a is numerically opposite to b, rotate by pi in any plane containing b
+        if beta < 1e-12 and lam < 0:
+            c = np.zeros(d)
+            c[np.argmin(np.abs(b))] = 1
+
         # Otherwise, compute rotation matrix
         c = c / np.sqrt(np.sum(c**2))
-        lam = np.sum(b * a)
-        beta = np.sqrt(1 - np.abs(lam) ** 2)
+        c = c - np.sum(b * c) * b
+        c = c / np.sqrt(np.sum(c**2))
         rot = (
             np.eye(d)
             - (1 - lam) * (c[:, None].dot(c[None, :]))
-- 
2.43.0


From fb561bea806b7522ab35df14e126d1880fa00c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:27 +0000
Subject: [PATCH 11/27] fix: computing coordinates no longer rewrites the
 object's stored cocycles

---
 dreimac/complexprojectivecoords.py | 2 +-
 dreimac/toroidalcoords.py          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 5a30a78..1974135 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -105,7 +105,7 @@ class ComplexProjectiveCoords(EMCoords):
 
         # lift to integer cocycles
         integer_cocycle = CohomologyUtils.lift_to_integer_cocycle(
-            cocycle, prime=self._prime
+            cocycle.copy(), prime=self._prime
         )
 
         # go from sparse to dense representation of cocycles
diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index c95fb80..ccb721d 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -96,7 +96,7 @@ class ToroidalCoords(EMCoords):
 
         # lift to integer cocycles
         integer_cocycles = [
-            CohomologyUtils.lift_to_integer_cocycle(cocycle, prime=self._prime)
+            CohomologyUtils.lift_to_integer_cocycle(cocycle.copy(), prime=self._prime)
             for cocycle in cocycles
         ]
 
-- 
2.43.0


From 7f45030080d9518f6f5e010349d36f086481c6c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 12/27] fix: landmark sampling never selects the same data
 point twice

---
 dreimac/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index c22d630..d86c74a 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -114,6 +114,7 @@ class GeometryUtils:
         D = np.zeros((M, N))
         D[0, :] = ds
         for i in range(1, M):
+            ds[perm[:i]] = -1  # never select the same point twice
             idx = np.argmax(ds)
             perm[i] = idx
             lambdas[i] = ds[idx]
@@ -148,8 +149,9 @@ class GeometryUtils:
         # first point in the point cloud, but could be random
         perm = np.zeros(M, dtype=np.int64)
         lambdas = np.zeros(M)
-        ds = D[0, :]
+        ds = D[0, :].astype(float)
         for i in range(1, M):
+            ds[perm[:i]] = -1  # never select the same point twice
             idx = np.argmax(ds)
             perm[i] = idx
             lambdas[i] = ds[idx]
@@ -208,6 +210,7 @@ class GeometryUtils:
         D = np.zeros((n_landmarks, n_points))
         D[0, :] = ds
         for i in range(1, n_landmarks):
+            ds[perm[:i]] = -1  # never select the same point twice
             idx = np.argmax(ds)
             perm[i] = idx
             lambdas[i] = ds[idx]
-- 
2.43.0


From a42618c08c6629df12cf7c682ee5a286a61b1b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 13/27] fix: Moore space distance matrix is symmetric

---
 dreimac/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index d86c74a..4d5ec19 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1236,6 +1236,8 @@ class GeometryExamples:
                     )
 
         _fill_dist_mat(X, dist_mat, R, prime)
+        # a path through the boundary can be followed in either direction
+        dist_mat = np.minimum(dist_mat, dist_mat.T)
         return dist_mat, X
 
 
-- 
2.43.0


From f9cdb41f3d58306d4025db84e0cd9e7380ab3879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 14/27] fix: circle_to_3dnorthpole does not overwrite the
 caller's point

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 4d5ec19..8dc84cd 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1464,7 +1464,7 @@ class ProjectiveMapUtils:
         """
         magSqr = np.sum(x**2)
         if magSqr > 1:
-            x /= np.sqrt(magSqr)
+            x = x / np.sqrt(magSqr)
             magSqr = 1
         u = np.zeros(3)
         u[0:2] = x
-- 
2.43.0


From a748a79bb09dd60c20fe5a127666e64da5e7e8e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:47 +0000
Subject: [PATCH 15/27] fix: the missing-integral-lift error names the
 requested class

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index ccb721d..348d438 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -161,7 +161,7 @@ class ToroidalCoords(EMCoords):
                     if not optimizer_solution["success"]:
                         raise Exception(
                             "The cohomology class at index "
-                            + str(class_idx)
+                            + str(cocycle_idxs[class_idx])
                             + " does not have an integral lift."
                         )
                     else:
-- 
2.43.0


From bcaa17ac0507a8bcdf8f30c65561d374df2e82db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:44 +0000
Subject: [PATCH 16/27] fix: cocycles stay cocycles when there are fewer
 distinct points than landmarks

---
 dreimac/emcoords.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 25c37d8..1f52785 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -49,14 +49,18 @@ class EMCoords(object):
             ripser_metric_input = X 
         else:
             ripser_metric_input = X[:,:X.shape[0]]
-        res = ripser(
-            ripser_metric_input,
+        ripser_args = dict(
             distance_matrix=distance_matrix,
             coeff=prime,
             maxdim=maxdim,
-            n_perm=n_landmarks,
             do_cocycles=True,
         )
+        res = ripser(ripser_metric_input, n_perm=n_landmarks, **ripser_args)
+        # If there are fewer distinct data points than landmarks, landmarks get repeated, and
+        # cocycles cannot be indexed by them: in that case keep only the distinct landmarks
+        n_distinct = len(np.unique(res["idx_perm"]))
+        if n_distinct < len(res["idx_perm"]):
+            res = ripser(ripser_metric_input, n_perm=n_distinct, **ripser_args)
         if verbose:
             print("Elapsed time persistence: %.3g seconds" % (time.time() - tic))
         self._prime = prime
-- 
2.43.0


From 320f936ba056ab2f0dbfa8d313946c26620aaaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:06 +0000
Subject: [PATCH 17/27] fix: lattice reduction orthogonalises against
 Gram-Schmidt vectors, not basis vectors

---
 dreimac/toroidalcoords.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/toroidalcoords.py b/dreimac/toroidalcoords.py
index 348d438..8857e62 100644
--- a/dreimac/toroidalcoords.py
+++ b/dreimac/toroidalcoords.py
@@ -391,7 +391,7 @@ def _gram_schmidt(B):
     for i in range(1, n):
         Ai = B[:, i]
         for j in range(0, i):
-            Aj = B[:, j]
+            Aj = A[:, j]
             # t = np.dot(B[i],B[j])
             Ai = Ai - proj(Aj, Ai)
         A[:, i] = Ai
-- 
2.43.0


From ed7be92e14874bcd48cf9040f4422348d44d8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:01 +0000
Subject: [PATCH 18/27] fix: complex projective coordinates can repair a class
 whose lift is not a cocycle (scipy was not imported)

---
 dreimac/complexprojectivecoords.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dreimac/complexprojectivecoords.py b/dreimac/complexprojectivecoords.py
index 1974135..ca142ca 100644
--- a/dreimac/complexprojectivecoords.py
+++ b/dreimac/complexprojectivecoords.py
@@ -1,4 +1,5 @@
 import numpy as np
+import scipy
 from numba import jit
 import scipy.sparse as sparse
 from scipy.sparse.linalg import lsqr
-- 
2.43.0


From c8405e491cbf53a0a35d6a22669e40f8a1acf6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:10 +0000
Subject: [PATCH 19/27] fix: a point lost by an intermediate projection does
 not destroy the principal components of the others

---
 dreimac/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 8dc84cd..73df872 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -743,13 +743,15 @@ class EquivariantPCA:
         X = class_map.T
         variance = np.zeros(X.shape[0] - 1)
         n_dim = class_map.shape[1]
-        # points without coordinates (not covered by any landmark) must not
-        # affect the principal components of the other points
-        covered = ~np.isnan(class_map).any(axis=1)
+
+        def _defined(X):
+            # points without coordinates (not covered by any landmark, or orthogonal to all
+            # the components kept so far) must not affect the principal components of the others
+            return X[:, ~np.isnan(X).any(axis=0)]
 
         def _one_step_linear_reduction(X, dims_to_keep):
             try:
-                Z = X[:, covered]
+                Z = _defined(X)
                 _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                 U = np.fliplr(U)
             except:
@@ -783,14 +785,14 @@ class EquivariantPCA:
                 if i == n_dim - proj_dim - 1:
                     XRet = X
                 try:
-                    Z = X[:, covered]
+                    Z = _defined(X)
                     _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(X[:, covered])))))
+                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(_defined(X))))))
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From f4b87a3ae086dd21fcff60d7d443235e5ce88ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:57 +0000
Subject: [PATCH 20/27] fix: bump functions receive floating point distances
 whatever the dtype of the input

---
 dreimac/emcoords.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index 1f52785..e0bede2 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -176,7 +176,8 @@ class EMCoords(object):
         dist_land_data = self._dist_land_data
         U = dist_land_data < r_cover
         phi = np.zeros(dist_land_data.shape)
-        phi[U] = partunity_fn(dist_land_data[U], r_cover)
+        # (in floating point, since arithmetic in the dtype of the input can overflow)
+        phi[U] = partunity_fn(dist_land_data[U].astype(float), r_cover)
         # Compute the partition of unity
         # varphi_j(b) = phi_j(b)/(phi_1(b) + ... + phi_{n_landmarks}(b))
         denom = np.sum(phi, 0)
-- 
2.43.0


From 95a31231c5d5608f9d62a4a8e085bb6d02b56606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:45 +0000
Subject: [PATCH 21/27] fix: exponential bump function is positive on the whole
 ball

---
 dreimac/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 73df872..9324abe 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -700,7 +700,10 @@ class PartUnity:
             The bump function
 
         """
-        return np.exp(r_cover**2 / (ds**2 - r_cover**2))
+        # positive on the whole ball: close to its boundary the exponential underflows to zero
+        return np.maximum(
+            np.exp(r_cover**2 / (ds**2 - r_cover**2)), np.finfo(float).tiny
+        )
 
 
 class EquivariantPCA:
-- 
2.43.0


From 11051bfee31e39e200a3b16ec63c23703263810a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:48 +0000
Subject: [PATCH 22/27] fix: lens to disk projection does not truncate the
 rounding error of the fundamental domain index

---
 dreimac/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 9324abe..6eb8e6b 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1625,7 +1625,8 @@ class LensMapUtils:
             arg_z = np.mod(np.angle(p1), 2 * np.pi)
             theta = np.mod(arg_z, 2 * np.pi / q)
 
-            k = np.floor((arg_z - theta) / (2 * np.pi / q))
+            # an integer up to rounding errors: do not truncate them
+            k = np.rint((arg_z - theta) / (2 * np.pi / q))
 
             phi = np.mod(np.angle(p2), 2 * np.pi) - 2 * k * np.pi / q
 
-- 
2.43.0


From cca93d149d23490af33a227552249a82b9cd0554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:54 +0000
Subject: [PATCH 23/27] fix: lens to disk projection is defined for unit
 vectors whose norm is rounded above one

---
 dreimac/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 6eb8e6b..8234e07 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1634,7 +1634,7 @@ class LensMapUtils:
             x, y, z = (
                 r * np.cos(phi),
                 r * np.sin(phi),
-                (q / np.pi) * (theta - np.pi / q) * np.sqrt(1 - r**2),
+                (q / np.pi) * (theta - np.pi / q) * np.sqrt(max(0, 1 - r**2)),
             )
             return [x, y, z]
 
-- 
2.43.0


From 688c9ad9685705a2f3d743b4d3f761a361c4b662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:23 +0000
Subject: [PATCH 24/27] fix: projective variance is defined when a point
 coincides with a component

---
 dreimac/utils.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index 8234e07..cd38e8d 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -795,7 +795,15 @@ class EquivariantPCA:
                 except:
                     U = np.eye(X.shape[0])
                 variance[-i - 1] = np.mean(
-                    (np.pi / 2 - np.real(np.arccos(np.abs(np.conjugate(U[:, -1])[None, :].dot(_defined(X))))))
+                    (
+                        np.pi / 2
+                        - np.arccos(
+                            np.minimum(
+                                np.abs(np.conjugate(U[:, -1])[None, :].dot(_defined(X))),
+                                1,
+                            )
+                        )
+                    )
                     ** 2
                 )
                 Y = (np.conjugate(U).T).dot(X)
-- 
2.43.0


From 2e127eff9a33ff98f0c037c0834051ba352ad636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:54 +0000
Subject: [PATCH 25/27] fix: centring a circle map accepts angles that are
 nearly but not exactly equal

---
 dreimac/utils.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index cd38e8d..aab6d1a 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -1302,7 +1302,12 @@ class CircleMapUtils:
             the rotation of the given points by the given offset.
         """
         bins = 50
-        vals, ticks = np.histogram(circle_map, bins=bins)
+        data_range = None
+        if np.size(circle_map) > 0 and np.ptp(circle_map) < 1e-9:
+            # too narrow to be divided into bins, use a unit range around the data,
+            # which is what numpy does when all of the points are equal
+            data_range = (np.min(circle_map) - 0.5, np.max(circle_map) + 0.5)
+        vals, ticks = np.histogram(circle_map, bins=bins, range=data_range)
         centered = ((circle_map - ticks[np.argmax(vals)]) + np.pi) % (2 * np.pi)
         return centered
 
-- 
2.43.0


From f27fc9103ca397df733e0d04f717076d2e89b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:49 +0000
Subject: [PATCH 26/27] fix: dimensionality reduction keeps the principal
 components when the symmetric eigensolver does not converge

---
 dreimac/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dreimac/utils.py b/dreimac/utils.py
index aab6d1a..1c2d19e 100644
--- a/dreimac/utils.py
+++ b/dreimac/utils.py
@@ -758,7 +758,8 @@ class EquivariantPCA:
                 _, U = np.linalg.eigh(Z.dot(np.conjugate(Z).T))
                 U = np.fliplr(U)
             except:
-                U = np.eye(X.shape[0])
+                # the symmetric eigensolver does not always converge
+                U, _, _ = np.linalg.svd(Z.dot(np.conjugate(Z).T))
             Y = (np.conjugate(U).T).dot(X)
             Y = Y[:dims_to_keep, :]
             X = Y / np.linalg.norm(Y, axis=0)[None, :]
@@ -793,7 +794,8 @@ class EquivariantPCA:
                     U = np.fliplr(U)
                     # U, _, _ = np.linalg.svd(X)
                 except:
-                    U = np.eye(X.shape[0])
+                    # the symmetric eigensolver does not always converge
+                    U, _, _ = np.linalg.svd(Z.dot(np.conjugate(Z).T))
                 variance[-i - 1] = np.mean(
                     (
                         np.pi / 2
-- 
2.43.0


From e695625b37529880f56d0d8219f6ab6b32776260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:28:02 +0000
Subject: [PATCH 27/27] fix: a false distance_matrix flag other than the
 constant False is not taken for true

---
 dreimac/emcoords.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dreimac/emcoords.py b/dreimac/emcoords.py
index e0bede2..cc2ceb4 100644
--- a/dreimac/emcoords.py
+++ b/dreimac/emcoords.py
@@ -43,7 +43,7 @@ class EMCoords(object):
         if verbose:
             tic = time.time()
             print("Doing TDA...")
-        if distance_matrix is False:
+        if not distance_matrix:
             ripser_metric_input = X 
         elif X.shape[0] == X.shape[1]:
             ripser_metric_input = X 
@@ -70,7 +70,7 @@ class EMCoords(object):
         self._idx_land = res["idx_perm"]
         self._n_landmarks = len(self._idx_land)
         #self.dist_land_data_ = res["dperm2all"]
-        if distance_matrix is False:
+        if not distance_matrix:
             self._dist_land_data = res["dperm2all"]
         elif X.shape[0] == X.shape[1]:
             self._dist_land_data = res["dperm2all"]
-- 
2.43.0

