From 224028d7d5104a9e788bcb57ad4f1d5c48d3d1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 01/51] fix: accumulate 2D posterior scores in 64 bit

The scores summed int8 data entries starting from a Python int, so the sum was
int8 and wrapped around as soon as more than 127 data entries were affected,
giving the update the wrong sign. The 3D scores already use int64.
---
 lom/_numba/matrix_updates_numba.py |  8 ++++----
 lom/_numba/posterior_score_fcts.py | 32 +++++++++++++++---------------
 2 files changed, 20 insertions(+), 20 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 15b7210..b61f32d 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -563,14 +563,14 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
         # q[0, d] = np.argmax(logconditional[:, d]) + 1
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8[:,:])', nopython=True, nogil=True)
 def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     """
     # TODO: numba
     """
     D, L = U.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for d in range(D):
         if U[d, l] != 1:
@@ -597,11 +597,11 @@ def posterior_score_fct_qL_Z(Z_n, U, X_n, l, q):
     return score
 
 
-@jit('int16(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16, int8)', nopython=True, nogil=True)
 def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     N, L = Z.shape
 
-    score = 0
+    score = np.int64(0)
     # We need q-1 sources active for Z_n to have an effect
     for n in range(N):
         if Z[n, l] != 1:
diff --git a/lom/_numba/posterior_score_fcts.py b/lom/_numba/posterior_score_fcts.py
index 51cae44..d47bf13 100644
--- a/lom/_numba/posterior_score_fcts.py
+++ b/lom/_numba/posterior_score_fcts.py
@@ -8,7 +8,7 @@ from numba import jit
 from numba.types import int64
 
 # OR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -18,7 +18,7 @@ def posterior_score_OR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -71,7 +71,7 @@ def posterior_score_OR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-AND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -81,7 +81,7 @@ def posterior_score_XOR_AND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -141,7 +141,7 @@ def posterior_score_XOR_AND_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -151,7 +151,7 @@ def posterior_score_XOR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] != 1:  # AND
             continue
@@ -206,7 +206,7 @@ def posterior_score_XOR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-NAND
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -216,7 +216,7 @@ def posterior_score_OR_NAND_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         if U[d, l] == -1:  # NAND
             continue
@@ -262,7 +262,7 @@ def posterior_score_OR_NAND_3D(Z_n, U, V, X_n, l):
 
 
 # OR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     Return count of correct/incorrect explanations
@@ -272,7 +272,7 @@ def posterior_score_OR_XOR_2D(Z_n, U, X_n, l):
     """
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -313,11 +313,11 @@ def posterior_score_OR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # NAND-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_NAND_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
     for d in range(D):
 
         explained_away = False
@@ -357,12 +357,12 @@ def posterior_score_NAND_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-XOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_XOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
 
-    score = 0
+    score = int64(0)
     for d in range(D):
         num_active = np.int8(0)
         for l_prime in range(L):
@@ -408,11 +408,11 @@ def posterior_score_XOR_XOR_3D(Z_n, U, V, X_n, l):
 
 
 # XOR-NXOR
-@jit('int16(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
+@jit('int64(int8[:], int8[:,:], int8[:], int16)', nopython=True, nogil=True)
 def posterior_score_XOR_NXOR_2D(Z_n, U, X_n, l):
 
     D, L = U.shape
-    score = 0
+    score = int64(0)
 
     for d in range(D):
         num_active = np.int8(0)
-- 
2.43.0


From 0b3d9c051fef78b756ac13aea46aff2202f30dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 02/51] fix: sign of the fuzzy 3D OR-XOR product

Only the first of the three exclusive terms was subtracted from one.
---
 lom/_numba/lom_outputs_fuzzy.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index f77e4b4..3a2bfde 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -97,9 +97,9 @@ def OR_XOR_product_fuzzy_3d(Z_n, U_d, V_m):
     temp = np.float64(1)
     # this is hard to generalise to arbitrary D
     for l in range(Z_n.shape[0]):
-        temp *= 1 - Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +\
-            U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +\
-            V_m[l] * (1 - Z_n[l]) * (1 - U_d[l])
+        temp *= 1 - (Z_n[l] * (1 - U_d[l]) * (1 - V_m[l]) +
+                     U_d[l] * (1 - V_m[l]) * (1 - Z_n[l]) +
+                     V_m[l] * (1 - Z_n[l]) * (1 - U_d[l]))
     return 1 - temp
 
 
-- 
2.43.0


From dd966b2ad5cf7b78a40bf938479736bc4181e252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:43 +0000
Subject: [PATCH 03/51] fix: fuzzy 3D output for all implemented models

For three factors and any model but OR-AND the fuzzy request fell through to the
crisp generator, which treats every probability below one as false and returns
values in {-1,1} instead of probabilities.
---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index cd2877b..b355960 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -756,7 +756,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out2D = lambda_updates_numba.make_output_function_2d_fuzzy(model)
             return out2D(*[np.array(f, dtype=np.float64) for f in factors])
 
-    elif len(factors) == 3 and model == 'OR-AND':
+    elif len(factors) == 3:
         if fuzzy is False:
             out3D = lambda_updates_numba.make_output_function_3d(model)
             return out3D(*[np.array(f, dtype=np.int8) for f in factors])
-- 
2.43.0


From cdfd00e9fcb35d0ce885c4222e985acb47826643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 04/51] fix: fuzzy output in the general fallback

Fuzzy requests for models or arities without a dedicated implementation were
answered by the crisp generator, which treats every probability below one as
false and returns -1/1.
---
 lom/auxiliary_functions.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index b355960..3a5943d 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -744,7 +744,7 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
     if model not in implemented_loms():
         print('Requested model output is not explicitly implemented.\n' +
               'Falling back to slower general implementation.')
-        return lom_generate_data(factors, model)
+        return lom_generate_data_general(factors, model, fuzzy)
 
     if len(factors) == 2:
 
@@ -765,6 +765,18 @@ def lom_generate_data_fast(factors, model='OR-AND', fuzzy=False):
             out3D = lambda_updates_numba.make_output_function_3d_fuzzy(model)
             return out3D(*[np.array(f, dtype=np.float64) for f in factors])
 
+    else:
+        return lom_generate_data_general(factors, model, fuzzy)
+
+
+def lom_generate_data_general(factors, model='OR-AND', fuzzy=False):
+    """
+    Slower implementation for any model and number of factors.
+    Fuzzy factors and outputs are probabilities, in [0,1] mapping.
+    """
+    if fuzzy is True:
+        return .5 * (1 + lom_generate_data_fuzzy(
+            [2 * np.array(f, dtype=np.float64) - 1 for f in factors], model))
     else:
         return lom_generate_data(factors, model)
 
-- 
2.43.0


From d8ebbdc90e11a3e0129c23c4fb4aad805a995687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:16 +0000
Subject: [PATCH 05/51] fix: max model output is the largest active lambda

MAX_AND_product_2d filled in lambdas in ascending order, reporting the smallest
active one, and left entries without active dimension at 0 although the model
emits ones there with the clamped lambda (as in maxmachine_forward_pass and in
the sampler). MAX_AND_product_fuzzy ordered dimensions by z*u*lambda instead of
lambda and added up tied dimensions, exceeding 1.
---
 lom/_numba/lom_outputs.py       |  5 ++++-
 lom/_numba/lom_outputs_fuzzy.py | 26 +++++++++++---------------
 2 files changed, 15 insertions(+), 16 deletions(-)

diff --git a/lom/_numba/lom_outputs.py b/lom/_numba/lom_outputs.py
index 2a4a4f2..cbaebdd 100644
--- a/lom/_numba/lom_outputs.py
+++ b/lom/_numba/lom_outputs.py
@@ -254,9 +254,12 @@ def XOR_NAND_product_3d(u, z, v):
 def MAX_AND_product_2d(factors, lbdas):
 
     out = np.zeros([f.shape[0] for f in factors])
-    for l_idx in np.argsort(lbdas[:-1]):
+    for l_idx in np.argsort(-lbdas[:-1]):
         temp = lbdas[l_idx] * OR_AND_product_expand(
             *[f[:, l_idx] for f in factors])
         out[out == 0] = temp[out == 0]
 
+    # without any active dimension the clamped unit generates the data
+    out[out == 0] = lbdas[-1]
+
     return out
diff --git a/lom/_numba/lom_outputs_fuzzy.py b/lom/_numba/lom_outputs_fuzzy.py
index 3a2bfde..b3d8556 100644
--- a/lom/_numba/lom_outputs_fuzzy.py
+++ b/lom/_numba/lom_outputs_fuzzy.py
@@ -209,21 +209,17 @@ def MAX_AND_product_fuzzy(Z, U, lbdas):
     N = Z.shape[0]
     D = U.shape[0]
     L = Z.shape[1]
+    l_sorted = np.argsort(-lbdas[:L])
     out = np.zeros([N, D])  # , dtype=np.float)
     for n in prange(N):
         for d in range(D):
-            acc = 0  # accumulator for sum
-            for l1 in range(L):
-                temp1 = Z[n, l1] * U[d, l1] * lbdas[l1]
-                # check for explaining away
-                prod = 1
-                for l2 in range(L):
-                    if l1 == l2:
-                        continue
-                    temp2 = Z[n, l2] * U[d, l2]
-                    if temp2 * lbdas[l2] > temp1:
-                        prod *= 1 - temp2
-                acc += temp1 * prod
-            out[n, d] = acc
-    return out    
-
+            acc = 0.0  # accumulator for sum
+            # probability that no dimension with larger lbda is active
+            prod = 1.0
+            for l in l_sorted:
+                temp = Z[n, l] * U[d, l]
+                acc += temp * prod * lbdas[l]
+                prod *= 1 - temp
+            # otherwise the clamped unit generates the data
+            out[n, d] = acc + prod * lbdas[L]
+    return out
-- 
2.43.0


From 81a2b9a53cbeea717c65df5b665c391a356bda1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 06/51] fix: use each parent's own model for entries with two
 parents

---
 lom/_numba/matrix_updates_numba.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index b61f32d..2e0b497 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -280,8 +280,8 @@ def make_sampling_fct_nochild_oneparent(parent_model):
 
 def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if parent_model_1[-2:] == '2D' and parent_model_2[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], ' +
@@ -298,10 +298,10 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                         continue
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_parent_score_1 + logit_parent_score_2 + logit_prior,
@@ -323,11 +323,11 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
                             continue
 
                         logit_parent_score_1 = lbda_pa1 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_1(
                                 pa1_1[n, :], pa1_2[d, :], pa1_3[m, :])
 
                         logit_parent_score_2 = lbda_pa2 *\
-                            parent_posterior_score_fct(
+                            parent_posterior_score_fct_2(
                                 pa2_1[n, :], pa2_2[d, :], pa2_3[m, :])
 
                         Z[n, d, m] = flip_metropolised_gibbs_numba(
@@ -342,8 +342,8 @@ def make_sampling_fct_nochild_twoparents(parent_model_1, parent_model_2):
 def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2):
 
     posterior_score_fct = get_posterior_score_fct(model)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_1)
-    parent_posterior_score_fct = get_parent_score_fct(parent_model_2)
+    parent_posterior_score_fct_1 = get_parent_score_fct(parent_model_1)
+    parent_posterior_score_fct_2 = get_parent_score_fct(parent_model_2)
 
     if model[-2:] == '2D':
         @jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64,' +
@@ -365,10 +365,10 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
                         posterior_score_fct(Z[n, :], U, X[n, :], l)  # V?
 
                     logit_parent_score_1 = lbda_pa1 *\
-                        parent_posterior_score_fct(pa1_1[n, :], pa1_2[l, :])
+                        parent_posterior_score_fct_1(pa1_1[n, :], pa1_2[l, :])
 
                     logit_parent_score_2 = lbda_pa2 *\
-                        parent_posterior_score_fct(pa2_1[n, :], pa2_2[l, :])
+                        parent_posterior_score_fct_2(pa2_1[n, :], pa2_2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
                         logit_score + logit_parent_score_1 +
-- 
2.43.0


From 7f9257388a84b64c01cfd5f0b5f49f8e02156cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 07/51] fix: argument list of the 3D update with a parent layer

---
 lom/_numba/matrix_updates_numba.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 2e0b497..341f230 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -230,7 +230,7 @@ def make_sampling_fct_onechild_oneparent(model, parent_model):
                         parent_posterior_score_fct(pa1[n, :], pa2[l, :])
 
                     Z[n, l] = flip_metropolised_gibbs_numba(
-                        logit_score + logit_parent_score + logit_prior), Z[n, l]
+                        logit_score + logit_parent_score + logit_prior, Z[n, l])
 
     return sampling_fct
 
-- 
2.43.0


From 9b116c490b3c7198794a77c013a85089f2dfdc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:36 +0000
Subject: [PATCH 08/51] fix: reject matrices with more than two parent layers

---
 lom/matrix_update_wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 9237f94..e854728 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -249,7 +249,7 @@ def get_relatives_models(mat):
     if len(mat.parents) > 1:
         assert len(mat.parents[1].factors) == 2
         parent2_model = (mat.parents[1].model + '-2D').replace('-', '_')
-    elif len(mat.parents) > 2:
+    if len(mat.parents) > 2:
         raise NotImplementedError("More than two parents are not supported.")
 
     return model, parent1_model, parent2_model
-- 
2.43.0


From 6d07bc816844020b064c27e8a921e85410ebbb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 09/51] fix: data inversion leaves the caller's array alone

---
 lom/auxiliary_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 3a5943d..43b6433 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -953,7 +953,7 @@ def canonise_model(model, child):
     if invert_data is True and invert_factors is False:
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data.\n')
-        child.val *= -1
+        child.val = -child.val
 
     if invert_data is False and invert_factors is True:
         print('\n' + model + ' is treated as ' + model_new +
@@ -963,7 +963,7 @@ def canonise_model(model, child):
         print('\n' + model + ' is treated as ' + model_new +
               ' with inverted data and inverted factors. ' +
               ' (invert factors yourself!)\n')
-        child.val *= -1
+        child.val = -child.val
 
     # print warning for OR-NAND models.
     if model_new == 'OR-NAND':
-- 
2.43.0


From e30c060160777fab8bb4293f3bfb24e57dca6462 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 10/51] fix: data inverting layers can be created from a shape

---
 lom/machine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index debef3b..0dcbf9b 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -493,10 +493,6 @@ class Machine():
         information about children's parents need to be assigned.
         """
 
-        # Convert model to canonical representation and invert data
-        # if necessary, return indicators to track inversion.
-        model, invert_data, invert_factors = aux.canonise_model(model, child)
-
         # determine size of all members
         if child is None and shape is not None:
             child = MachineMatrix(shape=shape)
@@ -505,6 +501,10 @@ class Machine():
         else:
             raise ValueError("Not enough shape information provided.")
 
+        # Convert model to canonical representation and invert data
+        # if necessary, return indicators to track inversion.
+        model, invert_data, invert_factors = aux.canonise_model(model, child)
+
         # initialise matrices/factors (use add_matrix)
         factors = [MachineMatrix(shape=(K, latent_size),
                                  child_axis=i)
-- 
2.43.0


From 767340576fec9f9a675e79f955555ddc9651f341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 11/51] fix: unknown models raise an error instead of starting
 the debugger

---
 lom/auxiliary_functions.py    | 11 ++++-------
 lom/matrix_update_wrappers.py |  2 --
 2 files changed, 4 insertions(+), 9 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 43b6433..1125f63 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -942,8 +942,6 @@ def canonise_model(model, child):
         pass
 
     else:
-        import pdb
-        pdb.set_trace()
         raise NotImplementedError("Model not implemented.")
 
     # print output and invert data if needed.
@@ -1204,11 +1202,10 @@ def get_lom_class(machine):
         Inv = [True, True, False]
         machine = 'XOR-XOR'
 
-    try:
-        return machine, Inv
-    except:
-        import pdb
-        pdb.set_trace()
+    else:
+        raise NotImplementedError("Model not implemented.")
+
+    return machine, Inv
 
 
 def find_centers_of_ordered_list(ls):
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index e854728..a91fb3d 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -226,8 +226,6 @@ def get_sampling_fct(mat):
             return LOM_sampler_hasparents
 
         else:
-            import pdb
-            pdb.set_trace()
             raise NotImplementedError("More than one parent not supported.")
 
 
-- 
2.43.0


From d5835193dd3ed00a2cd582012b53e44eaab83836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 12/51] fix: record samples of matrices that belong to no layer

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 0dcbf9b..f68ac8f 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -723,7 +723,7 @@ class Machine():
         # allocate memory to save samples
         print('allocating memory to save samples...')
         for mat in mats:
-            if mat.layer.model == 'OR-AND-IBP':
+            if mat.model == 'OR-AND-IBP':
                 mat.allocate_trace_arrays_IBP(no_samples)
             else:
                 mat.allocate_trace_arrays(no_samples)
-- 
2.43.0


From 1064c8fbe38ff35782e222c824fdedab4cfcab6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 13/51] fix: matrix updates use the current Bernoulli prior

---
 lom/matrix_update_wrappers.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index a91fb3d..6e17e34 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -123,7 +123,6 @@ def get_sampling_fct(mat):
         elif mat.child_axis == 1:
             # return lambda mat: None
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
-            logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
 
             def LOM_sampler(mat):
                 # numba_mu.draw_OR_AND_2D(
@@ -133,14 +132,12 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
     # assign functions for all classical LFMs
     else:
-        logit_bernoulli_prior = np.float64(logit(mat.bernoulli_prior))
-
         # standard case: one child, no parents
         if p1mod is None and mod is not None:
             sample = numba_mu.make_sampling_fct_onechild(mod)
@@ -153,7 +150,7 @@ def get_sampling_fct(mat):
                     *[x() for x in mat.siblings],
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler
 
@@ -171,7 +168,7 @@ def get_sampling_fct(mat):
                     mat.layer.lbda(),
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -185,7 +182,7 @@ def get_sampling_fct(mat):
                     mat.fixed_entries,
                     *[x() for x in mat.parents[0].factors],
                     mat.parents[0].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -201,7 +198,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
@@ -221,7 +218,7 @@ def get_sampling_fct(mat):
                     mat.parents[0].lbda(),
                     *[x() for x in mat.parents[1].factors],
                     mat.parents[1].lbda(),
-                    logit_bernoulli_prior)
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return LOM_sampler_hasparents
 
-- 
2.43.0


From 3c9b412b3418387003186f6730ded36beac1e265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 14/51] fix: annealing ends at the given lambda

---
 lom/machine.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index f68ac8f..12b720b 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -591,10 +591,8 @@ class Machine():
                         raise ValueError('fix_lbda_iters should be zero for annealing.')
                     # pre-compute annealing steps
                     if pre_burn_in_iter == fix_lbda_iters + 1:
-                        annealing_lbdas = [np.arange(
-                            lbda() / burn_in_min,
-                            lbda() + 2 * lbda() / burn_in_min,
-                            lbda() / burn_in_min)
+                        annealing_lbdas = [np.linspace(
+                            0, lbda(), burn_in_min + 1)
                             for lbda in lbdas]
 
                     for lbda_idx, lbda in enumerate(lbdas):
-- 
2.43.0


From 5c87df825ab114e4e69bd626819181c124e962d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 15/51] fix: assess convergence on complete windows only

---
 lom/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/machine.py b/lom/machine.py
index 12b720b..a379b3f 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -617,7 +617,7 @@ class Machine():
                       end='')
 
             #  check convergence every convergence_window iterations
-            if burn_in_iter % convergence_window == 0:
+            if burn_in_iter > 1 and (burn_in_iter - 1) % convergence_window == 0:
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-- 
2.43.0


From 0fff418e0e99e4e5a84996e72757ff0fe5e14fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 16/51] fix: report the number of burn-in sweeps that were done

---
 lom/machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index a379b3f..879e2c0 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -644,7 +644,7 @@ class Machine():
 
                     else:
                         # save number of burn in iterations
-                        self.burn_in_iters = burn_in_iter + pre_burn_in_iter
+                        self.burn_in_iters = burn_in_iter - 1 + pre_burn_in_iter
                         break
 
             # stop if maximum number of burn in iterations is reached
@@ -659,7 +659,7 @@ class Machine():
                 # reset trace index
                 for lbda in lbdas:
                     lbda.trace_index = 0
-                self.burn_in_iters = burn_in_iter
+                self.burn_in_iters = burn_in_iter - 1 + pre_burn_in_iter
                 break
 
             # draw samples # shuffle(mats)
-- 
2.43.0


From 9a164fa33e520b6fc634cac9619380d7ee247b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:39 +0000
Subject: [PATCH 17/51] fix: factor_mean_old returns probabilities

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index 879e2c0..af5fa2c 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -425,6 +425,7 @@ class MachineLayer():
                 out = aux.lom_generate_data_fuzzy(
                     [x.mean() for x in self.factors],
                     self.model)
+                out = (1 + out) * .5  # map to probability of emitting a 1
 
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
-- 
2.43.0


From 026cdb1c28d0de1f19846af4ce3340c691eb852d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 18/51] fix: q-threshold factor updates use lambda, prior and
 fixed entries

---
 lom/_numba/matrix_updates_numba.py | 22 ++++++++++++++--------
 lom/matrix_update_wrappers.py      |  8 ++++++--
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 341f230..7d1e5cc 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -624,8 +624,9 @@ def posterior_score_fct_qL_U(U_d, Z, X_d, l, q_d):
     return score
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_Z(Z, U, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_Z(Z, Z_fixed, U, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -634,15 +635,18 @@ def sample_qL_factors_Z(Z, U, X, q, lbda):
     N, L = Z.shape
     for n in prange(N):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_Z(
+            if Z_fixed[n, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_Z(
                 Z[n, :], U, X[n, :], l, q)
             Z[n, l] = flip_metropolised_gibbs_numba(
-                logit_score, Z[n, l])
+                logit_score + logit_prior, Z[n, l])
     return
 
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64)', nopython=True, nogil=True)
-def sample_qL_factors_U(U, Z, X, q, lbda):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_factors_U(U, U_fixed, Z, X, q, lbda, logit_prior):
     """
     Need separate functions for U and Z because we have different q's
     for every Z[n,:], but the same q for every U[d,:]
@@ -652,8 +656,10 @@ def sample_qL_factors_U(U, Z, X, q, lbda):
     D, L = U.shape
     for d in prange(D):
         for l in range(L):
-            logit_score = posterior_score_fct_qL_U(
+            if U_fixed[d, l] == 1:
+                continue
+            logit_score = lbda * posterior_score_fct_qL_U(
                 U[d, :], Z, X[d, :], l, q[0, d])
             U[d, l] = flip_metropolised_gibbs_numba(
-                logit_score, U[d, l])
+                logit_score + logit_prior, U[d, l])
     return
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 6e17e34..fde6513 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -75,10 +75,12 @@ def get_sampling_fct(mat):
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return qL_sampler_Z
 
@@ -86,10 +88,12 @@ def get_sampling_fct(mat):
             def qL_sampler_U(mat):
                 numba_mu.sample_qL_factors_U(
                     mat(),
+                    mat.fixed_entries,
                     mat.siblings[0](),
                     mat.layer.child().transpose(transpose_order),
                     mat.layer.q(),
-                    mat.layer.lbda())
+                    mat.layer.lbda(),
+                    np.float64(logit(mat.bernoulli_prior)))
 
             return qL_sampler_U
 
-- 
2.43.0


From 74fb01ee0d7336a7285d8b4330b3e0fdafff43d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 19/51] fix: draw q thresholds from their conditional

---
 lom/_numba/matrix_updates_numba.py | 18 +++++++++++++-----
 lom/matrix_update_wrappers.py      |  1 +
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 7d1e5cc..1549b4d 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -527,8 +527,9 @@ def random_choice(p):
 #      nopython=True, nogil=True)
 # def draw_q_d(X_d, Z, U_d, p_lbda, m_lbda, gamma, q_max):
 
-@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)', nopython=True, nogil=True)
-def sample_qL_q(Z, U, X, q, lbda, gamma):
+@jit('void(int8[:,:], int8[:,:], int8[:,:], int8[:,:], int8[:,:], float64, float64)',
+     nopython=True, nogil=True)
+def sample_qL_q(Z, U, X, q, q_fixed, lbda, gamma):
 
     N, D = X.shape
     q_max = 6
@@ -539,6 +540,11 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
 
     for d in prange(D):
 
+        if q_fixed[0, d] == 1:
+            continue
+
+        observed = np.sum(X[:, d] != 0)
+
         for q_new in prange(q_max - 1):  # shift by one to have q values and indices agree
 
             # compute logpriors
@@ -546,13 +552,15 @@ def sample_qL_q(Z, U, X, q, lbda, gamma):
                 gamma - lgamma(q_new + 2)
 
             # compute loglikelihoods
-            true_predictions = np.sum(np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1)
+            predictions = np.dot((Z + 1) / 2, (U[d, :] + 1) / 2) >= q_new + 1
+            true_predictions = np.sum(predictions & (X[:, d] == 1)) +\
+                np.sum(~predictions & (X[:, d] == -1))
             logconditional[q_new, d] = logconditional[q_new, d] + true_predictions * p_lbda +\
-                (N - true_predictions) * m_lbda
+                (observed - true_predictions) * m_lbda
 
         # overwrite log-conditional with normalised probability
         # (but avoid allocating new memory)
-        log_p_max = np.max(logconditional)
+        log_p_max = np.max(logconditional[:, d])
         for q_new in prange(q_max - 1):
             logconditional[q_new, d] = np.exp(logconditional[q_new, d] - log_p_max)
 
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index fde6513..bae4796 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -66,6 +66,7 @@ def get_sampling_fct(mat):
                 q.layer.factors[1](),
                 q.layer.child(),
                 q(),
+                q.fixed_entries,
                 q.layer.lbda(),
                 q.layer.gamma)
 
-- 
2.43.0


From 2ca8c7e3d36c8d411829669bc81ab4360f368b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 20/51] fix: sampler of the q thresholds when both factors are
 fixed

---
 lom/matrix_update_wrappers.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index bae4796..604ca75 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -72,6 +72,9 @@ def get_sampling_fct(mat):
 
         mat.layer.q.sampling_fct = q_sampler
 
+        if mat is mat.layer.q:
+            return q_sampler
+
         if mat.child_axis == 0:
             def qL_sampler_Z(mat):
                 numba_mu.sample_qL_factors_Z(
-- 
2.43.0


From 73c075f7e649f150e131e84a7e776efa885f558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 21/51] fix: reject parent layers of q-threshold and IBP
 factors

---
 lom/matrix_update_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 604ca75..aab6e03 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -59,6 +59,8 @@ def get_sampling_fct(mat):
         return MAX_AND_2D
 
     elif mod == 'qL_AND_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         def q_sampler(q):
             numba_mu.sample_qL_q(
@@ -104,6 +106,8 @@ def get_sampling_fct(mat):
     # assign sampling functions for IBP.
     # Here all updates happen in sampling for the first factor.
     elif mod == 'OR_AND_IBP_2D':
+        assert p1mod is None
+        assert p2mod is None
 
         if mat.layer.alpha is None:
             print('Setting IBP parameter alpha to 3.')
-- 
2.43.0


From 40342b0fb9a8216b239d3d497ba9a9f78fcae588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 22/51] fix: q-threshold output is a probability

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index af5fa2c..b000180 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -401,6 +401,7 @@ class MachineLayer():
                         self.u()[d, :],
                         self.z()[n, :],
                         self.q()[0, d])
+            out = (1 + out) * .5  # map to probability of emitting a 1
 
         else:
             if technique == 'point_estimate':
-- 
2.43.0


From c0447b6ca74f88713607e1628ceeffaf29c6d6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 23/51] fix: follow the latent size of the IBP model in its
 fixed entries

---
 lom/matrix_update_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index aab6e03..3d74b5d 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -129,6 +129,10 @@ def get_sampling_fct(mat):
                     mat.siblings[0].bernoulli_prior,
                     mat.layer.alpha)
 
+                # latent dimensions come and go, entries can't be fixed
+                for f in mat.layer.factors:
+                    f.fixed_entries = np.zeros(f().shape, dtype=np.int8)
+
             return IBP_sampler
 
         # For U, sample as usual
-- 
2.43.0


From 7b18752847c729b2bcff00d136091257afa221bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 24/51] fix: records of the IBP model grow with its latent size

---
 lom/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index b000180..2d75350 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -124,6 +124,11 @@ class Trace():
                                  dtype=self().dtype, fill_value=-1)
 
     def update_trace_IBP(self):
+        # pad with inactive dimensions if the latent size outgrows the trace
+        missing = self.val.shape[1] - self.trace.shape[2]
+        if missing > 0:
+            self.trace = np.pad(self.trace, ((0, 0), (0, 0), (0, missing)),
+                                mode='constant', constant_values=-1)
         self.trace[self.trace_index,
                    :self.val.shape[0],
                    :self.val.shape[1]] = self.val
-- 
2.43.0


From 546288cf33d52fb4ffecaeaef42914810f292922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:21 +0000
Subject: [PATCH 25/51] fix: probability that new IBP dimensions stay inactive

---
 lom/_numba/matrix_updates_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 1549b4d..4b5cc50 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -402,9 +402,9 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     # data points for a range of L'
 
     # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    FN_factor = [np.log((expit(lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
                  for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * (q**L_temp))) + (q**L_temp))
+    TN_factor = [np.log((expit(-lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
                  for L_temp in range(L_new_max)]
 
     for n in range(N):
-- 
2.43.0


From 72518d397a0ad6b461d3d02563fc6e5b90ac7818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 26/51] fix: IBP factors may be given any latent size

---
 lom/matrix_update_wrappers.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index 3d74b5d..c92baf6 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -129,9 +129,10 @@ def get_sampling_fct(mat):
                     mat.siblings[0].bernoulli_prior,
                     mat.layer.alpha)
 
-                # latent dimensions come and go, entries can't be fixed
+                # latent dimensions come and go
                 for f in mat.layer.factors:
-                    f.fixed_entries = np.zeros(f().shape, dtype=np.int8)
+                    if f.fixed_entries.shape != f().shape:
+                        f.fixed_entries = np.zeros(f().shape, dtype=np.int8)
 
             return IBP_sampler
 
@@ -141,6 +142,9 @@ def get_sampling_fct(mat):
             sample = numba_mu.make_sampling_fct_onechild('OR_AND_2D')
 
             def LOM_sampler(mat):
+                # the latent size may differ from previous updates
+                if mat.fixed_entries.shape != mat().shape:
+                    mat.fixed_entries = np.zeros(mat().shape, dtype=np.int8)
                 # numba_mu.draw_OR_AND_2D(
                 sample(
                     mat(),
-- 
2.43.0


From ce9ba2ab73b008313fd6a8aeb0523b18b6387404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:44 +0000
Subject: [PATCH 27/51] fix: clean-up handles adjacent dimensions, fixed
 entries and reliabilities

---
 lom/auxiliary_functions.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 1125f63..2c29587 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -116,8 +116,10 @@ def clean_up_codes(layer, reset=True, clean=False):
     l = 0
     while l < layer.size:  # need to use while loop because layer.size changes.
         if np.any([np.all(f()[:, l] == -1) for f in layer.factors]):
-            cleaning_action(l, layer)
-            reduction_applied = True
+            if cleaning_action(l, layer):
+                reduction_applied = True
+            if reset is not True:
+                continue  # the next dimension has moved to position l
         l += 1
 
     # remove duplicates
@@ -125,11 +127,12 @@ def clean_up_codes(layer, reset=True, clean=False):
     while l < layer.size:
         l_prime = l + 1
         while l_prime < layer.size:
-            for f in layer.factors:
-                if np.all(f()[:, l] == f()[:, l_prime]):
+            if np.any([np.all(f()[:, l] == f()[:, l_prime])
+                       for f in layer.factors]):
+                if cleaning_action(l_prime, layer):
                     reduction_applied = True
-                    cleaning_action(l_prime, layer)
-                    break
+                if reset is not True:
+                    continue  # the next dimension has moved to position l_prime
             l_prime += 1
         l += 1
 
@@ -152,12 +155,21 @@ def remove_dimension(l_prime, layer):
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
+        f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+
+    if layer.model == 'MAX-AND':
+        layer.lbda.val = np.delete(layer.lbda.val, l_prime)
+
+    return True
 
 
 def reset_dimension(l_prime, layer):
+    changed = np.any([np.any(f.val[:, l_prime] != -1) for f in layer.factors])
     for f in layer.factors:
         f.val[:, l_prime] = -1
 
+    return changed
+
 
 def plot_matrix_ax(mat, ax, draw_cbar=True):
     """
-- 
2.43.0


From 9f57c998e23aa3e9c59ac65023cda2c83493fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:45 +0000
Subject: [PATCH 28/51] fix: max model updates distinguish rank and index of a
 dimension

---
 lom/_numba/max_machine_sampler.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 479955f..95e57cc 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -13,11 +13,12 @@ from lom._numba.lom_outputs import OR_AND_product_expand
 def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
     N, L = Z.shape
     for n in prange(N):
-        for l in range(L):
+        for l_idx in range(L):
+            l = l_sorted[l_idx]
             if Z_fixed[n, l] == 1:
                 continue
             logit_p = posterior_score_MAX_AND_2D(
-                        Z[n, :], U, X[n, :], l, l_sorted, lbda_ratios)
+                        Z[n, :], U, X[n, :], l_idx, l_sorted, lbda_ratios)
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
@@ -26,14 +27,14 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
     Return count of correct/incorrect explanations
-    caused by setting Z[n,l] to 1, respecting
+    caused by setting Z[n,l_sorted[l]] to 1, respecting
     explaining away dependencies.
     """
     D, L = U.shape
 
     score = np.int32(0)
     for d in range(D):
-        if U[d, l] != 1:  # AND
+        if U[d, l_sorted[l]] != 1:  # AND
             continue
 
         alrdy_active = False
-- 
2.43.0


From 2c9444e5ed2f895512be175519d3c22620c60f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 29/51] fix: averaged reconstruction with fixed factors or
 lambdas

---
 lom/machine.py | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 2d75350..9a8754d 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -157,6 +157,16 @@ class Trace():
         else:
             return self()
 
+    def no_of_records(self):
+        return len(self.trace) if 'trace' in dir(self) else 0
+
+    def record(self, t):
+        """
+        return state in recorded sample t, or the current state if
+        no samples are recorded, e.g. because it is held fixed.
+        """
+        return self.trace[t] if self.no_of_records() > 0 else self()
+
     def check_convergence(self, eps):
         """
         split trace in half and check difference between means < eps
@@ -336,6 +346,10 @@ class MachineLayer():
     def dimensionality(self):
         return len(self.factors)
 
+    def no_of_records(self):
+        # without any records the current state counts as the only one
+        return max([x.no_of_records() for x in self.factors + [self.lbda]] + [1])
+
     def __iter__(self):
         return iter(self.factors)
 
@@ -385,11 +399,11 @@ class MachineLayer():
                         for x in self.factors], self.lbda())
             elif technique == 'mc':
                 out = np.zeros([x().shape[0] for x in self.factors])
-                for t in range(self.lbda.trace.shape[0]):
+                for t in range(self.no_of_records()):
                     out += lom_outputs.MAX_AND_product_2d(
-                        [x.trace[t, :] for x in self.factors],
-                        self.lbda.trace[t])
-                out /= self.lbda.trace.shape[0]
+                        [x.record(t) for x in self.factors],
+                        self.lbda.record(t))
+                out /= self.no_of_records()
             elif technique == 'factor_mean':
                 out = lom_outputs_fuzzy.MAX_AND_product_fuzzy(
                     .5 * (self.z.mean() + 1),
@@ -436,11 +450,11 @@ class MachineLayer():
             elif technique == 'mc':  # TODO numba
                 out = np.zeros([x().shape[0] for x in self.factors])
 
-                for t in range(self.lbda.trace.shape[0]):
-                    out += aux.lom_generate_data_fast([x.trace[t, :]
+                for t in range(self.no_of_records()):
+                    out += aux.lom_generate_data_fast([x.record(t)
                                                        for x in self.factors],
                                                       self.model)
-                out /= self.lbda.trace.shape[0]
+                out /= self.no_of_records()
                 out = (1 + out) * .5  # map to probability of emitting a 1
 
             # convert to probability of generating a 1
-- 
2.43.0


From ef4592517ad83e1931a58fb0fff63a60bd40bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 30/51] fix: discard earlier records of what has been fixed
 since

---
 lom/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lom/machine.py b/lom/machine.py
index 9a8754d..429bde5 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -721,6 +721,11 @@ class Machine():
         #         print('Oo')
         #         thing_to_update.set_sampling_fct()
 
+        # records of previous calls do not apply to what is fixed by now
+        for member in self.members + self.lbdas:
+            if member.fixed and 'trace' in dir(member):
+                del member.trace
+
         # ascertain sure all trace indices are zero
         for mat in mats:
             mat.trace_index = 0
-- 
2.43.0


From 9564b13eca0593b0cb306b730b4d81bfa08f91f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 31/51] fix: a matrix that gains a parent layer needs a new
 sampler

---
 lom/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/machine.py b/lom/machine.py
index 429bde5..062c257 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -301,6 +301,7 @@ class MachineLayer():
         self.child = child
 
         self.child.parents.append(self)
+        self.child.sampling_fct = None  # depends on the parents
 
         for factor in factors:
             factor.layer = self
-- 
2.43.0


From 32b98eeae272c62874e16f1eb0e790ec3bc90e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 32/51] fix: train/test split with recent numpy

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 72c282e..659a99a 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -170,7 +170,7 @@ def split_train_test(tensor, split=.1, balanced=False):
     def index_generator():
         return tuple([np.random.randint(dim) for dim in tensor.shape])
 
-    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=np.int)
+    rand_tensor_idx = np.zeros([len(tensor.shape), num_split], dtype=int)
     i = 0
 
     if balanced is False:
-- 
2.43.0


From 5a688b65e1a51bebfba110c8e4d6976f4869726c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 33/51] fix: default models of the grid search

---
 lom/experiments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 659a99a..944f005 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -322,7 +322,7 @@ def LOM_hyperparms_parallel_gridsearch(X,
     import pandas as pd
 
     if machines is None:
-        machines = aux.canonical_loms()
+        machines = lib.canonical_loms()
 
     # train/test split
     make_split = True
-- 
2.43.0


From 83e64d006f5cc508838a62322b6daafdbff8a879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 34/51] fix: length of padded binomial log-odds

---
 lom/auxiliary_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 2c29587..3c71e86 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -68,11 +68,11 @@ def compute_bp(q, n, N, tau=1):
 
     exp_bp = [(q * (n - k * tau)) / ((1 - q) * (k * tau + 1)) for k in range(n)]
 
-    bp = [np.log(x) if (x > 0) else -np.infty for x in exp_bp]
+    bp = [np.log(x) if (x > 0) else -np.inf for x in exp_bp]
 
     if N != n:
-        bp_new = [-np.infty for i in range(N)]
-        bp_new[:n - 1] = bp
+        bp_new = [-np.inf for i in range(N)]
+        bp_new[:n] = bp
         bp = bp_new
     return np.array(bp, dtype=float)
 
@@ -84,7 +84,7 @@ def compute_bbp(n, a, b):
     """
     exp_bbp = [(float((n - k) * (k + a)) /
                 float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
-    bbp = [np.log(x) if (x > 0) else -np.infty for x in exp_bbp]
+    bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
 
-- 
2.43.0


From 13832a5c5ced439ee52d9b6842e489e8932105c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 35/51] fix: beta-binomial log-odds for a flat prior

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 3c71e86..7a9d28f 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -83,7 +83,7 @@ def compute_bbp(n, a, b):
     beta parameters a, b.
     """
     exp_bbp = [(float((n - k) * (k + a)) /
-                float((k + 1) * (n - k + b - 1))) for k in range(n + 1)]
+                float((k + 1) * (n - k + b - 1))) for k in range(n)] + [0]
     bbp = [np.log(x) if (x > 0) else -np.inf for x in exp_bbp]
     return np.array(bbp, dtype=float)
 
-- 
2.43.0


From 076be0ab65bbceba31113518a47fc2fae53e1e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 36/51] fix: shape message of the table intersection

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 7a9d28f..d11ae03 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -620,7 +620,7 @@ def intersect_dataframes(A, B):
     assert np.all(A.index == B.index)
     assert np.all(A.columns == B.columns)
 
-    print('\n\tNew shape is :' + str(mut.shape))
+    print('\n\tNew shape is :' + str(A.shape))
 
     return A, B
 
-- 
2.43.0


From a90ec0a16203e756f87c244a054c2b611d8b2f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 37/51] fix: group centres of plain lists

---
 lom/auxiliary_functions.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index d11ae03..fa321fd 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1226,8 +1226,7 @@ def find_centers_of_ordered_list(ls):
     ls must be ordered!
     """
 
-    import pandas
-    uniqs = pandas.unique(ls)
+    uniqs = unique_ordered(ls)
     positions = []
     for u in uniqs:
         idxs = []  # list of indices of corresponding values
-- 
2.43.0


From 9468f1be64374d08e096efb364a33ea35cfae08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 38/51] fix: noise generators respect their seed

---
 lom/auxiliary_functions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index fa321fd..529d009 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -552,6 +552,8 @@ def add_bernoulli_noise_2d(X, p, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
@@ -567,6 +569,8 @@ def add_bernoulli_noise_2d_biased(X, p_plus, p_minus, seed=None):
 
     if seed is None:
         np.random.seed(np.random.randint(1e4))
+    else:
+        np.random.seed(seed)
 
     X_intern = X.copy()
 
-- 
2.43.0


From d313ea885dd97eceea29eaae6e32186b96c192d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 39/51] fix: expected density of XOR-XOR for more than two
 factors

---
 lom/auxiliary_functions.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 529d009..972981d 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1087,10 +1087,8 @@ def expected_density(model, L, K, f):
         d = Inv[0](Inv[1](K * f * invert(f)**(K - 1))**L)
 
     elif model_group == 'XOR-XOR':
-        d = Inv[0](L * (
-            Inv[1](K * f * (invert(f))**(K - 1) *
-                   (f**K + invert(f)**(K)) ** (L - 1))
-        ))
+        p = K * f * (invert(f))**(K - 1)
+        d = Inv[0](L * p * invert(p)**(L - 1))
 
     return d
 
-- 
2.43.0


From ed78293faebcb10c3124eec953339efa812538b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:34 +0000
Subject: [PATCH 40/51] fix: factor density stays within its bounds

---
 lom/auxiliary_functions.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 972981d..53d4bfc 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1118,6 +1118,7 @@ def factor_density(machine, L, K, X):
         tau_solution = fsolve(func, tau_initial_guess,
                               maxfev=int(1e6), full_output=False,
                               xtol=1e-10, factor=10)
+        tau_solution = np.clip(tau_solution, 0, 1)
         if np.abs(func(tau_solution)[0]) < best:
             best = np.abs(func(tau_solution)[0])
             best_solution = tau_solution
-- 
2.43.0


From a96dc8536b0d9da9496d7f72ea027fa7448a9911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:53 +0000
Subject: [PATCH 41/51] fix: max model updates use the current reliabilities

---
 lom/matrix_update_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index c92baf6..efb736f 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -43,9 +43,10 @@ def get_sampling_fct(mat):
     if mod == 'MAX_AND_2D':
         assert p1mod is None
         assert p2mod is None
-        from lom._numba.max_machine_sampler import draw_MAX_AND_2D
+        from lom._numba.max_machine_sampler import draw_MAX_AND_2D, compute_lbda_ratios
 
         def MAX_AND_2D(mat):
+            compute_lbda_ratios(mat.layer)
             l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
             draw_MAX_AND_2D(
                 mat(),
-- 
2.43.0


From b82e0afc9f56c01bf506273359e0348907a31735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:24 +0000
Subject: [PATCH 42/51] fix: factor density finds solutions close to the
 boundary

---
 lom/auxiliary_functions.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 53d4bfc..30ceb61 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -1099,7 +1099,7 @@ def factor_density(machine, L, K, X):
     returns the corresponding factor density
     """
     from scipy.optimize import fsolve
-    from scipy.optimize import least_squares
+    from scipy.optimize import brentq
 
     def func(f_d):
         if f_d < 0:
@@ -1123,6 +1123,13 @@ def factor_density(machine, L, K, X):
             best = np.abs(func(tau_solution)[0])
             best_solution = tau_solution
 
+    # the solver may get stuck, search for a change of sign instead
+    if best > 1e-6:
+        for tau_0, tau_1 in zip(tau[:-1], tau[1:]):
+            if func(tau_0) * func(tau_1) <= 0:
+                best_solution = np.array([brentq(func, tau_0, tau_1, xtol=1e-12)])
+                break
+
     print("The solution is tau = " + str(best_solution))
     print("at which the value of the expression is " +
           str(func(best_solution) + X))
-- 
2.43.0


From 762f93e70301ddef25a02a417b6769cb759e4bc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:50 +0000
Subject: [PATCH 43/51] fix: order of more than 127 dimensions in the max model

---
 lom/_numba/max_machine_sampler.py | 2 +-
 lom/matrix_update_wrappers.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/max_machine_sampler.py b/lom/_numba/max_machine_sampler.py
index 95e57cc..d937bea 100644
--- a/lom/_numba/max_machine_sampler.py
+++ b/lom/_numba/max_machine_sampler.py
@@ -22,7 +22,7 @@ def draw_MAX_AND_2D(Z, Z_fixed, U, X, lbda, l_sorted, lbda_ratios):
             Z[n, l] = flip_metropolised_gibbs_numba(logit_p, Z[n, l])
 
 
-@jit('int32(int8[:], int8[:,:], int8[:], int64, int8[:], float32[:, :, :])', 
+@jit('int32(int8[:], int8[:,:], int8[:], int64, int64[:], float32[:, :, :])', 
      nopython=True, nogil=True)
 def posterior_score_MAX_AND_2D(Z_n, U, X_n, l, l_sorted, lbda_ratios):
     """
diff --git a/lom/matrix_update_wrappers.py b/lom/matrix_update_wrappers.py
index efb736f..b30bde4 100644
--- a/lom/matrix_update_wrappers.py
+++ b/lom/matrix_update_wrappers.py
@@ -47,7 +47,7 @@ def get_sampling_fct(mat):
 
         def MAX_AND_2D(mat):
             compute_lbda_ratios(mat.layer)
-            l_order = np.array(np.argsort(-mat.layer.lbda()[:-1]), dtype=np.int8)
+            l_order = np.argsort(-mat.layer.lbda()[:-1])
             draw_MAX_AND_2D(
                 mat(),
                 mat.fixed_entries,
-- 
2.43.0


From fa1a326f81c0d21f2127bf56caf43507d1a4cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:58 +0000
Subject: [PATCH 44/51] fix: ROC score on held-out entries

---
 lom/auxiliary_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 30ceb61..557eec3 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -293,7 +293,7 @@ def get_roc_auc(data, data_train, prediction):
     """
 
     zero_idx = np.where(data_train == 0)
-    zero_idx = zip(list(zero_idx)[0], list(zero_idx)[1])
+    zero_idx = list(zip(list(zero_idx)[0], list(zero_idx)[1]))
     auc = sklearn.metrics.roc_auc_score(
         [data[i, j] == 1 for i, j in zero_idx], [prediction[i, j] for i, j in zero_idx])
 
-- 
2.43.0


From 4842bd4964fccf95eb1b2060236e417807aa789f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:16 +0000
Subject: [PATCH 45/51] fix: show displays the MAP by sign and scales values
 independent of their range

---
 lom/machine.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index 062c257..b9e0aba 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -259,12 +259,13 @@ class MachineMatrix(Trace):
         return self.val
 
     def show(self, technique='mean'):
+        # map to probabilities here, values alone do not tell their scale
         if technique == 'mean':
-            aux.plot_matrix(self.mean())
+            aux.plot_matrix(.5 * (self.mean() + 1))
         elif technique == 'map':
-            aux.plot_matrix(self.mean() > .5)
+            aux.plot_matrix(self.mean() > 0)
         elif technique == 'state':
-            aux.plot_matrix(self())
+            aux.plot_matrix(.5 * (self() + 1))
         else:
             raise ValueError('invalid technique')
 
-- 
2.43.0


From 1712052e1d2702b629f1b8b165b5e51e1fad7ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:16 +0000
Subject: [PATCH 46/51] fix: thresholds of the q model never exceed the largest
 one

---
 lom/_numba/matrix_updates_numba.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 4b5cc50..50a5f24 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -520,7 +520,8 @@ def random_choice(p):
         acc += p[i]
         if rand_float < acc:
             return np.int8(i + 1)
-    return len(p) + 1
+    # rounding may leave the sum of probabilities slightly below one
+    return np.int8(len(p))
 
 
 # @jit('int8(int8[:], int8[:,:], int8[:], float64, float64, float64, int8)',
-- 
2.43.0


From e9c969dec226f70e22b0e9874842ca063cf620f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:28 +0000
Subject: [PATCH 47/51] fix: means without recorded samples are the current
 values

---
 lom/machine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/machine.py b/lom/machine.py
index b9e0aba..0726e07 100644
--- a/lom/machine.py
+++ b/lom/machine.py
@@ -151,9 +151,9 @@ class Trace():
         self.trace_index += 1
 
     def mean(self):
-        if 'trace' in dir(self):
+        if self.no_of_records() > 0:
             return np.mean(self.trace, axis=0)
-        # if no trace is defined, return current state
+        # if nothing is recorded, return current state
         else:
             return self()
 
-- 
2.43.0


From f4ba16c0991e3f8de74765d90f2d8391f4cd4409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:29 +0000
Subject: [PATCH 48/51] fix: IBP sampling with large lambda

---
 lom/_numba/matrix_updates_numba.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index 50a5f24..b0105aa 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -381,6 +381,15 @@ def make_sampling_fct_onechild_twoparents(model, parent_model_1, parent_model_2)
     return sampling_fct
 
 
+def log_mixture(x, p):
+    """
+    log of (1 - p) * expit(x) + p * expit(-x), also for large abs(x)
+    """
+    with np.errstate(divide='ignore'):
+        return np.logaddexp(np.log(1 - p) - np.logaddexp(0, -x),
+                            np.log(p) - np.logaddexp(0, x))
+
+
 def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     """
     IBP update procedure for 2D OrMachine, drawing U and Z where
@@ -402,10 +411,8 @@ def sample_2d_IBP(Z, U, X, lbda, q, alpha):
     # data points for a range of L'
 
     # For simple Bernoulli on U
-    FN_factor = [np.log((expit(lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
-                 for L_temp in range(L_new_max)]
-    TN_factor = [np.log((expit(-lbda) * (1 - 2 * ((1 - q)**L_temp))) + ((1 - q)**L_temp))
-                 for L_temp in range(L_new_max)]
+    FN_factor = [log_mixture(lbda, (1 - q)**L_temp) for L_temp in range(L_new_max)]
+    TN_factor = [log_mixture(-lbda, (1 - q)**L_temp) for L_temp in range(L_new_max)]
 
     for n in range(N):
 
-- 
2.43.0


From f89bb3a7006e1a28a72ab150f9ba918042cd8c03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:35 +0000
Subject: [PATCH 49/51] fix: thresholds of the q model with large lambda

---
 lom/_numba/matrix_updates_numba.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lom/_numba/matrix_updates_numba.py b/lom/_numba/matrix_updates_numba.py
index b0105aa..119c5e8 100644
--- a/lom/_numba/matrix_updates_numba.py
+++ b/lom/_numba/matrix_updates_numba.py
@@ -541,8 +541,8 @@ def sample_qL_q(Z, U, X, q, q_fixed, lbda, gamma):
 
     N, D = X.shape
     q_max = 6
-    p_lbda = np.log(1 + np.exp(lbda))
-    m_lbda = np.log(1 + np.exp(-lbda))
+    p_lbda = np.logaddexp(0, lbda)
+    m_lbda = np.logaddexp(0, -lbda)
 
     logconditional = np.zeros((q_max - 1, D), dtype=np.float64)
 
-- 
2.43.0


From 83dce64dbbbbdef6002466cedb2bac84f5c1ee54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:14 +0000
Subject: [PATCH 50/51] fix: clean-up of layers with parents removes the
 parents' rows

---
 lom/auxiliary_functions.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lom/auxiliary_functions.py b/lom/auxiliary_functions.py
index 557eec3..267b0d8 100644
--- a/lom/auxiliary_functions.py
+++ b/lom/auxiliary_functions.py
@@ -150,12 +150,17 @@ def clean_up_codes(layer, reset=True, clean=False):
 
 def remove_dimension(l_prime, layer):
 
-    # update for tensorm link does not support parents
-    # nor priors
     # layer.size -= 1
     for f in layer.factors:
         f.val = np.delete(f.val, l_prime, axis=1)
         f.fixed_entries = np.delete(f.fixed_entries, l_prime, axis=1)
+        # columns of f are rows for the layers stacked on it
+        for parent in f.parents:
+            remove_row(l_prime, parent.factors[1])
+            if parent.model == 'qL-AND':
+                parent.q.val = np.delete(parent.q.val, l_prime, axis=1)
+                parent.q.fixed_entries = np.delete(
+                    parent.q.fixed_entries, l_prime, axis=1)
 
     if layer.model == 'MAX-AND':
         layer.lbda.val = np.delete(layer.lbda.val, l_prime)
@@ -163,6 +168,16 @@ def remove_dimension(l_prime, layer):
     return True
 
 
+def remove_row(i, mat):
+    """
+    Remove row from mat, and from the first factor of layers stacked on it.
+    """
+    mat.val = np.delete(mat.val, i, axis=0)
+    mat.fixed_entries = np.delete(mat.fixed_entries, i, axis=0)
+    for parent in mat.parents:
+        remove_row(i, parent.factors[0])
+
+
 def reset_dimension(l_prime, layer):
     changed = np.any([np.any(f.val[:, l_prime] != -1) for f in layer.factors])
     for f in layer.factors:
-- 
2.43.0


From 2f115aaf85bab98a904dd2a1d65686a15694d548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:16 +0000
Subject: [PATCH 51/51] fix: repetitions of the grid search use their own
 random numbers

---
 lom/experiments.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lom/experiments.py b/lom/experiments.py
index 944f005..fd8d177 100644
--- a/lom/experiments.py
+++ b/lom/experiments.py
@@ -289,6 +289,16 @@ def LOM_predictive(experiment, return_machine=True):
                 [x.mean() for x in layer.factors])
 
 
+def seeded_predictive(args):
+    """
+    Run experiment with its own random numbers. The processes of a pool
+    start with identical random states.
+    """
+    seed, experiment = args
+    np.random.seed(seed)
+    return LOM_predictive(experiment)
+
+
 def LOM_factorise(experiment):
     return
 
@@ -344,9 +354,10 @@ def LOM_hyperparms_parallel_gridsearch(X,
                     [X, X_train, train_mask, machine, L_init,
                      random_idx, lbda_init, anneal])
 
-    function = parallel_function(LOM_predictive)
+    function = parallel_function(seeded_predictive)
 
-    out = function(experiment_parms)
+    seeds = np.random.randint(2**31 - 1, size=len(experiment_parms))
+    out = function(list(zip(seeds, experiment_parms)))
 
     return (pd.DataFrame([x[0] for x in out],
                          columns=['test accuracy', 'LOM', 'L']),
-- 
2.43.0

