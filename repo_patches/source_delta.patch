From 72c97984aaa584677fb47962fe1c71b222b97777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 01/32] fix: honour rtol in DMD and TLSqrDMD
 eigendecompositions

rtol was accepted and documented by DMDHandles/TLSqrDMDHandles
compute_eigendecomp and the TLSqrDMD snapshot method, but ignored.
---
 modred/dmd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 577f0f9..699a687 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -783,7 +783,7 @@ class DMDHandles(object):
         # Compute eigendecomposition of correlation array
         self.correlation_array_eigvals, self.correlation_array_eigvecs =\
             parallel.call_and_bcast(
-            util.eigh, self.correlation_array, atol=atol, rtol=None,
+            util.eigh, self.correlation_array, atol=atol, rtol=rtol,
             is_positive_definite=True)
 
         # Truncate if necessary
@@ -1282,7 +1282,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
                 sum_correlation_array_eigvecs.dot(
                     sum_correlation_array_eigvecs.conj().T))))
     proj_correlation_array_eigvals, proj_correlation_array_eigvecs = util.eigh(
-        proj_correlation_array, atol=atol, rtol=None, is_positive_definite=True)
+        proj_correlation_array, atol=atol, rtol=rtol, is_positive_definite=True)
 
     # Truncate if necessary
     if max_num_eigvals is not None and (
@@ -1764,7 +1764,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.sum_correlation_array_eigvals,
         self.sum_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.sum_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
@@ -1783,7 +1783,7 @@ class TLSqrDMDHandles(DMDHandles):
         (self.proj_correlation_array_eigvals,
         self.proj_correlation_array_eigvecs) = parallel.call_and_bcast(
             util.eigh, self.proj_correlation_array,
-            atol=atol, rtol=None, is_positive_definite=True)
+            atol=atol, rtol=rtol, is_positive_definite=True)
 
         # Truncate if necessary
         if max_num_eigvals is not None and (
-- 
2.43.0


From e6149514ec0a39d72d107ba31b753fa8da5c7ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 02/32] fix: conjugate in TLSqrDMD snapshot method spectral
 coefficients

Complex data gave spectral coefficients that were not those of the first
vector (compare proj_coeffs, the direct method and TLSqrDMDHandles).
---
 modred/dmd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 699a687..e5b0edd 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -1327,7 +1327,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
-- 
2.43.0


From 341e9316306f46eae5003c9961cfd74c219fe095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 03/32] fix: raise ValueError in DMDHandles.compute_exact_modes

raise(ValueError, msg) raises TypeError in Python 3.
---
 modred/dmd.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index e5b0edd..384e31c 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -958,13 +958,11 @@ class DMDHandles(object):
                     mode_handles, self.vec_handles[1:], build_coeffs_exact,
                     coeff_array_col_indices=mode_indices)
             else:
-                raise(
-                    ValueError, (
+                raise ValueError(
                     'Number of vec_handles is not correct for a sequential '
-                    'dataset.'))
+                    'dataset.')
         else:
-            raise(
-                ValueError,
+            raise ValueError(
                 'Neither vec_handles nor adv_vec_handles is defined.')
 
 
-- 
2.43.0


From 6c7c76c4fdc802c1298b7c1932f5b69bfcb3398d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:34 +0000
Subject: [PATCH 04/32] fix: forget old adv_vec_handles when DMD is given
 sequential data

compute_decomp on sequential data kept the advanced handles of an earlier
non-sequential data set, so compute_exact_modes used the wrong vectors.
---
 modred/dmd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index 384e31c..985a3d6 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -856,8 +856,8 @@ class DMDHandles(object):
             of correlation array.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
@@ -1870,8 +1870,8 @@ class TLSqrDMDHandles(DMDHandles):
         under-constrined datasets.
         """
         self.vec_handles = vec_handles
+        self.adv_vec_handles = adv_vec_handles
         if adv_vec_handles is not None:
-            self.adv_vec_handles = adv_vec_handles
             if len(self.vec_handles) != len(self.adv_vec_handles):
                 raise ValueError(('Number of vec_handles and adv_vec_handles'
                     ' is not equal.'))
-- 
2.43.0


From 282be61cef757f3510fb7803ebf22b506c75dca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:55 +0000
Subject: [PATCH 05/32] fix: keep restored single-mode decompositions
 one-dimensional

np.squeeze turned the eigenvalues or singular values of a one-mode
decomposition into a 0-d array in get_decomp, so computing modes from the
restored decomposition failed in np.diag.
---
 modred/bpod.py |  4 ++--
 modred/dmd.py  | 20 ++++++++++----------
 modred/pod.py  |  4 ++--
 3 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/modred/bpod.py b/modred/bpod.py
index 3c14782..d9736fe 100644
--- a/modred/bpod.py
+++ b/modred/bpod.py
@@ -210,8 +210,8 @@ class BPODHandles(object):
             ``R_sing_vecs_src``: Source from which to retrieve right singular
             vectors of Hankel array.
         """
-        self.sing_vals = np.squeeze(parallel.call_and_bcast(
-            self.get_array, sing_vals_src))
+        self.sing_vals = np.atleast_1d(np.squeeze(parallel.call_and_bcast(
+            self.get_array, sing_vals_src)))
         self.L_sing_vecs = parallel.call_and_bcast(
             self.get_array, L_sing_vecs_src)
         self.R_sing_vecs = parallel.call_and_bcast(
diff --git a/modred/dmd.py b/modred/dmd.py
index 985a3d6..e2b80be 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -557,15 +557,15 @@ class DMDHandles(object):
             ``correlation_array_eigvecs_src``: Source from which to retrieve
             eigenvectors of correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.correlation_array_eigvals = np.squeeze(np.array(
+        self.correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, correlation_array_eigvals_src)))
+            self.get_array, correlation_array_eigvals_src))))
         self.correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, correlation_array_eigvecs_src)
 
@@ -1977,20 +1977,20 @@ class TLSqrDMDHandles(DMDHandles):
             ``proj_correlation_array_eigvecs_src``: Source from which to
             retrieve eigenvectors of projected correlation array.
         """
-        self.eigvals = np.squeeze(np.array(
-            parallel.call_and_bcast(self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(
+            parallel.call_and_bcast(self.get_array, eigvals_src))))
         self.R_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, R_low_order_eigvecs_src)
         self.L_low_order_eigvecs = parallel.call_and_bcast(
             self.get_array, L_low_order_eigvecs_src)
-        self.sum_correlation_array_eigvals = np.squeeze(np.array(
+        self.sum_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, sum_correlation_array_eigvals_src)))
+            self.get_array, sum_correlation_array_eigvals_src))))
         self.sum_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, sum_correlation_array_eigvecs_src)
-        self.proj_correlation_array_eigvals = np.squeeze(np.array(
+        self.proj_correlation_array_eigvals = np.atleast_1d(np.squeeze(np.array(
             parallel.call_and_bcast(
-            self.get_array, proj_correlation_array_eigvals_src)))
+            self.get_array, proj_correlation_array_eigvals_src))))
         self.proj_correlation_array_eigvecs = parallel.call_and_bcast(
             self.get_array, proj_correlation_array_eigvecs_src)
 
diff --git a/modred/pod.py b/modred/pod.py
index 8ebf430..1ad5a09 100644
--- a/modred/pod.py
+++ b/modred/pod.py
@@ -264,8 +264,8 @@ class PODHandles(object):
             ``eigvecs_src``: Source from which to retrieve eigenvectors of
             correlation array.
         """
-        self.eigvals = np.squeeze(np.array(parallel.call_and_bcast(
-            self.get_array, eigvals_src)))
+        self.eigvals = np.atleast_1d(np.squeeze(np.array(parallel.call_and_bcast(
+            self.get_array, eigvals_src))))
         self.eigvecs = parallel.call_and_bcast(self.get_array, eigvecs_src)
 
 
-- 
2.43.0


From 3615e181f6bb90d86cdba00c026dfed98e309139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 06/32] fix: return 1D spectral coefficients for a single DMD
 mode

The documented 1D array was squeezed to 0-d when there was one mode.
---
 modred/dmd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/modred/dmd.py b/modred/dmd.py
index e2b80be..6cc5156 100644
--- a/modred/dmd.py
+++ b/modred/dmd.py
@@ -174,7 +174,7 @@ def compute_DMD_arrays_snaps_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T)).squeeze())
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -427,7 +427,7 @@ def compute_DMD_arrays_direct_method(
     # Compute spectral coefficients
     spectral_coeffs = np.abs(L_low_order_eigvecs.conj().T.dot(
         np.diag(correlation_array_eigvals ** 0.5).dot(
-            correlation_array_eigvecs[0, :].conj().T))).squeeze()
+            correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -1074,7 +1074,7 @@ class DMDHandles(object):
         self.spectral_coeffs = np.abs(
             self.L_low_order_eigvecs.conj().T.dot(
                 np.diag(self.correlation_array_eigvals ** 0.5).dot(
-                    self.correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                    self.correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
@@ -1325,7 +1325,7 @@ def compute_TLSqrDMD_arrays_snaps_method(
     spectral_coeffs = np.abs(
         L_low_order_eigvecs.conj().T.dot(
             np.diag(proj_correlation_array_eigvals ** 0.5).dot(
-                proj_correlation_array_eigvecs[0, :].conj().T))).squeeze()
+                proj_correlation_array_eigvecs[0, :].conj().T)))
 
     # Compute projection coefficients
     proj_coeffs = L_low_order_eigvecs.conj().T.dot(
@@ -2146,7 +2146,7 @@ class TLSqrDMDHandles(DMDHandles):
         # ie first, last, or mean?
         self.spectral_coeffs = np.abs(self.L_low_order_eigvecs.conj().T.dot(
             np.diag(self.proj_correlation_array_eigvals ** 0.5).dot(
-                self.proj_correlation_array_eigvecs[0, :]).conj().T)).squeeze()
+                self.proj_correlation_array_eigvecs[0, :]).conj().T))
         return self.spectral_coeffs
 
 
-- 
2.43.0


From 4d0354d72bd79043498c8a135890627b20c8cb46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:10 +0000
Subject: [PATCH 07/32] fix: save integer, lower-precision and Fortran-ordered
 arrays as text

array.view(float) reinterpreted the bits of int64 data, regrouped columns of
float32/complex64 data and failed for bool and Fortran-ordered complex data.
---
 modred/util.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 15fefb1..072aaab 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -82,11 +82,18 @@ def save_array_text(array, file_name, delimiter=None):
     elif array.ndim > 2:
         raise RuntimeError('Cannot save an array with >2 dimensions')
 
+    # View complex data as pairs of floats (needs contiguous double precision
+    # memory), convert all other data to floats.
+    if np.iscomplexobj(array):
+        array = np.ascontiguousarray(array, dtype=complex).view(float)
+    else:
+        array = array.astype(float)
+
     # Save data
     if delimiter is None:
-        np.savetxt(file_name, array.view(float))
+        np.savetxt(file_name, array)
     else:
-        np.savetxt(file_name, array.view(float), delimiter=delimiter)
+        np.savetxt(file_name, array, delimiter=delimiter)
 
 
 def load_array_text(file_name, delimiter=None, is_complex=False):
-- 
2.43.0


From 02d475bc0699f72570e675051f4717e8cfe74e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:13 +0000
Subject: [PATCH 08/32] fix: do not subtract a stale or differently scaled
 cached base vector

The cached base vector was kept after a new vector was put through its
handle, and handles that differ only in scale, base handle or is_complex
compared equal, so the wrong cached base vector was subtracted.
---
 modred/vectors.py | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/modred/vectors.py b/modred/vectors.py
index 7a45c5e..689fdb7 100644
--- a/modred/vectors.py
+++ b/modred/vectors.py
@@ -43,6 +43,9 @@ class VecHandle(object):
     def put(self, vec):
         """Put a vector to file or memory using the private (user-overwritten)
         ``_put`` function."""
+        # The vector may be, or contribute to, the cached base vector
+        VecHandle.cached_base_vec_handle = None
+        VecHandle.cached_base_vec = None
         return self._put(vec)
 
 
@@ -56,6 +59,13 @@ class VecHandle(object):
         raise NotImplementedError("must be implemented by subclasses")
 
 
+    def _has_same_base_and_scale(self, other):
+        """Checks if another handle has an equal base vector handle and scale
+        factor."""
+        return (self.__base_vec_handle == other.__base_vec_handle and
+            np.array_equal(self.scale, other.scale))
+
+
     def __scale_vec(self, vec):
         """Scales the vector by a scalar."""
         if self.scale is not None:
@@ -83,7 +93,9 @@ class VecHandleInMemory(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return util.smart_eq(self.vec, other.vec)
+        return (
+            util.smart_eq(self.vec, other.vec) and
+            self._has_same_base_and_scale(other))
 
 
 class VecHandleArrayText(VecHandle):
@@ -108,7 +120,10 @@ class VecHandleArrayText(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return self.vec_path == other.vec_path
+        return (
+            self.vec_path == other.vec_path and
+            self.is_complex == other.is_complex and
+            self._has_same_base_and_scale(other))
 
 
 class VecHandlePickle(VecHandle):
@@ -131,7 +146,9 @@ class VecHandlePickle(VecHandle):
     def __eq__(self, other):
         if type(other) != type(self):
             return False
-        return self.vec_path == other.vec_path
+        return (
+            self.vec_path == other.vec_path and
+            self._has_same_base_and_scale(other))
 
 
 def inner_product_array_uniform(vec1, vec2):
-- 
2.43.0


From 1433aad8a2a6b54df65d68bd33e4852fbef7085c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 09/32] fix: assign trailing tasks with zero or negligible
 weight

find_assignments dropped tasks after the index closest to the remaining work
of the last worker.
---
 modred/parallel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modred/parallel.py b/modred/parallel.py
index ac26e9e..e93879f 100644
--- a/modred/parallel.py
+++ b/modred/parallel.py
@@ -217,8 +217,12 @@ def find_assignments(tasks, task_weights=None):
         # Distribute work load evenly across workers
         work_per_worker = (1. * work_remaining) / num_remaining_workers
 
+        # The last worker takes all remaining tasks (the closest match below
+        # leaves out trailing tasks with negligible weight)
+        if num_remaining_workers == 1:
+            task_assignments.append(tasks[first_unassigned_index:])
         # If task list is not empty, compute assignments
-        if task_weights[first_unassigned_index:].size != 0:
+        elif task_weights[first_unassigned_index:].size != 0:
             # Index of tasks element which has sum(tasks[:ind])
             # closest to work_per_worker
             new_max_task_index = np.abs(np.cumsum(
-- 
2.43.0


From 468219d502e92598d28c3d30671a37194d27b23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:30 +0000
Subject: [PATCH 10/32] fix: allow eigh with atol=None for positive definite
 arrays

A non-positive eigenvalue with atol=None raised TypeError (negative) or was
returned (zero) although only positive eigenvalues are documented.
---
 modred/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 072aaab..281fd80 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -284,7 +284,8 @@ def eigh(array, atol=1e-13, rtol=None, is_positive_definite=False):
     # given tolerance.  In that case, we assume the given tolerance is too
     # samll (relative to the accuracy of the computation) and increase it to at
     # least filter out negative eigenvalues.
-    if is_positive_definite and eigvals.min() < 0 and abs(eigvals.min()) > atol:
+    if is_positive_definite and eigvals.min() <= 0 and (
+        atol is None or abs(eigvals.min()) > atol):
         atol = abs(eigvals.min())
 
     # Filter out small and negative eigenvalues, if necessary
-- 
2.43.0


From 60e4b5533eb3ef699d305324056c71480c85f499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:58 +0000
Subject: [PATCH 11/32] fix: use mc and mo given to the ERA constructor

compute_model overwrote them with its own defaults.
---
 modred/era.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index f22a091..c2cf159 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -144,6 +144,8 @@ class ERA(object):
         self.put_array = put_array
         self.mc = mc
         self.mo = mo
+        self._default_mc = mc
+        self._default_mo = mo
         self.outputs = None
         self.verbosity = verbosity
         self.A = None
@@ -190,8 +192,8 @@ class ERA(object):
         :math:`dt`.  You can account for this by multiplying B by :math:`dt`.
         """
         self._set_Markovs(np.array(Markovs))
-        self.mc = mc
-        self.mo = mo
+        self.mc = self._default_mc if mc is None else mc
+        self.mo = self._default_mo if mo is None else mo
 
         self._assemble_Hankel()
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
-- 
2.43.0


From 859f120e89a47da2d6f47d02ea7bd09642707136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 12/32] fix: reject Markov parameters too short for the ERA
 Hankel arrays

The length check allowed sizes for which assembling the arrays failed with
IndexError, and accepted data too short for any block.
---
 modred/era.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index c2cf159..d001440 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -327,10 +327,15 @@ class ERA(object):
             self.mo = (self.num_time_steps-2)//4
             self.mc = self.mo
 
-        if (self.mo + self.mc) + 2 > self.num_time_steps:
+        # The last block of Hankel_array2 is sample 2 * (mo + mc) - 3.
+        if min(self.mo, self.mc) < 1:
             raise ValueError(
-                'mo + mc + 2= %d and must be <= than the number of samples %d'
-                % (self.mo + self.mc + 2, self.num_time_steps))
+                'mo = %d and mc = %d must be positive, number of samples is %d'
+                % (self.mo, self.mc, self.num_time_steps))
+        if 2 * (self.mo + self.mc) - 2 > self.num_time_steps:
+            raise ValueError(
+                '2 * (mo + mc) - 2 = %d must be <= number of samples %d'
+                % (2 * (self.mo + self.mc) - 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
             (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-- 
2.43.0


From f530c204680da5f379633bf5ceac899e2253bbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:11 +0000
Subject: [PATCH 13/32] fix: use mc or mo if only one of them is given to ERA

The given one was silently replaced by the default.
---
 modred/era.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index d001440..5b4aaf6 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -322,10 +322,11 @@ class ERA(object):
         # For additional output times, (nt-2)/4 rounds down, so
         # we use this formula.
 
-        if self.mo is None or self.mc is None:
-            # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        # Set mo and mc, time_steps is always in format [0, 1, P, P+1, ...]
+        if self.mo is None:
             self.mo = (self.num_time_steps-2)//4
-            self.mc = self.mo
+        if self.mc is None:
+            self.mc = (self.num_time_steps-2)//4
 
         # The last block of Hankel_array2 is sample 2 * (mo + mc) - 3.
         if min(self.mo, self.mc) < 1:
-- 
2.43.0


From 28177961dba989ae18709988b1dd3104626e46fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 14/32] fix: balance discrete-time Gramians in
 balanced_truncation

The Gramians were those of the continuous-time Lyapunov equation, so Hankel
singular values and balancing were wrong for the documented discrete-time
systems.
---
 modred/util.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 281fd80..3924808 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -371,9 +371,10 @@ def balanced_truncation(
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
-    gram_cont = scipy.linalg.solve_lyapunov(A, B.dot(B.transpose().conj()))
-    gram_obsv = scipy.linalg.solve_lyapunov(A.transpose().conj(),
-        C.transpose().conj().dot(C))
+    gram_cont = scipy.linalg.solve_discrete_lyapunov(
+        A, B.dot(B.transpose().conj()))
+    gram_obsv = scipy.linalg.solve_discrete_lyapunov(
+        A.transpose().conj(), C.transpose().conj().dot(C))
     Uc, Ec, Vc = svd(gram_cont)
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
-- 
2.43.0


From 9fa99e68fb731fe576ecc25c4f1192c281a41eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:28 +0000
Subject: [PATCH 15/32] fix: conjugate in balanced_truncation for complex
 systems

---
 modred/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 3924808..3e5a33e 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -379,13 +379,13 @@ def balanced_truncation(
     Uo, Eo, Vo = svd(gram_obsv)
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().dot(Lc))
+    U, E, V = svd(Lo.transpose().conj().dot(Lc))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
     SR = Lc.dot(V[:, :order]).dot(np.diag(E[:order]**-0.5))
-    A_bal_trunc = SL.transpose().dot(A).dot(SR)
-    B_bal_trunc = SL.transpose().dot(B)
+    A_bal_trunc = SL.transpose().conj().dot(A).dot(SR)
+    B_bal_trunc = SL.transpose().conj().dot(B)
     C_bal_trunc = C.dot(SR)
     if return_sing_vals:
         return A_bal_trunc, B_bal_trunc, C_bal_trunc, E
-- 
2.43.0


From c908608a0b77ff01072383f7d87438755222357c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:56 +0000
Subject: [PATCH 16/32] fix: make the sanity check tolerance relative

The absolute tolerance of 1e-12 rejected valid vectors of large magnitude or
single precision and accepted broken ones of small magnitude.
---
 modred/vectorspace.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index e4e172f..8991c82 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -152,9 +152,6 @@ class VectorSpaceHandles(object):
         # TODO: Other things which could be tested:
         # ``get``/``put`` doesn't affect other vecs (memory problems)
 
-        # Set tolerance
-        tol = 1e-12
-
         # Check inner product properties
         self._check_inner_product()
 
@@ -166,6 +163,10 @@ class VectorSpaceHandles(object):
         vec_copy = copy.deepcopy(test_vec)
         vec_copy_mag_sq = self.inner_product(vec_copy, vec_copy)
 
+        # Set tolerance, relative to the magnitude of the vector and large
+        # enough for single precision
+        tol = 1e-6 * abs(vec_copy_mag_sq)
+
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
         vec_mult = test_vec * scale_factor
-- 
2.43.0


From e24777b6b08d100e021b05c6a591110dda2117a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:47 +0000
Subject: [PATCH 17/32] fix: keep the type of every inner product in inner
 product arrays

The array had the type of the first inner product, so later complex or
fractional inner products raised TypeError, were truncated or lost their
imaginary parts.
---
 modred/vectorspace.py | 61 ++++++++++++++++++++++++++-----------------
 1 file changed, 37 insertions(+), 24 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 8991c82..5a73c70 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -8,6 +8,17 @@ from . import util
 from .py2to3 import print_msg, range
 
 
+def _assign_element(array, row_index, col_index, value):
+    """Assigns ``value`` to an element of ``array`` and returns the array,
+    converted if necessary to a data type that can also represent ``value``
+    (inner products need not all have the same type)."""
+    dtype = np.result_type(array.dtype, np.asarray(value).dtype)
+    if dtype != array.dtype:
+        array = array.astype(dtype)
+    array[row_index, col_index] = value
+    return array
+
+
 class VectorSpaceArrays(object):
     """Implements inner products and linear combinations using data stored in
     arrays.
@@ -451,12 +462,12 @@ class VectorSpaceHandles(object):
                     if len(row_vecs) > 0:
                         for row_index in range(start_row_index, end_row_index):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - start_row_index],
-                                    col_vec)
+                                IP_array = _assign_element(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - start_row_index],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
@@ -605,16 +616,18 @@ class VectorSpaceHandles(object):
                 for row_index in range(proc_row_tasks[0],
                     proc_row_tasks[-1] + 1):
                     # Diagonal term
-                    IP_array[row_index, row_index] = self.inner_product(
-                        row_vecs[row_index - proc_row_tasks[0]],
-                        row_vecs[row_index - proc_row_tasks[0]])
+                    IP_array = _assign_element(
+                        IP_array, row_index, row_index, self.inner_product(
+                            row_vecs[row_index - proc_row_tasks[0]],
+                            row_vecs[row_index - proc_row_tasks[0]]))
 
                     # Off-diagonal terms
                     for col_index in range(
                         row_index + 1, proc_row_tasks[-1] + 1):
-                        IP_array[row_index, col_index] = self.inner_product(
-                            row_vecs[row_index - proc_row_tasks[0]],
-                            row_vecs[col_index - proc_row_tasks[0]])
+                        IP_array = _assign_element(
+                            IP_array, row_index, col_index, self.inner_product(
+                                row_vecs[row_index - proc_row_tasks[0]],
+                                row_vecs[col_index - proc_row_tasks[0]]))
 
             # Number of square chunks to fill in is n * (n-1) / 2.  At each
             # iteration we fill in n of them, so we need (n-1) / 2
@@ -682,12 +695,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             my_row_indices[0], my_row_indices[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    my_col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - my_row_indices[0]],
-                                    col_vec)
+                                IP_array = _assign_element(
+                                    IP_array, row_index,
+                                    my_col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - my_row_indices[0]],
+                                        col_vec))
                             if (
                                 (time() - self.prev_print_time) >
                                 self.print_interval):
@@ -770,12 +783,12 @@ class VectorSpaceHandles(object):
                         for row_index in range(
                             proc_row_tasks[0], proc_row_tasks[-1] + 1):
                             for col_vec_index, col_vec in enumerate(col_vecs):
-                                IP_array[
-                                    row_index,
-                                    col_indices[col_vec_index]
-                                ] = self.inner_product(
-                                    row_vecs[row_index - proc_row_tasks[0]],
-                                    col_vec)
+                                IP_array = _assign_element(
+                                    IP_array, row_index,
+                                    col_indices[col_vec_index],
+                                    self.inner_product(
+                                        row_vecs[row_index - proc_row_tasks[0]],
+                                        col_vec))
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From 5484ec539e3ad2088ff26bf8622326db48ac39f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:56 +0000
Subject: [PATCH 18/32] fix: sum vectors of different types in lin_combine

In-place addition of arrays cannot change the type of the sum, so a complex
(or floating-point) term added to a real (or integer) one raised an error.
---
 modred/vectorspace.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 5a73c70..c1ecb43 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -1057,8 +1057,11 @@ class VectorSpaceHandles(object):
                                 sum_layers[
                                     sum_index-start_sum_index] = sum_layer
                             else:
-                                sum_layers[
-                                    sum_index - start_sum_index] += sum_layer
+                                # Not +=, which for arrays cannot change the
+                                # type, e.g., from real to complex
+                                sum_layers[sum_index - start_sum_index] = (
+                                    sum_layers[sum_index - start_sum_index] +
+                                    sum_layer)
                         if (
                             (time() - self.prev_print_time) >
                             self.print_interval):
-- 
2.43.0


From baaf0644d32161d35a0f18b95d9d3526958316f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 19/32] fix: accept weights of one-element vectors in
 VectorSpaceArrays

---
 modred/vectorspace.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index c1ecb43..9d18a26 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -30,7 +30,10 @@ class VectorSpaceArrays(object):
     def __init__(self, weights=None):
         self.weights = weights
         if self.weights is not None:
-            self.weights = np.array(self.weights).squeeze()
+            self.weights = np.array(self.weights)
+            # Do not squeeze the weights of one-element vectors to 0-d
+            if self.weights.size > 1:
+                self.weights = self.weights.squeeze()
         if self.weights is None:
             self.compute_inner_product_array = self._IP_no_weights
         elif self.weights.ndim == 1:
-- 
2.43.0


From 74926e8c0a49cf2decf0bed9bcf7a4da22f8024f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:09 +0000
Subject: [PATCH 20/32] fix: accept a list as last row in Hankel

---
 modred/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 3e5a33e..3b32dd2 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -589,7 +589,7 @@ def Hankel(first_col, last_row=None):
     if last_row is None:
         last_row = np.zeros(first_col.shape)
     else:
-        last_row = last_row.flatten()
+        last_row = np.array(last_row).flatten()
 
     unique_vals = np.concatenate((first_col, last_row[1:]))
     a, b = np.ogrid[0:len(first_col), 0:len(last_row)]
-- 
2.43.0


From 78adcf2d97e1417c350b13044ec27b5a463a3a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 21/32] fix: keep imaginary parts of complex Markov parameters
 in ERA

They were discarded in make_sampled_format and in the Hankel arrays.
---
 modred/era.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index 5b4aaf6..edb5019 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -43,7 +43,8 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
 
     time_steps = np.round((times-times[0])/dt)
     num_time_steps_corr = (num_time_steps - 1)*2
-    Markovs_corr = np.zeros((num_time_steps_corr, num_Markovs, num_inputs))
+    Markovs_corr = np.zeros(
+        (num_time_steps_corr, num_Markovs, num_inputs), dtype=Markovs.dtype)
     time_steps_corr = np.zeros(num_time_steps_corr, dtype=int)
     Markovs_corr[::2] = Markovs[:-1]
     Markovs_corr[1::2] = Markovs[1:]
@@ -339,8 +340,9 @@ class ERA(object):
                 % (2 * (self.mo + self.mc) - 2, self.num_time_steps))
 
         self.Hankel_array = np.zeros(
-            (self.num_Markovs * self.mo, self.num_inputs * self.mc))
-        self.Hankel_array2 = np.zeros(self.Hankel_array.shape)
+            (self.num_Markovs * self.mo, self.num_inputs * self.mc),
+            dtype=np.result_type(float, self.Markovs.dtype))
+        self.Hankel_array2 = np.zeros_like(self.Hankel_array)
         #Markovs_flattened = \
         #    self.Markovs.swapaxes(0,1).reshape((num_Markovs, -1))
         for row in range(self.mo):
-- 
2.43.0


From a67230453f52ce609fb9d8f91f31f626c234dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:55 +0000
Subject: [PATCH 22/32] fix: keep imaginary parts of complex data in OKID

---
 modred/okid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/modred/okid.py b/modred/okid.py
index 25334af..4e7746a 100644
--- a/modred/okid.py
+++ b/modred/okid.py
@@ -49,7 +49,9 @@ def OKID(inputs, outputs, num_Markovs):
     # Convenience variable
     num_inouts = num_inputs + num_outputs
 
-    V = np.zeros((num_inputs + num_inouts * num_Markovs, num_samples))
+    dtype = np.result_type(float, inputs.dtype, outputs.dtype)
+    V = np.zeros(
+        (num_inputs + num_inouts * num_Markovs, num_samples), dtype=dtype)
     V[:num_inputs] = inputs
 
     inputs_outputs = np.concatenate((inputs, outputs), axis=0)
@@ -61,7 +63,7 @@ def OKID(inputs, outputs, num_Markovs):
     #Markov_aug = np.dot(outputs, np.array(np.linalg.pinv(V, cutoff)))
     # Using least squares for better numerical conditioning? outputs = M V, so
     # outputs.T = V.T M.T, solve for M = Markovs_aug.
-    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.T)[0].conj().T
+    Markov_aug = np.linalg.lstsq(V.conj().T, outputs.conj().T)[0].conj().T
 
     D = Markov_aug[:, :num_inputs]
 
@@ -85,11 +87,11 @@ def OKID(inputs, outputs, num_Markovs):
                 Markov_num * num_inouts + num_inouts])
 
     # Estimate the Markov parameters of the system
-    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs))
+    Markov_est = np.empty((num_Markovs, num_outputs, num_inputs), dtype=dtype)
     Markov_est[0] = D
 
     for Markov_num in range(1, num_Markovs):
-        summation_term = np.zeros((num_outputs, num_inputs))
+        summation_term = np.zeros((num_outputs, num_inputs), dtype=dtype)
         for i in range(1, Markov_num + 1):
             summation_term += Markov_aug_output[i].dot(
                 Markov_est[Markov_num- i , :, :])
-- 
2.43.0


From 991fdf7fb630cc0a1101407aa33b74195b8c70aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:38 +0000
Subject: [PATCH 23/32] fix: keep imaginary parts of complex systems in lsim
 and impulse

---
 modred/util.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index 3b32dd2..e5f6612 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -442,6 +442,15 @@ def rss(num_states, num_inputs, num_outputs):
     return A, B, C
 
 
+def _complex_to_real(array):
+    """Returns real array that acts on stacked real and imaginary parts as
+    ``array`` acts on complex vectors."""
+    array = np.array(array)
+    return np.vstack((
+        np.hstack((array.real, -array.imag)),
+        np.hstack((array.imag, array.real))))
+
+
 def lsim(A, B, C, inputs, initial_condition=None):
     """Simulates a discrete-time system with arbitrary inputs.
 
@@ -467,6 +476,18 @@ def lsim(A, B, C, inputs, initial_condition=None):
     A = np.array(A)
     B = np.array(B)
     C = np.array(C)
+    # Simulation is real, so separate real and imaginary parts
+    if initial_condition is None:
+        initial_condition = np.zeros(A.shape[0])
+    if any(np.iscomplexobj(a) for a in (A, B, C, inputs, initial_condition)):
+        inputs = atleast_2d_col(inputs)
+        initial_condition = np.array(initial_condition).flatten()
+        outputs = lsim(
+            _complex_to_real(A), _complex_to_real(B), _complex_to_real(C),
+            np.hstack((inputs.real, inputs.imag)),
+            initial_condition=np.hstack(
+                (initial_condition.real, initial_condition.imag)))
+        return outputs[:, :C.shape[0]] + 1j * outputs[:, C.shape[0]:]
     ss = scipy.signal.StateSpace(A, B, C,
                                  np.zeros((C.shape[0], B.shape[1])), dt=1)
     tout_dum, outputs, xout_dum = scipy.signal.dlsim(
@@ -490,6 +511,15 @@ def impulse(A, B, C, num_time_steps=None):
     No D array is included, but one can simply be prepended to the output if
     it is non-zero.
     """
+    # Simulation is real, so separate real and imaginary parts
+    if any(np.iscomplexobj(a) for a in (A, B, C)):
+        Markovs = impulse(
+            _complex_to_real(A), _complex_to_real(B), _complex_to_real(C),
+            num_time_steps=num_time_steps)
+        num_outputs, num_inputs = C.shape[0], B.shape[1]
+        return (
+            Markovs[:, :num_outputs, :num_inputs] +
+            1j * Markovs[:, num_outputs:, :num_inputs])
     ss = scipy.signal.StateSpace(A, B, C, np.zeros((C.shape[0], B.shape[1])), dt=1)
     if num_time_steps is not None:
         dum, Markovs = scipy.signal.dimpulse(ss, n=num_time_steps+1)
-- 
2.43.0


From f7914c1a567bd0c5cf534eb9f8a5506d9daeedc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 24/32] fix: reject a single weight for vectors of several
 elements

---
 modred/vectorspace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 9d18a26..2395de7 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -49,6 +49,9 @@ class VectorSpaceArrays(object):
 
 
     def _IP_1D_weights(self, vecs1, vecs2):
+        # A single weight would be broadcast to all vector elements
+        if vecs1.shape[0] != self.weights.size:
+            raise ValueError('Weights and vectors have different sizes')
         return np.dot(vecs1.conj().T * self.weights, vecs2)
 
 
-- 
2.43.0


From 88f1ddb5c4edb1000ba0e38ff01cdf5cbea59eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:38 +0000
Subject: [PATCH 25/32] fix: do not broadcast single signals when loading
 several files

---
 modred/util.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/modred/util.py b/modred/util.py
index e5f6612..570dc8d 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -592,6 +592,10 @@ def load_multiple_signals(signal_paths, delimiter=None):
     for path_num, signal_path in enumerate(signal_paths):
         time_values_read, signals = load_signals(signal_path,
             delimiter=delimiter)
+        # A single signal or time value would be broadcast to all others
+        if signals.shape != all_signals[0].shape:
+            raise ValueError('Number of signals or time values in %s is '
+                'inconsistent with other files' % signal_path)
         if not np.allclose(time_values_read, time_values):
             raise ValueError('Time values in %s are inconsistent with '
                 'other files')
-- 
2.43.0


From bdd828852ebf60a01711d20b067c04214feb4eac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:32 +0000
Subject: [PATCH 26/32] fix: let the sanity check accept single-precision
 vectors

---
 modred/vectorspace.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/modred/vectorspace.py b/modred/vectorspace.py
index 2395de7..c4d4660 100644
--- a/modred/vectorspace.py
+++ b/modred/vectorspace.py
@@ -182,7 +182,7 @@ class VectorSpaceHandles(object):
 
         # Set tolerance, relative to the magnitude of the vector and large
         # enough for single precision
-        tol = 1e-6 * abs(vec_copy_mag_sq)
+        tol = 1e-5 * abs(vec_copy_mag_sq)
 
         # Check that inner product of scaled vector is correct
         scale_factor = 2.
-- 
2.43.0


From 215194583c412c43fe386cf0ff8be1d50125b705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:40 +0000
Subject: [PATCH 27/32] fix: reject vecs and adv_vecs of different shapes in
 compute_derivs_arrays

---
 modred/ltigalerkinproj.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/modred/ltigalerkinproj.py b/modred/ltigalerkinproj.py
index 89a7170..feb2baa 100644
--- a/modred/ltigalerkinproj.py
+++ b/modred/ltigalerkinproj.py
@@ -70,7 +70,12 @@ def compute_derivs_arrays(vecs, adv_vecs, dt):
     Computes d(``vec``)/dt = ( ``vec``\(t=dt) -  ``vec``\(t=0) ) / dt.
     """
     # Force data to be arrays, then compute derivatives
-    return (np.array(adv_vecs) - np.array(vecs))/(1. * dt)
+    vecs = np.array(vecs)
+    adv_vecs = np.array(adv_vecs)
+    # A single vector or element would be broadcast to all others
+    if vecs.shape != adv_vecs.shape:
+        raise ValueError('vecs and adv_vecs are not the same shape.')
+    return (adv_vecs - vecs)/(1. * dt)
 
 
 class LTIGalerkinProjectionBase(object):
-- 
2.43.0


From c0906599fc9eb53e85fb207101ffa88c8b505b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:52 +0000
Subject: [PATCH 28/32] fix: print messages of ERA from rank zero only

---
 modred/era.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/modred/era.py b/modred/era.py
index edb5019..8ee845d 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -1,7 +1,7 @@
 """Functions and classes fo rERA models. See paper by Ma et al. 2011, TCFD."""
 import numpy as np
 
-from . import util
+from . import util, parallel
 from .py2to3 import range
 
 
@@ -216,7 +216,8 @@ class ERA(object):
 
         self.C = Ur[:self.num_Markovs].dot(np.diag(Er ** 0.5))
 
-        if (np.abs(np.linalg.eigvals(self.A)) >= 1.).any() and self.verbosity:
+        if (np.abs(np.linalg.eigvals(self.A)) >= 1.).any() and \
+            self.verbosity and parallel.is_rank_zero():
             print(
                 'Warning: Reduced A array is unstable. '
                 'Unstable eigenvalues are %s' % np.linalg.eigvals(self.A))
@@ -240,7 +241,7 @@ class ERA(object):
         self.put_array(self.A, A_dest)
         self.put_array(self.B, B_dest)
         self.put_array(self.C, C_dest)
-        if self.verbosity:
+        if self.verbosity and parallel.is_rank_zero():
             print('Put ROM arrays to:')
             print(A_dest)
             print(B_dest)
-- 
2.43.0


From 4bdc39a98649cd2b32f1af985690749de0891e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:50 +0000
Subject: [PATCH 29/32] fix: number samples by index in make_sampled_format

Dividing the times by the first difference accumulates its rounding error
over many samples, which gave wrong time steps.
---
 modred/era.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/modred/era.py b/modred/era.py
index 8ee845d..357b691 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -41,7 +41,9 @@ def make_sampled_format(times, Markovs, dt_tol=1e-6):
     if np.amax(np.abs(np.diff(times)-dt)) > dt_tol:
         raise ValueError('Data is not equally spaced in time')
 
-    time_steps = np.round((times-times[0])/dt)
+    # Samples are equally spaced, so number them (dividing times by dt would
+    # accumulate the deviation of dt over many samples)
+    time_steps = np.arange(num_time_steps)
     num_time_steps_corr = (num_time_steps - 1)*2
     Markovs_corr = np.zeros(
         (num_time_steps_corr, num_Markovs, num_inputs), dtype=Markovs.dtype)
-- 
2.43.0


From d007034d3dccfae317083838d261c39a9f0c49f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 30/32] fix: lower ERA's truncation tolerance for Markov
 parameters in small units

They were truncated away entirely, or to a model with fewer states.
---
 modred/era.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/modred/era.py b/modred/era.py
index 357b691..659cc7f 100644
--- a/modred/era.py
+++ b/modred/era.py
@@ -199,8 +199,11 @@ class ERA(object):
         self.mo = self._default_mo if mo is None else mo
 
         self._assemble_Hankel()
+        # Lower the tolerance for Markov parameters in small units, such that
+        # these aren't truncated away
         self.L_sing_vecs, self.sing_vals, self.R_sing_vecs = util.svd(
-            self.Hankel_array)
+            self.Hankel_array,
+            atol=1e-13 * min(1., np.abs(self.Hankel_array).max()))
 
         # Truncate arrays
         Ur = self.L_sing_vecs[:, :num_states]
-- 
2.43.0


From ae916f3d0bf9fd3f1f976203104fff4f37056446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:42 +0000
Subject: [PATCH 31/32] fix: lower balanced_truncation's tolerances for small
 inputs and outputs

Inputs or outputs in small units gave a system without states.
---
 modred/util.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/modred/util.py b/modred/util.py
index 570dc8d..2cd0f1d 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -375,11 +375,17 @@ def balanced_truncation(
         A, B.dot(B.transpose().conj()))
     gram_obsv = scipy.linalg.solve_discrete_lyapunov(
         A.transpose().conj(), C.transpose().conj().dot(C))
-    Uc, Ec, Vc = svd(gram_cont)
-    Uo, Eo, Vo = svd(gram_obsv)
+    # Lower the tolerances for inputs and outputs in small units, such that no
+    # states are truncated because of these
+    scale_cont = np.abs(gram_cont).max()
+    scale_obsv = np.abs(gram_obsv).max()
+    Uc, Ec, Vc = svd(gram_cont, atol=1e-13 * min(1., scale_cont))
+    Uo, Eo, Vo = svd(gram_obsv, atol=1e-13 * min(1., scale_obsv))
     Lc = Uc.dot(np.diag(Ec**0.5))
     Lo = Uo.dot(np.diag(Eo**0.5))
-    U, E, V = svd(Lo.transpose().conj().dot(Lc))
+    U, E, V = svd(
+        Lo.transpose().conj().dot(Lc),
+        atol=1e-13 * min(1., (scale_cont * scale_obsv) ** 0.5))
     if order is None:
         order = len(E)
     SL = Lo.dot(U[:, :order]).dot(np.diag(E[:order]**-0.5))
-- 
2.43.0


From 94a6e7b15353e92bf5e4ed9d383d0ffc170df031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:38 +0000
Subject: [PATCH 32/32] fix: load_multiple_signals accepted different times if
 these were small numbers

---
 modred/util.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/modred/util.py b/modred/util.py
index 2cd0f1d..f4c989c 100644
--- a/modred/util.py
+++ b/modred/util.py
@@ -602,7 +602,11 @@ def load_multiple_signals(signal_paths, delimiter=None):
         if signals.shape != all_signals[0].shape:
             raise ValueError('Number of signals or time values in %s is '
                 'inconsistent with other files' % signal_path)
-        if not np.allclose(time_values_read, time_values):
+        # Lower the tolerance for times in small units, such that these don't
+        # all agree
+        if not np.allclose(
+            time_values_read, time_values,
+            atol=1e-8 * min(1., np.abs(time_values).max())):
             raise ValueError('Time values in %s are inconsistent with '
                 'other files')
         all_signals[path_num] = signals
-- 
2.43.0

