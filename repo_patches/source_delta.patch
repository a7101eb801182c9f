From 4b0b748e7b00283a82a8dc07d9b005fdf491d794 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 01/11] fix: pairwise_distances(x, y) returned the transposed
 matrix

The documented result is n x l with entry (i, j) the distance between
x[i] and y[j].
---
 dcor/distances.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/distances.py b/dcor/distances.py
index 5a5c579..3e72cd9 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -27,8 +27,8 @@ def _cdist_naive(x: Array, y: Array, exponent: float = 1) -> Array:
     x = xp.asarray(x)
     y = xp.asarray(y)
 
-    x = xp.expand_dims(x, axis=0)
-    y = xp.expand_dims(y, axis=1)
+    x = xp.expand_dims(x, axis=1)
+    y = xp.expand_dims(y, axis=0)
 
     squared_norms = xp.sum(((x - y) ** 2), axis=-1)
 
-- 
2.43.0


From 5712b22b99b3e0b5d81624c5db86c8e9a471e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 02/11] fix: reject point sets of different dimension instead
 of broadcasting

A set with one column was silently broadcast against a set with several,
so distances, and with them the energy distance, were computed between
points of different spaces.
---
 dcor/distances.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/dcor/distances.py b/dcor/distances.py
index 3e72cd9..55a6958 100644
--- a/dcor/distances.py
+++ b/dcor/distances.py
@@ -158,4 +158,12 @@ def pairwise_distances(
         return _pdist(x, exponent=exponent)
 
     x, y = _transform_to_2d(x, y)
+
+    if x.shape[1] != y.shape[1]:
+        raise ValueError(
+            f'x and y must have the same number of components. The '
+            f'number of components of x is {x.shape[1]} while the '
+            f'number of components of y is {y.shape[1]}.'
+        )
+
     return _cdist(x, y, exponent=exponent)
-- 
2.43.0


From b1a2b9c65c14258cbdc16fd6c33cf0f84a8a0af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:31 +0000
Subject: [PATCH 03/11] fix: rowwise optimized path failed for integer inputs

The result buffer had the dtype of x, and the compiled kernel could not
store its floating point result in it.
---
 dcor/_fast_dcov_avl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index eb58932..dfbe8e9 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -628,7 +628,7 @@ def _rowwise_distance_covariance_sqr_avl_generic(
         assert y.shape[2] == 1
         y = y[..., 0]
 
-    res = np.zeros(x.shape[0], dtype=x.dtype)
+    res = np.zeros(x.shape[0])
 
     if compile_mode not in rowwise_impls_dict:
         return NotImplemented
-- 
2.43.0


From bed072e356b960c28903ceae72f99587f3c84dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:13:49 +0000
Subject: [PATCH 04/11] fix: mergesort method failed on object arrays such as
 Fractions

Scalars taken from an object array have no item() method.
---
 dcor/_fast_dcov_mergesort.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 74aa299..3589be1 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -93,7 +93,7 @@ def _compute_weight_sums(
                 previous_index_1 = previous_indexes[subarray_1_idx]
                 previous_index_2 = previous_indexes[subarray_2_idx]
 
-                if y[previous_index_1].item() >= y[previous_index_2].item():
+                if y[previous_index_1] >= y[previous_index_2]:
                     current_indexes[indexes_idx] = previous_index_1
                     subarray_1_idx += 1
                 else:
@@ -171,7 +171,7 @@ def _generate_compute_aijbij_term(
 
         d = 4 * sums_term - 2 * cov_term
 
-        return d.item()
+        return d
 
     return _compute_aijbij_term
 
-- 
2.43.0


From 67a46bf07244739e1570787146ecead84fdf9da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:10 +0000
Subject: [PATCH 05/11] fix: mergesort method accepted samples of different
 size

The surplus observations were ignored, or memory past the end of the
shorter sample was read, instead of rejecting the input as the other
methods do.
---
 dcor/_fast_dcov_mergesort.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 3589be1..936fb7a 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -19,6 +19,7 @@ import numpy as np
 from numba import boolean, float64
 from numba.types import Tuple as NumbaTuple
 
+from ._dcor_internals import _check_same_n_elements
 from ._dcor_internals_numba import (
     NumbaMatrix,
     NumbaMatrixReadOnly,
@@ -391,6 +392,8 @@ def _distance_covariance_sqr_terms_mergesort(
 
     x, y = _transform_to_1d(x, y)
 
+    _check_same_n_elements(x, y)
+
     if not isinstance(x, np.ndarray):
         raise ValueError("AVL method is only implemented for NumPy arrays.")
 
-- 
2.43.0


From d213f254133d072b53b3bdf6726fde57bcd1b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:53 +0000
Subject: [PATCH 06/11] fix: statistics of narrow integer samples overflowed

Differences, products and sums were computed in the integer type of the
sample and wrapped around silently.
---
 dcor/_utils.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/dcor/_utils.py b/dcor/_utils.py
index 4d41b8c..d7dd7e8 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -111,12 +111,22 @@ def _sqrt(x: T) -> T:
         return x_copy**0.5
 
 
+def _as_float_if_int(array: T) -> T:
+    """Convert fixed-width integers, which can overflow, to floating point."""
+    xp = array_namespace(array)
+
+    if xp.isdtype(array.dtype, "integral"):
+        return xp.astype(array, xp.float64)
+
+    return array
+
+
 def _transform_to_1d(*args: T) -> Iterable[T]:
     """Convert column matrices to vectors, to always have a 1d shape."""
     xp = array_namespace(*args)
 
     for array in args:
-        array = xp.asarray(array)
+        array = _as_float_if_int(xp.asarray(array))
 
         dim = len(array.shape)
         assert dim <= 2
@@ -133,7 +143,7 @@ def _transform_to_2d(*args: T) -> Iterable[T]:
     xp = array_namespace(*args)
 
     for array in args:
-        array = xp.asarray(array)
+        array = _as_float_if_int(xp.asarray(array))
 
         dim = len(array.shape)
         assert dim <= 2
-- 
2.43.0


From 8d0e1ee21f089bd5297cd75e9f65a9e255ce845c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:06 +0000
Subject: [PATCH 07/11] fix: correlation of constant samples was not 0 with the
 fast methods

The rounding error of the mean and of the partial sums made the distance
variance of a constant sample a tiny nonzero number, so the correlation
could be any number, even greater than 1.
---
 dcor/_fast_dcov_avl.py       | 7 ++++++-
 dcor/_fast_dcov_mergesort.py | 6 ++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index dfbe8e9..ac6ed62 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -346,7 +346,12 @@ def _generate_distance_covariance_sqr_terms_avl_impl(
             s,
             pos_sums,
             gamma,
-        ) = get_impl_args(x, y)
+        ) = get_impl_args(
+            # The translation does not change the distances, and avoids
+            # rounding errors in constant samples
+            x - np.min(x),
+            y - np.min(y),
+        )
 
         n = x.shape[0]
 
diff --git a/dcor/_fast_dcov_mergesort.py b/dcor/_fast_dcov_mergesort.py
index 936fb7a..b6d272c 100644
--- a/dcor/_fast_dcov_mergesort.py
+++ b/dcor/_fast_dcov_mergesort.py
@@ -219,8 +219,10 @@ def _generate_distance_covariance_sqr_terms_mergesort_impl(
         return_var_terms: bool = False,
     ) -> Any:
 
-        x = np.ascontiguousarray(x)
-        y = np.ascontiguousarray(y)
+        # The translation does not change the distances, and avoids
+        # rounding errors in constant samples
+        x = x - np.min(x)
+        y = y - np.min(y)
 
         compute_aijbij_term = (
             _compute_aijbij_term_compiled
-- 
2.43.0


From 42f4242ebfbba810b7ce85f00bdfc2624d32cc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:06 +0000
Subject: [PATCH 08/11] fix: rowwise correlation failed for column vectors
 against 1-D vectors

---
 dcor/_rowwise.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index ff5bbb3..460dc85 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -59,18 +59,12 @@ def _generate_rowwise_distance_correlation_sqr(unbiased):
         cov_fun = (_dcor.u_distance_covariance_sqr if unbiased
                    else _dcor.distance_covariance_sqr)
 
-        n_comps = len(x)
-
-        concat_x = np.concatenate((x, x, y))
-        concat_y = np.concatenate((y, x, y))
-
-        res_covs = cov_fun.rowwise_function(concat_x, concat_y, **kwargs)
-        if res_covs is NotImplemented:
+        cov = cov_fun.rowwise_function(x, y, **kwargs)
+        if cov is NotImplemented:
             return NotImplemented
 
-        cov = res_covs[:n_comps]
-        x_std = _sqrt(res_covs[n_comps:2 * n_comps])
-        y_std = _sqrt(res_covs[2 * n_comps:])
+        x_std = _sqrt(cov_fun.rowwise_function(x, x, **kwargs))
+        y_std = _sqrt(cov_fun.rowwise_function(y, y, **kwargs))
 
         with np.errstate(divide='ignore', invalid='ignore'):
             corr_sqr = cov / x_std / y_std
-- 
2.43.0


From 1e339882d745551af11e0ed968d2a4065d0a15c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:06 +0000
Subject: [PATCH 09/11] fix: rowwise failed for elements of unequal length or
 of non-float type

---
 dcor/_fast_dcov_avl.py | 6 ++++++
 dcor/_rowwise.py       | 5 +++++
 2 files changed, 11 insertions(+)

diff --git a/dcor/_fast_dcov_avl.py b/dcor/_fast_dcov_avl.py
index ac6ed62..c035030 100644
--- a/dcor/_fast_dcov_avl.py
+++ b/dcor/_fast_dcov_avl.py
@@ -623,6 +623,12 @@ def _rowwise_distance_covariance_sqr_avl_generic(
     x = np.asarray(x)
     y = np.asarray(y)
 
+    if not (
+        np.can_cast(x.dtype, np.float64)
+        and np.can_cast(y.dtype, np.float64)
+    ):
+        return NotImplemented
+
     assert 2 <= x.ndim <= 3
     if x.ndim == 3:
         assert x.shape[2] == 1
diff --git a/dcor/_rowwise.py b/dcor/_rowwise.py
index 460dc85..29ce40a 100644
--- a/dcor/_rowwise.py
+++ b/dcor/_rowwise.py
@@ -24,6 +24,11 @@ def _generate_rowwise_distance_covariance_sqr(unbiased):
                                              exponent=exponent):
             return NotImplemented
 
+        # The optimized version needs elements of equal shape
+        if any(a.shape != x[0].shape for a in x) or any(
+                b.shape != y[0].shape for b in y):
+            return NotImplemented
+
         if (method in (_dcor.DistanceCovarianceMethod.AUTO,
                        _dcor.DistanceCovarianceMethod.AVL)):
             return _rowwise_distance_covariance_sqr_avl_generic(
-- 
2.43.0


From 21b25eb8c36ca095038f2164a6fb42e60cb20460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:57 +0000
Subject: [PATCH 10/11] fix: energy_distance with U-statistics failed for
 non-NumPy arrays

The array API standard requires the shape given to reshape to be a tuple.
---
 dcor/_energy.py | 4 ++--
 dcor/_utils.py  | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/dcor/_energy.py b/dcor/_energy.py
index dc4eee7..227220a 100644
--- a/dcor/_energy.py
+++ b/dcor/_energy.py
@@ -79,8 +79,8 @@ def _get_flat_upper_matrix(x: Array, k: int) -> Array:
     """Get flat upper matrix from diagonal k."""
     xp = array_namespace(x)
     x_mask = xp.triu(xp.ones_like(x, dtype=xp.bool), k=k)
-    x_mask_flat = xp.reshape(x_mask, -1)
-    x_flat = xp.reshape(x, -1)
+    x_mask_flat = xp.reshape(x_mask, (-1,))
+    x_flat = xp.reshape(x, (-1,))
 
     return x_flat[x_mask_flat]
 
diff --git a/dcor/_utils.py b/dcor/_utils.py
index d7dd7e8..2b650a2 100644
--- a/dcor/_utils.py
+++ b/dcor/_utils.py
@@ -133,7 +133,7 @@ def _transform_to_1d(*args: T) -> Iterable[T]:
 
         if dim == 2:
             assert array.shape[1] == 1
-            array = xp.reshape(array, -1)
+            array = xp.reshape(array, (-1,))
 
         yield array
 
-- 
2.43.0


From 9f84b5aebb5c75a49f68a3ab4ffc0e6596c5d6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:52 +0000
Subject: [PATCH 11/11] fix: partial distance covariance accepted samples of
 different size

A sample with a single observation was broadcast to the size of the others.
---
 dcor/_partial_dcor.py | 7 +++++++
 dcor/independence.py  | 3 +++
 2 files changed, 10 insertions(+)

diff --git a/dcor/_partial_dcor.py b/dcor/_partial_dcor.py
index e9b58f4..792c255 100644
--- a/dcor/_partial_dcor.py
+++ b/dcor/_partial_dcor.py
@@ -6,6 +6,7 @@ from typing import TypeVar
 import numpy as np
 
 from ._dcor_internals import (
+    _check_same_n_elements,
     _u_distance_matrix,
     u_complementary_projection,
     u_product,
@@ -78,6 +79,9 @@ def partial_distance_covariance(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
@@ -146,6 +150,9 @@ def partial_distance_correlation(
         .. footbibliography::
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     a = _u_distance_matrix(x)
     b = _u_distance_matrix(y)
     c = _u_distance_matrix(z)
diff --git a/dcor/independence.py b/dcor/independence.py
index 36fb521..7901791 100644
--- a/dcor/independence.py
+++ b/dcor/independence.py
@@ -209,6 +209,9 @@ def partial_distance_covariance_test(
         True
 
     """
+    _check_same_n_elements(x, y)
+    _check_same_n_elements(x, z)
+
     random_state = _random_state_init(random_state)
 
     # Compute U-centered matrices
-- 
2.43.0

