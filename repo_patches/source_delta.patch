From c62e054a5ec8fc933255cdc47df7c49844f9e2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 01/13] fix: let NumPy arrays defer to the reflected operators
 of matrices

An operator with a NumPy array on the left and a matrix on the right was applied
element-wise by NumPy, which gave an array of matrices.
---
 matrix/matrix.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/matrix/matrix.py b/matrix/matrix.py
index d39eff5..e4d35b0 100644
--- a/matrix/matrix.py
+++ b/matrix/matrix.py
@@ -17,6 +17,10 @@ _dispatch = Dispatcher()
 class AbstractMatrix(metaclass=abc.ABCMeta):
     """Abstract matrix type."""
 
+    # Let NumPy arrays defer to the reflected operators below. NumPy would otherwise
+    # apply the operator to every element of the array.
+    __array_ufunc__ = None
+
     def __neg__(self):
         return B.negative(self)
 
-- 
2.43.0


From 7b76af5580280134f1f3fcd2f25f2d778811b073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 02/13] fix: match low-rank columns in all batch elements and
 relative to their size

Columns were matched by looking at only the first batch element, and with an absolute
threshold, so sums of batched or small low-rank matrices could be wrong. Whether a sum
cancels was also decided with an absolute threshold.
---
 matrix/ops/add.py              | 21 +++++++++++++++--
 matrix/ops/algorithms/align.py | 42 ++++++++++++++++++++++++++++------
 2 files changed, 54 insertions(+), 9 deletions(-)

diff --git a/matrix/ops/add.py b/matrix/ops/add.py
index 1c5df07..4474228 100644
--- a/matrix/ops/add.py
+++ b/matrix/ops/add.py
@@ -6,7 +6,7 @@ from algebra import proven
 from plum import convert
 from wbml.warning import warn_upmodule
 
-from .algorithms.align import align
+from .algorithms.align import align, relative_tolerance
 from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..lowrank import LowRank
@@ -160,6 +160,23 @@ def _pad_zero_both(a):
     return _pad_zero_col(_pad_zero_row(a))
 
 
+def _cancels(left, right, middle, *terms):
+    """Check that the low-rank matrix with factors `left`, `middle`, and `right`, where
+    `middle` is the sum of `terms`, is negligible compared to the terms."""
+    # Use the magnitudes of the columns to weight the elements of the middle factors.
+    left = B.sum(B.abs(B.dense(left)), axis=-2)
+    right = B.sum(B.abs(B.dense(right)), axis=-2)
+    weights = B.expand_dims(left, axis=-1) * B.expand_dims(right, axis=-2)
+
+    def magnitude(*xs):
+        total = sum(B.abs(B.dense(x)) for x in xs) * weights
+        return B.max(B.max(total, axis=-1), axis=-1)
+
+    tol = relative_tolerance(left, right, B.dense(middle))
+    # This must be the case for all batch elements.
+    return B.all(magnitude(middle) <= tol * magnitude(*terms))
+
+
 @B.dispatch
 def add(a: LowRank, b: LowRank):
     assert_compatible(B.shape(a), B.shape(b))
@@ -189,7 +206,7 @@ def add(a: LowRank, b: LowRank):
     if B.control_flow.use_cache:
         is_zero = B.control_flow.get_outcome("add:is_zero")
     else:
-        is_zero = B.mean(B.abs(join_middle)) < 1e-10
+        is_zero = _cancels(join_left, join_right, join_middle, a_mid, b_mid)
         if B.control_flow.caching:
             B.control_flow.set_outcome("add:is_zero", is_zero)
 
diff --git a/matrix/ops/algorithms/align.py b/matrix/ops/algorithms/align.py
index 83f381e..e360d48 100644
--- a/matrix/ops/algorithms/align.py
+++ b/matrix/ops/algorithms/align.py
@@ -1,4 +1,25 @@
 import lab as B
+import numpy as np
+from plum import convert
+
+
+def relative_tolerance(*xs):
+    """Get the tolerance, relative to the magnitude of the elements, below which
+    differences are attributed to rounding errors.
+
+    Args:
+        *xs (tensor): Tensors to get the tolerance for.
+
+    Returns:
+        float: Relative tolerance.
+    """
+    dtype = convert(B.dtype_float(B.dtype(*xs)), B.NPDType)
+    return float(np.finfo(dtype).eps) ** (2 / 3)
+
+
+def _average_norms(x):
+    squares = B.reshape(B.multiply(x, x), -1, *B.shape(x, -2, -1))
+    return B.sum(B.mean(squares, axis=0), axis=0)
 
 
 def align(a, b):
@@ -21,16 +42,23 @@ def align(a, b):
         b_join_perm = B.control_flow.get_outcome("align:b_join_perm")
         return a_perm, b_perm, a_join_perm, b_join_perm
 
-    # We perform the sorting based on the first elements.
-    a0 = a[(0,) * len(B.shape_batch(a)) + (slice(None), slice(None))]
-    b0 = b[(0,) * len(B.shape_batch(b)) + (slice(None), slice(None))]
+    # This converts to numeric tensors, and it warns if any structure is lost.
+    a = a[...]
+    b = b[...]
+
+    tol = relative_tolerance(a, b)
 
     def equal(index_a, index_b):
-        return B.mean(B.subtract(a0[:, index_a], b0[:, index_b]) ** 2) < 1e-10
+        # The columns must be equal in all batch elements.
+        col_a = a[..., index_a]
+        diff = B.subtract(col_a, b[..., index_b])
+        return B.all(
+            B.sum(B.abs(diff), axis=-1) <= tol * B.sum(B.abs(col_a), axis=-1)
+        )
 
-    # We need the norms later on.
-    a_norms = B.sum(B.multiply(a0, a0), axis=0)
-    b_norms = B.sum(B.multiply(b0, b0), axis=0)
+    # We need the norms later on. Average over all batch elements.
+    a_norms = _average_norms(a)
+    b_norms = _average_norms(b)
 
     # Perform sorting to enable linear-time algorithm. These need to be regular Python
     # lists.
-- 
2.43.0


From edd2516d7d8af924518726c9db9051bac0ca8c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:31 +0000
Subject: [PATCH 03/13] fix: diagonals of Kronecker products of non-square or
 batched numeric factors

---
 matrix/ops/diag.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/diag.py b/matrix/ops/diag.py
index 3c349a7..5854be0 100644
--- a/matrix/ops/diag.py
+++ b/matrix/ops/diag.py
@@ -63,7 +63,19 @@ def diag(a: Woodbury):
     return B.diag(a.diag) + B.diag(a.lr)
 
 
+def _is_square(a):
+    rows, cols = B.shape_matrix(a)
+    return rows == cols
+
+
 @B.dispatch
 def diag(a: Kronecker):
+    if not (_is_square(a.left) and _is_square(a.right)):
+        # The diagonal is only the product of the diagonals if the factors are square.
+        warn_upmodule(
+            f"Getting the diagonal of {a}: converting to dense.",
+            category=ToDenseWarning,
+        )
+        return B.diag_extract(B.dense(a))
     left, right = align_batch(a.left, a.right)
-    return B.kron(B.diag(left), B.diag(right), -1)
+    return B.kron(B.diag_extract(left), B.diag_extract(right), -1)
-- 
2.43.0


From 00f5faaa8c6cf010531921cbb7a22a5ba125ab65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:42 +0000
Subject: [PATCH 04/13] fix: non-positive powers of matrices with structural
 zeros

---
 matrix/ops/power.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/matrix/ops/power.py b/matrix/ops/power.py
index da55a72..5478a87 100644
--- a/matrix/ops/power.py
+++ b/matrix/ops/power.py
@@ -11,8 +11,16 @@ from ..util import ToDenseWarning
 __all__ = []
 
 
+def _zero_to_zero(b):
+    # Only positive powers of zero are zero. If the power is not a number, assume that
+    # it is positive.
+    return not isinstance(b, B.Number) or b > 0
+
+
 @B.dispatch
 def power(a: Zero, b: B.Numeric):
+    if not _zero_to_zero(b):
+        return power.invoke(AbstractMatrix, B.Numeric)(a, b)
     return a
 
 
@@ -28,6 +36,8 @@ def power(a: AbstractMatrix, b: B.Numeric):
 
 @B.dispatch
 def power(a: Diagonal, b: B.Numeric):
+    if not _zero_to_zero(b):
+        return power.invoke(AbstractMatrix, B.Numeric)(a, b)
     return Diagonal(B.power(a.diag, b))
 
 
@@ -38,11 +48,15 @@ def power(a: Constant, b: B.Numeric):
 
 @B.dispatch
 def power(a: LowerTriangular, b: B.Numeric):
+    if not _zero_to_zero(b):
+        return power.invoke(AbstractMatrix, B.Numeric)(a, b)
     return LowerTriangular(B.power(a.mat, b))
 
 
 @B.dispatch
 def power(a: UpperTriangular, b: B.Numeric):
+    if not _zero_to_zero(b):
+        return power.invoke(AbstractMatrix, B.Numeric)(a, b)
     return UpperTriangular(B.power(a.mat, b))
 
 
-- 
2.43.0


From d7f8dac10bf435644180b5371efa1e1b573a38c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 05/13] fix: take from the rows of numeric factors of low-rank
 matrices

---
 matrix/ops/take.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/take.py b/matrix/ops/take.py
index dbd5015..6721126 100644
--- a/matrix/ops/take.py
+++ b/matrix/ops/take.py
@@ -104,9 +104,9 @@ def take(a: UpperTriangular, indices_or_mask, axis: B.Int = -2):
 def take(a: LowRank, indices_or_mask, axis: B.Int = -2):
     axis = resolve_axis(a, axis, negative=True)
     if axis == -2:
-        return LowRank(B.take(a.left, indices_or_mask), a.right, a.middle)
+        return LowRank(B.take(a.left, indices_or_mask, axis=-2), a.right, a.middle)
     elif axis == -1:
-        return LowRank(a.left, B.take(a.right, indices_or_mask), a.middle)
+        return LowRank(a.left, B.take(a.right, indices_or_mask, axis=-2), a.middle)
     else:
         left, middle, right = align_batch(a.left, a.middle, a.right)
         axis = resolve_axis(a, axis)
-- 
2.43.0


From 51b45bc3bf448f71494463870544e0c31f99fd62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:39 +0000
Subject: [PATCH 06/13] fix: Kronecker product of two zero matrices and dense
 versions of tiled matrices

---
 matrix/ops/dense.py | 3 ++-
 matrix/ops/kron.py  | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index f15fbf0..1974a5e 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -119,5 +119,6 @@ def dense(a: TiledBlocks):
 
             repeated_blocks.append(B.tile(block, *tile_reps))
 
-        a.dense = B.concat(*repeated_blocks, axis=axis)
+        # If the blocks are matrices, then the concatenation is a matrix too.
+        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
     return a.dense
diff --git a/matrix/ops/kron.py b/matrix/ops/kron.py
index 0a5f26c..7ff996c 100644
--- a/matrix/ops/kron.py
+++ b/matrix/ops/kron.py
@@ -24,7 +24,7 @@ def kron(a: AbstractMatrix, b: Zero):
 
 @B.dispatch(precedence=proven())
 def kron(a: Zero, b: AbstractMatrix):
-    return kron(b, a)
+    return Zero(B.dtype(a), *B.shape_batch_broadcast(a, b), *_product_shape(a, b))
 
 
 # Dense
-- 
2.43.0


From 79c96d766a558ceb2d50f5a9b62e2c55849b5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:09 +0000
Subject: [PATCH 07/13] fix: block-diagonal matrices of a single or batched
 numeric block

---
 matrix/ops/block_diag.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/block_diag.py b/matrix/ops/block_diag.py
index 0c03d1f..d7dd641 100644
--- a/matrix/ops/block_diag.py
+++ b/matrix/ops/block_diag.py
@@ -1,6 +1,7 @@
 from typing import Union
 
 import lab as B
+from plum import convert
 from wbml.warning import warn_upmodule
 
 from ..constant import Zero
@@ -23,6 +24,10 @@ def block_diag(element: B.Numeric, *elements: B.Numeric):
     Returns:
         matrix: Block-diagonal matrix.
     """
+    if len(elements) == 0:
+        # There is just one matrix. Return it.
+        return element
+
     elements = (element,) + elements
 
     # Align the batch dimensions to allow concatenation.
@@ -112,7 +117,8 @@ def _attempt_diagonal(blocks):
 def block_diag(a: TiledBlocks):
     return B.block_diag(
         *[
-            B.kron(B.eye(B.dtype(block), rep), block)
+            # `B.kron` of numeric tensors does not support batches.
+            B.kron(B.eye(B.dtype(block), rep), convert(block, AbstractMatrix))
             for block, rep in zip(a.blocks, a.reps)
         ]
     )
-- 
2.43.0


From f50cf0017e9ff301651ba14872c9377e7f12f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:25 +0000
Subject: [PATCH 08/13] fix: independent samples for all batch elements of
 Woodbury matrices

---
 matrix/ops/sample.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/matrix/ops/sample.py b/matrix/ops/sample.py
index 42c9ed9..4ac3012 100644
--- a/matrix/ops/sample.py
+++ b/matrix/ops/sample.py
@@ -1,6 +1,7 @@
 import lab as B
 
 from ..woodbury import Woodbury
+from .util import align_batch
 
 __all__ = []
 
@@ -40,6 +41,8 @@ def sample(a, num: B.Int = 1):
 
 @B.dispatch
 def sample(state: B.RandomState, a: Woodbury, num: B.Int = 1):
-    state, sample_diag = B.sample(state, a.diag, num=num)
-    state, sample_lr = B.sample(state, a.lr, num=num)
+    # Align the batches to sample independently for every element of the batch.
+    diag, lr = align_batch(a.diag, a.lr)
+    state, sample_diag = B.sample(state, diag, num=num)
+    state, sample_lr = B.sample(state, lr, num=num)
     return state, sample_diag + sample_lr
-- 
2.43.0


From dbc4eb9c7ff806b570e544b4acc97a7628796407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:10 +0000
Subject: [PATCH 09/13] fix: unwrap the dimensions of constant and zero
 matrices

---
 matrix/constant.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/matrix/constant.py b/matrix/constant.py
index 4e27567..187d86b 100644
--- a/matrix/constant.py
+++ b/matrix/constant.py
@@ -1,5 +1,5 @@
 import lab as B
-from lab.shape import Shape
+from lab.shape import Shape, unwrap_dimension
 
 from .matrix import AbstractMatrix, repr_format
 from .util import dtype_str, indent
@@ -32,8 +32,9 @@ class Zero(AbstractMatrix):
             raise ValueError("Must specify the number of rows and columns.")
         self._dtype = dtype
         self.batch = shape[:-2]
-        self.rows = shape[-2]
-        self.cols = shape[-1]
+        # Broadcasted shapes give wrapped dimensions, which do not work in arithmetic.
+        self.rows = unwrap_dimension(shape[-2])
+        self.cols = unwrap_dimension(shape[-1])
         self.dense = None
 
     @property
@@ -76,8 +77,9 @@ class Constant(AbstractMatrix):
         # Check that at least a rank-2 tensor is specified.
         if len(shape) < 2:
             raise ValueError("Must specify the number of rows and columns.")
-        self.rows = shape[-2]
-        self.cols = shape[-1]
+        # Broadcasted shapes give wrapped dimensions, which do not work in arithmetic.
+        self.rows = unwrap_dimension(shape[-2])
+        self.cols = unwrap_dimension(shape[-1])
         if shape[:-2] == ():
             # No batch shape was specified. Infer it from `const`.
             self.batch = B.shape(const)
-- 
2.43.0


From 21b15f0f85a3b098233515baf7510bacdaf9d5c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:24 +0000
Subject: [PATCH 10/13] fix: unwrap the dimension that means are divided by

---
 matrix/ops/mean.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/matrix/ops/mean.py b/matrix/ops/mean.py
index 44094c6..09eea34 100644
--- a/matrix/ops/mean.py
+++ b/matrix/ops/mean.py
@@ -3,6 +3,7 @@ from operator import mul
 from typing import Union
 
 import lab as B
+from lab.shape import unwrap_dimension
 from lab.util import resolve_axis
 
 from ..matrix import AbstractMatrix
@@ -15,5 +16,6 @@ def mean(a: AbstractMatrix, axis: Union[B.Int, None] = None):
     if axis is None:
         n = reduce(mul, B.shape(a), 1)
     else:
-        n = B.shape(a, resolve_axis(a, axis))
+        # Broadcasted shapes give wrapped dimensions, which do not work in arithmetic.
+        n = unwrap_dimension(B.shape(a, resolve_axis(a, axis)))
     return B.sum(a, axis=axis) / n
-- 
2.43.0


From 820191434f83da1a3fc6b0a6f82a85353bb515de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:40 +0000
Subject: [PATCH 11/13] fix: refuse constants of other sizes in products with
 triangular matrices

---
 matrix/ops/multiply.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/matrix/ops/multiply.py b/matrix/ops/multiply.py
index 929aa6f..7620b42 100644
--- a/matrix/ops/multiply.py
+++ b/matrix/ops/multiply.py
@@ -138,6 +138,7 @@ def multiply(a: LowerTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: LowerTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return LowerTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
@@ -170,6 +171,7 @@ def multiply(a: UpperTriangular, b: AbstractMatrix):
 
 @B.dispatch
 def multiply(a: UpperTriangular, b: Constant):
+    assert_compatible(B.shape(a), B.shape(b))
     return UpperTriangular(
         B.multiply(a.mat, B.expand_dims(b.const, axis=-1, times=2, ignore_scalar=True))
     )
-- 
2.43.0


From 12216bdf62eda3597c8c08adb5a7272e88170e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 12/13] fix: do not keep abstract intermediate results on
 concrete matrices

---
 matrix/ops/cholesky.py   | 13 +++++++------
 matrix/ops/dense.py      | 17 +++++++++--------
 matrix/ops/isabstract.py |  6 ++++++
 matrix/ops/pd_schur.py   |  3 ++-
 matrix/ops/schur.py      |  3 ++-
 matrix/ops/util.py       | 19 ++++++++++++++++++-
 6 files changed, 44 insertions(+), 17 deletions(-)

diff --git a/matrix/ops/cholesky.py b/matrix/ops/cholesky.py
index dcc63eb..d9f7ae9 100644
--- a/matrix/ops/cholesky.py
+++ b/matrix/ops/cholesky.py
@@ -1,6 +1,7 @@
 import lab as B
 from wbml.warning import warn_upmodule
 
+from .util import keep
 from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
@@ -28,7 +29,7 @@ def cholesky(a: Zero):
 def cholesky(a: Dense):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        a.cholesky = LowerTriangular(B.cholesky(a.mat))
+        return keep(a, "cholesky", LowerTriangular(B.cholesky(a.mat)))
     return a.cholesky
 
 
@@ -36,7 +37,7 @@ def cholesky(a: Dense):
 def cholesky(a: Diagonal):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        a.cholesky = Diagonal(B.sqrt(a.diag))
+        return keep(a, "cholesky", Diagonal(B.sqrt(a.diag)))
     return a.cholesky
 
 
@@ -45,7 +46,7 @@ def cholesky(a: Constant):
     _assert_square_cholesky(a)
     if a.cholesky is None:
         chol_const = B.divide(B.sqrt(a.const), B.sqrt(a.cols))
-        a.cholesky = Constant(chol_const, a.rows, a.cols)
+        return keep(a, "cholesky", Constant(chol_const, a.rows, a.cols))
     return a.cholesky
 
 
@@ -53,7 +54,7 @@ def cholesky(a: Constant):
 def cholesky(a: LowRank):
     _assert_square_cholesky(a)
     if a.cholesky is None:
-        a.cholesky = B.matmul(a.left, B.cholesky(a.middle))
+        return keep(a, "cholesky", B.matmul(a.left, B.cholesky(a.middle)))
     return a.cholesky
 
 
@@ -64,12 +65,12 @@ def cholesky(a: Woodbury):
             f"Converting {a} to dense to compute its Cholesky decomposition.",
             category=ToDenseWarning,
         )
-        a.cholesky = LowerTriangular(B.cholesky(B.dense(a)))
+        return keep(a, "cholesky", LowerTriangular(B.cholesky(B.dense(a))))
     return a.cholesky
 
 
 @B.dispatch
 def cholesky(a: Kronecker):
     if a.cholesky is None:
-        a.cholesky = Kronecker(B.cholesky(a.left), B.cholesky(a.right))
+        return keep(a, "cholesky", Kronecker(B.cholesky(a.left), B.cholesky(a.right)))
     return a.cholesky
diff --git a/matrix/ops/dense.py b/matrix/ops/dense.py
index 1974a5e..4da3314 100644
--- a/matrix/ops/dense.py
+++ b/matrix/ops/dense.py
@@ -3,7 +3,7 @@ from typing import Union
 import lab as B
 from lab.util import resolve_axis
 
-from .util import align_batch, batch_ones
+from .util import align_batch, batch_ones, keep
 from ..constant import Constant, Zero
 from ..diagonal import Diagonal
 from ..kronecker import Kronecker
@@ -40,7 +40,7 @@ def dense(a: AbstractMatrix):
 @B.dispatch
 def dense(a: Zero):
     if a.dense is None:
-        a.dense = B.zeros(a.dtype, *B.shape(a))
+        return keep(a, "dense", B.zeros(a.dtype, *B.shape(a)))
     return a.dense
 
 
@@ -52,7 +52,7 @@ def dense(a: Union[Dense, LowerTriangular, UpperTriangular]):
 @B.dispatch
 def dense(a: Diagonal):
     if a.dense is None:
-        a.dense = B.diag_construct(a.diag)
+        return keep(a, "dense", B.diag_construct(a.diag))
     return a.dense
 
 
@@ -60,21 +60,22 @@ def dense(a: Diagonal):
 def dense(a: Constant):
     if a.dense is None:
         const = B.expand_dims(a.const, axis=-1, times=2, ignore_scalar=True)
-        a.dense = const * B.ones(B.dtype(a.const), *batch_ones(a), *B.shape_matrix(a))
+        ones = B.ones(B.dtype(a.const), *batch_ones(a), *B.shape_matrix(a))
+        return keep(a, "dense", const * ones)
     return a.dense
 
 
 @B.dispatch
 def dense(a: LowRank):
     if a.dense is None:
-        a.dense = B.dense(B.mm(a.left, a.middle, a.right, tr_c=True))
+        return keep(a, "dense", B.dense(B.mm(a.left, a.middle, a.right, tr_c=True)))
     return a.dense
 
 
 @B.dispatch
 def dense(a: Woodbury):
     if a.dense is None:
-        a.dense = B.dense(a.diag) + B.dense(a.lr)
+        return keep(a, "dense", B.dense(a.diag) + B.dense(a.lr))
     return a.dense
 
 
@@ -82,7 +83,7 @@ def dense(a: Woodbury):
 def dense(a: Kronecker):
     if a.dense is None:
         left, right = align_batch(a.left, a.right)
-        a.dense = B.kron(B.dense(left), B.dense(right), -2, -1)
+        return keep(a, "dense", B.kron(B.dense(left), B.dense(right), -2, -1))
     return a.dense
 
 
@@ -120,5 +121,5 @@ def dense(a: TiledBlocks):
             repeated_blocks.append(B.tile(block, *tile_reps))
 
         # If the blocks are matrices, then the concatenation is a matrix too.
-        a.dense = B.dense(B.concat(*repeated_blocks, axis=axis))
+        return keep(a, "dense", B.dense(B.concat(*repeated_blocks, axis=axis)))
     return a.dense
diff --git a/matrix/ops/isabstract.py b/matrix/ops/isabstract.py
index 08b5dd2..b3ee01e 100644
--- a/matrix/ops/isabstract.py
+++ b/matrix/ops/isabstract.py
@@ -7,6 +7,7 @@ from ..diagonal import Diagonal
 from ..kronecker import Kronecker
 from ..lowrank import LowRank
 from ..matrix import Dense
+from ..tiledblocks import TiledBlocks
 from ..triangular import LowerTriangular, UpperTriangular
 from ..woodbury import Woodbury
 
@@ -46,3 +47,8 @@ def isabstract(a: Woodbury):
 @B.dispatch
 def isabstract(a: Kronecker):
     return B.isabstract(a.left) or B.isabstract(a.right)
+
+
+@B.dispatch
+def isabstract(a: TiledBlocks):
+    return any(B.isabstract(block) for block in a.blocks)
diff --git a/matrix/ops/pd_schur.py b/matrix/ops/pd_schur.py
index bd336a5..c1e764b 100644
--- a/matrix/ops/pd_schur.py
+++ b/matrix/ops/pd_schur.py
@@ -1,5 +1,6 @@
 import lab as B
 
+from .util import keep
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -18,7 +19,7 @@ def pd_schur(a: Woodbury):
     """
     if a.schur is None:
         second = B.mm(a.lr.right, B.inv(a.diag), a.lr.left, tr_a=True)
-        a.schur = B.add(B.pd_inv(a.lr.middle), second)
+        return keep(a, "schur", B.add(B.pd_inv(a.lr.middle), second))
     return a.schur
 
 
diff --git a/matrix/ops/schur.py b/matrix/ops/schur.py
index 646038c..fc69989 100644
--- a/matrix/ops/schur.py
+++ b/matrix/ops/schur.py
@@ -1,5 +1,6 @@
 import lab as B
 
+from .util import keep
 from ..woodbury import Woodbury
 
 __all__ = []
@@ -18,7 +19,7 @@ def schur(a: Woodbury):
     """
     if a.schur is None:
         second = B.mm(a.lr.right, B.inv(a.diag), a.lr.left, tr_a=True)
-        a.schur = B.add(B.inv(a.lr.middle), second)
+        return keep(a, "schur", B.add(B.inv(a.lr.middle), second))
     return a.schur
 
 
diff --git a/matrix/ops/util.py b/matrix/ops/util.py
index ddef99b..b860f64 100644
--- a/matrix/ops/util.py
+++ b/matrix/ops/util.py
@@ -5,7 +5,7 @@ from plum import Dispatcher
 
 from ..matrix import AbstractMatrix
 
-__all__ = ["align_batch", "batch_ones"]
+__all__ = ["align_batch", "batch_ones", "keep"]
 
 _dispatch = Dispatcher()
 
@@ -49,3 +49,20 @@ def batch_ones(a):
             of `a`.
     """
     return (1,) * len(B.shape_batch(a))
+
+
+def keep(a, name, value):
+    """Keep an intermediate result for later use. Abstract results belong to the trace
+    that makes them, so these are not kept by matrices that are not part of a trace.
+
+    Args:
+        a (matrix): Matrix to keep the intermediate result for.
+        name (str): Name of the attribute.
+        value (object): Intermediate result.
+
+    Returns:
+        object: `value`.
+    """
+    if B.isabstract(a) or not B.isabstract(value):
+        setattr(a, name, value)
+    return value
-- 
2.43.0


From dd913cc41a11abf727e4db567d3be119fb5f5cd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:32 +0000
Subject: [PATCH 13/13] fix: do not keep abstract middle factors on concrete
 low-rank matrices

---
 matrix/lowrank.py        | 6 +++++-
 matrix/ops/isabstract.py | 4 +++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/matrix/lowrank.py b/matrix/lowrank.py
index 30fdb6d..5ab86c5 100644
--- a/matrix/lowrank.py
+++ b/matrix/lowrank.py
@@ -97,7 +97,11 @@ class LowRank(AbstractMatrix):
         """Middle factor."""
         if self._middle is None:
             if self._middle_default is None:
-                self._middle_default = B.fill_diag(B.one(self.left), self.rank)
+                middle = B.fill_diag(B.one(self.left), self.rank)
+                # Do not keep what belongs to a trace that `self` is not part of.
+                if B.isabstract(middle) and not B.isabstract(self):
+                    return middle
+                self._middle_default = middle
             return self._middle_default
         else:
             return self._middle
diff --git a/matrix/ops/isabstract.py b/matrix/ops/isabstract.py
index b3ee01e..d3bfd40 100644
--- a/matrix/ops/isabstract.py
+++ b/matrix/ops/isabstract.py
@@ -36,7 +36,9 @@ def isabstract(a: Constant):
 
 @B.dispatch
 def isabstract(a: LowRank):
-    return B.isabstract(a.left) or B.isabstract(a.middle) or B.isabstract(a.right)
+    # If the middle factor is not given, it is not a part that can be abstract.
+    middle = () if a._middle is None else (a._middle,)
+    return any(B.isabstract(x) for x in (a.left, *middle, a.right))
 
 
 @B.dispatch
-- 
2.43.0

