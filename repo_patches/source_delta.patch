From 5484601d1d28207d2d1a780917fef7ce964761dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 01/86] fix: subtract and multiply arrays into the broadcast
 shape

The output was allocated with the first operand's shape, so a smaller first
operand gave a truncated result (or out-of-bounds accesses for a lower rank).
---
 bland/bland/ops/cpu/arithmetic_cpu.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/arithmetic_cpu.cpp b/bland/bland/ops/cpu/arithmetic_cpu.cpp
index 8e01251..26a92e4 100644
--- a/bland/bland/ops/cpu/arithmetic_cpu.cpp
+++ b/bland/bland/ops/cpu/arithmetic_cpu.cpp
@@ -34,7 +34,8 @@ ndarray bland::cpu::add_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Subtracts...
 template <> // Specialize for adding an array
 ndarray bland::cpu::subtract_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_subtract_op_ts>>(out, a, b);
 }
 template <>
@@ -45,7 +46,8 @@ ndarray bland::cpu::subtract_cpu<ndarray_slice>(ndarray a, ndarray_slice b) {
 // Multiplies...
 template <> // Specialize for adding an array
 ndarray bland::cpu::multiply_cpu<ndarray>(ndarray a, ndarray b) {
-    auto out = ndarray(a.shape(), a.dtype(), a.device());
+    auto out_shape = expand_shapes_to_broadcast(a.shape(), b.shape());
+    auto out = ndarray(out_shape, a.dtype(), a.device());
     return dispatch<elementwise_binary_op_impl_wrapper<elementwise_multiply_op_ts>>(out, a, b);
 }
 template <>
-- 
2.43.0


From f9f68598a67de54b61172576deee8ec92a26f5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:29 +0000
Subject: [PATCH 02/86] fix: align broadcast shapes from the last dimension

compute_broadcast_shape aligned from the first one, which rewound operands of
lower rank by the wrong amount and read past the end of the shape vector.
---
 .../internal/include/internal/shape_helpers.cpp    | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/bland/bland/internal/include/internal/shape_helpers.cpp b/bland/bland/internal/include/internal/shape_helpers.cpp
index 332c6c0..2890bb8 100644
--- a/bland/bland/internal/include/internal/shape_helpers.cpp
+++ b/bland/bland/internal/include/internal/shape_helpers.cpp
@@ -58,14 +58,16 @@ std::vector<int64_t> bland::compute_broadcast_strides(const std::vector<int64_t>
 std::vector<int64_t> bland::compute_broadcast_shape(std::vector<int64_t> shape, std::vector<int64_t> out_shape) {
     std::vector<int64_t> broadcast_shape(out_shape.size());
 
-    size_t input_shape_index = 0;
+    // Dimensions align from the last one; missing leading dimensions broadcast as if they were 1
+    if (shape.size() > out_shape.size()) {
+        throw std::invalid_argument("compute_broadcast_shape: cannot broadcast to fewer dimensions");
+    }
+    size_t offset = out_shape.size() - shape.size();
     for (size_t i = 0; i < out_shape.size(); ++i) {
-        if (shape[input_shape_index] == out_shape[i] || shape[input_shape_index] == 1) {
-            broadcast_shape[i] = out_shape[i];
-            input_shape_index += 1;
-        } else {
-            broadcast_shape[i] = 1;
+        if (i >= offset && shape[i - offset] != out_shape[i] && shape[i - offset] != 1) {
+            throw std::invalid_argument("compute_broadcast_shape: shapes are not compatible for broadcasting");
         }
+        broadcast_shape[i] = out_shape[i];
     }
 
     return broadcast_shape;
-- 
2.43.0


From 1220a6f725f02407877bdbe824c9eab09987f6b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 03/86] fix: mirror comparisons with a scalar on the left

scalar > array computed array > scalar (likewise >=, <, <=).
---
 bland/bland/ops/cpu/comparison_cpu.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index c8f93c9..1c30a6b 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -14,12 +14,14 @@ using namespace bland::cpu;
 
 /**
  * greater than
+ *
+ * A scalar on the left becomes the right operand of the mirrored comparison
 */
 template <typename L, typename R>
 ndarray bland::cpu::greater_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
@@ -66,7 +68,7 @@ template <typename L, typename R>
 ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
@@ -110,7 +112,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
@@ -154,7 +156,7 @@ template <typename L, typename R>
 ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
     if constexpr (std::is_arithmetic<L>::value) {
         auto out = ndarray(rhs.shape(), ndarray::datatype::uint8, rhs.device());
-        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, less_than_equal_to_impl>(out, rhs, lhs);
+        return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, L, greater_than_equal_to_impl>(out, rhs, lhs);
     } else if constexpr (std::is_arithmetic<R>::value) {
         auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
-- 
2.43.0


From 43efb9c3e3a4739ed7d414cee58ab6d54ee1b231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 04/86] fix: compare arrays into the broadcast shape

The mask was allocated with the left operand's shape, truncating the result
when the right operand is the larger one.
---
 bland/bland/ops/cpu/comparison_cpu.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ops/cpu/comparison_cpu.cpp b/bland/bland/ops/cpu/comparison_cpu.cpp
index 1c30a6b..1c45bad 100644
--- a/bland/bland/ops/cpu/comparison_cpu.cpp
+++ b/bland/bland/ops/cpu/comparison_cpu.cpp
@@ -27,7 +27,7 @@ ndarray bland::cpu::greater_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -74,7 +74,7 @@ ndarray bland::cpu::greater_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, greater_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<greater_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -118,7 +118,7 @@ ndarray bland::cpu::less_than(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -162,7 +162,7 @@ ndarray bland::cpu::less_than_equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, less_than_equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<less_than_equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -206,7 +206,7 @@ ndarray bland::cpu::logical_and(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, logical_and_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<logical_and_impl>, uint8_t>(out, lhs, rhs);
     }
 }
@@ -253,7 +253,7 @@ ndarray bland::cpu::equal_to(L lhs, R rhs) {
         return dispatch_nd_sc<scalar_op_impl_wrapper, uint8_t, R, equal_to_impl>(out, lhs, rhs);
     } else {
         // TODO: more sanity checking...
-        auto out = ndarray(lhs.shape(), ndarray::datatype::uint8, lhs.device());
+        auto out = ndarray(expand_shapes_to_broadcast(lhs.shape(), rhs.shape()), ndarray::datatype::uint8, lhs.device());
         return dispatch<elementwise_binary_op_impl_wrapper<equal_to_impl>, uint8_t>(out, lhs, rhs);
     }
 }
-- 
2.43.0


From b4b4dd7df7333d6f4d20b61eeb7755d9555fa637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:00 +0000
Subject: [PATCH 05/86] fix: keep operand order of scalar - array and scalar /
 array

scalar - array computed array - scalar and scalar / array computed
array * scalar.
---
 bland/bland/ndarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 9c554a0..48a5b85 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -479,7 +479,7 @@ template ndarray bland::ndarray::operator-<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator-(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs - lhs;
+    return ndarray(rhs.shape(), lhs, rhs.dtype(), rhs.device()) - rhs;
 }
 
 template ndarray bland::operator-<float>(const float &lhs, const ndarray &rhs);
@@ -569,7 +569,7 @@ template ndarray bland::ndarray::operator/<uint32_t>(const uint32_t &b) const;
 template <typename T>
 typename std::enable_if<std::is_arithmetic<T>::value, ndarray>::type bland::operator/(const T       &lhs,
                                                                                       const ndarray &rhs) {
-    return rhs * lhs;
+    return ndarray(rhs.shape(), lhs, rhs.dtype(), rhs.device()) / rhs;
 }
 
 template ndarray bland::operator/<float>(const float &lhs, const ndarray &rhs);
-- 
2.43.0


From ae191843e04a0352f135ae98f16b3f227ffc8579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:45 +0000
Subject: [PATCH 06/86] fix: select every element a slice covers and reject
 invalid slices

A stride that does not divide the range dropped the last element, negative
indices were off by one, and bad dimensions, strides or out-of-range negative
starts were not rejected.
---
 bland/bland/ops/ops.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/bland/bland/ops/ops.cpp b/bland/bland/ops/ops.cpp
index 7e3b7b4..ea4b7c3 100644
--- a/bland/bland/ops/ops.cpp
+++ b/bland/bland/ops/ops.cpp
@@ -165,15 +165,23 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
 
     ndarray_slice sliced(a);
 
+    if (dim < 0 || dim >= a.ndim()) {
+        throw std::out_of_range("slice: invalid dimension");
+    }
+    if (stride < 1) {
+        throw std::out_of_range("slice: stride must be positive");
+    }
+
     if (start < 0) {
         // Negative is an offset from the end
-        start = a.size(dim) + start - 1;
-    } else if (start > a.size(dim)) {
-        throw std::out_of_range("Invalid start for stride (begins beyond the end)");
+        start = a.size(dim) + start;
+    }
+    if (start < 0 || start > a.size(dim)) {
+        throw std::out_of_range("Invalid start for slice (begins outside the array)");
     }
     if (end < 0) {
         // Negative is an offset from the end
-        end = a.size(dim) + end - 1;
+        end = a.size(dim) + end;
     } else if (end > a.size(dim)) {
         end = a.size(dim);
     }
@@ -188,7 +196,8 @@ ndarray_slice bland::slice(const ndarray &a, int64_t dim, int64_t start, int64_t
     // of the current axis rather than the number of items at new stride
     sliced._tensor._offsets[dim] += start * sliced._tensor.strides[dim];
 
-    sliced._tensor.shape[dim] = (end - start) / stride;
+    // A last partial step still selects its first element
+    sliced._tensor.shape[dim] = (end - start + stride - 1) / stride;
     sliced._tensor.strides[dim] *= stride;
 
     return sliced;
-- 
2.43.0


From da9891fab13303fad67cfdda3bf22bdce5221594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 07/86] fix: repeat size-1 source axes in elementwise unary
 operations

The broadcast strides were computed from the already broadcast shape, so a
size-1 axis kept its stride and the copy read past the source.
---
 bland/bland/ops/cpu/elementwise_unary_op.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index bdc9848..98f82f5 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -34,8 +34,10 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     auto out_strides = out.strides();
     auto out_offset  = out.offsets();
 
-    a_shape = compute_broadcast_shape(a_shape, out_shape);
+    // Strides broadcast with the original shape: size-1 axes repeat with stride 0
+    const auto broadcast_shape = compute_broadcast_shape(a_shape, out_shape);
     a_strides = compute_broadcast_strides(a_shape, a_strides, out_shape);
+    a_shape = broadcast_shape;
     if (a.ndim() == out.ndim()) {
         for (int dim = 0; dim < a.ndim(); ++dim) {
             if (a_shape[dim] != out_shape[dim] && a_shape[dim] != 1) {
-- 
2.43.0


From d4a163528f6cd51b55dd5895f1bc9292cda910cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 08/86] fix: reshape keeps the row-major element order

Strides of the new shape were guessed from the trailing old strides, which gave
wrong elements for anything but splitting a dense 1-d array.
---
 bland/bland/ndarray.cpp | 70 ++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 25 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 48a5b85..de7051b 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -596,36 +596,56 @@ ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
         throw std::runtime_error(error_message);
     }
 
-    if (new_shape.size() != _tensor.ndim) {
-        // This won't always be right and I think sometimes it might be required to make
-        // a copy. That's what pytorch does if the new shape isn't compatible due to strides
-        int64_t new_ndim = new_shape.size();
-        // We can collapse all offsets to the last dimension
-        auto new_offsets   = std::vector<int64_t>(new_ndim, 0);
-        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), 0);
-        _tensor._offsets   = new_offsets;
-
-        // Number of dims changing means we need to update strides
-        auto    new_strides        = std::vector<int64_t>(new_ndim, 0);
-        int     old_stride_axis    = _tensor.ndim - 1;
-        int64_t accumulated_stride = 1;
-        for (int axis = new_ndim - 1; axis >= 0; --axis) {
-            if (old_stride_axis > 0) {
-                accumulated_stride *= _tensor.strides[old_stride_axis];
-                new_strides[axis] = _tensor.strides[old_stride_axis];
-                old_stride_axis -= 1;
+    // Find strides that walk the elements in the same row-major order without moving them. Groups of old and new axes
+    // holding the same number of elements are matched up; a group of old axes must be evenly spaced to be regrouped.
+    const int64_t        old_ndim = _tensor.ndim;
+    const int64_t        new_ndim = new_shape.size();
+    std::vector<int64_t> new_strides(new_ndim, 1);
+    std::vector<int64_t> old_shape, old_strides;
+    for (int64_t axis = 0; axis < old_ndim; ++axis) {
+        if (_tensor.shape[axis] != 1) {
+            old_shape.push_back(_tensor.shape[axis]);
+            old_strides.push_back(_tensor.strides[axis]);
+        }
+    }
+    size_t old_axis = 0;
+    int64_t new_axis = 0;
+    while (num_elements > 0 && new_axis < new_ndim && old_axis < old_shape.size()) {
+        auto    old_end = old_axis + 1;
+        auto    new_end = new_axis + 1;
+        int64_t old_count = old_shape[old_axis];
+        int64_t new_count = new_shape[new_axis];
+        while (old_count != new_count) {
+            if (new_count < old_count) {
+                new_count *= new_shape[new_end++];
             } else {
-                new_strides[axis] = accumulated_stride;
-                accumulated_stride *= new_shape[axis];
+                old_count *= old_shape[old_end++];
             }
         }
-        _tensor._strides_ownership = new_strides;
-        _tensor.strides            = _tensor._strides_ownership.data();
-        _tensor.ndim               = new_ndim;
-    } else {
-        throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+        for (auto axis = old_axis; axis + 1 < old_end; ++axis) {
+            if (old_strides[axis] != old_shape[axis + 1] * old_strides[axis + 1]) {
+                throw std::runtime_error("This reshape would require a copy which isn't yet implemented");
+            }
+        }
+        new_strides[new_end - 1] = old_strides[old_end - 1];
+        for (auto axis = new_end - 1; axis > new_axis; --axis) {
+            new_strides[axis - 1] = new_strides[axis] * new_shape[axis];
+        }
+        old_axis = old_end;
+        new_axis = new_end;
+    }
+
+    // We can collapse all offsets to the last dimension
+    auto new_offsets = std::vector<int64_t>(new_ndim, 0);
+    if (new_ndim > 0) {
+        new_offsets.back() = std::accumulate(_tensor._offsets.begin(), _tensor._offsets.end(), int64_t{0});
+        _tensor._offsets   = new_offsets;
     }
 
+    _tensor._strides_ownership = new_strides;
+    _tensor.strides            = _tensor._strides_ownership.data();
+    _tensor.ndim               = new_ndim;
+
     _tensor._shape_ownership = new_shape;
     _tensor.shape            = _tensor._shape_ownership.data();
 
-- 
2.43.0


From 9d0105327f468edad9c10948a4af7d164f808423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 09/86] fix: keep the offset of a squeezed axis

Squeezing a sliced size-1 axis moved the array back to the start of that axis.
---
 bland/bland/ndarray.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index de7051b..38ff050 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -690,6 +690,10 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
             new_offsets.push_back(_tensor._offsets[axis]);
         }
     }
+    if (!new_offsets.empty()) {
+        // The squeezed axis may have been offset by slicing
+        new_offsets.back() += _tensor._offsets[squeeze_axis];
+    }
     _tensor._shape_ownership   = new_shape;
     _tensor.shape              = _tensor._shape_ownership.data();
     _tensor._strides_ownership = new_strides;
-- 
2.43.0


From 47197e244452c58c2b378d10d37d59ac21fc4be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:08 +0000
Subject: [PATCH 10/86] fix: reject unsqueezing an axis outside the rank

It read past the shape and stride vectors.
---
 bland/bland/ndarray.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 38ff050..832bc83 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -704,6 +704,9 @@ ndarray bland::ndarray::squeeze(int64_t squeeze_axis) {
 }
 
 ndarray bland::ndarray::unsqueeze(const int64_t unsqueeze_axis) {
+    if (unsqueeze_axis < 0 || unsqueeze_axis > _tensor.ndim) {
+        throw std::runtime_error("ndarray::unsqueeze: axis is outside the array's dimensions");
+    }
     auto    new_shape      = std::vector<int64_t>();
     auto    new_strides    = std::vector<int64_t>();
     auto    new_offsets    = std::vector<int64_t>();
-- 
2.43.0


From 48fe89777990fec113fa0f9d43aac6367fcf13b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 11/86] fix: index the mask of masked reductions with its own
 layout

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 741d99d..0298bb7 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -181,7 +181,11 @@ struct masked_mean_impl {
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     mean += a_data[input_linear_index];
                     elements_in_mean += 1;
                 }
@@ -425,7 +429,11 @@ struct masked_stddev_impl {
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
@@ -681,7 +689,11 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
                     input_linear_index += a_offset[axis] + (reduce_nd_index[axis] % a_shape[axis]) * a_strides[axis];
                 }
-                if (mask_data[input_linear_index] == 0) {
+                int64_t mask_linear_index = 0;
+                for (int axis = 0; axis < mask_shape.size(); ++axis) {
+                    mask_linear_index += mask_offset[axis] + reduce_nd_index[axis] * mask_strides[axis];
+                }
+                if (mask_data[mask_linear_index] == 0) {
                     auto x = a_data[input_linear_index];
                     accum_x += x;
                     accum_x2 += static_cast<accumulator_type>(x) * x;
-- 
2.43.0


From 5e676a0e7d13690435289a20a08fd25b14ee9de4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 12/86] fix: reject masks that are not 8-bit unsigned in masked
 reductions

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 0298bb7..9010f7c 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -147,7 +147,7 @@ struct masked_mean_impl {
             reduced_elements *= a_shape[d];
         }
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -382,7 +382,7 @@ struct masked_stddev_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
@@ -642,7 +642,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        if (mask.dtype().code != ndarray::datatype::uint8.code && mask.dtype().bits != 8) {
+        if (mask.dtype().code != ndarray::datatype::uint8.code || mask.dtype().bits != 8) {
             throw std::runtime_error("masked_mean: mask dtype is not uint8_t");
         }
         auto mask_data    = mask.data_ptr<uint8_t>();
-- 
2.43.0


From 7283cab032a540248e2853240be239d4156adbdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 13/86] fix: masked standard deviation of nearly equal elements
 is not NaN

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 9010f7c..e83491c 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -462,7 +462,7 @@ struct masked_stddev_impl {
                 throw std::runtime_error("masked_stddev: there are no non-masked elements to take the mean of");
             }
             auto mean = accum_x / elements_in_dev;
-            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max<double>(0, accum_x2 / elements_in_dev - mean*mean)));
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
@@ -723,7 +723,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(accum_x2 / elements_in_dev - mean*mean));
+            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max<double>(0, accum_x2 / elements_in_dev - mean*mean)));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 99f093ede963aa87e6954785e791cbe5cffcb7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:03 +0000
Subject: [PATCH 14/86] fix: var stores the variance in the given output

---
 bland/bland/ops/statistical.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/statistical.cpp b/bland/bland/ops/statistical.cpp
index 09aee62..77eeca6 100644
--- a/bland/bland/ops/statistical.cpp
+++ b/bland/bland/ops/statistical.cpp
@@ -325,7 +325,7 @@ std::pair<ndarray, ndarray> bland::masked_mean_stddev(const ndarray &a, const nd
 // TODO: we have a cuda var, implement a cpu one and dispatch appropriately...
 ndarray bland::var(const ndarray &a, ndarray &out, std::vector<int64_t> reduced_axes) {
     stddev(a, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
     auto out = stddev(a, reduced_axes);
@@ -334,7 +334,7 @@ ndarray bland::var(const ndarray &a, std::vector<int64_t> reduced_axes) {
 
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, ndarray &out, std::vector<int64_t> reduced_axes) {
     masked_stddev(a, mask, out, reduced_axes);
-    return square(out);
+    return square(out, out);
 }
 ndarray bland::masked_var(const ndarray &a, const ndarray &mask, std::vector<int64_t> reduced_axes) {
     auto out = masked_stddev(a, mask, reduced_axes);
-- 
2.43.0


From ec7a8ac0253da56db3f74b98910ab5448ca31022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 15/86] fix: reduce integer arrays without overflowing the
 element type

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index e83491c..11a64d9 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -52,10 +52,9 @@ struct mean_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value || std::is_floating_point<in_datatype>::value;
+        using accumulator_type = std::conditional_t<is_floating_point, double, int64_t>;
 
-        accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements - 1);
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
@@ -165,8 +164,8 @@ struct masked_mean_impl {
             throw std::runtime_error("mask_mean: dims of a shape does not match dims of mask shape");
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value || std::is_floating_point<in_datatype>::value;
+        using accumulator_type = std::conditional_t<is_floating_point, double, int64_t>;
 
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
@@ -280,8 +279,7 @@ struct stddev_impl {
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double;
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -406,8 +404,7 @@ struct masked_stddev_impl {
             reduced_elements *= a_shape[d];
         }
 
-        constexpr bool is_floating_point = std::is_floating_point<out_datatype>::value;
-        using accumulator_type = std::conditional_t<is_floating_point, double, out_datatype>;
+        using accumulator_type = double;
 
         // TODO (flexibility): add correction option (noff in torch)
         accumulator_type scale = 1.0 / static_cast<accumulator_type>(reduced_elements);
@@ -958,13 +955,16 @@ struct sum_impl {
         auto                 a_offset  = a.offsets();
         std::vector<int64_t> input_index(a_shape.size(), 0);
 
+        // integers are added at full width and only the final total is converted to the output type
+        using accumulator_type = std::conditional_t<std::is_floating_point<in_datatype>::value, in_datatype, int64_t>;
+
         // Loop over the dimensions of the array and perform the reduction operation
         auto numel = out.numel();
         for (int i = 0; i < numel; ++i) {
             // Make a copy of the current input index, we'll fix the non-summed dims
             // and iterate over the reduced dims accumulating the total
             auto        reduce_nd_index = input_index;
-            in_datatype total           = 0;
+            accumulator_type total      = 0;
             for (int jj = 0; jj < reduced_elements; ++jj) {
                 int64_t input_linear_index = 0;
                 for (int axis = 0; axis < a_shape.size(); ++axis) {
@@ -989,7 +989,7 @@ struct sum_impl {
                 out_linear_index += out_offset[axis] + (out_index[axis]) * out_strides[axis];
             }
 
-            out_data[out_linear_index] = total;
+            out_data[out_linear_index] = static_cast<out_datatype>(total);
 
             // Increment the multi-dimensional output index
             for (int axis = out_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 7865100b856e8e7b7d339e2a77ac975feb7ed82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 16/86] fix: combined mean and standard deviation of non-float
 arrays

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 11a64d9..7f886d8 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -498,7 +498,10 @@ ndarray bland::cpu::masked_stddev(const ndarray &a, const ndarray &mask, ndarray
 
 std::pair<ndarray, ndarray>
 bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
-    // Hard code to float for now...
+    if (!(a.dtype() == ndarray::datatype::float32 && out_mean.dtype() == ndarray::datatype::float32 && out_stddev.dtype() == ndarray::datatype::float32)) {
+        // the combined loop below is only for float, other datatypes do each reduction separately
+        return std::make_pair(mean(a, out_mean, reduced_axes), stddev(a, out_stddev, reduced_axes));
+    }
     using in_datatype  = float;
     using out_datatype = float;
 
@@ -611,6 +614,10 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
 }
 
 std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, const ndarray &mask, ndarray &out_mean, ndarray &out_stddev, std::vector<int64_t> reduced_axes) {
+    if (!(a.dtype() == ndarray::datatype::float32 && out_mean.dtype() == ndarray::datatype::float32 && out_stddev.dtype() == ndarray::datatype::float32)) {
+        // the combined loop below is only for float, other datatypes do each reduction separately
+        return std::make_pair(masked_mean(a, mask, out_mean, reduced_axes), masked_stddev(a, mask, out_stddev, reduced_axes));
+    }
     using in_datatype = float;
     using out_datatype = float;
 
-- 
2.43.0


From 6ce2da1fc4e7a60539c13ded0b406cf9a64e1769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:30 +0000
Subject: [PATCH 17/86] fix: combined mean and standard deviation follow the
 layout of both outputs

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 7f886d8..a0f74d6 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -574,15 +574,18 @@ bland::cpu::mean_stddev(const ndarray &a, ndarray &out_mean, ndarray &out_stddev
         }
 
         // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
-        int64_t out_linear_index = 0;
+        int64_t out_linear_index        = 0;
+        int64_t out_stddev_linear_index = 0;
         for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
             out_linear_index +=
                     out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+            out_stddev_linear_index +=
+                    out_stddev_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_stddev_strides[axis];
         }
 
         auto diff = std::max((accumulator_type)0, (accumulator_type)(accum_x2 - accum_x * accum_x));
         out_mean_data[out_linear_index]   = static_cast<out_datatype>(accum_x);
-        out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
+        out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(diff));
 
         // Increment the multi-dimensional output index
         for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
@@ -717,9 +720,11 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
 
             // TODO (perf): move this inside the nd_index increment similar to the elementwise binary ops
-            int64_t out_linear_index = 0;
+            int64_t out_linear_index        = 0;
+            int64_t out_stddev_linear_index = 0;
             for (int axis = 0; axis < out_mean_shape.size(); ++axis) {
                 out_linear_index += out_mean_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_mean_strides[axis];
+                out_stddev_linear_index += out_stddev_offset[axis] + (out_mean_index[axis] % out_mean_shape[axis]) * out_stddev_strides[axis];
             }
 
             if (elements_in_dev == 0) {
@@ -727,7 +732,7 @@ std::pair<ndarray, ndarray> bland::cpu::masked_mean_stddev(const ndarray &a, con
             }
             auto mean = accum_x / elements_in_dev;
             out_mean_data[out_linear_index] = static_cast<out_datatype>(mean);
-            out_stddev_data[out_linear_index] = static_cast<out_datatype>(std::sqrt(std::max<double>(0, accum_x2 / elements_in_dev - mean*mean)));
+            out_stddev_data[out_stddev_linear_index] = static_cast<out_datatype>(std::sqrt(std::max<double>(0, accum_x2 / elements_in_dev - mean*mean)));
 
             // Increment the multi-dimensional output index
             for (int axis = out_mean_shape.size() - 1; axis >= 0; --axis) {
-- 
2.43.0


From 6c0f2bead9e2011345387298a9b5fe3c8726e4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:33 +0000
Subject: [PATCH 18/86] fix: linspace of integers steps downwards when end is
 below start

---
 bland/bland/ops/creators.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/creators.cpp b/bland/bland/ops/creators.cpp
index 7ce8c3c..c12a612 100644
--- a/bland/bland/ops/creators.cpp
+++ b/bland/bland/ops/creators.cpp
@@ -219,7 +219,12 @@ bland::arange<double, double, double>(double start, double end, double step, DLD
 template <typename T>
 ndarray bland::linspace(T start, T end, size_t number_steps, DLDataType dtype, DLDevice device) {
     auto aranged_array = ndarray({static_cast<int64_t>(number_steps)}, dtype, device);
-    auto step          = (end - start) / number_steps;
+    // signed, so that integer spaces may step downwards
+    using step_type = std::conditional_t<std::is_integral<T>::value, int64_t, T>;
+    step_type step  = 0;
+    if (number_steps > 0) {
+        step = (static_cast<step_type>(end) - static_cast<step_type>(start)) / static_cast<step_type>(number_steps);
+    }
 
     switch (dtype.code) {
     case kDLFloat: {
-- 
2.43.0


From 899787506cefa5d95d94cabf6dca8a34afd22757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 19/86] fix: imported tensors keep their own shape and strides

---
 bland/bland/bland_tensor_internals.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index a8a420c..126b244 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -30,18 +30,26 @@ blandDLTensor::blandDLTensor(DLManagedTensor other_tensor) {
     _shape_ownership   = std::vector<int64_t>(other_tensor.dl_tensor.shape,
                                             other_tensor.dl_tensor.shape + other_tensor.dl_tensor.ndim);
     DLTensor::shape    = _shape_ownership.data();
-    _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
-                                              other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
-    DLTensor::strides  = _strides_ownership.data();
+    if (other_tensor.dl_tensor.strides != nullptr) {
+        _strides_ownership = std::vector<int64_t>(other_tensor.dl_tensor.strides,
+                                                  other_tensor.dl_tensor.strides + other_tensor.dl_tensor.ndim);
+    } else {
+        // dlpack uses null strides for compact row-major tensors
+        _strides_ownership = std::vector<int64_t>(DLTensor::ndim, 1);
+        for (int dim = DLTensor::ndim - 2; dim >= 0; --dim) {
+            _strides_ownership[dim] = _strides_ownership[dim + 1] * _shape_ownership[dim + 1];
+        }
+    }
+    DLTensor::strides = _strides_ownership.data();
 
     // dlpack can't support offsets, so they must be 0
     blandDLTensor::_offsets = std::vector<int64_t>(DLTensor::ndim, 0);
 
     DLTensor::device  = other_tensor.dl_tensor.device;
     DLTensor::dtype   = other_tensor.dl_tensor.dtype;
-    DLTensor::data    = other_tensor.dl_tensor.data;
-    DLTensor::shape   = other_tensor.dl_tensor.shape;
-    DLTensor::strides = other_tensor.dl_tensor.strides;
+    // Element access only uses offsets, so fold the byte offset in to the data pointer
+    DLTensor::data        = static_cast<char *>(other_tensor.dl_tensor.data) + other_tensor.dl_tensor.byte_offset;
+    DLTensor::byte_offset = 0;
     // TODO, need to keep a reference to this and call its deleter eventually
 }
 
-- 
2.43.0


From e277a0f494b2afee15774cbf36e4fc423240af10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 20/86] fix: assigning a borrowed tensor keeps its data

---
 bland/bland/bland_tensor_internals.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 126b244..7bc94a1 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -181,7 +181,8 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
     if (this != &other) {
         this->byte_offset     = other.byte_offset;
         this->_data_ownership = other._data_ownership; // shared_ptr increases refcount
-        this->data            = static_cast<void *>(this->_data_ownership.get());
+        // Borrowed tensors have no data_ownership (see copy constructor)
+        this->data            = other.data;
 
         this->device = other.device;
         this->dtype  = other.dtype;
-- 
2.43.0


From 96423ac1d3ab0954ae12b5ec4e1a7258cfa5b06a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 21/86] fix: export slices starting at their first element

---
 bland/bland/bland_tensor_internals.cpp | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index 7bc94a1..f1cae8d 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -203,22 +203,6 @@ blandDLTensor &blandDLTensor::operator=(const blandDLTensor &other) {
 
 // Method to export to other frameworks
 DLManagedTensor *blandDLTensor::to_dlpack() {
-    // TODO: if we have a non-zero offset we need to make a copy
-    // under some conditions we should be able to use the byte_offset instead of copying
-    // but need to think through corner cases
-    bool copy_required = false;
-    for (const auto &offset : _offsets) {
-        if (offset > 0) {
-            copy_required = true;
-            break;
-        }
-    }
-    if (copy_required) {
-        // auto dense_copy = copy(*this);
-        fmt::print("deep copy of data buf required");
-        // TODO actually do the copy...
-    }
-
     // Create a DLManagedTensor that shares the memory with the NDArray
     // Set the deleter function to be called when the DLManagedTensor is destroyed
     DLManagedTensor *tensor = new DLManagedTensor;
@@ -230,6 +214,10 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
     tensor->dl_tensor   = *context_owner;
     tensor->manager_ctx = context_owner;
 
+    // dlpack has no per-dimension offsets, the first element of a slice is at a byte offset of the data
+    int64_t linear_offset = std::accumulate(_offsets.begin(), _offsets.end(), int64_t{0});
+    tensor->dl_tensor.byte_offset += linear_offset * dtype.bits / 8;
+
     tensor->deleter = [](DLManagedTensor *self) {
         // We're basically letting numpy actually delete data. We *want* numpy to just allow us to delete...
         // we need to check the refcounts before just deleting I think
-- 
2.43.0


From ead4432be735b4befe347c14520b601308707a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 22/86] fix: deleting an exported tensor frees its
 DLManagedTensor

---
 bland/bland/bland_tensor_internals.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bland/bland/bland_tensor_internals.cpp b/bland/bland/bland_tensor_internals.cpp
index f1cae8d..fa19050 100644
--- a/bland/bland/bland_tensor_internals.cpp
+++ b/bland/bland/bland_tensor_internals.cpp
@@ -223,6 +223,7 @@ DLManagedTensor *blandDLTensor::to_dlpack() {
         // we need to check the refcounts before just deleting I think
         auto context = static_cast<blandDLTensor *>(self->manager_ctx);
         delete context;
+        delete self;
     };
     return tensor;
 }
-- 
2.43.0


From 14eeeb290532b0d298d384258539be445476871f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 23/86] fix: count the elements of arrays with more than 2^31
 of them

---
 bland/bland/ndarray.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 832bc83..700aef2 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -205,7 +205,7 @@ bland::ndarray::dev bland::ndarray::device() const {
 }
 
 int64_t bland::ndarray::numel() const {
-    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(_tensor.shape, _tensor.shape + _tensor.ndim, int64_t{1}, std::multiplies<int64_t>());
     return num_elements;
 }
 
-- 
2.43.0


From a7f1530faf0238793d1e6af4e6b47fcc1b0e51c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:31 +0000
Subject: [PATCH 24/86] fix: scalarize reads the element of a sliced array

---
 bland/bland/ndarray.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 700aef2..03f3ee7 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -215,13 +215,14 @@ int64_t bland::ndarray::ndim() const {
 
 template <typename T>
 T bland::ndarray::scalarize() const {
-    if (numel() > 1) {
-        throw std::runtime_error("scalarize: There is more than one element, so not a scalar. Cannot scalarize");
+    if (numel() != 1) {
+        throw std::runtime_error("scalarize: There is not exactly one element, so not a scalar. Cannot scalarize");
     }
     // You can only scalarize a cpu value...
     auto cpu_copy = bland::to(*this, "cpu");
     // TODO also check datatype makes sense to scalarize
-    return cpu_copy.data_ptr<T>()[0];
+    auto offsets = cpu_copy.offsets();
+    return cpu_copy.data_ptr<T>()[std::accumulate(offsets.begin(), offsets.end(), int64_t{0})];
 }
 
 template float    bland::ndarray::scalarize<float>() const;
-- 
2.43.0


From e7e6b0f8450045885619a5fdcbd724b67ce9ed7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:29 +0000
Subject: [PATCH 25/86] fix: address elements beyond 2^31 with 64 bits

---
 bland/bland/include/bland/stride_helper.hpp   | 2 +-
 bland/bland/ndarray.cpp                       | 4 ++--
 bland/bland/ops/cpu/assignment_op.hpp         | 2 +-
 bland/bland/ops/cpu/elementwise_binary_op.hpp | 6 +++---
 bland/bland/ops/cpu/elementwise_scalar_op.hpp | 8 ++++----
 bland/bland/ops/cpu/elementwise_unary_op.hpp  | 4 ++--
 bland/bland/ops/cpu/ops_cpu.cpp               | 2 +-
 bland/bland/ops/cpu/statistical_cpu.cpp       | 2 +-
 8 files changed, 15 insertions(+), 15 deletions(-)

diff --git a/bland/bland/include/bland/stride_helper.hpp b/bland/bland/include/bland/stride_helper.hpp
index 2117ee3..b791b76 100644
--- a/bland/bland/include/bland/stride_helper.hpp
+++ b/bland/bland/include/bland/stride_helper.hpp
@@ -17,7 +17,7 @@ struct stride_helper {
 
     int64_t to_linear_offset(const nd_coords &coords) const {
         // TODO compute linear index of curr_coords from shape and stride
-        auto linear_offset = 0;
+        int64_t linear_offset = 0;
         for (int dim = 0; dim < shape.size(); ++dim) {
             linear_offset += coords[dim] * stride[dim]; // TODO: also add offset
         }
diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 03f3ee7..2ca3be8 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -243,7 +243,7 @@ T bland::ndarray::scalarize(const std::vector<int64_t> &nd_index) const {
         throw std::runtime_error("scalarize: wrong number of dimensions indexing to array");
     }
 
-    auto linear_offset = 0;
+    int64_t linear_offset = 0;
     for (int dim = 0; dim < nd_index.size(); ++dim) {
         linear_offset +=  _tensor._offsets[dim] +  nd_index[dim] * _tensor.strides[dim]; // TODO: also add offset
     }
@@ -586,7 +586,7 @@ template ndarray bland::operator/<uint32_t>(const uint32_t &lhs, const ndarray &
 
 
 ndarray bland::ndarray::reshape(const std::vector<int64_t> &new_shape) {
-    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), 1, std::multiplies<int64_t>());
+    int64_t num_elements = std::accumulate(new_shape.begin(), new_shape.end(), int64_t{1}, std::multiplies<int64_t>());
 
     if (num_elements != numel()) {
         auto error_message = fmt::format("reshape {} to {} does not match number of elements ({} to {})",
diff --git a/bland/bland/ops/cpu/assignment_op.hpp b/bland/bland/ops/cpu/assignment_op.hpp
index 4a693ac..42b1dd3 100644
--- a/bland/bland/ops/cpu/assignment_op.hpp
+++ b/bland/bland/ops/cpu/assignment_op.hpp
@@ -22,7 +22,7 @@ ndarray assignment_op(ndarray &out, const S &a) {
     // Current (multi-dimensional) index to read into out
     auto ndim = out_shape.size();
     std::vector<int64_t> nd_index(ndim, 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/elementwise_binary_op.hpp b/bland/bland/ops/cpu/elementwise_binary_op.hpp
index 1550818..11fbfea 100644
--- a/bland/bland/ops/cpu/elementwise_binary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_binary_op.hpp
@@ -40,9 +40,9 @@ ndarray elementwise_binary_op(ndarray &out, const ndarray &a, const ndarray &b)
     constexpr int64_t    LAST_DIM_UNROLL_FACTOR = 8;
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t b_index   = std::accumulate(b_offset.begin(), b_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_scalar_op.hpp b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
index f1296da..ae511d3 100644
--- a/bland/bland/ops/cpu/elementwise_scalar_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_scalar_op.hpp
@@ -32,8 +32,8 @@ ndarray elementwise_scalar_op(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
@@ -76,8 +76,8 @@ ndarray elementwise_scalar_op_fast(ndarray out, const ndarray &a, const B &b) {
     // Current (multi-dimensional) index to read into a, out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_index   = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     const auto    ndim            = out_shape.size();
     int64_t       unroll_dim      = ndim - 1;
diff --git a/bland/bland/ops/cpu/elementwise_unary_op.hpp b/bland/bland/ops/cpu/elementwise_unary_op.hpp
index 98f82f5..3fed37e 100644
--- a/bland/bland/ops/cpu/elementwise_unary_op.hpp
+++ b/bland/bland/ops/cpu/elementwise_unary_op.hpp
@@ -51,8 +51,8 @@ ndarray elementwise_unary_op(ndarray &out, const ndarray &a) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(out_shape.size(), 0);
 
-    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
-    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), 0);
+    int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
+    int64_t out_linear_index = std::accumulate(out_offset.begin(), out_offset.end(), int64_t{0});
 
     auto numel = out.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index da6b749..16c3d0d 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -33,7 +33,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
     // Current (multi-dimensional) index for a and out
     std::vector<int64_t> nd_index(x.ndim(), 0);
 
-    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), 0);
+    int64_t x_linear_index = std::accumulate(x_offset.begin(), x_offset.end(), int64_t{0});
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index a0f74d6..894ecd7 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -1048,7 +1048,7 @@ struct count_impl {
         auto a_offset  = a.offsets();
 
         std::vector<int64_t> input_index(a_shape.size(), 0);
-        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), 0);
+        int64_t a_linear_index = std::accumulate(a_offset.begin(), a_offset.end(), int64_t{0});
 
         int64_t count = 0;
         auto    numel = a.numel();
-- 
2.43.0


From a1986c498a6679722e6701a88d81a70858ce28f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 26/86] fix: reject unknown datatype names

---
 bland/bland/ndarray.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index 2ca3be8..f3df964 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -60,6 +60,8 @@ bland::ndarray::datatype::datatype(std::string_view dtype_str) {
         code  = kDLUInt;
         bits  = 8;
         lanes = 1;
+    } else {
+        throw std::runtime_error(fmt::format("Unknown datatype name: {}", dtype_str));
     }
 }
 bland::ndarray::datatype::datatype(DLDataType dtype) : DLDataType(dtype) {}
-- 
2.43.0


From 3590f52ba5cb0e93f86a8a631075bf01d5dce2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 27/86] fix: parse managed and host cuda devices and reject
 malformed device names

---
 bland/bland/ndarray.cpp | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/bland/bland/ndarray.cpp b/bland/bland/ndarray.cpp
index f3df964..4c3f6ed 100644
--- a/bland/bland/ndarray.cpp
+++ b/bland/bland/ndarray.cpp
@@ -98,28 +98,30 @@ std::string bland::ndarray::dev::repr() {
     return r;
 }
 
+// Parse an optional device number (":<number>") following the name of a device type
+static int parse_device_id(std::string_view suffix) {
+    if (suffix.empty()) {
+        return 0;
+    }
+    if (suffix.size() < 2 || suffix[0] != ':' || suffix.find_first_not_of("0123456789", 1) != std::string_view::npos) {
+        throw std::runtime_error("Device number not understood");
+    }
+    return std::stoi(std::string(suffix.substr(1)));
+}
+
 bland::ndarray::dev::dev(std::string_view dev_str) {
     if (dev_str == "cpu") {
 		device_type = DLDeviceType::kDLCPU;
 		device_id   = 0;
-    } else if (dev_str.substr(0, 4) == "cuda") {
-        device_type = DLDeviceType::kDLCUDA;
-        device_id   = 0;
-        if (dev_str.size() > 4 && dev_str[4] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(5)));
-        }
     } else if (dev_str.substr(0, 11) == "cudamanaged") {
         device_type = DLDeviceType::kDLCUDAManaged;
-        device_id   = 0;
-        if (dev_str.size() > 11 && dev_str[11] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(12)));
-        }
+        device_id   = parse_device_id(dev_str.substr(11));
     } else if (dev_str.substr(0, 8) == "cudahost") {
         device_type = DLDeviceType::kDLCUDAHost;
-        device_id   = 0;
-        if (dev_str.size() > 8 && dev_str[8] == ':') {
-            device_id = std::stoi(std::string(dev_str.substr(9)));
-        }
+        device_id   = parse_device_id(dev_str.substr(8));
+    } else if (dev_str.substr(0, 4) == "cuda") {
+        device_type = DLDeviceType::kDLCUDA;
+        device_id   = parse_device_id(dev_str.substr(4));
     } else {
         throw std::runtime_error("Device type not supported in bland yet");
 	}
-- 
2.43.0


From 0891760f2e7e6e1624a2a0cac49a2f763bec482d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 28/86] fix: reject empty drift ranges and steps that are not
 positive

---
 bliss/drift_search/integrate_drifts.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index 9cc63db..ae47b93 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -11,11 +11,17 @@
 #include <fmt/core.h>
 #include <fmt/ranges.h>
 
+#include <stdexcept>
+
 using namespace bliss;
 
 std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, double foff, double tsamp, integrate_drifts_options options) {
     auto maximum_drift_span = time_steps - 1;
 
+    if (options.rate_step_size <= 0 || options.high_rate <= options.low_rate) {
+        throw std::invalid_argument("integrate_drifts: the range of drift rates is empty or its step is not positive");
+    }
+
     // Convert the drift options to specific drift info
     auto number_drifts = (options.high_rate - options.low_rate) / options.rate_step_size;
     std::vector<frequency_drift_plane::drift_rate> drift_rate_info;
-- 
2.43.0


From 7df0c9233b93309504d49275e33386dfbdce0a40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 29/86] fix: a single spectrum has drift rate slopes of zero
 instead of nan or infinity

---
 bliss/drift_search/integrate_drifts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/integrate_drifts.cpp b/bliss/drift_search/integrate_drifts.cpp
index ae47b93..ed7a8c9 100644
--- a/bliss/drift_search/integrate_drifts.cpp
+++ b/bliss/drift_search/integrate_drifts.cpp
@@ -35,7 +35,8 @@ std::vector<frequency_drift_plane::drift_rate> compute_drifts(int time_steps, do
         rate.drift_channels_span = drift_channels;
 
         // The actual slope of that drift (number channels / time)
-        auto m = static_cast<float>(drift_channels) / static_cast<float>(maximum_drift_span);
+        // A single spectrum spans no time, so nothing can drift across it
+        auto m = maximum_drift_span > 0 ? static_cast<float>(drift_channels) / static_cast<float>(maximum_drift_span) : 0.0f;
 
         rate.drift_rate_slope = m;
         rate.drift_rate_Hz_per_sec = m * foff * 1e6 / tsamp;
-- 
2.43.0


From 72beaec71f50d6392e4a0ad47734588a88c5913a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 30/86] fix: drift integration honours the offsets of spectrum
 and mask views

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 75b3c47..9381c52 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -20,9 +20,16 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
     auto spectrum_ptr     = spectrum_grid.data_ptr<float>();
     auto spectrum_strides = spectrum_grid.strides();
     auto spectrum_shape   = spectrum_grid.shape();
+    // Views start somewhere inside the buffer they share
+    for (auto offset : spectrum_grid.offsets()) {
+        spectrum_ptr += offset;
+    }
 
     auto rfi_ptr     = rfi_mask.data_ptr<uint8_t>();
     auto rfi_strides = rfi_mask.strides();
+    for (auto offset : rfi_mask.offsets()) {
+        rfi_ptr += offset;
+    }
     auto rfi_shape   = rfi_mask.shape();
 
     int32_t time_steps      = spectrum_grid.size(0);
-- 
2.43.0


From ac08dc46469051fee7f303eb14018c66e6df70dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:14 +0000
Subject: [PATCH 31/86] fix: drift integration skips tracks that are entirely
 beyond the band

---
 bliss/drift_search/kernels/drift_integration_bland.cpp | 6 ++++++
 bliss/drift_search/kernels/drift_integration_cpu.cpp   | 7 +++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_bland.cpp b/bliss/drift_search/kernels/drift_integration_bland.cpp
index 48e6a3c..d226ccc 100644
--- a/bliss/drift_search/kernels/drift_integration_bland.cpp
+++ b/bliss/drift_search/kernels/drift_integration_bland.cpp
@@ -63,6 +63,9 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
 
                     int64_t spectrum_freq_slice_start = channel_offset;
                     int64_t spectrum_freq_slice_end   = number_channels;
+                    if (spectrum_freq_slice_start >= number_channels) {
+                        continue; // The whole track is beyond the band at this time
+                    }
 
                     auto drift_slice = bland::slice(drift_plane,
                                                     bland::slice_spec{0, drift_index, drift_index + 1},
@@ -144,6 +147,9 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
                         spectrum_freq_slice_start -= offset_amount;
                         drift_freq_slice_start -= offset_amount;
                     }
+                    if (drift_freq_slice_start >= drift_freq_slice_end) {
+                        continue; // The whole track is beyond the band at this time
+                    }
 
                     auto drift_slice = bland::slice(drift_plane,
                                                     bland::slice_spec{0, drift_index, drift_index + 1},
diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 9381c52..3e5cb4c 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -74,8 +74,8 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
 
                     int64_t spectrum_freq_slice_start  = channel_offset;
                     int64_t spectrum_freq_slice_end    = number_channels;
-                    if (spectrum_freq_slice_start > spectrum_shape[1]) {
-                        fmt::print("ERROR: drift integration might be going out of bounds. Report this condition");
+                    if (spectrum_freq_slice_start >= spectrum_shape[1]) {
+                        continue; // The whole track is beyond the band at this time
                     }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
@@ -126,6 +126,9 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         spectrum_freq_slice_start -= offset_amount;
                         drift_freq_slice_start -= offset_amount;
                     }
+                    if (drift_freq_slice_start >= drift_freq_slice_end) {
+                        continue; // The whole track is beyond the band at this time
+                    }
 
                     auto   number_channels = drift_freq_slice_end - drift_freq_slice_start;
                     size_t drift_plane_index =
-- 
2.43.0


From 141e8d38239e9a2a91b65ca4a8ed977de72700dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:28 +0000
Subject: [PATCH 32/86] fix: counts of flagged samples along a drift track
 saturate instead of wrapping (cpu)

---
 bliss/drift_search/kernels/drift_integration_cpu.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_cpu.cpp b/bliss/drift_search/kernels/drift_integration_cpu.cpp
index 3e5cb4c..7930e82 100644
--- a/bliss/drift_search/kernels/drift_integration_cpu.cpp
+++ b/bliss/drift_search/kernels/drift_integration_cpu.cpp
@@ -92,15 +92,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) && lowsk_rfi_ptr[lowsk_index] < 255) {
                                 lowsk_rfi_ptr[lowsk_index] += 1;
                             }
                             lowsk_index += lowsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) && highsk_rfi_ptr[highsk_index] < 255) {
                                 highsk_rfi_ptr[highsk_index] += 1;
                             }
                             highsk_index += highsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) && rolloff_rfi_ptr[filtrolloff_index] < 255) {
                                 rolloff_rfi_ptr[filtrolloff_index] += 1;
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
@@ -144,15 +144,15 @@ bliss::integrate_linear_rounded_bins_cpu(bland::ndarray    spectrum_grid,
                         drift_plane_index += drift_plane_strides[1];
                         spectrum_index += spectrum_strides[1];
                         if (collect_rfi) {
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) && lowsk_rfi_ptr[lowsk_index] < 255) {
                                 lowsk_rfi_ptr[lowsk_index] += 1;
                             }
                             lowsk_index += lowsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) && highsk_rfi_ptr[highsk_index] < 255) {
                                 highsk_rfi_ptr[highsk_index] += 1;
                             }
                             highsk_index += highsk_rfi_strides[1];
-                            if (rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) {
+                            if ((rfi_ptr[rfi_index] & static_cast<uint8_t>(flag_values::filter_rolloff)) && rolloff_rfi_ptr[filtrolloff_index] < 255) {
                                 rolloff_rfi_ptr[filtrolloff_index] += 1;
                             }
                             filtrolloff_index += rolloff_rfi_strides[1];
-- 
2.43.0


From bf707d94df46792ec655cf81dfda11f355abaf31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:40 +0000
Subject: [PATCH 33/86] fix: counts of flagged samples along a drift track
 saturate instead of wrapping (bland)

---
 .../kernels/drift_integration_bland.cpp        | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/bliss/drift_search/kernels/drift_integration_bland.cpp b/bliss/drift_search/kernels/drift_integration_bland.cpp
index d226ccc..d82f5dd 100644
--- a/bliss/drift_search/kernels/drift_integration_bland.cpp
+++ b/bliss/drift_search/kernels/drift_integration_bland.cpp
@@ -91,7 +91,8 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
                                              bland::slice_spec{1, drift_freq_slice_start, drift_freq_slice_end});
                         filter_rolloff_slice = filter_rolloff_slice +
                                                (rfi_mask_slice & static_cast<uint8_t>(flag_values::filter_rolloff)) /
-                                                       static_cast<uint8_t>(flag_values::filter_rolloff);
+                                                       static_cast<uint8_t>(flag_values::filter_rolloff) *
+                                        bland::less_than<bland::ndarray, uint8_t>(filter_rolloff_slice, 255);
 
                         auto low_spectral_kurtosis_slice =
                                 bland::slice(rfi_in_drift.low_spectral_kurtosis,
@@ -100,7 +101,8 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
                         low_spectral_kurtosis_slice =
                                 low_spectral_kurtosis_slice +
                                 (rfi_mask_slice & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) /
-                                        static_cast<uint8_t>(flag_values::low_spectral_kurtosis);
+                                        static_cast<uint8_t>(flag_values::low_spectral_kurtosis) *
+                                        bland::less_than<bland::ndarray, uint8_t>(low_spectral_kurtosis_slice, 255);
 
                         auto high_spectral_kurtosis_slice =
                                 bland::slice(rfi_in_drift.high_spectral_kurtosis,
@@ -109,7 +111,8 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
                         high_spectral_kurtosis_slice =
                                 high_spectral_kurtosis_slice +
                                 (rfi_mask_slice & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) /
-                                        static_cast<uint8_t>(flag_values::high_spectral_kurtosis);
+                                        static_cast<uint8_t>(flag_values::high_spectral_kurtosis) *
+                                        bland::less_than<bland::ndarray, uint8_t>(high_spectral_kurtosis_slice, 255);
 
                         // auto magnitude_slice =
                         //         bland::slice(rfi_in_drift.magnitude,
@@ -175,7 +178,8 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
 
                         filter_rolloff_slice = filter_rolloff_slice +
                                                (rfi_mask_slice & static_cast<uint8_t>(flag_values::filter_rolloff)) /
-                                                       static_cast<uint8_t>(flag_values::filter_rolloff);
+                                                       static_cast<uint8_t>(flag_values::filter_rolloff) *
+                                        bland::less_than<bland::ndarray, uint8_t>(filter_rolloff_slice, 255);
 
 
                         auto low_spectral_kurtosis_slice =
@@ -186,7 +190,8 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
                         low_spectral_kurtosis_slice =
                                 low_spectral_kurtosis_slice +
                                 (rfi_mask_slice & static_cast<uint8_t>(flag_values::low_spectral_kurtosis)) /
-                                        static_cast<uint8_t>(flag_values::low_spectral_kurtosis);
+                                        static_cast<uint8_t>(flag_values::low_spectral_kurtosis) *
+                                        bland::less_than<bland::ndarray, uint8_t>(low_spectral_kurtosis_slice, 255);
 
                         auto high_spectral_kurtosis_slice =
                                 bland::slice(rfi_in_drift.high_spectral_kurtosis,
@@ -196,7 +201,8 @@ bliss::integrate_linear_rounded_bins_bland(bland::ndarray spectrum_grid,
                         high_spectral_kurtosis_slice =
                                 high_spectral_kurtosis_slice +
                                 (rfi_mask_slice & static_cast<uint8_t>(flag_values::high_spectral_kurtosis)) /
-                                        static_cast<uint8_t>(flag_values::high_spectral_kurtosis);
+                                        static_cast<uint8_t>(flag_values::high_spectral_kurtosis) *
+                                        bland::less_than<bland::ndarray, uint8_t>(high_spectral_kurtosis_slice, 255);
 
                         // auto magnitude_slice =
                         //         bland::slice(rfi_in_drift.magnitude,
-- 
2.43.0


From a111c852c7a87634f639cd156ab556b3c04d306e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 34/86] fix: connected components report the rfi counts of
 their maximum, not of the first cell found

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index be34351..62653bf 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -154,11 +154,11 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                             // auto dedrifted_rfi = drift_plane.integrated_rfi();
 
                             this_component.rfi_counts[flag_values::low_spectral_kurtosis] =
-                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.low_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::high_spectral_kurtosis] =
-                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.high_spectral_kurtosis.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             this_component.rfi_counts[flag_values::filter_rolloff] =
-                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({curr_coord.drift_index, curr_coord.frequency_channel});
+                                    dedrifted_rfi.filter_rolloff.scalarize<uint8_t>({idx.drift_index, idx.frequency_channel});
                             // this_component.rfi_counts[flag_values::magnitude] =
                             //         dedrifted_rfi.magnitude.scalarize<uint8_t>(curr_coord);
                             // this_component.rfi_counts[flag_values::sigma_clip] =
-- 
2.43.0


From ac6c1a1761dd540c927f05c3f055f815798872a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 35/86] fix: connected components look at neighbors in both
 directions

---
 bliss/drift_search/kernels/connected_components_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/connected_components_cpu.cpp b/bliss/drift_search/kernels/connected_components_cpu.cpp
index 62653bf..223e01c 100644
--- a/bliss/drift_search/kernels/connected_components_cpu.cpp
+++ b/bliss/drift_search/kernels/connected_components_cpu.cpp
@@ -168,8 +168,8 @@ bliss::find_components_above_threshold_cpu(bland::ndarray                    dop
                         this_component.locations.push_back(idx);
 
                         // Then add all of the neighbors as candidates
-                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                            for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                                 auto neighbor_coord = idx;
 
                                 neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 159d6e3f4a6ac7d4eafbad4dd32bd1253efd148c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 36/86] fix: local maxima compare with neighbors in both
 directions

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index 04df535..c1cbf68 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -53,8 +53,8 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
             if (candidate_snr > snr_threshold) {
                 // 4. Check if it is greater than surrounding neighborhood
                 bool neighborhood_max = true;
-                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset < neighbor_l1_dist; ++freq_neighbor_offset) {
-                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset < neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
+                    for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 8114c49845e610565b6bc0fee080713fd9931982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:33 +0000
Subject: [PATCH 37/86] fix: local maxima do not compare a candidate with
 itself, which rejected every candidate

---
 bliss/drift_search/kernels/local_maxima_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/kernels/local_maxima_cpu.cpp b/bliss/drift_search/kernels/local_maxima_cpu.cpp
index c1cbf68..5fd62c6 100644
--- a/bliss/drift_search/kernels/local_maxima_cpu.cpp
+++ b/bliss/drift_search/kernels/local_maxima_cpu.cpp
@@ -55,6 +55,9 @@ bliss::find_local_maxima_above_threshold_cpu(bland::ndarray                  dop
                 bool neighborhood_max = true;
                 for (int freq_neighbor_offset=-neighbor_l1_dist; freq_neighbor_offset <= neighbor_l1_dist; ++freq_neighbor_offset) {
                     for (int drift_neighbor_offset=-neighbor_l1_dist + abs(freq_neighbor_offset); drift_neighbor_offset <= neighbor_l1_dist-abs(freq_neighbor_offset); ++drift_neighbor_offset) {
+                        if (freq_neighbor_offset == 0 && drift_neighbor_offset == 0) {
+                            continue; // nothing exceeds itself
+                        }
                         auto neighbor_coord = curr_coord;
 
                         neighbor_coord.drift_index += drift_neighbor_offset;
-- 
2.43.0


From 163f0adf2f5cb5c3250d5ec6bb2e863df620fb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 38/86] fix: hits carry the number of spectra they span instead
 of an unset value

---
 bliss/drift_search/hit_search.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/drift_search/hit_search.cpp b/bliss/drift_search/hit_search.cpp
index 8152a5f..2f6b52a 100644
--- a/bliss/drift_search/hit_search.cpp
+++ b/bliss/drift_search/hit_search.cpp
@@ -28,6 +28,7 @@ std::list<hit> bliss::hit_search(coarse_channel dedrifted_scan, hit_search_optio
     for (const auto &c : protohits) {
         hit this_hit;
         this_hit.rate_index       = c.index_max.drift_index;
+        this_hit.time_span_steps  = integration_length;
         this_hit.rfi_counts       = c.rfi_counts;
         this_hit.start_freq_index = c.index_max.frequency_channel;
 
-- 
2.43.0


From 451b6ab67e022f3026f44cca00e86472e808300f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 39/86] fix: filtering hits leaves the rfi counts of the hits
 it keeps unmodified

---
 bliss/drift_search/filter_hits.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/bliss/drift_search/filter_hits.cpp b/bliss/drift_search/filter_hits.cpp
index 0da0bdd..0537f0c 100644
--- a/bliss/drift_search/filter_hits.cpp
+++ b/bliss/drift_search/filter_hits.cpp
@@ -11,15 +11,20 @@ using namespace bliss;
 constexpr double eps = 1e-6;
 
 std::list<hit> bliss::filter_hits(std::list<hit> hits, filter_options options) {
+    // Looking counts up must not add entries to the hits that are kept
+    auto count_of = [](const hit &h, flag_values flag) {
+        auto found = h.rfi_counts.find(flag);
+        return found != h.rfi_counts.end() ? found->second : 0;
+    };
 
     auto current_hit = hits.begin();
     while (current_hit != hits.end()) {
         bool remove_hit = false;
         // TODO: logic to decide if we should remove a hit
-        if (current_hit->rfi_counts[flag_values::filter_rolloff] > 0) {
+        if (count_of(*current_hit, flag_values::filter_rolloff) > 0) {
             remove_hit = true;
         }
-        if (current_hit->rfi_counts[flag_values::low_spectral_kurtosis] > 0) {
+        if (count_of(*current_hit, flag_values::low_spectral_kurtosis) > 0) {
             remove_hit = true;
         }
         if (options.filter_zero_drift) {
-- 
2.43.0


From 70124928b480fc36b3cf610a09b98f05eb5e16ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 40/86] fix: hits of different coarse channels are different

---
 bliss/core/include/core/hit.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index f3e0bac..a66560c 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -40,7 +40,8 @@ struct hit {
                snr == other.snr &&
                bandwidth == other.bandwidth &&
                binwidth == other.binwidth &&
-               rfi_counts == other.rfi_counts;
+               rfi_counts == other.rfi_counts &&
+               coarse_channel_number == other.coarse_channel_number;
     }
 
     bool operator<(const hit& other) const {
@@ -77,7 +78,10 @@ struct hit {
         if (binwidth != other.binwidth) {
             return binwidth < other.binwidth;
         }
-        return rfi_counts < other.rfi_counts;
+        if (rfi_counts != other.rfi_counts) {
+            return rfi_counts < other.rfi_counts;
+        }
+        return coarse_channel_number < other.coarse_channel_number;
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-- 
2.43.0


From bcb325f4ae8aa202df826eac26031a8658fa602e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 41/86] fix: a hit's state holds every field at full precision

---
 bliss/core/hit.cpp              | 34 +++++++++++++++++++++++----------
 bliss/core/include/core/hit.hpp | 17 ++++++++++-------
 2 files changed, 34 insertions(+), 17 deletions(-)

diff --git a/bliss/core/hit.cpp b/bliss/core/hit.cpp
index 96d7eee..c6f9434 100644
--- a/bliss/core/hit.cpp
+++ b/bliss/core/hit.cpp
@@ -12,27 +12,41 @@ std::string bliss::hit::repr() const {
 }
 
 hit::state_tuple bliss::hit::get_state() const {
+    // Plain integers rather than enum values, so the state can be pickled
+    std::map<uint8_t, uint8_t> counts;
+    for (const auto &[flag, count] : rfi_counts) {
+        counts[static_cast<uint8_t>(flag)] = count;
+    }
     return std::make_tuple(start_freq_index,
                            start_freq_MHz,
+                           start_time_sec,
+                           duration_sec,
                            rate_index,
                            drift_rate_Hz_per_sec,
                            power,
                            time_span_steps,
                            snr,
                            bandwidth,
-                           binwidth
-                           // rfi_counts,
-    );
+                           binwidth,
+                           counts,
+                           coarse_channel_number);
 }
 
 void bliss::hit::set_state(state_tuple state) {
     start_freq_index      = std::get<0>(state);
     start_freq_MHz        = std::get<1>(state);
-    rate_index            = std::get<2>(state);
-    drift_rate_Hz_per_sec = std::get<3>(state);
-    power                 = std::get<4>(state);
-    time_span_steps       = std::get<5>(state);
-    snr                   = std::get<6>(state);
-    bandwidth             = std::get<7>(state);
-    binwidth              = std::get<8>(state);
+    start_time_sec        = std::get<2>(state);
+    duration_sec          = std::get<3>(state);
+    rate_index            = std::get<4>(state);
+    drift_rate_Hz_per_sec = std::get<5>(state);
+    power                 = std::get<6>(state);
+    time_span_steps       = std::get<7>(state);
+    snr                   = std::get<8>(state);
+    bandwidth             = std::get<9>(state);
+    binwidth              = std::get<10>(state);
+    rfi_counts.clear();
+    for (const auto &[flag, count] : std::get<11>(state)) {
+        rfi_counts[static_cast<flag_values>(flag)] = count;
+    }
+    coarse_channel_number = std::get<12>(state);
 }
diff --git a/bliss/core/include/core/hit.hpp b/bliss/core/include/core/hit.hpp
index a66560c..2e472b4 100644
--- a/bliss/core/include/core/hit.hpp
+++ b/bliss/core/include/core/hit.hpp
@@ -85,15 +85,18 @@ struct hit {
     }
 
     using state_tuple = std::tuple<int64_t /*start_freq_index*/,
-                                   float /*start_freq_MHz*/,
+                                   double /*start_freq_MHz*/,
+                                   double /*start_time_sec*/,
+                                   double /*duration_sec*/,
                                    int64_t /*rate_index*/,
-                                   float /*drift_rate_Hz_per_sec*/,
-                                   float /*power*/,
-                                   float /*time_span_steps*/,
+                                   double /*drift_rate_Hz_per_sec*/,
+                                   double /*power*/,
+                                   int64_t /*time_span_steps*/,
                                    float /*snr*/,
-                                   double /*bandwidth*/,
-                                   int64_t /*binwidth*/
-                                   // rfi /*rfi_counts*/,
+                                   float /*bandwidth*/,
+                                   int64_t /*binwidth*/,
+                                   std::map<uint8_t, uint8_t> /*rfi_counts*/,
+                                   int64_t /*coarse_channel_number*/
                                    >;
 
     state_tuple get_state() const;
-- 
2.43.0


From 0daf092f1d85ec03271d336d174f0c1ecfea7700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 42/86] fix: the distance between two hits does not depend on
 their order

---
 bliss/drift_search/event_search.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 94d4ea7..dfc1878 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -24,7 +24,7 @@ float distance_func(const hit &a, const hit &b) {
     auto drift_error = drift_difference * drift_difference;
 
     auto first_sample_time = std::min(a.start_time_sec, b.start_time_sec);
-    auto last_sample_time  = std::max(a.start_time_sec + b.duration_sec, b.start_time_sec + b.duration_sec);
+    auto last_sample_time  = std::max(a.start_time_sec + a.duration_sec, b.start_time_sec + b.duration_sec);
     auto rendezvous_time   = (last_sample_time + first_sample_time) / 2;
 
     auto a_time_to_rendezvous = rendezvous_time - a.start_time_sec;
-- 
2.43.0


From db507fdd4e55013768bc619fb602bb385bba25ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 43/86] fix: order cached hit distances consistently, so that
 lookups find the pair they ask for

---
 bliss/drift_search/event_search.cpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index dfc1878..f7dd48b 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -4,6 +4,7 @@
 #include <core/cadence.hpp>
 
 #include <fmt/format.h>
+#include <algorithm>
 #include <cstdint>
 
 using namespace bliss;
@@ -48,13 +49,10 @@ float distance_func(const hit &a, const hit &b) {
 struct hit_distance {
     struct hit_pair_comparator {
         bool operator()(const std::pair<hit, hit> &p1, const std::pair<hit, hit> &p2) const {
-            if (p1.first == p2.first && p1.second == p2.second) {
-                return false;
-            }
-            if (p1.first == p2.second && p1.second == p2.first) {
-                return false;
-            }
-            return p1 < p2;
+            // The order within a pair does not matter, so compare the pairs with their hits sorted
+            auto sorted1 = std::minmax(p1.first, p1.second);
+            auto sorted2 = std::minmax(p2.first, p2.second);
+            return sorted1 < sorted2;
         }
     };
 
-- 
2.43.0


From f590551d0082a198dec5beea5f0ce63e1846936b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 44/86] fix: a cadence without observations has no events

---
 bliss/drift_search/event_search.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index f7dd48b..6f2f56b 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -80,6 +80,9 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
     // assume the on_target is the 0-indexed target inside the cadence. This can be adjusted
     // or we could even loop over multiple on_targets in the future, so keep it as a variable
     const int64_t on_target_index = 0;
+    if (cadence_with_hits._observations.empty()) {
+        return detected_events;
+    }
     auto          on_target_obs   = cadence_with_hits._observations[on_target_index];
     std::vector<std::list<hit>> on_scan_hits;
     for (auto &scan : on_target_obs._scans) {
-- 
2.43.0


From 96d9b662b9812af7aacceac3acde8ac05f17fc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:43 +0000
Subject: [PATCH 45/86] fix: events extend over every scan they have a hit in

---
 bliss/drift_search/event_search.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bliss/drift_search/event_search.cpp b/bliss/drift_search/event_search.cpp
index 6f2f56b..1c4a274 100644
--- a/bliss/drift_search/event_search.cpp
+++ b/bliss/drift_search/event_search.cpp
@@ -122,7 +122,7 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
                 auto hypothetical_start =
                         std::min(candidate_event.event_start_seconds, seconds_per_day * candidate_scan.tstart());
                 auto hypothetical_end = std::max(candidate_event.event_end_seconds,
-                                                 seconds_per_day * candidate_scan.tstart() + candidate_scan.tsamp());
+                                                 seconds_per_day * candidate_scan.tstart() + candidate_scan.tduration_secs());
                 auto rendezvous_time =
                         (hypothetical_start + hypothetical_end) / 2; // a point in time to extrapolate both hits to
 
@@ -153,6 +153,8 @@ std::vector<event> bliss::event_search(cadence cadence_with_hits) {
                 if (best_distance_to_a_hit < 50 /* Made up number that looks good when staring at distances */) {
                     candidate_event.hits.push_back(*best_matching_hit);
                     hits_to_check.erase(best_matching_hit);
+                    candidate_event.event_start_seconds = hypothetical_start;
+                    candidate_event.event_end_seconds   = hypothetical_end;
                     // TODO: fix this
                     // candidate_scan.hits(hits_to_check); // update the hits in the scan with the removed matches
                 }
-- 
2.43.0


From 89703c4b427038e2c31d4e7a98d28939ab529fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 46/86] fix: reject the coarse channel index just past the end
 of a scan

---
 bliss/core/scan.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index f5acc1f..802cf74 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -212,7 +212,7 @@ scan::scan(std::string_view file_path, int num_fine_channels_per_coarse) : scan(
 
 
 std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
@@ -272,7 +272,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
 
 std::shared_ptr<coarse_channel> bliss::scan::peak_coarse_channel(int coarse_channel_index) {
-    if (coarse_channel_index < 0 || coarse_channel_index > _num_coarse_channels) {
+    if (coarse_channel_index < 0 || coarse_channel_index >= _num_coarse_channels) {
         throw std::out_of_range("ERROR: invalid coarse channel");
     }
 
-- 
2.43.0


From 69991cc187cba49561882bb5667870bb1c0d2bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 47/86] fix: frequencies of coarse channels beyond 2^31 fine
 channels

---
 bliss/core/scan.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 802cf74..5b6e1bb 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -236,7 +236,7 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
             return h5_file_handle->read_mask(data_offset, data_count);
         };
 
-        auto relative_start_fine_channel = _fine_channels_per_coarse * coarse_channel_index;
+        auto relative_start_fine_channel = static_cast<int64_t>(_fine_channels_per_coarse) * coarse_channel_index;
         auto coarse_fch1             = _fch1 + _foff * relative_start_fine_channel;
 
         auto new_coarse = std::make_shared<coarse_channel>(data_reader,
-- 
2.43.0


From 45dae3c1ce08593fb965f098c066b79995be1efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 48/86] fix: scans made of coarse channels set all of their
 metadata

---
 bliss/core/scan.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 5b6e1bb..5836bb0 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -113,6 +113,16 @@ scan::scan(std::map<int, std::shared_ptr<coarse_channel>> coarse_channels) {
     _source_name = first_cc->source_name();
     _ntsteps = first_cc->ntsteps();
     _tduration_secs = _ntsteps * _tsamp;
+    _fine_channels_per_coarse = first_cc->nchans();
+    _nbits = first_cc->_nbits.value_or(32);
+    _nifs = first_cc->nifs();
+    _data_type = first_cc->data_type();
+    _machine_id = first_cc->_machine_id;
+    _telescope_id = first_cc->_telescope_id;
+    _src_dej = first_cc->_src_dej;
+    _src_raj = first_cc->_src_raj;
+    _az_start = first_cc->_az_start;
+    _za_start = first_cc->_za_start;
 }
 
 scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
-- 
2.43.0


From 9c5be359e04a92c8510f23fb4a5f658787cbf0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 49/86] fix: reading a channel missing from a scan without a
 file throws instead of dereferencing null

---
 bliss/core/scan.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 5836bb0..ac1d76b 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -228,6 +228,9 @@ std::shared_ptr<coarse_channel> bliss::scan::read_coarse_channel(int coarse_chan
 
     auto global_offset_in_file = coarse_channel_index + _coarse_channel_offset;
     if (_coarse_channels.find(global_offset_in_file) == _coarse_channels.end()) {
+        if (_h5_file_handle == nullptr) {
+            throw std::out_of_range("ERROR: coarse channel is not part of this scan and there is no file to read it from");
+        }
         // This is expected to be [time, feed, freq]
         auto data_count = _h5_file_handle->get_data_shape();
         std::vector<int64_t> data_offset(3, 0);
-- 
2.43.0


From ba585a1592049394134af99f0b2be8e906b1d344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 50/86] fix: reject slices beyond the coarse channels of a scan

---
 bliss/core/scan.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index ac1d76b..fd8b5d1 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -380,10 +380,12 @@ bliss::scan bliss::scan::slice_scan_channels(int64_t start_channel, int64_t coun
         fmt::print("INFO: Got count of -1 channels, automatically extending to last coarse channel ({})\n", get_number_coarse_channels(), get_number_coarse_channels() - start_channel);
         count = get_number_coarse_channels() - start_channel;
     }
+    if (start_channel < 0 || start_channel > _num_coarse_channels || count < 0 || count > _num_coarse_channels - start_channel) {
+        throw std::out_of_range("slice_scan_channels: the requested channels are not in this scan");
+    }
 
     auto sliced_scan = *this;
 
-    // what are implications of negative numbers here?
     sliced_scan._coarse_channel_offset += start_channel;
     sliced_scan._num_coarse_channels = count;
 
-- 
2.43.0


From 3326f29fd1d3373ce8ccb014f94f60edc35b55f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 51/86] fix: infer coarse channels of bands with few or more
 than 2^31 fine channels

---
 bliss/core/scan.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index fd8b5d1..c745598 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -45,8 +45,8 @@ constexpr std::array<std::tuple<int, double, double, const char*>, 9> known_chan
 /**
  * returned tuple is {number of coarse channels, number of fine channels per coarse}
 */
-std::tuple<int, int>
-infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp) {
+std::tuple<int64_t, int64_t>
+infer_number_coarse_channels(int64_t number_fine_channels, double foff, double tsamp) {
     for (const auto &channelization : known_channelizations) {
         auto [fine_channels_per_coarse, freq_res, time_res, version] = channelization;
 
@@ -69,7 +69,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 2**18 (Matches ATA)
         constexpr int common_channelization = 1<<18;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
@@ -83,7 +83,7 @@ infer_number_coarse_channels(int number_fine_channels, double foff, double tsamp
         // Try 1M (Matches Parkes)
         constexpr int common_channelization = 1000000;
         auto number_coarse = number_fine_channels / common_channelization;
-        auto remainder_per_coarse = (number_fine_channels % common_channelization) / number_coarse;
+        auto remainder_per_coarse = number_coarse > 0 ? (number_fine_channels % common_channelization) / number_coarse : 0;
         auto fine_per_coarse = common_channelization + remainder_per_coarse;
         if (fine_per_coarse * number_coarse == number_fine_channels) {
             fmt::print("WARN: scan with {} fine channels could not be matched with a known channelization scheme. "
-- 
2.43.0


From 9022c4df09e3eaa4e48bcb3eb04aac9d0d984d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 52/86] fix: reject negative numbers of fine channels per
 coarse channel

---
 bliss/core/scan.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index c745598..14ef9a8 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -208,6 +208,8 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
         // Find the number of coarse channels
         std::tie(_num_coarse_channels, _fine_channels_per_coarse) =
                 infer_number_coarse_channels(_nchans, 1e6 * _foff, _tsamp);
+    } else if (num_fine_channels_per_coarse < 0) {
+        throw std::invalid_argument("scan: the number of fine channels per coarse channel cannot be negative");
     } else {
         _num_coarse_channels = _nchans / num_fine_channels_per_coarse;
         _fine_channels_per_coarse = num_fine_channels_per_coarse;
-- 
2.43.0


From 485a62a5950155a49d3d28b632eb7868337be9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 53/86] fix: look up the coarse channel of a frequency by
 channel width, and reject frequencies outside the scan

---
 bliss/core/scan.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index 14ef9a8..d11a5ee 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -310,9 +310,11 @@ void bliss::scan::add_coarse_channel_transform(std::function<coarse_channel(coar
 }
 
 int bliss::scan::get_coarse_channel_with_frequency(double frequency) const {
-    auto band_fraction = ((frequency - _fch1) / _foff / static_cast<double>(_nchans));
-    // TODO: if band_fraction is < 0 or > 1 then it's not in this filterbank. Throw an error
-    auto fractional_channel = band_fraction * _num_coarse_channels;
+    // Coarse channels do not have to cover all fine channels, so count in units of their actual width
+    auto fractional_channel = (frequency - _fch1) / _foff / static_cast<double>(_fine_channels_per_coarse);
+    if (!(fractional_channel >= 0 && fractional_channel < _num_coarse_channels)) {
+        throw std::out_of_range("get_coarse_channel_with_frequency: the frequency is not in this scan");
+    }
     return std::floor(fractional_channel);
 }
 
-- 
2.43.0


From 6bca0ce2cf6117173aade6d513869e44626ee28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 54/86] fix: scans whose frequencies agree are consistent,
 those whose frequencies differ are not

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 2ed8c42..c7cc5e6 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -60,7 +60,7 @@ bool bliss::observation_target::validate_scan_consistency() {
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || (sc.nchans() != nchans)) {
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -146,7 +146,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) < 1e-6) || (std::abs(sc.foff() - foff) < 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From 65f30323a7f965acedb47079ba441cb55470673e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 55/86] fix: count fine channels of a coarse channel in 64 bits

---
 bliss/core/include/core/scan.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/core/include/core/scan.hpp b/bliss/core/include/core/scan.hpp
index e0fe560..eec4204 100644
--- a/bliss/core/include/core/scan.hpp
+++ b/bliss/core/include/core/scan.hpp
@@ -158,7 +158,7 @@ class scan {
 
 
     // Derived OR inferred
-    int _fine_channels_per_coarse;
+    int64_t _fine_channels_per_coarse;
     // Derived values at read-time
     int64_t _num_coarse_channels;
     int64_t _coarse_channel_offset = 0;
-- 
2.43.0


From c38935465f85aa94034e071ec34692a1f4f1b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 56/86] fix: summaries of a target without scans throw instead
 of reading its first scan

---
 bliss/core/cadence.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index c7cc5e6..0cb541f 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -70,7 +70,7 @@ bool bliss::observation_target::validate_scan_consistency() {
 }
 
 int bliss::observation_target::get_coarse_channel_with_frequency(double frequency) {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         // Since they're consistent we can use any of them...
         return _scans[0].get_coarse_channel_with_frequency(frequency);
     } else {
@@ -79,7 +79,7 @@ int bliss::observation_target::get_coarse_channel_with_frequency(double frequenc
 }
 
 int bliss::observation_target::get_number_coarse_channels() {
-    if (validate_scan_consistency()) {
+    if (!_scans.empty() && validate_scan_consistency()) {
         return _scans[0].get_number_coarse_channels();
     } else {
         throw std::runtime_error("scans inside observation target are not consistent enough to return a number of channels");
-- 
2.43.0


From 3b07855e24c59c37a2bfe3355ac98183f8df1376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 57/86] fix: slices of targets and cadences keep their name and
 device

---
 bliss/core/cadence.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 0cb541f..49be6de 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -88,6 +88,8 @@ int bliss::observation_target::get_number_coarse_channels() {
 
 bliss::observation_target bliss::observation_target::slice_observation_channels(int64_t start_channel, int64_t count) {
     observation_target target_coarse_channel;
+    target_coarse_channel._target_name = _target_name;
+    target_coarse_channel._device      = _device;
     for (auto &sc : _scans) {
         target_coarse_channel._scans.push_back(sc.slice_scan_channels(start_channel, count));
     }
@@ -181,6 +183,7 @@ int bliss::cadence::get_number_coarse_channels() {
 
 bliss::cadence bliss::cadence::slice_cadence_channels(int64_t start_channel, int64_t count) {
     cadence cadence_coarse_channel;
+    cadence_coarse_channel._device = _device;
     for (auto &obs : _observations) {
         cadence_coarse_channel._observations.push_back(obs.slice_observation_channels(start_channel, count));
     }
-- 
2.43.0


From 146cbe1a552ec2d963e769d9371556c489130772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:40 +0000
Subject: [PATCH 58/86] fix: consistent scans have the same number of coarse
 channels

---
 bliss/core/cadence.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/bliss/core/cadence.cpp b/bliss/core/cadence.cpp
index 49be6de..69143a3 100644
--- a/bliss/core/cadence.cpp
+++ b/bliss/core/cadence.cpp
@@ -51,16 +51,18 @@ bool bliss::observation_target::validate_scan_consistency() {
 
     double fch1;
     double foff;
-    int nchans;
+    int64_t nchans;
+    int number_coarse;
     if (!_scans.empty()) {
         fch1 = _scans[0].fch1();
         foff = _scans[0].foff();
         nchans = _scans[0].nchans();
+        number_coarse = _scans[0].get_number_coarse_channels();
     }
     for (const auto &sc : _scans) {
         // For double comparison can probably lower epsilon, but this field is
         // in MHz which gives us 1 Hz error and should be sufficient
-        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans)) {
+        if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || (sc.nchans() != nchans) || (sc.get_number_coarse_channels() != number_coarse)) {
             fmt::print("INFO: observation_target::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
             return false;
         }
@@ -135,12 +137,14 @@ bool bliss::cadence::validate_scan_consistency() {
 
     double fch1;
     double foff;
-    int nchans;
+    int64_t nchans;
+    int number_coarse;
     bool found_valid_scan = false;
     for (auto &obs: _observations) {
         if (!obs._scans.empty()) {
             fch1 = obs._scans[0].fch1();
             nchans = obs._scans[0].nchans();
+            number_coarse = obs._scans[0].get_number_coarse_channels();
             foff = obs._scans[0].foff();
             found_valid_scan = true;
             break;
@@ -148,7 +152,7 @@ bool bliss::cadence::validate_scan_consistency() {
     }
     for (auto &obs: _observations) {
         for (auto & sc : obs._scans) {
-            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans) {
+            if ((std::abs(sc.fch1() - fch1) > 1e-6) || (std::abs(sc.foff() - foff) > 1e-6) || sc.nchans() != nchans || sc.get_number_coarse_channels() != number_coarse) {
                 fmt::print("INFO: cadence::validate_scan_consistency: one of `fch1`, `foff`, `nchans` does not match");
                 return false;
             }
-- 
2.43.0


From b755774b0202fd6b2e7e576c7b2b0d06063f7435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 59/86] fix: flags already set on a sample are kept when they
 are set again

---
 bliss/flaggers/magnitude.cpp         | 2 +-
 bliss/flaggers/sigmaclip.cpp         | 2 +-
 bliss/flaggers/spectral_kurtosis.cpp | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 9b065d9..0ec554c 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -20,7 +20,7 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data, float threshold) {
     auto magnitude_mask = flag_magnitude(cc_data.data(), threshold);
 
     bland::ndarray mask = cc_data.mask();
-    mask = mask + magnitude_mask;
+    mask = mask + magnitude_mask - bland::logical_and(mask, magnitude_mask); // mask | magnitude_mask
     cc_data.set_mask(mask);
     return cc_data;
 }
diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index d52be2a..a57a84e 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -39,7 +39,7 @@ coarse_channel bliss::flag_sigmaclip(coarse_channel cc_data, int max_iter, float
     // 2. Generate SK flag
     auto rfi = flag_sigmaclip(spectrum_grid, max_iter, low, high);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = rfi_flags + rfi - bland::logical_and(rfi_flags, rfi); // rfi_flags | rfi
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
diff --git a/bliss/flaggers/spectral_kurtosis.cpp b/bliss/flaggers/spectral_kurtosis.cpp
index ec1c899..5841100 100644
--- a/bliss/flaggers/spectral_kurtosis.cpp
+++ b/bliss/flaggers/spectral_kurtosis.cpp
@@ -36,7 +36,7 @@ coarse_channel bliss::flag_spectral_kurtosis(coarse_channel cc_data, float lower
     // 2. Generate SK flag
     auto rfi = flag_spectral_kurtosis(spectrum_grid, N, M, d, lower_threshold, upper_threshold);
 
-    auto accumulated_rfi = rfi_flags + rfi; // a | operator would be more appropriate
+    auto accumulated_rfi = rfi_flags + rfi - bland::logical_and(rfi_flags, rfi); // rfi_flags | rfi
 
     // 3. Store back accumulated rfi
     cc_data.set_mask(accumulated_rfi);
-- 
2.43.0


From e4e0ed997d6401d6c4628b860b9a9be662076fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:16 +0000
Subject: [PATCH 60/86] fix: rolloff flags exactly the edges, without writing
 to the mask it was given

---
 bliss/flaggers/filter_rolloff.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bliss/flaggers/filter_rolloff.cpp b/bliss/flaggers/filter_rolloff.cpp
index d7d1903..2cae129 100644
--- a/bliss/flaggers/filter_rolloff.cpp
+++ b/bliss/flaggers/filter_rolloff.cpp
@@ -12,12 +12,15 @@ using namespace bliss;
 coarse_channel bliss::flag_filter_rolloff(coarse_channel cc_data, float rolloff_width) {
 
     auto deferred_rfi_mask = bland::ndarray_deferred([mask=cc_data.mask(), rolloff_width]() mutable {
-        bland::ndarray rfi_flags = mask;
+        bland::ndarray rfi_flags = bland::copy(mask);
 
         auto nchans = rfi_flags.shape()[1];
         int64_t one_sided_channels = std::round(nchans * rolloff_width);
-        bland::slice(rfi_flags, {1, 0, one_sided_channels}) = bland::slice(rfi_flags, {1, 0, one_sided_channels}) + static_cast<uint8_t>(flag_values::filter_rolloff);
-        bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) = bland::slice(rfi_flags, {1, -one_sided_channels, nchans}) + static_cast<uint8_t>(flag_values::filter_rolloff);
+        constexpr auto flag = static_cast<uint8_t>(flag_values::filter_rolloff);
+        for (auto edge : {bland::slice_spec{1, 0, one_sided_channels}, bland::slice_spec{1, nchans - one_sided_channels, nchans}}) {
+            bland::ndarray edge_flags = bland::slice(rfi_flags, edge);
+            bland::slice(rfi_flags, edge) = edge_flags + flag - bland::logical_and(edge_flags, flag); // edge_flags | flag
+        }
         return rfi_flags;
     });
     
-- 
2.43.0


From ec17f3db9d9f3de29aff47fe09ac005282468e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 61/86] fix: sigma clipping starts from a mask of the type
 masked statistics accept

---
 bliss/flaggers/sigmaclip.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/flaggers/sigmaclip.cpp b/bliss/flaggers/sigmaclip.cpp
index a57a84e..bc4e552 100644
--- a/bliss/flaggers/sigmaclip.cpp
+++ b/bliss/flaggers/sigmaclip.cpp
@@ -11,7 +11,7 @@ using namespace bliss;
 bland::ndarray bliss::flag_sigmaclip(const bland::ndarray &data, int max_iter, float low, float high) {
 
     constexpr float eps = 1e-6;
-    auto            rfi = bland::zeros(data.shape(), data.dtype(), data.device());
+    auto            rfi = bland::zeros(data.shape(), bland::ndarray::datatype::uint8, data.device());
 
     auto [mean, stddev] = bland::masked_mean_stddev(data, rfi);
     for (int iter = 0; iter < max_iter; ++iter) {
-- 
2.43.0


From 07f3d7f4e32e2efe03ffe373a4fb6897c3ace819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 62/86] fix: magnitude flags and equalization of a scan reach
 the coarse channels read from it

---
 bliss/flaggers/magnitude.cpp                  | 16 ++++++----------
 bliss/preprocess/passband_static_equalize.cpp |  6 +-----
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/bliss/flaggers/magnitude.cpp b/bliss/flaggers/magnitude.cpp
index 0ec554c..0a9294b 100644
--- a/bliss/flaggers/magnitude.cpp
+++ b/bliss/flaggers/magnitude.cpp
@@ -38,20 +38,16 @@ coarse_channel bliss::flag_magnitude(coarse_channel cc_data) {
  * 
 */
 scan bliss::flag_magnitude(scan fil_data, float threshold) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc, threshold);
-    }
+    fil_data.add_coarse_channel_transform([threshold](coarse_channel cc) {
+        return flag_magnitude(cc, threshold);
+    });
     return fil_data;
 }
 
 scan bliss::flag_magnitude(scan fil_data) {
-    auto number_coarse_channels = fil_data.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = fil_data.read_coarse_channel(cc_index);
-        *cc = flag_magnitude(*cc);
-    }
+    fil_data.add_coarse_channel_transform([](coarse_channel cc) {
+        return flag_magnitude(cc);
+    });
     return fil_data;
 }
 
diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 25a16b3..3b9e8dc 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -121,11 +121,7 @@ coarse_channel bliss::equalize_passband_filter(coarse_channel cc, std::string_vi
 
 
 scan bliss::equalize_passband_filter(scan sc, bland::ndarray h) {
-    auto number_coarse_channels = sc.get_number_coarse_channels();
-    for (auto cc_index = 0; cc_index < number_coarse_channels; ++cc_index) {
-        auto cc = sc.read_coarse_channel(cc_index);
-        *cc = equalize_passband_filter(*cc, h);
-    }
+    sc.add_coarse_channel_transform([h](coarse_channel cc) { return equalize_passband_filter(cc, h); });
     return sc;
 }
 
-- 
2.43.0


From bd5c8571e1921c560afec1a425892119e1bcdc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 63/86] fix: unimplemented noise estimates throw instead of
 returning unset statistics

---
 bliss/estimators/noise_estimate.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/estimators/noise_estimate.cpp b/bliss/estimators/noise_estimate.cpp
index 55dc1e0..98ab856 100644
--- a/bliss/estimators/noise_estimate.cpp
+++ b/bliss/estimators/noise_estimate.cpp
@@ -42,6 +42,7 @@ noise_stats noise_power_estimate_stddev(bland::ndarray x, bland::ndarray mask) {
  * Compute noise power using the Median Absolute Deviation (MAD) over the population
  */
 noise_stats noise_power_estimate_mad(const bland::ndarray &x) {
+    throw std::runtime_error("noise power estimation with mad is not implemented yet");
     noise_stats estimated_stats;
 
     // TODO: do medians right (TM)
-- 
2.43.0


From 53ed84cebf029c6a62d9d4c15db472b01c6e01a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:34 +0000
Subject: [PATCH 64/86] fix: spectral kurtosis of long integrations

---
 bliss/estimators/spectral_kurtosis.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/estimators/spectral_kurtosis.cpp b/bliss/estimators/spectral_kurtosis.cpp
index f87834a..d6749c2 100644
--- a/bliss/estimators/spectral_kurtosis.cpp
+++ b/bliss/estimators/spectral_kurtosis.cpp
@@ -10,7 +10,7 @@ bland::ndarray bliss::estimate_spectral_kurtosis(const bland::ndarray &spectrum_
     // fmt::print("INFO: spec kurtosis with M={}, N={}, d={}\n", M, N, d);
     auto s1 = bland::square(bland::sum(spectrum_grid, {0}));
     auto s2 = bland::sum(bland::square(spectrum_grid), {0});
-    auto sk = ((M * N * d + 1) / (M - 1)) * (M * (s2 / s1) - 1);
+    auto sk = ((static_cast<float>(M) * N * d + 1) / (M - 1)) * (M * (s2 / s1) - 1);
     return sk;
 }
 
-- 
2.43.0


From b364f589ab4bc7e24f1fbdfc8cbe40d31bd2fee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 65/86] fix: filterbank axes of unknown role are accepted when
 they have a single entry

---
 bliss/file_types/h5_filterbank_file.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 36344f1..9eacc73 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -245,6 +245,9 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     std::tuple<int64_t, bool, int> time_steps = {0, false, -1};
     std::tuple<int64_t, bool, int> feed_id = {0, false, -1};
     std::tuple<int64_t, bool, int> freq_bins  = {0, false, -1};
+    if (dim_labels.size() < dims.size()) {
+        throw std::invalid_argument("Expected a dimension label for every axis of data");
+    }
     for (int ii = 0; ii < dims.size(); ++ii) {
         if (!std::get<1>(time_steps) && dim_labels[ii] == "time") {
             time_steps = {dims[ii], true, ii};
@@ -257,7 +260,7 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
             }
         } else { // if there are more than 3 dims this will catch it
             // unknown dimension. If it's size 1, we're probably OK though
-            if (dims[ii] != 1) {
+            if (dims[ii] == 1) {
                 // TODO, we're using fmtlib now, update this. Does fmtlib act as a proper
                 // "logging" lib?
                 std::cerr << "Got unknown " << ii << " dimension: " << dim_labels[ii]
-- 
2.43.0


From 688c6cb8b7425c3bb73d76ecdd5a219c4980c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 66/86] fix: fixed-length strings in filterbank headers

---
 bliss/file_types/h5_filterbank_file.cpp | 37 +++++++++++++++++++------
 1 file changed, 28 insertions(+), 9 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 9eacc73..e770085 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -4,6 +4,7 @@
 #include <fmt/core.h>
 #include <fmt/format.h>
 #include <fmt/ranges.h>
+#include <algorithm> // std::find
 #include <bland/bland.hpp>
 #include <iostream> // cerr
 #include <vector>
@@ -12,6 +13,11 @@ using namespace bliss;
 
 constexpr bool pedantic = false;
 
+// Fixed-length strings are padded with nulls up to their size
+static std::string unpadded_string(const char *val, size_t size) {
+    return std::string(val, std::find(val, val + size, '\0'));
+}
+
 // Default implementation for reading data_attr
 template <typename T>
 T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
@@ -112,11 +118,11 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
         if (dtype.getClass() == H5T_STRING && !dtype.isVariableStr()) {
             // ATA pipeline emits fixed-length bytestrings for the source_name
             hsize_t size = attr.getInMemDataSize();
-            std::vector<uint8_t> val(size);
+            std::vector<char> val(size);
             attr.read(dtype, val.data());
 
             // Convert the byte string to a std::string
-            return std::string(val.begin(), val.end());
+            return unpadded_string(val.data(), size);
         } else if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
             // Some pipelines generate variable length bytestrings
             char* val;
@@ -134,7 +140,7 @@ std::string bliss::h5_filterbank_file::read_data_attr<std::string>(const std::st
 
             return result;
         } else {
-            auto err_msg = fmt::format("{} expected as string but is not a string type");
+            auto err_msg = fmt::format("{} expected as string but is not a string type", key);
             throw std::invalid_argument(err_msg);
         }
     } else {
@@ -148,12 +154,25 @@ template <>
 std::vector<std::string> bliss::h5_filterbank_file::read_data_attr<std::vector<std::string>>(const std::string &key) {
     if (_h5_data_handle.attrExists(key)) {
         H5::Attribute             attr = _h5_data_handle.openAttribute(key);
-        std::vector<const char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *));
-        attr.read(attr.getDataType(), vals_as_read_from_h5.data());
-
-        std::vector<std::string> vals;
-        for (size_t i = 0; i < vals_as_read_from_h5.size(); ++i) {
-            vals.emplace_back(vals_as_read_from_h5[i]);
+        auto                      dtype = attr.getDataType();
+        std::vector<std::string>  vals;
+        if (dtype.getClass() == H5T_STRING && dtype.isVariableStr()) {
+            std::vector<const char *> vals_as_read_from_h5(attr.getInMemDataSize() / sizeof(char *));
+            attr.read(dtype, vals_as_read_from_h5.data());
+
+            for (size_t i = 0; i < vals_as_read_from_h5.size(); ++i) {
+                // an element which was never set is read as a null pointer
+                vals.emplace_back(vals_as_read_from_h5[i] == nullptr ? "" : vals_as_read_from_h5[i]);
+            }
+        } else if (dtype.getClass() == H5T_STRING) {
+            // Fixed-length strings are stored one after another, each padded to the same size
+            std::vector<char> val(attr.getInMemDataSize());
+            attr.read(dtype, val.data());
+            for (size_t start = 0; start + dtype.getSize() <= val.size(); start += dtype.getSize()) {
+                vals.push_back(unpadded_string(val.data() + start, dtype.getSize()));
+            }
+        } else {
+            throw std::invalid_argument("H5 data attribute expected as strings but is not a string type");
         }
 
         return vals;
-- 
2.43.0


From 90a697e244ac123a25e1341dafec0ec8bd2a4c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 67/86] fix: numbers in filterbank headers of any size and byte
 order

---
 bliss/file_types/h5_filterbank_file.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index e770085..5b94466 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -21,7 +21,6 @@ static std::string unpadded_string(const char *val, size_t size) {
 // Default implementation for reading data_attr
 template <typename T>
 T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
-    T val;
     if (_h5_data_handle.attrExists(key)) {
         auto attr  = _h5_data_handle.openAttribute(key);
         auto dtype = attr.getDataType();
@@ -83,10 +82,18 @@ T bliss::h5_filterbank_file::read_data_attr(const std::string &key) {
             double val;
             attr.read(dtype, &val);
             return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_INTEGER) {
+            // Remaining sizes and byte orders, let hdf5 convert to one we can hold
+            int64_t val;
+            attr.read(H5::PredType::NATIVE_INT64, &val);
+            return static_cast<T>(val);
+        } else if (dtype.getClass() == H5T_FLOAT) {
+            double val;
+            attr.read(H5::PredType::NATIVE_DOUBLE, &val);
+            return static_cast<T>(val);
         } else {
-            T val;
-            attr.read(dtype, &val);
-            return val;
+            auto err_msg = fmt::format("H5 data attribute {} expected as number but is not a numeric type", key);
+            throw std::invalid_argument(err_msg);
         }
     } else {
         auto err_msg = fmt::format("H5 data does not have an attribute key {}", key);
-- 
2.43.0


From 93a1c6cbaa33a199d8c9b50056e930ac1ec442c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:37 +0000
Subject: [PATCH 68/86] fix: scans of files without nbits or nifs derive them

---
 bliss/core/scan.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bliss/core/scan.cpp b/bliss/core/scan.cpp
index d11a5ee..a5df28e 100644
--- a/bliss/core/scan.cpp
+++ b/bliss/core/scan.cpp
@@ -181,6 +181,7 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
     } catch (std::invalid_argument &e) {
         // nbits is not specified, derive from datatype (if it's ever likely we get nbits but not datatype
         // we can verify that nbits is 32 before assuming data_type)
+        _nbits = 32;
     }
     // int64_t     nchans;
     try {
@@ -189,14 +190,19 @@ scan::scan(h5_filterbank_file fb_file, int num_fine_channels_per_coarse) {
         // nchans is not specified, derive from datashape
     }
     // int64_t     nifs;
+    bool has_nifs = false;
     try {
         _nifs = fb_file.read_data_attr<int64_t>("nifs");
+        has_nifs = true;
     } catch (std::invalid_argument &e) {
         // nifs is not specified, derive from datashape
     }
 
     // This is expected to be [time, feed, freq]
     auto data_shape = _h5_file_handle->get_data_shape();
+    if (!has_nifs) {
+        _nifs = data_shape[1];
+    }
     if (data_shape.size() == 3) {
         _ntsteps = data_shape[0];
         _tduration_secs = _ntsteps * _tsamp;
-- 
2.43.0


From b6ef411d46b4c135cb76cf4f3747f21d56654a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:03 +0000
Subject: [PATCH 69/86] fix: filterbank regions are read along the axes the
 file labels

---
 bliss/file_types/h5_filterbank_file.cpp       | 40 +++++++++++++++----
 .../include/file_types/h5_filterbank_file.hpp |  6 +++
 2 files changed, 39 insertions(+), 7 deletions(-)

diff --git a/bliss/file_types/h5_filterbank_file.cpp b/bliss/file_types/h5_filterbank_file.cpp
index 5b94466..dfa4f89 100644
--- a/bliss/file_types/h5_filterbank_file.cpp
+++ b/bliss/file_types/h5_filterbank_file.cpp
@@ -257,6 +257,10 @@ bliss::h5_filterbank_file::h5_filterbank_file(std::string_view file_path) {
 
 
 std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
+    return find_data_axes().first;
+}
+
+std::pair<std::vector<int64_t>, std::vector<int>> bliss::h5_filterbank_file::find_data_axes() {
     auto dataspace   = _h5_data_handle.getSpace();
     auto number_dims = dataspace.getSimpleExtentNdims();
 
@@ -318,8 +322,9 @@ std::vector<int64_t> bliss::h5_filterbank_file::get_data_shape() {
     }
 
     auto shape = std::vector<int64_t>({std::get<0>(time_steps), std::get<0>(feed_id), std::get<0>(freq_bins)});
-    return shape;
-  }
+    auto axes  = std::vector<int>({std::get<2>(time_steps), std::get<2>(feed_id), std::get<2>(freq_bins)});
+    return {shape, axes};
+}
 
 
 bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset, std::vector<int64_t> count) {
@@ -328,24 +333,39 @@ bland::ndarray bliss::h5_filterbank_file::read_data(std::vector<int64_t> offset,
 
     bland::ndarray spectrum_grid;
 
-    auto shape = get_data_shape();
+    auto [shape, axes] = find_data_axes();
+    if (axes[0] > axes[2]) {
+        throw std::invalid_argument("h5_filterbank_file: reading data with time more dense than frequency is not supported");
+    }
 
     if (offset.empty()) {
         offset = std::vector<int64_t>(shape.size(), 0);
     }
-    if (count.empty()) {
+    if (count.empty() && offset.size() == shape.size()) {
         count = shape;
         count[0] -= offset[0];
         count[1] -= offset[1];
         count[2] -= offset[2];
     }
+    if (offset.size() != shape.size() || count.size() != shape.size()) {
+        throw std::invalid_argument("h5_filterbank_file: offset and count need an entry for each of time, feed_id, frequency");
+    }
+    for (size_t ii = 0; ii < shape.size(); ++ii) {
+        if (offset[ii] < 0 || offset[ii] > shape[ii] || count[ii] < 0 || count[ii] > shape[ii] - offset[ii]) {
+            throw std::out_of_range("h5_filterbank_file: the requested region is not inside data");
+        }
+    }
     // TODO: if we have cuda we should put this in unified memory since we *know* we'll move it to device
     // and it needs to pass through there anyway
     spectrum_grid = bland::ndarray(count, bland::ndarray::datatype::float32, bland::ndarray::dev::cpu);
-    // TODO: validate both offset and count are size 3
 
-    std::vector<hsize_t> offset_hsize(offset.begin(), offset.end());
-    std::vector<hsize_t> count_hsize(count.begin(), count.end());
+    // Every axis of the dataset which isn't one of time, feed_id, frequency has a single entry
+    std::vector<hsize_t> offset_hsize(number_dims, 0);
+    std::vector<hsize_t> count_hsize(number_dims, 1);
+    for (size_t ii = 0; ii < axes.size(); ++ii) {
+        offset_hsize[axes[ii]] = offset[ii];
+        count_hsize[axes[ii]]  = count[ii];
+    }
 
     dataspace.selectHyperslab(H5S_SELECT_SET, count_hsize.data(), offset_hsize.data());
 
@@ -395,6 +415,12 @@ bland::ndarray bliss::h5_filterbank_file::read_mask(std::vector<int64_t> offset,
     //     mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
     //     return mask_grid;
     // } else {
+        if (count.empty()) {
+            count = get_data_shape();
+            for (size_t ii = 0; ii < offset.size(); ++ii) {
+                count.at(ii) -= offset[ii];
+            }
+        }
         // The file has no "mask" dataset, it's typically zeros anyway so just allocate the appropriate number of uint8 zeros
         auto mask_grid = bland::zeros(count, bland::ndarray::datatype::uint8, bland::ndarray::dev::cpu);
         mask_grid = mask_grid.squeeze(1); // squeeze out the feed_id
diff --git a/bliss/file_types/include/file_types/h5_filterbank_file.hpp b/bliss/file_types/include/file_types/h5_filterbank_file.hpp
index 893eb30..87c6ec5 100644
--- a/bliss/file_types/include/file_types/h5_filterbank_file.hpp
+++ b/bliss/file_types/include/file_types/h5_filterbank_file.hpp
@@ -7,6 +7,7 @@
 #include <stdexcept>
 #include <string>
 #include <string_view>
+#include <utility> // std::pair
 #include <vector>
 
 #include <fmt/format.h>
@@ -76,6 +77,11 @@ class h5_filterbank_file {
     std::string get_file_path() const;
 
   private:
+    /**
+     * Return the shape of `data` as get_data_shape does and the axis of the dataset each of those extents belongs to
+     */
+    std::pair<std::vector<int64_t>, std::vector<int>> find_data_axes();
+
     H5::H5File  _h5_file_handle;
     H5::DataSet _h5_data_handle;
     std::optional<H5::DataSet> _h5_mask_handle;
-- 
2.43.0


From 13349bffe8784c76bc29c500bf298e26f9339809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 70/86] fix: the coarse channel of hits is saved with them

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index 7ff7f0e..f89a27a 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -23,6 +23,7 @@ void bliss::detail::bliss_hit_to_capnp_signal_message(Signal::Builder &signal_bu
 
     signal_builder.setBandwidth(this_hit.bandwidth);
     signal_builder.setBinwidth(this_hit.binwidth);
+    signal_builder.setCoarseChannel(this_hit.coarse_channel_number);
     // These currently aren't in the capn proto definition to be serialized
     // rfi     rfi_counts;
 }
@@ -43,6 +44,7 @@ hit bliss::detail::capnp_signal_message_to_bliss_hit(const Signal::Reader &signa
     this_hit.duration_sec   = signal_reader.getDurationSeconds();
     this_hit.bandwidth      = signal_reader.getBandwidth();
     this_hit.binwidth       = signal_reader.getBinwidth();
+    this_hit.coarse_channel_number = signal_reader.getCoarseChannel();
     // The following are not (currently) in the capn proto definition
     // this_hit.rfi_counts;
 
-- 
2.43.0


From 46ab30ce6e93cf18b63da18d4d37e7c7c62ca848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:00 +0000
Subject: [PATCH 71/86] fix: saved coarse channels keep their number and saved
 scans their channel count

---
 bliss/file_types/detail/cpnp_hit_builder.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/detail/cpnp_hit_builder.cpp b/bliss/file_types/detail/cpnp_hit_builder.cpp
index f89a27a..802bffc 100644
--- a/bliss/file_types/detail/cpnp_hit_builder.cpp
+++ b/bliss/file_types/detail/cpnp_hit_builder.cpp
@@ -57,7 +57,7 @@ void bliss::detail::bliss_coarse_channel_to_capnp_coarse_channel_message(CoarseC
     auto md_builder = cc_builder.initMd();
     md_builder.setFch1(cc.fch1());
     // fil_builder.setBeam(); // not dealing with multiple beams (yet)
-    // fil_builder.setCoarseChannel(); // not dealing with multiple coarse channels (yet)
+    md_builder.setCoarseChannel(cc._coarse_channel_number);
     // fil_builder.setData(); // don't need or want to duplicate large chunks of data (yet)
     md_builder.setDec(cc.src_dej());
     md_builder.setRa(cc.src_raj());
@@ -102,7 +102,8 @@ bliss::detail::capnp_coarse_channel_message_to_bliss_coarse_channel(CoarseChanne
                                           md.getTstart(),
                                           1 /* data_type */,
                                           0 /* az_start */,
-                                          0 /* za_start */
+                                          0 /* za_start */,
+                                          md.getCoarseChannel()
     );
 
     std::list<hit> deserialized_hits;
@@ -167,6 +168,8 @@ scan bliss::detail::capnp_scan_message_to_bliss_scan(Scan::Reader &scan_reader)
     scan_with_hits.set_tsamp(md.getTsamp());
     scan_with_hits.set_fch1(md.getFch1());
     scan_with_hits.set_foff(md.getFoff());
+    scan_with_hits.set_nchans(md.getNumChannels());
+    scan_with_hits.set_telescope_id(md.getTelescopeId());
 
     return scan_with_hits;
 }
-- 
2.43.0


From 3e667e92734db55a1a12f2515e9fe1ab37a4b84a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:43 +0000
Subject: [PATCH 72/86] fix: fft_shift_mag_square wrote past the end of its
 output for even lengths

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 1eb633f..6ea20cc 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -38,7 +38,10 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
         int shift_index = dc_index + i;
         int rev_index = dc_index - i;
         auto mag_squared = real*real + imag*imag;
-        out_ptr[shift_index] = mag_squared;
+        // For even N the Nyquist bin appears only once, at the negative end
+        if (shift_index < N) {
+            out_ptr[shift_index] = mag_squared;
+        }
         if (i != 0) {
             out_ptr[rev_index] = mag_squared;
         }
-- 
2.43.0


From dd5d7cd1af4177af7090aaaa5dc63f973f3dc3c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 73/86] fix: fft_shift_mag_square ignored the offset and stride
 of a sliced input

---
 bland/bland/ops/cpu/frequency_cpu_impl.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/frequency_cpu_impl.cpp b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
index 6ea20cc..69cd6b7 100644
--- a/bland/bland/ops/cpu/frequency_cpu_impl.cpp
+++ b/bland/bland/ops/cpu/frequency_cpu_impl.cpp
@@ -1,4 +1,5 @@
 #include "frequency_cpu_impl.hpp"
+#include "ops_cpu.hpp" // copy
 
 #include "internal/dispatcher.hpp"
 
@@ -22,7 +23,11 @@ ndarray bland::cpu::fft_shift_mag_square(ndarray x, ndarray &out) {
     int N = shape[0];
     int half_N = floor(N/2) + 1;
 
-    auto in_ptr = x.data_ptr<float>();
+    // The transform reads consecutive samples, so gather what a slice selects
+    auto samples = ndarray(shape, x.dtype(), x.device());
+    samples = cpu::copy(x, samples);
+
+    auto in_ptr = samples.data_ptr<float>();
     auto out_ptr = out.data_ptr<float>();
 
     fftwf_complex *fftdata = (fftwf_complex*) fftwf_malloc(sizeof(fftwf_complex) * half_N);
-- 
2.43.0


From 1857ea12c55ba904553789ce217b999a995586d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 74/86] fix: write_to_file wrote every array as if it held
 floats

---
 bland/bland/ops/cpu/ops_cpu.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index 16c3d0d..e1e9e21 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -17,15 +17,14 @@ using namespace bland;
 using namespace bland::cpu;
 
 void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
-    using file_dtype = float;
-    
     std::ofstream out_file(file_path.data(), std::ios::binary);
     if (!out_file) {
         throw std::runtime_error("Unable to open file for writing.");
     }
 
-    // do a typed dispatch :shrug:
-    auto x_data = x.data_ptr<file_dtype>(); // TODO: templatize and dispatch
+    // the raw values are written whatever their type
+    auto x_data    = x.data_ptr<char>();
+    auto item_size = x.dtype().bits / 8;
     auto x_shape = x.shape();
     auto x_strides = x.strides();
     auto x_offset = x.offsets();
@@ -37,8 +36,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
 
     auto numel = x.numel();
     for (int64_t n = 0; n < numel; ++n) {
-        auto val = x_data[x_linear_index];
-        out_file.write(reinterpret_cast<const char*>(&val), sizeof(file_dtype));
+        out_file.write(x_data + x_linear_index * item_size, item_size);
 
         // Increment the multi-dimensional index
         for (int i = nd_index.size() - 1; i >= 0; --i) {
-- 
2.43.0


From c4b74a8dd120fee24013c2cd47107f415d0cd657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 75/86] fix: write_to_file ignored a failure to write

---
 bland/bland/ops/cpu/ops_cpu.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index e1e9e21..bc1082a 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -50,6 +50,9 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
         }
     }
     out_file.close();
+    if (!out_file) {
+        throw std::runtime_error("Unable to write array to file.");
+    }
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
-- 
2.43.0


From 2a5970a9cf95470850a7e0ffed9491403c1a1066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 76/86] fix: read_from_file wrote past its array when the file
 ends within an element

---
 bland/bland/ops/cpu/ops_cpu.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index bc1082a..d3e1056 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -64,10 +64,17 @@ ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype
     // Get the number of bytes, create a buffer big enough, and read it all in
     auto file_length_bytes = get_ifstream_file_length(in_file);
 
-    int64_t numel = file_length_bytes / (dtype.bits/8);
+    int64_t item_size = dtype.bits/8;
+    if (file_length_bytes % item_size != 0) {
+        throw std::runtime_error("File does not hold a whole number of elements of the given type.");
+    }
+    int64_t numel = file_length_bytes / item_size;
     auto x = ndarray({numel}, dtype);
     auto x_ptr = x.data_ptr<char>();
     in_file.read(x_ptr, file_length_bytes);
+    if (in_file.gcount() != file_length_bytes) {
+        throw std::runtime_error("Unable to read array from file.");
+    }
 
     return x;
 }
-- 
2.43.0


From 7102ca889d0dae088473bc87a0d48cd4a0d79129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 77/86] fix: raw array files used the path beyond the end of
 the given string view

---
 bland/bland/ops/cpu/ops_cpu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bland/bland/ops/cpu/ops_cpu.cpp b/bland/bland/ops/cpu/ops_cpu.cpp
index d3e1056..e516a22 100644
--- a/bland/bland/ops/cpu/ops_cpu.cpp
+++ b/bland/bland/ops/cpu/ops_cpu.cpp
@@ -17,7 +17,7 @@ using namespace bland;
 using namespace bland::cpu;
 
 void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
-    std::ofstream out_file(file_path.data(), std::ios::binary);
+    std::ofstream out_file(std::string(file_path), std::ios::binary);
     if (!out_file) {
         throw std::runtime_error("Unable to open file for writing.");
     }
@@ -56,7 +56,7 @@ void bland::cpu::write_to_file(ndarray x, std::string_view file_path) {
 }
 
 ndarray bland::cpu::read_from_file(std::string_view file_path, ndarray::datatype dtype) {
-    std::ifstream in_file(file_path.data(), std::ios::binary);
+    std::ifstream in_file(std::string(file_path), std::ios::binary);
     if (!in_file) {
         throw std::runtime_error("Could not open file for reading.");
     }
-- 
2.43.0


From 388bcc380d1e1eca9a240500692a0721675b4b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:44 +0000
Subject: [PATCH 78/86] fix: median read arrays of other types as if they held
 floats

---
 bland/bland/ops/cpu/statistical_cpu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bland/bland/ops/cpu/statistical_cpu.cpp b/bland/bland/ops/cpu/statistical_cpu.cpp
index 894ecd7..e20271e 100644
--- a/bland/bland/ops/cpu/statistical_cpu.cpp
+++ b/bland/bland/ops/cpu/statistical_cpu.cpp
@@ -912,7 +912,8 @@ ndarray bland::cpu::standardized_moment(const ndarray &a, int degree, ndarray &o
 float bland::cpu::median(const ndarray &x, std::vector<int64_t> axes) {
     const size_t size = x.numel();
 
-    auto x_copy = bland::ndarray(x.shape(), x.dtype(), x.device());
+    // elements of every type are compared as floats
+    auto x_copy = bland::ndarray(x.shape(), ndarray::datatype::float32, x.device());
     x_copy = cpu::copy(x, x_copy);
     auto x_data = x_copy.data_ptr<float>();
     // Compute the position of the median
-- 
2.43.0


From 9f89629dd22b0a9de9280d5c045d51a33a8d9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:01 +0000
Subject: [PATCH 79/86] fix: the response of an odd number of coarse channels
 was folded half a channel off

---
 bliss/preprocess/passband_static_equalize.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/bliss/preprocess/passband_static_equalize.cpp b/bliss/preprocess/passband_static_equalize.cpp
index 3b9e8dc..d63a757 100644
--- a/bliss/preprocess/passband_static_equalize.cpp
+++ b/bliss/preprocess/passband_static_equalize.cpp
@@ -86,8 +86,11 @@ bland::ndarray bliss::gen_coarse_channel_response(int fine_per_coarse, int num_c
 
     // bland::write_to_file(H, "H_full_magsquare.cuda_f32");
 
-    auto number_coarse_channels_contributing = H.size(0)/fine_per_coarse - 1;
-    auto slice_dims = bland::slice_spec{0, fine_per_coarse/2, full_res_length-fine_per_coarse/2};
+    // DC is in the middle of the full response, so coarse channels centered around it begin at half a channel unless there
+    // is an odd number of them
+    auto uncentered = num_coarse_channels % 2 == 0 ? fine_per_coarse/2 : 0;
+    auto number_coarse_channels_contributing = (full_res_length - 2*uncentered)/fine_per_coarse;
+    auto slice_dims = bland::slice_spec{0, uncentered, full_res_length-uncentered};
     auto H_slice = H.slice(slice_dims);
     H = H_slice;
 
-- 
2.43.0


From 88a037a753abb7783662e4668d98a034f3ae909d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 80/86] fix: a dat listing names its SEFD column, so that names
 and values line up

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index e922ac6..b9cb1f6 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -119,7 +119,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
+                        "Top_Hit_#\tDrift_Rate\tSNR\tUncorrected_Frequency\tCorrected_Frequency\tIndex\tfreq_start\tfreq_end\tSEFD\tSEFD_freq\tCoarse_Channel_Number\tFull_number_of_hits\n"
                         "# --------------------------\n",
                         file_path_id,
                         source_name,
-- 
2.43.0


From ebab5390054a67adad6f6ad1972bb008b301ecf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 81/86] fix: the right ascension of a dat listing ended in a
 second s

---
 bliss/file_types/dat_file.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index b9cb1f6..4039f17 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -115,7 +115,7 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         "# File ID: {}\n"
                         "# -------------------------- o --------------------------\n"
                         "# Source:{}\n"
-                        "# MJD: {}\tRA: {}s\tDEC:{}\n"
+                        "# MJD: {}\tRA: {}\tDEC:{}\n"
                         "# DELTAT: {:6f}\tDELTAF(Hz):  {:6f} max_drift_rate: {}\tobs_length: {:2f}\n"
                         "# --------------------------\n"
                         "# "
-- 
2.43.0


From ffbeb1f277868f9cf31266c4c4d735fde4d605d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 82/86] fix: files were opened beyond the end of the given path

---
 bliss/file_types/detail/raii_file_helpers.cpp | 5 +++--
 bliss/file_types/detail/raii_file_helpers.hpp | 5 ++++-
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index f2360b0..c441092 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -7,12 +7,13 @@ using namespace bliss::detail;
 
 bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_path) {
     struct stat buffer;
-    bool file_exists = (stat(file_path.data(), &buffer) == 0);
+    std::string path(file_path); // a view does not have to end with its characters
+    bool file_exists = (stat(path.c_str(), &buffer) == 0);
     if (file_exists) {
         fmt::print("WARN: writing to file {} that already exists. Existing contents will be overwritten.\n", file_path);
     }
 
-    _fd = open(file_path.data(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
+    _fd = open(path.c_str(), O_WRONLY | O_CREAT | O_TRUNC, S_IRUSR | S_IWUSR | S_IRGRP | S_IROTH);
     if (_fd == -1) {
         auto str_err = strerror(errno);
         auto err_msg =
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 58d8a82..2b2c988 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -7,6 +7,9 @@
 #include <fcntl.h>  // for 'open' and 'O_WRONLY'
 #include <unistd.h> // for 'close'
 
+#include <string>
+#include <string_view>
+
 namespace bliss {
 
 namespace detail {
@@ -21,7 +24,7 @@ struct raii_file_for_write {
 struct raii_file_for_read {
     int _fd;
     raii_file_for_read(std::string_view file_path) {
-        _fd = open(file_path.data(), O_RDONLY);
+        _fd = open(std::string(file_path).c_str(), O_RDONLY);
         if (_fd == -1) {
             auto str_err = strerror(errno);
             auto err_msg =
-- 
2.43.0


From d8b68c4f264a181fb686bf5f966db64258a5c591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 83/86] fix: a dat listing that could not be written whole was
 cut off silently

---
 bliss/file_types/dat_file.cpp                 |  4 ++--
 bliss/file_types/detail/raii_file_helpers.cpp | 16 ++++++++++++++++
 bliss/file_types/detail/raii_file_helpers.hpp |  3 +++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/dat_file.cpp b/bliss/file_types/dat_file.cpp
index 4039f17..226d92a 100644
--- a/bliss/file_types/dat_file.cpp
+++ b/bliss/file_types/dat_file.cpp
@@ -130,9 +130,9 @@ void bliss::write_scan_hits_to_dat_file(scan scan_with_hits, std::string_view fi
                         scan_with_hits.foff()*1e6,
                         "n/a",
                         scan_with_hits.ntsteps()*scan_with_hits.tsamp());
-    write(output_file._fd, header.c_str(), header.size());
+    output_file.write(header);
     auto table_contents = format_hits_to_dat_list(hits);
-    write(output_file._fd, table_contents.c_str(), table_contents.size());
+    output_file.write(table_contents);
 }
 
 scan bliss::read_scan_hits_from_dat_file(std::string_view file_path) {
diff --git a/bliss/file_types/detail/raii_file_helpers.cpp b/bliss/file_types/detail/raii_file_helpers.cpp
index c441092..cfc6971 100644
--- a/bliss/file_types/detail/raii_file_helpers.cpp
+++ b/bliss/file_types/detail/raii_file_helpers.cpp
@@ -3,6 +3,9 @@
 
 #include <sys/stat.h>
 
+#include <cstring>
+#include <stdexcept>
+
 using namespace bliss::detail;
 
 bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_path) {
@@ -22,6 +25,19 @@ bliss::detail::raii_file_for_write::raii_file_for_write(std::string_view file_pa
     }
 }
 
+void bliss::detail::raii_file_for_write::write(std::string_view contents) {
+    while (!contents.empty()) {
+        auto written = ::write(_fd, contents.data(), contents.size());
+        if (written < 0) {
+            if (errno == EINTR) {
+                continue;
+            }
+            throw std::runtime_error(fmt::format("raii_file_for_write: could not write to file (error={})", strerror(errno)));
+        }
+        contents.remove_prefix(written);
+    }
+}
+
 bliss::detail::raii_file_for_write::~raii_file_for_write() {
     close(_fd);
 }
diff --git a/bliss/file_types/detail/raii_file_helpers.hpp b/bliss/file_types/detail/raii_file_helpers.hpp
index 2b2c988..34e30f0 100644
--- a/bliss/file_types/detail/raii_file_helpers.hpp
+++ b/bliss/file_types/detail/raii_file_helpers.hpp
@@ -19,6 +19,9 @@ struct raii_file_for_write {
     int _fd;
     raii_file_for_write(std::string_view file_path);
 
+    // write all of the given bytes or throw
+    void write(std::string_view contents);
+
     ~raii_file_for_write();
 };
 struct raii_file_for_read {
-- 
2.43.0


From 59d3ac1e3224817a7e570efdaa38dfc5a63acc6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 84/86] fix: refusing an unknown hits format failed to format
 its own message

---
 bliss/file_types/hits_file.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bliss/file_types/hits_file.cpp b/bliss/file_types/hits_file.cpp
index d4075ef..56d46ac 100644
--- a/bliss/file_types/hits_file.cpp
+++ b/bliss/file_types/hits_file.cpp
@@ -44,7 +44,7 @@ std::list<hit> bliss::read_hits_from_file(std::string_view file_path, std::strin
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_hits_from_file");
     }
 }
@@ -76,7 +76,7 @@ scan bliss::read_scan_hits_from_file(std::string_view file_path, std::string for
         throw std::runtime_error("read_hits_from_dat_file not implemented yet");
         // return read_scan_hits_from_dat_file(file_path);
     } else {
-        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n");
+        fmt::print("ERROR: read_scan_hits_from_file got format '{}' which is unknown. Expect one of 'capnp', 'dat', 'turboseti'\n", format);
         throw std::invalid_argument("Unknown file format to read_scan_hits_from_file");
     }
 }
-- 
2.43.0


From d2d736cb45886a1122a7af2eae1384adf23d2cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:05 +0000
Subject: [PATCH 85/86] fix: bliss_find_hits wrote the hits of every input to
 one file

---
 bliss/bliss_find_hits.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index db851ba..1ac8d53 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -17,6 +17,7 @@
 #include "fmt/core.h"
 #include <fmt/ranges.h>
 #include <cstdint>
+#include <set>
 #include <string>
 #include <vector>
 
@@ -136,16 +137,19 @@ int main(int argc, char *argv[]) {
     pipeline_object_with_hits = bliss::filter_hits(pipeline_object_with_hits, bliss::filter_options{.filter_zero_drift = true});
 
     try {
+        std::set<std::string> written_paths;
         // TODO: add cli args for where to send hits (stdout, file.dat, capn proto serialize,...)
         for (int scan_index=0; scan_index < pipeline_object_with_hits._scans.size(); ++scan_index) {
             auto &sc = pipeline_object_with_hits._scans[scan_index];
             auto hits = sc.hits();
 
-            if (output_path.empty()) {
+            std::string scan_output_path   = output_path;
+            std::string scan_output_format = output_format;
+            if (scan_output_path.empty()) {
                 auto path = fs::path(pipeline_files[scan_index]);
 
-                output_path = path.filename().replace_extension("capnp");
-                output_format = "capnp";
+                scan_output_path   = path.filename().replace_extension("capnp");
+                scan_output_format = "capnp";
             }
 
             if (output_path == "-" || output_path == "stdout") {
@@ -154,7 +158,12 @@ int main(int argc, char *argv[]) {
                     fmt::print("{}\n", h.repr());
                 }
             } else {
-                bliss::write_scan_hits_to_file(sc, output_path, output_format);
+                // every scan needs a file of its own
+                for (int suffix = scan_index; !written_paths.insert(scan_output_path).second; ++suffix) {
+                    auto path        = fs::path(scan_output_path);
+                    scan_output_path = path.parent_path() / (path.stem().string() + "_" + std::to_string(suffix) + path.extension().string());
+                }
+                bliss::write_scan_hits_to_file(sc, scan_output_path, scan_output_format);
             }
         }
     } catch (std::exception &e) {
-- 
2.43.0


From c0c9b7eccd91c8f6f879c9669387f2fde0d71a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:06 +0000
Subject: [PATCH 86/86] fix: bliss_find_hits reported success after hits could
 not be written

---
 bliss/bliss_find_hits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/bliss/bliss_find_hits.cpp b/bliss/bliss_find_hits.cpp
index 1ac8d53..5a541b0 100644
--- a/bliss/bliss_find_hits.cpp
+++ b/bliss/bliss_find_hits.cpp
@@ -170,6 +170,7 @@ int main(int argc, char *argv[]) {
         fmt::print("ERROR: got a fatal exception ({}) while running pipeline. This is likely due to running out of "
                    "memory. Ending processing.\n",
                    e.what());
+        return 1;
     }
 
 }
-- 
2.43.0

