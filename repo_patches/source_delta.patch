From d7d4b6f8b5e0ab3803ade733edb12d0a69ed8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:52 +0000
Subject: [PATCH 01/69] fix: slice offsets of views with negative strides

slice_axis used the stride's magnitude and gufunc_subarray clamped the
offset at zero, so slicing, flipping or looping over a reversed view read
the wrong (or out of bounds) elements; an empty reversed slice panicked.
---
 src/array/views.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index abc7479..930e52b 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -6,7 +6,7 @@ use std::sync::Arc;
 
 impl RumpyArray {
     /// Create a view with new offset, shape, and strides, sharing the buffer.
-    pub fn view_with(&self, offset_delta: usize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
+    pub fn view_with(&self, offset_delta: isize, shape: Vec<usize>, strides: Vec<isize>) -> Self {
         let mut flags = ArrayFlags::WRITEABLE;
         if is_c_contiguous(&shape, &strides, self.dtype.itemsize()) {
             flags |= ArrayFlags::C_CONTIGUOUS;
@@ -17,7 +17,7 @@ impl RumpyArray {
 
         Self {
             buffer: Arc::clone(&self.buffer),
-            offset: self.offset + offset_delta,
+            offset: (self.offset as isize + offset_delta) as usize,
             shape,
             strides,
             dtype: self.dtype.clone(),
@@ -68,9 +68,10 @@ impl RumpyArray {
         };
         let new_len = new_len.max(0) as usize;
 
-        // Compute offset delta (bytes to skip to reach start element)
+        // Compute offset delta (signed: the view being sliced may run backwards).
+        // An empty slice has no start element, so it stays where it is.
         let old_stride = self.strides[axis];
-        let offset_delta = (start as usize) * (old_stride.unsigned_abs());
+        let offset_delta = if new_len == 0 { 0 } else { start * old_stride };
 
         // New stride = old_stride * step
         let mut new_strides = self.strides.clone();
@@ -250,12 +251,12 @@ impl RumpyArray {
         // Handle case where we're extracting a scalar (empty core dims)
         if core_shape.is_empty() {
             return self.view_with(
-                offset_delta.max(0) as usize,
+                offset_delta,
                 vec![1],
                 vec![self.itemsize() as isize],
             );
         }
 
-        self.view_with(offset_delta.max(0) as usize, core_shape, core_strides)
+        self.view_with(offset_delta, core_shape, core_strides)
     }
 }
-- 
2.43.0


From 7dd9e38268033d18635b7496c49cb6602421f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:23 +0000
Subject: [PATCH 02/69] fix: reshape keeps row-major element order for
 non-C-contiguous arrays

A Fortran-ordered array was reshaped with Fortran strides (wrong element
order for reshape/ravel and everything built on them), and other strided
arrays were refused.
---
 src/array/views.rs | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/array/views.rs b/src/array/views.rs
index 930e52b..22d5144 100644
--- a/src/array/views.rs
+++ b/src/array/views.rs
@@ -1,7 +1,7 @@
 //! View operations: reshape, transpose, flip, slice_axis, broadcast_to, squeeze, expand_dims.
 
 use super::flags::ArrayFlags;
-use super::{compute_c_strides, compute_f_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
+use super::{compute_c_strides, is_c_contiguous, is_f_contiguous, RumpyArray};
 use std::sync::Arc;
 
 impl RumpyArray {
@@ -83,23 +83,20 @@ impl RumpyArray {
         self.view_with(offset_delta, new_shape, new_strides)
     }
 
-    /// Reshape array. Returns a view if contiguous, otherwise would need copy.
-    /// For now, only works on contiguous arrays.
+    /// Reshape array. Returns a view if C-contiguous, otherwise a copy.
+    /// Returns None if the sizes differ.
     pub fn reshape(&self, new_shape: Vec<usize>) -> Option<Self> {
         let old_size: usize = self.shape.iter().product();
         let new_size: usize = new_shape.iter().product();
         if old_size != new_size {
             return None;
         }
-        if !self.is_c_contiguous() && !self.is_f_contiguous() {
-            return None; // Would need copy
+        if !self.is_c_contiguous() {
+            // Row-major element order cannot be kept by a view here
+            return self.copy().reshape(new_shape);
         }
 
-        let new_strides = if self.is_c_contiguous() {
-            compute_c_strides(&new_shape, self.dtype.itemsize())
-        } else {
-            compute_f_strides(&new_shape, self.dtype.itemsize())
-        };
+        let new_strides = compute_c_strides(&new_shape, self.dtype.itemsize());
 
         Some(self.view_with(0, new_shape, new_strides))
     }
-- 
2.43.0


From 2441bd860b4be73e75ef9569227f5150df56c89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:29 +0000
Subject: [PATCH 03/69] fix: einsum contractions that are not a plain matmul

Contracted indices in different orders, indices summed in one operand only
and permuted outputs went through the matmul shortcut and came out wrong.
---
 src/ops/einsum.rs | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 5f12e08..1446127 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -541,7 +541,9 @@ fn einsum_binary(
 
     // Try BLAS path for simple contractions
     if can_use_blas(a_sub, b_sub) && !contraction_indices.is_empty() {
-        if let Some(blas_result) = try_blas_contraction(a, b, a_sub, b_sub, out_sub, dim_map, contraction_indices) {
+        let blas_result = try_blas_contraction(a, b, a_sub, b_sub, out_sub, dim_map, contraction_indices)
+            .filter(|r| r.dtype() == result.dtype());
+        if let Some(blas_result) = blas_result {
             // Copy result (dtype-aware)
             let out_ptr = result.data_ptr() as *mut u8;
             let blas_ptr = blas_result.data_ptr();
@@ -576,7 +578,15 @@ fn try_blas_contraction(
 
     // Identify free indices for B (in B but not contracted)
     let b_free: Vec<char> = b_sub.iter().filter(|c| !contract_set.contains(c)).copied().collect();
-    let b_contract: Vec<char> = b_sub.iter().filter(|c| contract_set.contains(c)).copied().collect();
+    // Contracted indices must pair up in the same order on both sides
+    let b_contract: Vec<char> = a_contract.clone();
+
+    // A plain matmul has no index that is summed in one operand only, or kept in both
+    if contraction_indices.iter().any(|c| !a_sub.contains(c) || !b_sub.contains(c))
+        || a_free.iter().any(|c| b_free.contains(c))
+    {
+        return None;
+    }
 
     // Compute dimensions
     let a_free_dims: Vec<usize> = a_free.iter().map(|c| dim_map[c]).collect();
@@ -589,11 +599,6 @@ fn try_blas_contraction(
     let b_free_prod: usize = b_free_dims.iter().product::<usize>().max(1);
     let b_contract_prod: usize = b_contract_dims.iter().product::<usize>().max(1);
 
-    // Contract dimensions must match
-    if a_contract_prod != b_contract_prod {
-        return None;
-    }
-
     // Build permutation for A: free indices first, contracted last
     let a_perm: Vec<usize> = a_free.iter()
         .chain(a_contract.iter())
@@ -648,7 +653,7 @@ fn try_blas_contraction(
         let out_perm: Vec<usize> = out_sub.iter()
             .map(|c| inter_indices.iter().position(|x| x == c))
             .collect::<Option<Vec<_>>>()?;
-        Some(reshaped.transpose_axes(&out_perm))
+        Some(reshaped.transpose_axes(&out_perm).copy())
     }
 }
 
-- 
2.43.0


From b71dacf0e04a8f4680ae7dda1fc6e8e45a1c2910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:29 +0000
Subject: [PATCH 04/69] fix: bounds checks for integer indices and slice
 clamping in tuples

x[10], x[-10], x[i, 10] read out of bounds or panicked, x[:, 9::-1] started
past the end, and a zero step panicked.
---
 src/python/pyarray/dunder_item.rs | 23 +++++++++++-------
 src/python/pyarray/mod.rs         | 39 +++++++++++++++++--------------
 2 files changed, 36 insertions(+), 26 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d374e11..10bcb37 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -9,6 +9,13 @@ use super::{
 };
 use crate::array::RumpyArray;
 
+/// Length of the first axis; a 0-d array has none to index.
+fn leading_axis(arr: &RumpyArray) -> PyResult<usize> {
+    arr.shape().first().copied().ok_or_else(|| {
+        pyo3::exceptions::PyIndexError::new_err("too many indices for array")
+    })
+}
+
 #[pymethods]
 impl PyRumpyArray {
     /// Indexing and slicing.
@@ -103,7 +110,7 @@ impl PyRumpyArray {
                             unreachable!()
                         }
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
                 let val = self.inner.get_element(&indices);
                 return Ok(val.into_pyobject(py)?.into_any().unbind());
             }
@@ -127,7 +134,7 @@ impl PyRumpyArray {
                                 "too many indices for array",
                             ));
                         }
-                        let idx = normalize_index(*idx, result.shape()[axis]);
+                        let idx = normalize_index(*idx, result.shape()[axis])?;
                         result = result.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                         squeeze_axes.push(axis);
                         axis += 1;
@@ -156,7 +163,7 @@ impl PyRumpyArray {
 
         // Handle single integer index
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, leading_axis(&self.inner)?)?;
             let result = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
             let result = result.squeeze_axis(0);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
@@ -164,7 +171,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, leading_axis(&self.inner)?)?;
             let result = self.inner.slice_axis(0, start, stop, step);
             return Ok(Self::new(result).into_pyobject(py)?.into_any().unbind());
         }
@@ -194,7 +201,7 @@ impl PyRumpyArray {
                         let idx: isize = item.extract().unwrap();
                         normalize_index(idx, self.inner.shape()[axis])
                     })
-                    .collect();
+                    .collect::<PyResult<_>>()?;
 
                 if let Some(scalar) = value_scalar {
                     self.inner.set_element(&indices, scalar);
@@ -217,7 +224,7 @@ impl PyRumpyArray {
                     ));
                 }
                 if let Ok(idx) = item.extract::<isize>() {
-                    let idx = normalize_index(idx, view.shape()[axis]);
+                    let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
                     axis += 1;
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
@@ -236,7 +243,7 @@ impl PyRumpyArray {
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
-            let idx = normalize_index(idx, self.inner.shape()[0]);
+            let idx = normalize_index(idx, leading_axis(&self.inner)?)?;
 
             if self.inner.ndim() == 1 {
                 // Single element in 1D array
@@ -257,7 +264,7 @@ impl PyRumpyArray {
 
         // Handle single slice
         if let Ok(slice) = key.downcast::<PySlice>() {
-            let (start, stop, step) = extract_slice_indices(slice, self.inner.shape()[0])?;
+            let (start, stop, step) = extract_slice_indices(slice, leading_axis(&self.inner)?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 1cbc113..9321c07 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -978,13 +978,16 @@ fn extract_slice_indices(
     Ok((indices.start, indices.stop, indices.step))
 }
 
-/// Normalize a negative index to positive.
-fn normalize_index(idx: isize, len: usize) -> usize {
-    if idx < 0 {
-        (len as isize + idx) as usize
-    } else {
-        idx as usize
-    }
+/// Normalize a negative index to positive, rejecting indices out of bounds.
+fn normalize_index(idx: isize, len: usize) -> PyResult<usize> {
+    let pos = if idx < 0 { idx + len as isize } else { idx };
+    if pos < 0 || pos >= len as isize {
+        return Err(pyo3::exceptions::PyIndexError::new_err(format!(
+            "index {} is out of bounds for axis with size {}",
+            idx, len
+        )));
+    }
+    Ok(pos as usize)
 }
 
 /// Resolve a potentially negative axis to a positive index.
@@ -1037,19 +1040,14 @@ fn extract_f64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<f64>> {
 
 /// Normalize slice start/stop values with proper defaults and clamping.
 fn normalize_slice(start: isize, stop: isize, step: isize, len: isize) -> (isize, isize) {
-    let (default_start, default_stop) = if step > 0 {
-        (0, len)
-    } else {
-        (len - 1, -len - 1)
-    };
+    // Positions run over 0..=len forwards and -1..=len-1 backwards
+    let (lo, hi) = if step > 0 { (0, len) } else { (-1, len - 1) };
+    let (default_start, default_stop) = if step > 0 { (lo, hi) } else { (hi, lo) };
 
-    // Apply defaults for sentinel values
-    let start = if start == isize::MIN { default_start } else { start };
-    let stop = if stop == isize::MAX { default_stop } else { stop };
+    let clamp = |i: isize| if i < 0 { (i + len).max(lo) } else { i.min(hi) };
 
-    // Normalize negative indices
-    let start = if start < 0 { (start + len).max(0) } else { start.min(len) };
-    let stop = if stop < 0 { (stop + len).max(-1) } else { stop.min(len) };
+    let start = if start == isize::MIN { default_start } else { clamp(start) };
+    let stop = if stop == isize::MAX { default_stop } else { clamp(stop) };
 
     (start, stop)
 }
@@ -1118,6 +1116,11 @@ fn expand_ellipsis(tuple: &Bound<'_, PyTuple>, ndim: usize) -> PyResult<Vec<Inde
             let step = slice.getattr("step").ok()
                 .and_then(|v| if v.is_none() { None } else { v.extract::<isize>().ok() })
                 .unwrap_or(1);
+            if step == 0 {
+                return Err(pyo3::exceptions::PyValueError::new_err(
+                    "slice step cannot be zero",
+                ));
+            }
 
             // Use sentinel values that will be processed during application
             items.push(IndexItem::Slice(
-- 
2.43.0


From 64e7973757601d8d64b4beff13dce50fd25f637d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:40:04 +0000
Subject: [PATCH 05/69] fix: slice assignment from overlapping, broadcast and
 wide-integer sources

a[1:] = a[:-1] read elements it had already overwritten, a[i] = row and
other broadcastable sources were refused, and values went through f64.
---
 src/python/pyarray/dunder_item.rs |  7 +++++++
 src/python/pyarray/mod.rs         | 27 +++++++++++++++------------
 2 files changed, 22 insertions(+), 12 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index 10bcb37..ccb81ac 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -216,6 +216,7 @@ impl PyRumpyArray {
             // Slice assignment - get view and fill
             let mut view = self.inner.clone();
             let mut axis = 0usize;
+            let mut squeeze_axes: Vec<usize> = Vec::new();
 
             for item in tuple.iter() {
                 if axis >= view.ndim() {
@@ -226,6 +227,7 @@ impl PyRumpyArray {
                 if let Ok(idx) = item.extract::<isize>() {
                     let idx = normalize_index(idx, view.shape()[axis])?;
                     view = view.slice_axis(axis, idx as isize, idx as isize + 1, 1);
+                    squeeze_axes.push(axis);
                     axis += 1;
                 } else if let Ok(slice) = item.downcast::<PySlice>() {
                     let (start, stop, step) = extract_slice_indices(slice, view.shape()[axis])?;
@@ -238,6 +240,10 @@ impl PyRumpyArray {
                 }
             }
 
+            for &ax in squeeze_axes.iter().rev() {
+                view = view.squeeze_axis(ax);
+            }
+
             return fill_view(&mut view, value_scalar, value_array.as_deref());
         }
 
@@ -258,6 +264,7 @@ impl PyRumpyArray {
             } else {
                 // Row/slice assignment
                 let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
+                view = view.squeeze_axis(0);
                 return fill_view(&mut view, value_scalar, value_array.as_deref());
             }
         }
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 9321c07..3012dc4 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1156,18 +1156,21 @@ fn fill_view(
         }
         Ok(())
     } else if let Some(src) = array {
-        // Copy from array (shapes must match)
-        if view.shape() != src.inner.shape() {
-            return Err(pyo3::exceptions::PyValueError::new_err(
-                "could not broadcast input array to shape",
-            ));
-        }
-        let mut indices = vec![0usize; view.ndim()];
-        let shape = view.shape().to_vec();
-        for _ in 0..view.size() {
-            let val = src.inner.get_element(&indices);
-            view.set_element(&indices, val);
-            increment_indices(&mut indices, &shape);
+        // Copy from array, broadcasting it to the view's shape
+        let src = src.inner.broadcast_to(view.shape()).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err("could not broadcast input array to shape")
+        })?;
+        // Overlapping source: read everything before writing anything
+        let src = if src.shares_buffer_with(view) || src.dtype() != view.dtype() {
+            src.astype(view.dtype())
+        } else {
+            src
+        };
+        let ops = view.dtype();
+        let src_ptr = src.data_ptr();
+        let dst_ptr = view.data_ptr_mut();
+        for (from, to) in src.iter_offsets().zip(view.iter_offsets()) {
+            unsafe { ops.ops().copy_element(src_ptr, from, dst_ptr.offset(to), 0); }
         }
         Ok(())
     } else {
-- 
2.43.0


From 789f2714745cd55aaa2f0d7cdc83da7fd8f5fb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:35:37 +0000
Subject: [PATCH 06/69] fix: astype between integer dtypes and from complex
 keeps exact values

Casts went through f64: int64/uint64 lost low bits and complex sources
became zero.
---
 src/array/mod.rs | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index 2ccb842..c08e524 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -414,8 +414,21 @@ impl RumpyArray {
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
+                _ if self.dtype.is_integer() && (new_dtype.is_integer() || dst_kind == DTypeKind::Bool) => {
+                    // Integer to integer: exact, wrapping to the target width
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let val = unsafe { src_ops.read_i64(src_ptr, offset) }.unwrap_or(0);
+                        unsafe { dst_ops.write_i64(result_ptr, i, val); }
+                    }
+                }
+                (DTypeKind::Complex64 | DTypeKind::Complex128, _) => {
+                    for (i, offset) in self.iter_offsets().enumerate() {
+                        let (re, im) = unsafe { src_ops.read_complex(src_ptr, offset) }.unwrap_or((0.0, 0.0));
+                        unsafe { dst_ops.write_complex(result_ptr, i, re, im); }
+                    }
+                }
                 _ => {
-                    // Cross-dtype conversion via f64 (lossy for complex)
+                    // Cross-dtype conversion via f64
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                         unsafe { dst_ops.write_f64(result_ptr, i, val); }
-- 
2.43.0


From 143fdbc1331adeb3d4906d5f5b8eaceef71eca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:29 +0000
Subject: [PATCH 07/69] fix: copyto with overlapping, wide-integer and complex
 sources

---
 src/python/creation.rs | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index f8e5794..37f3d97 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -1058,6 +1058,14 @@ pub fn copyto(
     } else {
         src.inner.clone()
     };
+    // Same dtype and no overlap from here on: read everything before writing anything
+    let src_broadcasted = if src_broadcasted.dtype() != dst.inner.dtype()
+        || src_broadcasted.shares_buffer_with(&dst.inner)
+    {
+        src_broadcasted.astype(dst.inner.dtype())
+    } else {
+        src_broadcasted
+    };
 
     let size = dst.inner.size();
     let shape = dst.inner.shape().to_vec();
@@ -1068,9 +1076,7 @@ pub fn copyto(
     let dst_ptr = dst.inner.data_ptr() as *mut u8;
     let src_ptr = src_broadcasted.data_ptr();
     let dst_dtype = dst.inner.dtype();
-    let src_dtype = src_broadcasted.dtype();
     let dst_ops = dst_dtype.ops();
-    let src_ops = src_dtype.ops();
 
     match where_mask {
         Some(mask) => {
@@ -1085,6 +1091,11 @@ pub fn copyto(
             } else {
                 mask.inner.clone()
             };
+            let mask_broadcasted = if mask_broadcasted.shares_buffer_with(&dst.inner) {
+                mask_broadcasted.copy()
+            } else {
+                mask_broadcasted
+            };
 
             let mask_ptr = mask_broadcasted.data_ptr();
             let mask_dtype = mask_broadcasted.dtype();
@@ -1094,16 +1105,14 @@ pub fn copyto(
                 .zip(src_broadcasted.iter_offsets())
                 .zip(mask_broadcasted.iter_offsets())
             {
-                let mask_val = unsafe { mask_ops.read_f64(mask_ptr, mask_off) }.unwrap_or(0.0);
-                if mask_val != 0.0 {
-                    let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                    unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+                if unsafe { mask_ops.is_truthy(mask_ptr, mask_off) } {
+                    unsafe { dst_ops.copy_element(src_ptr, src_off, dst_ptr.offset(dst_off), 0); }
                 }
             }
         }
         None => {
-            // Fast path: both contiguous and same dtype - use memcpy
-            if dst_dtype == src_dtype && dst.inner.is_c_contiguous() && src_broadcasted.is_c_contiguous() {
+            // Fast path: both contiguous - use memcpy
+            if dst.inner.is_c_contiguous() && src_broadcasted.is_c_contiguous() {
                 let nbytes = size * dst.inner.itemsize();
                 unsafe { std::ptr::copy_nonoverlapping(src_ptr, dst_ptr, nbytes); }
                 return Ok(());
@@ -1113,8 +1122,7 @@ pub fn copyto(
             for (dst_off, src_off) in dst.inner.iter_offsets()
                 .zip(src_broadcasted.iter_offsets())
             {
-                let val = unsafe { src_ops.read_f64(src_ptr, src_off) }.unwrap_or(0.0);
-                unsafe { dst_ops.write_f64_at_byte_offset(dst_ptr, dst_off, val); }
+                unsafe { dst_ops.copy_element(src_ptr, src_off, dst_ptr.offset(dst_off), 0); }
             }
         }
     }
-- 
2.43.0


From cab10dc8090bc33e69f04fef0880899c811e9439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:29 +0000
Subject: [PATCH 08/69] fix: place and putmask with other dtypes, overlapping
 operands and float16/complex targets

Values of another dtype were reinterpreted as raw memory and contiguous
float16/complex targets were silently left unchanged.
---
 src/python/misc.rs | 40 ++++++++++++++++++++++++++--------------
 1 file changed, 26 insertions(+), 14 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index 18ec667..cfc735f 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -499,8 +499,17 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
 #[pyfunction]
 pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> PyResult<()> {
     let inner = &arr.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &vals.inner;
+    // Bool mask and values of the target dtype, neither overlapping the target
+    let mask_arr = &if mask.inner.dtype().kind() != DTypeKind::Bool || mask.inner.shares_buffer_with(inner) {
+        mask.inner.astype(DType::bool())
+    } else {
+        mask.inner.clone()
+    };
+    let vals_arr = &if vals.inner.dtype() != inner.dtype() || vals.inner.shares_buffer_with(inner) {
+        vals.inner.astype(inner.dtype())
+    } else {
+        vals.inner.clone()
+    };
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -535,6 +544,7 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
                         val_idx += 1;
                     }
                 }
+                return Ok(());
             }};
         }
 
@@ -552,7 +562,6 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
             DTypeKind::Bool => place_typed!(u8),
             _ => {} // Fall through to generic path
         }
-        return Ok(());
     }
 
     // Strided path with typed dispatch
@@ -591,13 +600,10 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
         _ => {
             // Complex types fallback
             let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
             let mut val_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[val_idx % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe { arr_ops.copy_element(vals_ptr, vals_offsets[val_idx % vals_size], (arr_ptr as *mut u8).offset(arr_offsets[i]), 0); }
                     val_idx += 1;
                 }
             }
@@ -616,8 +622,17 @@ pub fn place(arr: &PyRumpyArray, mask: &PyRumpyArray, vals: &PyRumpyArray) -> Py
 #[pyfunction]
 pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) -> PyResult<()> {
     let inner = &a.inner;
-    let mask_arr = &mask.inner;
-    let vals_arr = &values.inner;
+    // Bool mask and values of the target dtype, neither overlapping the target
+    let mask_arr = &if mask.inner.dtype().kind() != DTypeKind::Bool || mask.inner.shares_buffer_with(inner) {
+        mask.inner.astype(DType::bool())
+    } else {
+        mask.inner.clone()
+    };
+    let vals_arr = &if values.inner.dtype() != inner.dtype() || values.inner.shares_buffer_with(inner) {
+        values.inner.astype(inner.dtype())
+    } else {
+        values.inner.clone()
+    };
 
     if mask_arr.size() != inner.size() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -650,6 +665,7 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
                         unsafe { *dst.add(i) = *src.add(i % vals_size); }
                     }
                 }
+                return Ok(());
             }};
         }
 
@@ -667,7 +683,6 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
             DTypeKind::Bool => putmask_typed!(u8),
             _ => {} // Fall through to generic path
         }
-        return Ok(());
     }
 
     // Strided path with typed dispatch
@@ -704,12 +719,9 @@ pub fn putmask(a: &PyRumpyArray, mask: &PyRumpyArray, values: &PyRumpyArray) ->
         _ => {
             // Complex types fallback
             let arr_ops = arr_dtype.ops();
-            let vals_dtype = vals_arr.dtype();
-            let vals_ops = vals_dtype.ops();
             for i in 0..size {
                 if unsafe { *(mask_ptr.offset(mask_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { vals_ops.read_f64(vals_ptr, vals_offsets[i % vals_size]) }.unwrap_or(0.0);
-                    unsafe { arr_ops.write_f64_at_byte_offset(arr_ptr as *mut u8, arr_offsets[i], val); }
+                    unsafe { arr_ops.copy_element(vals_ptr, vals_offsets[i % vals_size], (arr_ptr as *mut u8).offset(arr_offsets[i]), 0); }
                 }
             }
         }
-- 
2.43.0


From b48b6964848ac4950a145e871ace8264aa5bf8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:29 +0000
Subject: [PATCH 09/69] fix: put_along_axis validates all indices before
 writing and stores exact values

---
 src/ops/indexing.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index dc9e81a..e9593be 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -537,6 +537,13 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     }
 
     let axis_len = arr.shape()[axis];
+    // Read overlapping operands and cast values before writing anything
+    let indices = &if indices.shares_buffer_with(arr) { indices.copy() } else { indices.clone() };
+    let values = &if values.dtype() != arr.dtype() || values.shares_buffer_with(arr) {
+        values.astype(arr.dtype())
+    } else {
+        values.clone()
+    };
     let idx_ptr = indices.data_ptr();
     let idx_dtype = indices.dtype();
     let idx_ops = idx_dtype.ops();
@@ -544,6 +551,12 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
     let val_dtype = values.dtype();
     let val_ops = val_dtype.ops();
 
+    // Reject the whole call when any index is out of bounds
+    for offset in indices.iter_offsets() {
+        let idx = unsafe { idx_ops.read_i64(idx_ptr, offset) }.unwrap_or(0) as isize;
+        normalize_index(idx, axis_len)?;
+    }
+
     let idx_strides = indices.strides();
     let val_strides = values.strides();
     let ndim = indices.ndim();
@@ -567,12 +580,12 @@ pub fn put_along_axis(arr: &mut RumpyArray, indices: &RumpyArray, values: &Rumpy
         let idx_val = unsafe { idx_ops.read_i64(idx_ptr, idx_offset) }.unwrap_or(0) as isize;
         let normalized_idx = normalize_index(idx_val, axis_len)?;
 
-        let val = unsafe { val_ops.read_f64(val_ptr, val_offset) }.unwrap_or(0.0);
-
         target_indices.copy_from_slice(&idx_indices);
         target_indices[axis] = normalized_idx;
 
-        arr.set_element(&target_indices, val);
+        let dst = arr.data_ptr_mut();
+        let dst_offset = arr.byte_offset_for(&target_indices);
+        unsafe { val_ops.copy_element(val_ptr, val_offset, dst.offset(dst_offset), 0); }
 
         for d in (0..ndim).rev() {
             idx_indices[d] += 1;
-- 
2.43.0


From f4da2b601c89b91a18e7d691c8bdf8fe6fa10ce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:29 +0000
Subject: [PATCH 10/69] fix: swapaxes of equal axes is a view; tolist of
 complex and uint64 values

---
 src/ops/mod.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 5976f7e..9bfc60d 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -50,7 +50,7 @@ pub use array_methods::lexsort;
 pub use special::{sinc, i0, spacing, modf, frexp, ldexp, heaviside, gcd, lcm};
 
 use crate::array::{broadcast_shapes, increment_indices, promote_dtype, DType, RumpyArray};
-use crate::array::dtype::UnaryOp;
+use crate::array::dtype::{DTypeKind, UnaryOp};
 use std::sync::Arc;
 
 // Re-export BinaryOp from dtype module
@@ -186,7 +186,7 @@ impl RumpyArray {
         assert!(axis2 < ndim, "axis2 out of bounds");
 
         if axis1 == axis2 {
-            return self.copy();
+            return self.clone();
         }
 
         // Build permutation: swap axis1 and axis2
@@ -288,6 +288,14 @@ impl RumpyArray {
                 let ptr = arr.data_ptr();
                 let dtype = arr.dtype();
                 let ops = dtype.ops();
+                if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+                    let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
+                    return Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind());
+                }
+                if dtype.kind() == DTypeKind::Uint64 {
+                    let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0) as u64;
+                    return Ok(val.into_pyobject(py)?.into_any().unbind());
+                }
                 if use_int {
                     let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
                     return Ok(val.into_pyobject(py)?.into_any().unbind());
-- 
2.43.0


From 9756bbdf102c5aed00b11519803d06d0f283a9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:38:29 +0000
Subject: [PATCH 11/69] fix: assignment of one-element arrays keeps exact
 values; self assignment

---
 src/python/pyarray/dunder_item.rs | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index ccb81ac..d277f26 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -182,17 +182,21 @@ impl PyRumpyArray {
     }
 
     /// Item assignment (slice or element).
-    fn __setitem__(&mut self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
-        // Extract value as scalar or array
-        let value_scalar = value.extract::<f64>().ok();
-        let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok();
+    fn __setitem__(&self, key: &Bound<'_, PyAny>, value: &Bound<'_, PyAny>) -> PyResult<()> {
+        // Extract value as array (a one-element array acts like a scalar of its dtype) or scalar
+        let value_array = value.extract::<PyRef<'_, PyRumpyArray>>().ok().map(|arr| {
+            let arr = &arr.inner;
+            Self::new(if arr.size() == 1 { arr.reshape(vec![]) } else { None }.unwrap_or_else(|| arr.clone()))
+        });
+        let value_scalar = if value_array.is_none() { value.extract::<f64>().ok() } else { None };
+        let single_array = value_array.as_ref().is_some_and(|arr| arr.inner.size() == 1);
 
         // Handle tuple for multi-dimensional indexing
         if let Ok(tuple) = key.downcast::<PyTuple>() {
             // Check if all indices are integers (single element assignment)
             let all_ints = tuple.iter().all(|item| item.extract::<isize>().is_ok());
 
-            if all_ints && tuple.len() == self.inner.ndim() {
+            if all_ints && tuple.len() == self.inner.ndim() && !single_array {
                 // Single element assignment
                 let indices: Vec<usize> = tuple
                     .iter()
@@ -204,7 +208,7 @@ impl PyRumpyArray {
                     .collect::<PyResult<_>>()?;
 
                 if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&indices, scalar);
+                    self.inner.clone().set_element(&indices, scalar);
                     return Ok(());
                 } else {
                     return Err(pyo3::exceptions::PyTypeError::new_err(
@@ -244,17 +248,17 @@ impl PyRumpyArray {
                 view = view.squeeze_axis(ax);
             }
 
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&mut view, value_scalar, value_array.as_ref());
         }
 
         // Handle single integer index (row assignment for 2D+, or single element for 1D)
         if let Ok(idx) = key.extract::<isize>() {
             let idx = normalize_index(idx, leading_axis(&self.inner)?)?;
 
-            if self.inner.ndim() == 1 {
+            if self.inner.ndim() == 1 && !single_array {
                 // Single element in 1D array
                 if let Some(scalar) = value_scalar {
-                    self.inner.set_element(&[idx], scalar);
+                    self.inner.clone().set_element(&[idx], scalar);
                     return Ok(());
                 } else {
                     return Err(pyo3::exceptions::PyTypeError::new_err(
@@ -265,7 +269,7 @@ impl PyRumpyArray {
                 // Row/slice assignment
                 let mut view = self.inner.slice_axis(0, idx as isize, idx as isize + 1, 1);
                 view = view.squeeze_axis(0);
-                return fill_view(&mut view, value_scalar, value_array.as_deref());
+                return fill_view(&mut view, value_scalar, value_array.as_ref());
             }
         }
 
@@ -273,7 +277,7 @@ impl PyRumpyArray {
         if let Ok(slice) = key.downcast::<PySlice>() {
             let (start, stop, step) = extract_slice_indices(slice, leading_axis(&self.inner)?)?;
             let mut view = self.inner.slice_axis(0, start, stop, step);
-            return fill_view(&mut view, value_scalar, value_array.as_deref());
+            return fill_view(&mut view, value_scalar, value_array.as_ref());
         }
 
         Err(pyo3::exceptions::PyTypeError::new_err(
-- 
2.43.0


From 11cac8c372711f3f6e01901862adc17af2c8ce8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:40:29 +0000
Subject: [PATCH 12/69] fix: scalar access, item and flat return exact integers
 and complex values

Elements went through f64: integers above 2^53 were rounded and complex
elements read as 0.
---
 src/ops/mod.rs                    | 48 ++++++++++++++++---------------
 src/python/pyarray/dunder_item.rs |  3 +-
 src/python/pyarray/mod.rs         | 20 ++++++-------
 3 files changed, 36 insertions(+), 35 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 9bfc60d..9b86fa6 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -279,30 +279,11 @@ impl RumpyArray {
             py: pyo3::Python<'_>,
             depth: usize,
             indices: &mut Vec<usize>,
-            use_int: bool,
         ) -> pyo3::PyResult<pyo3::PyObject> {
             use pyo3::IntoPyObject;
             if depth == arr.ndim() {
                 // Base case: return scalar of appropriate type
-                let offset = arr.byte_offset_for(indices);
-                let ptr = arr.data_ptr();
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
-                    let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
-                    return Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind());
-                }
-                if dtype.kind() == DTypeKind::Uint64 {
-                    let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0) as u64;
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                }
-                if use_int {
-                    let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                } else {
-                    let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                    return Ok(val.into_pyobject(py)?.into_any().unbind());
-                }
+                return arr.element_to_py(py, arr.byte_offset_for(indices));
             }
 
             // Build list for this dimension
@@ -310,15 +291,36 @@ impl RumpyArray {
             let mut items = Vec::with_capacity(dim_size);
             for i in 0..dim_size {
                 indices[depth] = i;
-                items.push(build_list(arr, py, depth + 1, indices, use_int)?);
+                items.push(build_list(arr, py, depth + 1, indices)?);
             }
             let list = PyList::new(py, items)?;
             Ok(list.into_pyobject(py)?.into_any().unbind())
         }
 
         let mut indices = vec![0usize; self.ndim()];
-        let use_int = self.dtype().is_integer();
-        build_list(self, py, 0, &mut indices, use_int)
+        build_list(self, py, 0, &mut indices)
+    }
+
+    /// Convert the element at a byte offset to a Python int, complex or float.
+    pub fn element_to_py(&self, py: pyo3::Python<'_>, offset: isize) -> pyo3::PyResult<pyo3::PyObject> {
+        use pyo3::IntoPyObject;
+        let ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+            let (re, im) = unsafe { ops.read_complex(ptr, offset) }.unwrap_or((0.0, 0.0));
+            return Ok(pyo3::types::PyComplex::from_doubles(py, re, im).into_any().unbind());
+        }
+        if dtype.kind() == DTypeKind::Uint64 {
+            let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0) as u64;
+            return Ok(val.into_pyobject(py)?.into_any().unbind());
+        }
+        if dtype.is_integer() {
+            let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
+            return Ok(val.into_pyobject(py)?.into_any().unbind());
+        }
+        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+        Ok(val.into_pyobject(py)?.into_any().unbind())
     }
 }
 
diff --git a/src/python/pyarray/dunder_item.rs b/src/python/pyarray/dunder_item.rs
index d277f26..b881724 100644
--- a/src/python/pyarray/dunder_item.rs
+++ b/src/python/pyarray/dunder_item.rs
@@ -111,8 +111,7 @@ impl PyRumpyArray {
                         }
                     })
                     .collect::<PyResult<_>>()?;
-                let val = self.inner.get_element(&indices);
-                return Ok(val.into_pyobject(py)?.into_any().unbind());
+                return self.inner.element_to_py(py, self.inner.byte_offset_for(&indices));
             }
 
             // Process indices, tracking which axes had integer indices (to squeeze)
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 3012dc4..a7b4ff5 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -423,13 +423,13 @@ impl PyRumpyArray {
     }
 
     /// Extract a scalar from a size-1 array.
-    fn item(&self) -> PyResult<f64> {
+    fn item(&self, py: Python<'_>) -> PyResult<PyObject> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyValueError::new_err(
                 "can only convert an array of size 1 to a Python scalar",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        self.inner.element_to_py(py, 0)
     }
 
     /// Clip values to a range.
@@ -1489,34 +1489,34 @@ impl PyFlatIter {
         slf
     }
 
-    fn __next__(&mut self) -> Option<f64> {
+    fn __next__(&mut self, py: Python<'_>) -> PyResult<Option<PyObject>> {
         let size = self.inner.size();
         if self.index >= size {
-            return None;
+            return Ok(None);
         }
 
         // Get element at current flat index
-        let val = self.get_flat_element(self.index);
+        let val = self.get_flat_element(py, self.index)?;
         self.index += 1;
-        Some(val)
+        Ok(Some(val))
     }
 
     fn __len__(&self) -> usize {
         self.inner.size()
     }
 
-    fn __getitem__(&self, index: isize) -> PyResult<f64> {
+    fn __getitem__(&self, py: Python<'_>, index: isize) -> PyResult<PyObject> {
         let size = self.inner.size() as isize;
         let idx = if index < 0 { size + index } else { index };
         if idx < 0 || idx >= size {
             return Err(pyo3::exceptions::PyIndexError::new_err("index out of bounds"));
         }
-        Ok(self.get_flat_element(idx as usize))
+        self.get_flat_element(py, idx as usize)
     }
 }
 
 impl PyFlatIter {
-    fn get_flat_element(&self, flat_idx: usize) -> f64 {
+    fn get_flat_element(&self, py: Python<'_>, flat_idx: usize) -> PyResult<PyObject> {
         let shape = self.inner.shape();
         let ndim = shape.len();
 
@@ -1528,6 +1528,6 @@ impl PyFlatIter {
             remaining /= shape[i];
         }
 
-        self.inner.get_element(&indices)
+        self.inner.element_to_py(py, self.inner.byte_offset_for(&indices))
     }
 }
-- 
2.43.0


From 61f40e5e8d8cfedf22e2f67986a024559b5d7ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:47:22 +0000
Subject: [PATCH 13/69] fix: floor semantics of remainder and floor_divide, C
 semantics of fmod, shifts by the width, exact mixed-dtype arithmetic

---
 src/array/dtype/float16.rs    |  2 +-
 src/array/dtype/macros.rs     | 15 ++++++---
 src/ops/bitwise.rs            |  4 +++
 src/ops/kernels/arithmetic.rs | 31 +++++++++++++++---
 src/ops/kernels/bitwise.rs    |  6 ++--
 src/ops/ufunc.rs              | 15 +++++++++
 src/python/ufuncs.rs          | 62 +++++++++++++++++++++++------------
 7 files changed, 103 insertions(+), 32 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index e527191..41494a2 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -96,7 +96,7 @@ impl DTypeOps for Float16Ops {
             BinaryOp::Mul => av * bv,
             BinaryOp::Div => av / bv,
             BinaryOp::Pow => av.powf(bv),
-            BinaryOp::Mod => av % bv,
+            BinaryOp::Mod => crate::ops::kernels::arithmetic::floor_mod!(av, bv),
             BinaryOp::FloorDiv => (av / bv).floor(),
             BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.max(bv) },
             BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.min(bv) },
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index c9c715d..22d78d0 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -98,7 +98,7 @@ macro_rules! impl_float_dtype {
                     BinaryOp::Mul => av * bv,
                     BinaryOp::Div => av / bv,
                     BinaryOp::Pow => av.powf(bv),
-                    BinaryOp::Mod => av % bv,
+                    BinaryOp::Mod => crate::ops::kernels::arithmetic::floor_mod!(av, bv),
                     BinaryOp::FloorDiv => (av / bv).floor(),
                     BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.max(bv) },
                     BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.min(bv) },
@@ -310,10 +310,17 @@ macro_rules! impl_signed_int_dtype {
                     BinaryOp::Add => av.wrapping_add(bv),
                     BinaryOp::Sub => av.wrapping_sub(bv),
                     BinaryOp::Mul => av.wrapping_mul(bv),
-                    BinaryOp::Div => if bv != 0 { av / bv } else { 0 },
+                    BinaryOp::Div => if bv != 0 { av.wrapping_div(bv) } else { 0 },
                     BinaryOp::Pow => if bv >= 0 { av.wrapping_pow(bv as u32) } else { 0 },
-                    BinaryOp::Mod => if bv != 0 { av % bv } else { 0 },
-                    BinaryOp::FloorDiv => if bv != 0 { av.div_euclid(bv) } else { 0 },
+                    BinaryOp::Mod => if bv != 0 {
+                        let r = av.wrapping_rem(bv);
+                        if r != 0 && (r < 0) != (bv < 0) { r.wrapping_add(bv) } else { r }
+                    } else { 0 },
+                    BinaryOp::FloorDiv => if bv != 0 {
+                        let q = av.wrapping_div(bv);
+                        let r = av.wrapping_rem(bv);
+                        if r != 0 && (r < 0) != (bv < 0) { q.wrapping_sub(1) } else { q }
+                    } else { 0 },
                     BinaryOp::Maximum | BinaryOp::FMax => av.max(bv),
                     BinaryOp::Minimum | BinaryOp::FMin => av.min(bv),
                     // Float-only ops: convert to float, compute, convert back
diff --git a/src/ops/bitwise.rs b/src/ops/bitwise.rs
index bba3c9f..58621c2 100644
--- a/src/ops/bitwise.rs
+++ b/src/ops/bitwise.rs
@@ -13,6 +13,10 @@ use crate::ops::dispatch;
 /// Apply a binary bitwise operation element-wise, preserving dtype.
 fn map_binary_bitwise(a: &RumpyArray, b: &RumpyArray, op: BitwiseOp) -> Option<RumpyArray> {
     let out_dtype = promote_dtype(&a.dtype(), &b.dtype());
+    if a.dtype() != b.dtype() {
+        // Bring both operands to the common dtype first: the loops below read only one dtype
+        return map_binary_bitwise(&a.astype(out_dtype.clone()), &b.astype(out_dtype), op);
+    }
     let (a_bc, b_bc, result, out_shape) = broadcast_binary_setup(a, b, out_dtype.clone())?;
 
     if result.size() == 0 {
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index c7d3a61..3bc39f8 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -89,6 +89,15 @@ pub struct SumOfSquares;
 // Float implementations
 // ============================================================================
 
+/// Floating-point remainder with the sign of the divisor (Python/NumPy `%`).
+macro_rules! floor_mod {
+    ($a:expr, $b:expr) => {{
+        let r = $a % $b;
+        if r != 0.0 && (r < 0.0) != ($b < 0.0) { r + $b } else { r }
+    }};
+}
+pub(crate) use floor_mod;
+
 macro_rules! impl_float_arithmetic {
     ($T:ty) => {
         impl BinaryKernel<$T> for Add {
@@ -143,7 +152,7 @@ macro_rules! impl_float_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { a % b }
+            fn apply(a: $T, b: $T) -> $T { floor_mod!(a, b) }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
@@ -318,7 +327,10 @@ impl BinaryKernel<f16> for Pow {
 }
 impl BinaryKernel<f16> for Mod {
     #[inline(always)]
-    fn apply(a: f16, b: f16) -> f16 { f16::from_f32(a.to_f32() % b.to_f32()) }
+    fn apply(a: f16, b: f16) -> f16 { {
+        let (a, b) = (a.to_f32(), b.to_f32());
+        f16::from_f32(floor_mod!(a, b))
+    } }
 }
 impl BinaryKernel<f16> for FloorDiv {
     #[inline(always)]
@@ -452,11 +464,22 @@ macro_rules! impl_int_arithmetic {
         }
         impl BinaryKernel<$T> for Mod {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a % b } }
+            fn apply(a: $T, b: $T) -> $T {
+                // Sign follows the divisor, as in Python
+                if b == $zero { return $zero; }
+                let r = a.wrapping_rem(b);
+                if r != $zero && (r < $zero) != (b < $zero) { r.wrapping_add(b) } else { r }
+            }
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { if b == $zero { $zero } else { a / b } }
+            fn apply(a: $T, b: $T) -> $T {
+                // Rounds toward negative infinity, as in Python
+                if b == $zero { return $zero; }
+                let q = a.wrapping_div(b);
+                let r = a.wrapping_rem(b);
+                if r != $zero && (r < $zero) != (b < $zero) { q.wrapping_sub($one) } else { q }
+            }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
diff --git a/src/ops/kernels/bitwise.rs b/src/ops/kernels/bitwise.rs
index f954ad8..f13c386 100644
--- a/src/ops/kernels/bitwise.rs
+++ b/src/ops/kernels/bitwise.rs
@@ -62,14 +62,16 @@ macro_rules! impl_bitwise_int {
         impl BinaryKernel<$T> for LeftShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shl(b as u32)
+                // Shifting by the width or more leaves no bits
+                if (0..<$T>::BITS as i128).contains(&(b as i128)) { a << b } else { 0 }
             }
         }
 
         impl BinaryKernel<$T> for RightShift {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
-                a.wrapping_shr(b as u32)
+                // Shifting by the width or more leaves only sign bits
+                if (0..<$T>::BITS as i128).contains(&(b as i128)) { a >> b } else { a >> (<$T>::BITS - 1) >> 1 }
             }
         }
 
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index d11dcdb..857afd8 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -55,6 +55,12 @@ pub(crate) fn is_integer_kind(kind: &DTypeKind) -> bool {
              DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64)
 }
 
+/// Check if dtype is a number type (bool, integer, float or complex).
+fn is_numeric_kind(kind: &DTypeKind) -> bool {
+    is_integer_kind(kind) || matches!(kind, DTypeKind::Bool | DTypeKind::Float16 | DTypeKind::Float32 |
+             DTypeKind::Float64 | DTypeKind::Complex64 | DTypeKind::Complex128)
+}
+
 // ============================================================================
 // Unary operations
 // ============================================================================
@@ -291,6 +297,15 @@ pub fn map_binary_op_inplace(
 
     let result_dtype = promote_dtype(&a_bc.dtype(), &b_bc.dtype());
 
+    // Mixed numeric dtypes: compute in the promoted dtype (exact for integers)
+    if out.is_none() && a_bc.dtype() != b_bc.dtype() && is_numeric_kind(&a_bc.dtype().kind())
+        && is_numeric_kind(&b_bc.dtype().kind())
+    {
+        let a_cast = a.astype(result_dtype.clone());
+        let b_cast = b.astype(result_dtype);
+        return map_binary_op_inplace(&a_cast, &b_cast, op, None);
+    }
+
     // Try to reuse the output buffer if provided and compatible
     let mut result = if let Some(mut out_arr) = out {
         let buffer = out_arr.buffer_mut();
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index 5d4b323..f0ebebb 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -367,6 +367,19 @@ pub fn nan_to_num(
 // Binary math functions
 // ============================================================================
 
+/// Extract an operand of a binary ufunc: an array or a number.
+fn binary_operand(x: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
+    if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
+        Ok(arr.inner.clone())
+    } else if let Ok(scalar) = x.extract::<f64>() {
+        Ok(RumpyArray::full(vec![1], scalar, DType::float64()))
+    } else {
+        Err(pyo3::exceptions::PyTypeError::new_err(
+            "operand must be ndarray or number",
+        ))
+    }
+}
+
 /// Apply a binary ufunc to either array or scalar inputs.
 fn apply_binary_ufunc(
     x1: &Bound<'_, PyAny>,
@@ -376,25 +389,8 @@ fn apply_binary_ufunc(
     use crate::ops::BinaryOpError;
 
     // Try array-array first
-    let arr1 = if let Ok(arr) = x1.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x1.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ));
-    };
-
-    let arr2 = if let Ok(arr) = x2.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.inner.clone()
-    } else if let Ok(scalar) = x2.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err(
-            "operand must be ndarray or number",
-        ));
-    };
+    let arr1 = binary_operand(x1)?;
+    let arr2 = binary_operand(x2)?;
 
     arr1.binary_op(&arr2, op)
         .map(PyRumpyArray::new)
@@ -871,10 +867,34 @@ pub fn mod_fn(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyA
 }
 
 /// Compute the element-wise remainder (C-style fmod, sign of dividend preserved).
-/// Note: In NumPy, fmod differs from mod/remainder. Our implementation uses C-style %.
+/// Unlike mod/remainder, whose sign follows the divisor.
 #[pyfunction]
 pub fn fmod(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
-    remainder(x1, x2)
+    use crate::array::promote_dtype;
+    use crate::ops::{BinaryOp, ComparisonOp};
+
+    let floored = remainder(x1, x2)?.inner;
+    let dtype = floored.dtype();
+    let (a, b) = (binary_operand(x1)?, binary_operand(x2)?);
+    let common = promote_dtype(&a.dtype(), &b.dtype());
+    let (a, b) = (a.astype(common.clone()), b.astype(common));
+    let bad = || pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes");
+    let result = if crate::ops::ufunc::is_integer_kind(&dtype.kind()) {
+        // Undo the floor correction where the dividend's sign differs
+        let zero = RumpyArray::zeros(vec![1], dtype.clone());
+        let nonzero = floored.compare(&zero, ComparisonOp::Ne).ok_or_else(bad)?;
+        let neg_r = floored.compare(&zero, ComparisonOp::Lt).ok_or_else(bad)?;
+        let neg_a = a.compare(&zero, ComparisonOp::Lt).ok_or_else(bad)?;
+        let differ = neg_r.compare(&neg_a, ComparisonOp::Ne).ok_or_else(bad)?;
+        let fix = nonzero.binary_op(&differ, BinaryOp::Mul).map_err(|_| bad())?.astype(dtype);
+        let fix = fix.binary_op(&b, BinaryOp::Mul).map_err(|_| bad())?;
+        floored.binary_op(&fix, BinaryOp::Sub).map_err(|_| bad())?
+    } else {
+        let abs = |x: &RumpyArray| x.abs().map_err(|_| bad());
+        let r = abs(&a)?.binary_op(&abs(&b)?, BinaryOp::Mod).map_err(|_| bad())?;
+        r.binary_op(&a, BinaryOp::Copysign).map_err(|_| bad())?
+    };
+    Ok(PyRumpyArray::new(result))
 }
 
 /// Alias for divide - true division element-wise.
-- 
2.43.0


From 8ab8cd80eed84d30f623115389c4ac538b888f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:27 +0000
Subject: [PATCH 14/69] fix: float floor_divide, special functions on
 strided/broadcast operands, exact integer scalar and int64/uint64
 comparisons, 0-d scalar results

---
 src/array/constructors.rs      | 13 +++++++
 src/array/dtype/float16.rs     |  2 +-
 src/array/dtype/macros.rs      |  4 +-
 src/ops/array_methods/unary.rs |  4 +-
 src/ops/kernels/arithmetic.rs  | 32 ++++++++++++++--
 src/ops/kernels/math.rs        |  2 +-
 src/ops/mod.rs                 |  6 +--
 src/ops/special.rs             | 67 ++++++++++++++++++++++++++--------
 src/ops/ufunc.rs               | 32 ++++++++++++++++
 src/python/indexing.rs         |  4 +-
 src/python/pyarray/mod.rs      | 17 ++++++++-
 src/python/ufuncs.rs           | 38 ++++++++++++++-----
 12 files changed, 179 insertions(+), 42 deletions(-)

diff --git a/src/array/constructors.rs b/src/array/constructors.rs
index 600a701..16d34a6 100644
--- a/src/array/constructors.rs
+++ b/src/array/constructors.rs
@@ -191,6 +191,19 @@ impl RumpyArray {
         arr
     }
 
+    /// Create array filled with given integer value (exact for integer dtypes).
+    pub fn full_i64(shape: Vec<usize>, value: i64, dtype: DType) -> Self {
+        let mut arr = Self::zeros(shape, dtype);
+        let size = arr.size();
+        let buffer = Arc::get_mut(&mut arr.buffer).expect("buffer must be unique");
+        let ptr = buffer.as_mut_ptr();
+        let ops = arr.dtype.ops();
+        for i in 0..size {
+            unsafe { ops.write_i64(ptr, i, value); }
+        }
+        arr
+    }
+
     /// Create array filled with given complex value.
     pub fn full_complex(shape: Vec<usize>, real: f64, imag: f64, dtype: DType) -> Self {
         let mut arr = Self::zeros(shape, dtype);
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 41494a2..bd99270 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -97,7 +97,7 @@ impl DTypeOps for Float16Ops {
             BinaryOp::Div => av / bv,
             BinaryOp::Pow => av.powf(bv),
             BinaryOp::Mod => crate::ops::kernels::arithmetic::floor_mod!(av, bv),
-            BinaryOp::FloorDiv => (av / bv).floor(),
+            BinaryOp::FloorDiv => crate::ops::kernels::arithmetic::floor_div!(av, bv),
             BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.max(bv) },
             BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { f32::NAN } else { av.min(bv) },
             // Stream 2: Binary Math Operations
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index 22d78d0..b844f8a 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -99,7 +99,7 @@ macro_rules! impl_float_dtype {
                     BinaryOp::Div => av / bv,
                     BinaryOp::Pow => av.powf(bv),
                     BinaryOp::Mod => crate::ops::kernels::arithmetic::floor_mod!(av, bv),
-                    BinaryOp::FloorDiv => (av / bv).floor(),
+                    BinaryOp::FloorDiv => crate::ops::kernels::arithmetic::floor_div!(av, bv),
                     BinaryOp::Maximum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.max(bv) },
                     BinaryOp::Minimum => if av.is_nan() || bv.is_nan() { <$T>::NAN } else { av.min(bv) },
                     // Stream 2: Binary Math Operations
@@ -260,7 +260,7 @@ macro_rules! impl_signed_int_dtype {
                 let v = Self::read(src, byte_offset);
                 let result = match op {
                     UnaryOp::Neg => -v,
-                    UnaryOp::Abs => v.abs(),
+                    UnaryOp::Abs => v.wrapping_abs(),
                     UnaryOp::Sqrt => (v as f64).sqrt() as $T,
                     UnaryOp::Exp => (v as f64).exp() as $T,
                     UnaryOp::Log => (v as f64).ln() as $T,
diff --git a/src/ops/array_methods/unary.rs b/src/ops/array_methods/unary.rs
index 0560405..d0d5686 100644
--- a/src/ops/array_methods/unary.rs
+++ b/src/ops/array_methods/unary.rs
@@ -124,12 +124,12 @@ impl RumpyArray {
 
     /// Test element-wise for real values (imaginary part is zero).
     pub fn isreal(&self) -> Result<RumpyArray, UnaryOpError> {
-        map_unary_op(self, UnaryOp::Isreal)
+        map_unary_op(self, UnaryOp::Isreal).map(|r| r.astype(DType::bool()))
     }
 
     /// Test element-wise for complex values (imaginary part is non-zero).
     pub fn iscomplex(&self) -> Result<RumpyArray, UnaryOpError> {
-        map_unary_op(self, UnaryOp::Iscomplex)
+        map_unary_op(self, UnaryOp::Iscomplex).map(|r| r.astype(DType::bool()))
     }
 
     /// Square of each element (x^2).
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 3bc39f8..118bbe1 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -93,11 +93,34 @@ pub struct SumOfSquares;
 macro_rules! floor_mod {
     ($a:expr, $b:expr) => {{
         let r = $a % $b;
-        if r != 0.0 && (r < 0.0) != ($b < 0.0) { r + $b } else { r }
+        if r == 0.0 {
+            r.abs().copysign($b)
+        } else if (r < 0.0) != ($b < 0.0) { r + $b } else { r }
     }};
 }
 pub(crate) use floor_mod;
 
+/// Floor division of floats, consistent with `floor_mod` (Python semantics).
+macro_rules! floor_div {
+    ($a:expr, $b:expr) => {{
+        let r = $a % $b;
+        if $b == 0.0 {
+            $a / $b
+        } else {
+            let mut q = ($a - r) / $b;
+            if r != 0.0 && (r < 0.0) != ($b < 0.0) {
+                q -= 1.0;
+            }
+            if q == 0.0 {
+                q.abs().copysign($a / $b)
+            } else {
+                q.round()
+            }
+        }
+    }};
+}
+pub(crate) use floor_div;
+
 macro_rules! impl_float_arithmetic {
     ($T:ty) => {
         impl BinaryKernel<$T> for Add {
@@ -156,7 +179,7 @@ macro_rules! impl_float_arithmetic {
         }
         impl BinaryKernel<$T> for FloorDiv {
             #[inline(always)]
-            fn apply(a: $T, b: $T) -> $T { (a / b).floor() }
+            fn apply(a: $T, b: $T) -> $T { floor_div!(a, b) }
         }
         impl BinaryKernel<$T> for Maximum {
             #[inline(always)]
@@ -334,7 +357,10 @@ impl BinaryKernel<f16> for Mod {
 }
 impl BinaryKernel<f16> for FloorDiv {
     #[inline(always)]
-    fn apply(a: f16, b: f16) -> f16 { f16::from_f32((a.to_f32() / b.to_f32()).floor()) }
+    fn apply(a: f16, b: f16) -> f16 {
+        let (a, b) = (a.to_f32(), b.to_f32());
+        f16::from_f32(floor_div!(a, b))
+    }
 }
 impl BinaryKernel<f16> for Maximum {
     #[inline(always)]
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 210c71c..70f6c9b 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -396,7 +396,7 @@ macro_rules! impl_signed_int_math {
         }
         impl UnaryKernel<$T> for Abs {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.abs() }
+            fn apply(v: $T) -> $T { v.wrapping_abs() }
         }
         impl UnaryKernel<$T> for Square {
             #[inline(always)]
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 9b86fa6..feae325 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -96,13 +96,13 @@ impl RumpyArray {
     /// Element-wise operation with scalar (arr op scalar).
     pub fn scalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
         // Create a scalar array and use binary_op with broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
+        let scalar_arr = RumpyArray::full(vec![], scalar, self.dtype());
         self.binary_op(&scalar_arr, op).expect("scalar broadcast always works")
     }
 
     /// Scalar on left side (scalar op arr).
     pub fn rscalar_op(&self, scalar: f64, op: BinaryOp) -> RumpyArray {
-        let scalar_arr = RumpyArray::full(vec![1], scalar, self.dtype());
+        let scalar_arr = RumpyArray::full(vec![], scalar, self.dtype());
         scalar_arr.binary_op(self, op).expect("scalar broadcast always works")
     }
 
@@ -114,7 +114,7 @@ impl RumpyArray {
     /// Scalar comparison (arr op scalar).
     pub fn compare_scalar(&self, scalar: f64, op: ComparisonOp) -> RumpyArray {
         // Create scalar array and use broadcasting
-        let scalar_arr = RumpyArray::full(vec![1], scalar, DType::float64());
+        let scalar_arr = RumpyArray::full(vec![], scalar, DType::float64());
         self.compare(&scalar_arr, op).expect("scalar broadcast always succeeds")
     }
 
diff --git a/src/ops/special.rs b/src/ops/special.rs
index 2075ff9..d538bf6 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -8,11 +8,17 @@ use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
 use std::sync::Arc;
 
+/// The functions below walk their operands linearly.
+fn contiguous(arr: &RumpyArray) -> RumpyArray {
+    if arr.is_c_contiguous() { arr.clone() } else { arr.copy() }
+}
+
 // ============================================================================
 // Sinc: sin(pi*x) / (pi*x)
 // ============================================================================
 
 pub fn sinc(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => sinc_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => sinc_typed::<f64>(arr, DType::float64()),
@@ -54,6 +60,7 @@ fn sinc_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> RumpyArray {
 // ============================================================================
 
 pub fn i0(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => i0_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => i0_typed::<f64>(arr, DType::float64()),
@@ -107,6 +114,7 @@ fn i0_scalar<T: Float>(x: T) -> T {
 // ============================================================================
 
 pub fn spacing(arr: &RumpyArray) -> RumpyArray {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => spacing_f32(arr),
         DTypeKind::Float64 => spacing_f64(arr),
@@ -174,6 +182,7 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
 // ============================================================================
 
 pub fn modf(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => modf_typed::<f32>(arr, DType::float32()),
         DTypeKind::Float64 => modf_typed::<f64>(arr, DType::float64()),
@@ -207,7 +216,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
         let int_val = x.trunc();
-        let frac_val = x - int_val;
+        let frac_val = if int_val == x { T::ZERO.copysign(x) } else { (x - int_val).copysign(x) };
         unsafe {
             *frac_ptr.add(i) = frac_val;
             *int_ptr.add(i) = int_val;
@@ -221,6 +230,7 @@ fn modf_typed<T: Float>(arr: &RumpyArray, dtype: DType) -> (RumpyArray, RumpyArr
 // ============================================================================
 
 pub fn frexp(arr: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let arr = &contiguous(arr);
     match arr.dtype().kind() {
         DTypeKind::Float32 => frexp_f32(arr),
         DTypeKind::Float64 => frexp_f64(arr),
@@ -338,6 +348,7 @@ fn frexp_scalar_f32(x: f32) -> (f32, i32) {
 // ============================================================================
 
 pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
+    let (x, i) = (&contiguous(x), &contiguous(i));
     match x.dtype().kind() {
         DTypeKind::Float32 => ldexp_typed::<f32>(x, i, DType::float32()),
         DTypeKind::Float64 => ldexp_typed::<f64>(x, i, DType::float64()),
@@ -390,6 +401,7 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 // ============================================================================
 
 pub fn heaviside(x: &RumpyArray, h0: &RumpyArray) -> RumpyArray {
+    let (x, h0) = (&contiguous(x), &contiguous(h0));
     match x.dtype().kind() {
         DTypeKind::Float32 => heaviside_typed::<f32>(x, h0, DType::float32()),
         DTypeKind::Float64 => heaviside_typed::<f64>(x, h0, DType::float64()),
@@ -422,8 +434,10 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
             T::ZERO
         } else if xv == T::ZERO {
             h0v
-        } else {
+        } else if xv > T::ZERO {
             T::ONE
+        } else {
+            xv // NaN
         };
         unsafe { *result_ptr.add(i) = y };
     }
@@ -435,6 +449,7 @@ fn heaviside_typed<T: Float>(x: &RumpyArray, h0: &RumpyArray, dtype: DType) -> R
 // ============================================================================
 
 pub fn gcd(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+    let (a, b) = (&contiguous(a), &contiguous(b));
     let kind = a.dtype().kind();
     match kind {
         DTypeKind::Int64 => gcd_typed::<i64>(a, b, DType::int64()),
@@ -505,10 +520,10 @@ fn gcd_scalar_signed<T: SignedInt>(mut a: T, mut b: T) -> T {
     b = b.abs_val();
     while b != T::ZERO {
         let t = b;
-        b = a % b;
+        b = a.rem_val(b);
         a = t;
     }
-    a
+    a.abs_val()
 }
 
 fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
@@ -525,6 +540,7 @@ fn gcd_scalar_unsigned<T: UnsignedInt>(mut a: T, mut b: T) -> T {
 // ============================================================================
 
 pub fn lcm(a: &RumpyArray, b: &RumpyArray) -> RumpyArray {
+    let (a, b) = (&contiguous(a), &contiguous(b));
     let kind = a.dtype().kind();
     match kind {
         DTypeKind::Int64 => lcm_typed::<i64>(a, b, DType::int64()),
@@ -595,7 +611,7 @@ fn lcm_scalar_signed<T: SignedInt>(a: T, b: T) -> T {
     if a_abs == T::ZERO || b_abs == T::ZERO {
         T::ZERO
     } else {
-        a_abs / gcd_scalar_signed(a_abs, b_abs) * b_abs
+        a_abs.div_val(gcd_scalar_signed(a_abs, b_abs)).mul_val(b_abs)
     }
 }
 
@@ -603,7 +619,7 @@ fn lcm_scalar_unsigned<T: UnsignedInt>(a: T, b: T) -> T {
     if a == T::ZERO || b == T::ZERO {
         T::ZERO
     } else {
-        a / gcd_scalar_unsigned(a, b) * b
+        (a / gcd_scalar_unsigned(a, b)).mul_val(b)
     }
 }
 
@@ -623,6 +639,7 @@ trait Float: Copy + PartialOrd + std::ops::Add<Output = Self> + std::ops::Mul<Ou
     fn sqrt(self) -> Self;
     fn abs(self) -> Self;
     fn trunc(self) -> Self;
+    fn copysign(self, sign: Self) -> Self;
     fn powi(self, n: i32) -> Self;
 }
 
@@ -638,6 +655,7 @@ impl Float for f32 {
     #[inline] fn sqrt(self) -> Self { f32::sqrt(self) }
     #[inline] fn abs(self) -> Self { f32::abs(self) }
     #[inline] fn trunc(self) -> Self { f32::trunc(self) }
+    #[inline] fn copysign(self, sign: Self) -> Self { f32::copysign(self, sign) }
     #[inline] fn powi(self, n: i32) -> Self { f32::powi(self, n) }
 }
 
@@ -653,6 +671,7 @@ impl Float for f64 {
     #[inline] fn sqrt(self) -> Self { f64::sqrt(self) }
     #[inline] fn abs(self) -> Self { f64::abs(self) }
     #[inline] fn trunc(self) -> Self { f64::trunc(self) }
+    #[inline] fn copysign(self, sign: Self) -> Self { f64::copysign(self, sign) }
     #[inline] fn powi(self, n: i32) -> Self { f64::powi(self, n) }
 }
 
@@ -660,36 +679,52 @@ impl Float for f64 {
 // Integer traits for generic integer operations
 // ============================================================================
 
-trait SignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait SignedInt: Copy + PartialEq {
     const ZERO: Self;
     fn abs_val(self) -> Self;
+    fn mul_val(self, other: Self) -> Self;
+    fn rem_val(self, other: Self) -> Self;
+    fn div_val(self, other: Self) -> Self;
 }
 
 impl SignedInt for i64 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+    #[inline] fn rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
+    #[inline] fn div_val(self, other: Self) -> Self { self.wrapping_div(other) }
 }
 
 impl SignedInt for i32 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+    #[inline] fn rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
+    #[inline] fn div_val(self, other: Self) -> Self { self.wrapping_div(other) }
 }
 
 impl SignedInt for i16 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+    #[inline] fn rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
+    #[inline] fn div_val(self, other: Self) -> Self { self.wrapping_div(other) }
 }
 
 impl SignedInt for i8 {
     const ZERO: Self = 0;
-    #[inline] fn abs_val(self) -> Self { self.abs() }
+    #[inline] fn abs_val(self) -> Self { self.wrapping_abs() }
+    #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) }
+    #[inline] fn rem_val(self, other: Self) -> Self { self.wrapping_rem(other) }
+    #[inline] fn div_val(self, other: Self) -> Self { self.wrapping_div(other) }
 }
 
-trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> + std::ops::Mul<Output = Self> {
+trait UnsignedInt: Copy + PartialEq + std::ops::Rem<Output = Self> + std::ops::Div<Output = Self> {
     const ZERO: Self;
+    fn mul_val(self, other: Self) -> Self;
 }
 
-impl UnsignedInt for u64 { const ZERO: Self = 0; }
-impl UnsignedInt for u32 { const ZERO: Self = 0; }
-impl UnsignedInt for u16 { const ZERO: Self = 0; }
-impl UnsignedInt for u8 { const ZERO: Self = 0; }
+impl UnsignedInt for u64 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
+impl UnsignedInt for u32 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
+impl UnsignedInt for u16 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
+impl UnsignedInt for u8 { const ZERO: Self = 0; #[inline] fn mul_val(self, other: Self) -> Self { self.wrapping_mul(other) } }
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 857afd8..a3166c6 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -480,11 +480,43 @@ pub fn map_binary_op_inplace(
 // ============================================================================
 
 /// Apply a comparison function element-wise, returning bool array.
+fn compare_exact_integers(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
+    fn values(arr: &RumpyArray) -> Option<Vec<i128>> {
+        let dtype = arr.dtype();
+        let ptr = arr.data_ptr();
+        arr.iter_offsets()
+            .map(|offset| {
+                let v = unsafe { dtype.ops().read_i64(ptr, offset) }?;
+                Some(if dtype.kind() == DTypeKind::Uint64 { v as u64 as i128 } else { v as i128 })
+            })
+            .collect()
+    }
+    let mut result = RumpyArray::zeros(a.shape().to_vec(), DType::bool());
+    let result_buffer = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique");
+    let result_ptr = result_buffer.as_mut_ptr();
+    for (i, (x, y)) in values(a)?.into_iter().zip(values(b)?).enumerate() {
+        let r = match op {
+            ComparisonOp::Gt => x > y,
+            ComparisonOp::Lt => x < y,
+            ComparisonOp::Ge => x >= y,
+            ComparisonOp::Le => x <= y,
+            ComparisonOp::Eq => x == y,
+            ComparisonOp::Ne => x != y,
+        };
+        unsafe { *result_ptr.add(i) = r as u8; }
+    }
+    Some(result)
+}
+
 pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
     let out_shape = broadcast_shapes(a.shape(), b.shape())?;
 
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
+    if a.dtype().is_integer() && b.dtype().is_integer() && !common_dtype.is_integer() {
+        // No common integer dtype (signed vs uint64): compare the exact values
+        return compare_exact_integers(&a.broadcast_to(&out_shape)?, &b.broadcast_to(&out_shape)?, op);
+    }
     let a_promoted = if a.dtype() != common_dtype { a.astype(common_dtype.clone()) } else { a.clone() };
     let b_promoted = if b.dtype() != common_dtype { b.astype(common_dtype.clone()) } else { b.clone() };
 
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index b00b67e..94e9041 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -220,7 +220,7 @@ pub fn where_fn(
     let x_arr = if let Ok(arr) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr.inner.clone()
     } else if let Ok(scalar) = x.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
+        RumpyArray::full(vec![], scalar, DType::float64())
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "x must be ndarray or number",
@@ -230,7 +230,7 @@ pub fn where_fn(
     let y_arr = if let Ok(arr) = y.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr.inner.clone()
     } else if let Ok(scalar) = y.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, DType::float64())
+        RumpyArray::full(vec![], scalar, DType::float64())
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "y must be ndarray or number",
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index a7b4ff5..b85cffd 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1310,6 +1310,14 @@ fn comparison_op_dispatch(
             .ok_or_else(|| {
                 pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
             })
+    } else if let (true, Ok(scalar)) = (arr.dtype().is_integer(), other.extract::<i64>()) {
+        // Integers compare exactly, without a detour through float64
+        let scalar_arr = integer_scalar(scalar, DType::int64());
+        arr.compare(&scalar_arr, op)
+            .map(PyRumpyArray::new)
+            .ok_or_else(|| {
+                pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+            })
     } else if let Ok(scalar) = other.extract::<f64>() {
         Ok(PyRumpyArray::new(arr.compare_scalar(scalar, op)))
     } else {
@@ -1319,6 +1327,11 @@ fn comparison_op_dispatch(
     }
 }
 
+/// 0-d integer array holding a Python integer.
+fn integer_scalar(value: i64, dtype: DType) -> RumpyArray {
+    RumpyArray::full_i64(vec![], value, dtype)
+}
+
 /// Dispatch bitwise binary operation: array op (array or scalar).
 fn bitwise_binary_op_dispatch<F>(
     arr: &RumpyArray,
@@ -1335,7 +1348,7 @@ where
                 pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
             })
     } else if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
+        let scalar_arr = integer_scalar(scalar, if arr.dtype().is_integer() { arr.dtype() } else { DType::int64() });
         op(arr, &scalar_arr)
             .map(PyRumpyArray::new)
             .ok_or_else(|| {
@@ -1358,7 +1371,7 @@ where
     F: Fn(&RumpyArray, &RumpyArray) -> Option<RumpyArray>,
 {
     if let Ok(scalar) = other.extract::<i64>() {
-        let scalar_arr = RumpyArray::full(vec![1], scalar as f64, DType::int64());
+        let scalar_arr = integer_scalar(scalar, if arr.dtype().is_integer() { arr.dtype() } else { DType::int64() });
         op(&scalar_arr, arr)
             .map(PyRumpyArray::new)
             .ok_or_else(|| {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index f0ebebb..c983bc8 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -372,7 +372,7 @@ fn binary_operand(x: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
     if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
         Ok(arr.inner.clone())
     } else if let Ok(scalar) = x.extract::<f64>() {
-        Ok(RumpyArray::full(vec![1], scalar, DType::float64()))
+        Ok(RumpyArray::full(vec![], scalar, DType::float64()))
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
             "operand must be ndarray or number",
@@ -778,26 +778,44 @@ pub fn frexp(x: &PyRumpyArray) -> (PyRumpyArray, PyRumpyArray) {
 
 /// Compute ldexp: x * 2^i.
 #[pyfunction]
-pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::ldexp(&x.inner, &i.inner))
+pub fn ldexp(x: &PyRumpyArray, i: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    let (x, i) = broadcast_pair(&x.inner, &i.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::ldexp(&x, &i)))
+}
+
+/// Broadcast two operands to their common shape.
+fn broadcast_pair(a: &RumpyArray, b: &RumpyArray) -> PyResult<(RumpyArray, RumpyArray)> {
+    crate::array::broadcast_shapes(a.shape(), b.shape())
+        .and_then(|shape| Some((a.broadcast_to(&shape)?, b.broadcast_to(&shape)?)))
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands could not be broadcast together"))
+}
+
+/// Broadcast two operands to their common shape and dtype.
+fn promote_pair(a: &RumpyArray, b: &RumpyArray) -> PyResult<(RumpyArray, RumpyArray)> {
+    let dtype = crate::array::promote_dtype(&a.dtype(), &b.dtype());
+    let cast = |x: &RumpyArray| if x.dtype() == dtype { x.clone() } else { x.astype(dtype.clone()) };
+    broadcast_pair(&cast(a), &cast(b))
 }
 
 /// Compute the Heaviside step function.
 #[pyfunction]
-pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::heaviside(&x.inner, &h0.inner))
+pub fn heaviside(x: &PyRumpyArray, h0: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    let (x, h0) = promote_pair(&x.inner, &h0.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::heaviside(&x, &h0)))
 }
 
 /// Compute the greatest common divisor element-wise.
 #[pyfunction]
-pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::gcd(&x1.inner, &x2.inner))
+pub fn gcd(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    let (x1, x2) = promote_pair(&x1.inner, &x2.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::gcd(&x1, &x2)))
 }
 
 /// Compute the least common multiple element-wise.
 #[pyfunction]
-pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::lcm(&x1.inner, &x2.inner))
+pub fn lcm(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    let (x1, x2) = promote_pair(&x1.inner, &x2.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::lcm(&x1, &x2)))
 }
 
 // ============================================================================
@@ -881,7 +899,7 @@ pub fn fmod(x1: &Bound<'_, PyAny>, x2: &Bound<'_, PyAny>) -> PyResult<PyRumpyArr
     let bad = || pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes");
     let result = if crate::ops::ufunc::is_integer_kind(&dtype.kind()) {
         // Undo the floor correction where the dividend's sign differs
-        let zero = RumpyArray::zeros(vec![1], dtype.clone());
+        let zero = RumpyArray::zeros(vec![], dtype.clone());
         let nonzero = floored.compare(&zero, ComparisonOp::Ne).ok_or_else(bad)?;
         let neg_r = floored.compare(&zero, ComparisonOp::Lt).ok_or_else(bad)?;
         let neg_a = a.compare(&zero, ComparisonOp::Lt).ok_or_else(bad)?;
-- 
2.43.0


From 23c1672131803a350927149954c4650e23caba81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:38:45 +0000
Subject: [PATCH 15/69] fix: reductions over strided lanes, NaN in
 max/min/argmax/argmin, empty lanes, keepdims on 1-D, integer means, tuple
 axes, integer diff and cumsum

---
 src/array/dtype/float16.rs               |   4 +-
 src/array/dtype/macros.rs                |   4 +-
 src/ops/array_methods/cumulative.rs      |  66 +++++++---
 src/ops/array_methods/reductions.rs      | 146 ++++++++++++-----------
 src/ops/dispatch.rs                      |   2 +
 src/ops/kernels/arithmetic.rs            |  18 +--
 src/ops/statistics.rs                    |  75 +++++-------
 src/ops/ufunc.rs                         |   2 +-
 src/python/pyarray/methods_reductions.rs |  37 +++++-
 src/python/pyarray/mod.rs                |  23 +++-
 src/python/reductions.rs                 |  68 ++++++++---
 11 files changed, 279 insertions(+), 166 deletions(-)

diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index bd99270..b82d3f6 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -149,8 +149,8 @@ impl DTypeOps for Float16Ops {
         let result = match op {
             ReduceOp::Sum => a + v,
             ReduceOp::Prod => a * v,
-            ReduceOp::Max => a.max(v),
-            ReduceOp::Min => a.min(v),
+            ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+            ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
         };
         Self::write(acc, idx, f16::from_f32(result));
     }
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index b844f8a..a05f9a0 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -157,8 +157,8 @@ macro_rules! impl_float_dtype {
                 let result = match op {
                     ReduceOp::Sum => a + v,
                     ReduceOp::Prod => a * v,
-                    ReduceOp::Max => a.max(v),
-                    ReduceOp::Min => a.min(v),
+                    ReduceOp::Max => if v > a || v.is_nan() { v } else { a },
+                    ReduceOp::Min => if v < a || v.is_nan() { v } else { a },
                 };
                 Self::write(acc, idx, result);
             }
diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index d6c3c9a..b72ecf6 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -3,6 +3,7 @@
 use crate::array::dtype::DTypeKind;
 use crate::array::{increment_indices, DType, RumpyArray};
 use crate::ops::kernels::arithmetic::Sub;
+use crate::ops::kernels::BinaryKernel;
 use crate::ops::loops;
 use num_complex::Complex;
 use std::sync::Arc;
@@ -31,6 +32,7 @@ fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype:
         DTypeKind::Int64 => diff_typed!(i64),
         DTypeKind::Int32 => diff_typed!(i32),
         DTypeKind::Int16 => diff_typed!(i16),
+        DTypeKind::Int8 => diff_typed!(i8),
         DTypeKind::Uint64 => diff_typed!(u64),
         DTypeKind::Uint32 => diff_typed!(u32),
         DTypeKind::Uint16 => diff_typed!(u16),
@@ -53,7 +55,6 @@ fn diff_1d_contiguous(src_ptr: *const u8, result_ptr: *mut u8, n: usize, dtype:
 }
 
 /// Strided diff for N-D arrays along arbitrary axis.
-/// Element-by-element via DTypeOps (no vectorization benefit for strided access).
 fn diff_strided(
     src: &RumpyArray,
     result: &RumpyArray,
@@ -66,15 +67,46 @@ fn diff_strided(
     let out_size: usize = out_shape.iter().product();
     let ops = dtype.ops();
 
-    let mut out_indices = vec![0usize; src.ndim()];
-    for i in 0..out_size {
-        let offset1 = src.byte_offset_for(&out_indices);
-        unsafe {
-            let v1 = ops.read_f64(src_ptr, offset1).unwrap_or(0.0);
-            let v2 = ops.read_f64(src_ptr, offset1 + axis_stride).unwrap_or(0.0);
-            ops.write_f64(result_ptr, i, v2 - v1);
+    macro_rules! diff_typed {
+        ($T:ty) => {{
+            let mut out_indices = vec![0usize; src.ndim()];
+            for i in 0..out_size {
+                let offset = src.byte_offset_for(&out_indices);
+                unsafe {
+                    let v1 = *(src_ptr.offset(offset) as *const $T);
+                    let v2 = *(src_ptr.offset(offset + axis_stride) as *const $T);
+                    *(result_ptr as *mut $T).add(i) = <Sub as BinaryKernel<$T>>::apply(v2, v1);
+                }
+                increment_indices(&mut out_indices, out_shape);
+            }
+        }};
+    }
+
+    match dtype.kind() {
+        DTypeKind::Float64 => diff_typed!(f64),
+        DTypeKind::Float32 => diff_typed!(f32),
+        DTypeKind::Int64 => diff_typed!(i64),
+        DTypeKind::Int32 => diff_typed!(i32),
+        DTypeKind::Int16 => diff_typed!(i16),
+        DTypeKind::Int8 => diff_typed!(i8),
+        DTypeKind::Uint64 => diff_typed!(u64),
+        DTypeKind::Uint32 => diff_typed!(u32),
+        DTypeKind::Uint16 => diff_typed!(u16),
+        DTypeKind::Uint8 => diff_typed!(u8),
+        DTypeKind::Complex128 => diff_typed!(Complex<f64>),
+        DTypeKind::Complex64 => diff_typed!(Complex<f32>),
+        _ => {
+            let mut out_indices = vec![0usize; src.ndim()];
+            for i in 0..out_size {
+                let offset = src.byte_offset_for(&out_indices);
+                unsafe {
+                    let v1 = ops.read_f64(src_ptr, offset).unwrap_or(0.0);
+                    let v2 = ops.read_f64(src_ptr, offset + axis_stride).unwrap_or(0.0);
+                    ops.write_f64(result_ptr, i, v2 - v1);
+                }
+                increment_indices(&mut out_indices, out_shape);
+            }
         }
-        increment_indices(&mut out_indices, out_shape);
     }
 }
 
@@ -290,11 +322,13 @@ impl RumpyArray {
                 let cumul_base = i * axis_len;
                 unsafe {
                     *result_ptr.add(result_base) = identity;
-                    std::ptr::copy_nonoverlapping(
-                        cumul_ptr.add(cumul_base),
-                        result_ptr.add(result_base + 1),
-                        axis_len
-                    );
+                    if axis_len > 0 {
+                        std::ptr::copy_nonoverlapping(
+                            cumul_ptr.add(cumul_base),
+                            result_ptr.add(result_base + 1),
+                            axis_len
+                        );
+                    }
                 }
             }
             return result;
@@ -317,7 +351,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
@@ -373,7 +407,7 @@ impl RumpyArray {
             .map(|(_, &s)| s)
             .collect();
 
-        let outer_size: usize = outer_shape.iter().product::<usize>().max(1);
+        let outer_size: usize = outer_shape.iter().product();
         let mut outer_indices = vec![0usize; outer_shape.len()];
 
         for _ in 0..outer_size {
diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 3efff6c..0d2feb3 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -7,6 +7,15 @@ use crate::ops::{map_unary_op, reduce_all_f64, reduce_axis_op, BinaryOp};
 use crate::ops::ufunc::variance_f64_contiguous;
 use std::sync::Arc;
 
+/// Does `v` replace the best value found so far? The first NaN wins and is never replaced.
+macro_rules! better {
+    ($v:expr, $cmp:tt, $best:expr) => {{
+        #[allow(clippy::eq_op)]
+        let replace = ($v $cmp $best || $v != $v) && $best == $best;
+        replace
+    }};
+}
+
 impl RumpyArray {
     // ========================================================================
     // Basic reductions
@@ -63,12 +72,18 @@ impl RumpyArray {
         if self.size() == 0 {
             return f64::NAN;
         }
-        self.sum() / self.size() as f64
+        let sum = if is_exact_kind(self) { self.astype(DType::float64()).sum() } else { self.sum() };
+        sum / self.size() as f64
     }
 
     /// Mean along axis.
     pub fn mean_axis(&self, axis: usize) -> RumpyArray {
-        let sum = self.sum_axis(axis);
+        // Integers are summed as float64 so that neither the sum nor the count wraps
+        let sum = if is_exact_kind(self) {
+            self.astype(DType::float64()).sum_axis(axis)
+        } else {
+            self.sum_axis(axis)
+        };
         let count = self.shape()[axis] as f64;
         let count_arr = RumpyArray::full(vec![1], count, sum.dtype());
         sum.binary_op(&count_arr, BinaryOp::Div).expect("broadcast works")
@@ -140,12 +155,15 @@ impl RumpyArray {
             if out_shape.is_empty() {
                 out_shape = vec![1];
             }
-            return RumpyArray::zeros(out_shape, DType::float64());
+            let dtype = if is_exact_kind(self) { DType::float64() } else { self.dtype() };
+            return RumpyArray::full(out_shape, f64::NAN, dtype);
         }
 
         // Compute mean and broadcast back to original shape
         let mean = self.mean_axis(axis);
-        let mean_expanded = mean.expand_dims(axis).expect("expand_dims succeeds");
+        let mut mean_shape = self.shape().to_vec();
+        mean_shape[axis] = 1;
+        let mean_expanded = mean.reshape(mean_shape).expect("same number of elements");
 
         // Compute deviations: x - mean (uses vectorized binary op with broadcasting)
         let diff = self.binary_op(&mean_expanded, BinaryOp::Sub).expect("broadcast succeeds");
@@ -296,7 +314,7 @@ impl RumpyArray {
         let mut max_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val > max_val {
+            if i == 0 || better!(val, >, max_val) {
                 max_val = val;
                 max_idx = i;
             }
@@ -313,7 +331,7 @@ impl RumpyArray {
         let mut min_idx = 0;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if val < min_val {
+            if i == 0 || better!(val, <, min_val) {
                 min_val = val;
                 min_idx = i;
             }
@@ -323,12 +341,12 @@ impl RumpyArray {
 
     /// Slow fallback for argmax axis (dynamic dispatch).
     fn argmax_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a > b)
+        self.arg_reduce_axis_slow(axis, |a, b| better!(a, >, b))
     }
 
     /// Slow fallback for argmin axis (dynamic dispatch).
     fn argmin_axis_slow(&self, axis: usize) -> RumpyArray {
-        self.arg_reduce_axis_slow(axis, |a, b| a < b)
+        self.arg_reduce_axis_slow(axis, |a, b| better!(a, <, b))
     }
 
     /// Slow fallback for argmax/argmin axis (non-optimized types).
@@ -386,47 +404,25 @@ impl RumpyArray {
 // Generic argmax/argmin implementations (monomorphized per dtype)
 // ============================================================================
 
-/// Trait for types that support argmax/argmin operations.
-trait ArgReducible: Copy + PartialOrd {
-    fn neg_infinity() -> Self;
-    fn pos_infinity() -> Self;
-}
-
-impl ArgReducible for f64 {
-    fn neg_infinity() -> Self { f64::NEG_INFINITY }
-    fn pos_infinity() -> Self { f64::INFINITY }
-}
-impl ArgReducible for f32 {
-    fn neg_infinity() -> Self { f32::NEG_INFINITY }
-    fn pos_infinity() -> Self { f32::INFINITY }
-}
-impl ArgReducible for i64 {
-    fn neg_infinity() -> Self { i64::MIN }
-    fn pos_infinity() -> Self { i64::MAX }
-}
-impl ArgReducible for i32 {
-    fn neg_infinity() -> Self { i32::MIN }
-    fn pos_infinity() -> Self { i32::MAX }
-}
-impl ArgReducible for i16 {
-    fn neg_infinity() -> Self { i16::MIN }
-    fn pos_infinity() -> Self { i16::MAX }
-}
-impl ArgReducible for u64 {
-    fn neg_infinity() -> Self { u64::MIN }
-    fn pos_infinity() -> Self { u64::MAX }
-}
-impl ArgReducible for u32 {
-    fn neg_infinity() -> Self { u32::MIN }
-    fn pos_infinity() -> Self { u32::MAX }
-}
-impl ArgReducible for u16 {
-    fn neg_infinity() -> Self { u16::MIN }
-    fn pos_infinity() -> Self { u16::MAX }
-}
-impl ArgReducible for u8 {
-    fn neg_infinity() -> Self { u8::MIN }
-    fn pos_infinity() -> Self { u8::MAX }
+/// Types that support argmax/argmin operations.
+trait ArgReducible: Copy + PartialOrd {}
+impl<T: Copy + PartialOrd> ArgReducible for T {}
+
+/// Does the array hold booleans or integers?
+fn is_exact_kind(arr: &RumpyArray) -> bool {
+    use crate::array::dtype::DTypeKind;
+    matches!(
+        arr.dtype().kind(),
+        DTypeKind::Bool
+            | DTypeKind::Int8
+            | DTypeKind::Int16
+            | DTypeKind::Int32
+            | DTypeKind::Int64
+            | DTypeKind::Uint8
+            | DTypeKind::Uint16
+            | DTypeKind::Uint32
+            | DTypeKind::Uint64
+    )
 }
 
 /// Dispatch argmax for full array reduction.
@@ -455,7 +451,7 @@ fn argmax_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v > best_val {
+        if better!(v, >, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -471,7 +467,7 @@ fn argmin_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
     let mut best_idx = 0;
     for i in 1..n {
         let v = unsafe { *ptr.add(i) };
-        if v < best_val {
+        if better!(v, <, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -482,11 +478,11 @@ fn argmin_contiguous<T: ArgReducible>(ptr: *const T, n: usize) -> usize {
 /// Strided argmax using iter_offsets.
 fn argmax_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let ptr = arr.data_ptr();
-    let mut best_val = T::neg_infinity();
+    let mut best_val = unsafe { *(ptr as *const T) };
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v > best_val {
+        if better!(v, >, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -497,11 +493,11 @@ fn argmax_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
 /// Strided argmin using iter_offsets.
 fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
     let ptr = arr.data_ptr();
-    let mut best_val = T::pos_infinity();
+    let mut best_val = unsafe { *(ptr as *const T) };
     let mut best_idx = 0;
     for (i, offset) in arr.iter_offsets().enumerate() {
         let v = unsafe { *(ptr as *const u8).offset(offset).cast::<T>() };
-        if v < best_val {
+        if better!(v, <, best_val) {
             best_val = v;
             best_idx = i;
         }
@@ -512,7 +508,7 @@ fn argmin_strided<T: ArgReducible>(arr: &RumpyArray) -> usize {
 /// Macro to generate argmax/argmin axis functions with inline comparisons.
 /// Using a macro ensures the comparison is inlined (unlike fn pointers).
 macro_rules! impl_arg_axis {
-    ($name:ident, $cmp:tt, $init:ident) => {
+    ($name:ident, $cmp:tt) => {
         fn $name<T: ArgReducible>(arr: &RumpyArray, axis: usize) -> RumpyArray {
             let shape = arr.shape();
             let axis_len = shape[axis];
@@ -549,7 +545,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..n_cols {
                             let v = unsafe { *row_start.add(j) };
-                            if v $cmp best_val {
+                            if better!(v, $cmp, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -564,7 +560,7 @@ macro_rules! impl_arg_axis {
                         let mut best_idx = 0usize;
                         for j in 1..axis_len {
                             let v = unsafe { *slice_start.add(j) };
-                            if v $cmp best_val {
+                            if better!(v, $cmp, best_val) {
                                 best_val = v;
                                 best_idx = j;
                             }
@@ -577,7 +573,7 @@ macro_rules! impl_arg_axis {
                 let outer_size: usize = shape[..axis].iter().product::<usize>().max(1);
                 let inner_size: usize = shape[axis + 1..].iter().product::<usize>().max(1);
 
-                let mut best_vals = vec![T::$init(); out_size];
+                let mut best_vals = vec![unsafe { *src_ptr }; out_size];
 
                 let mut src_idx = 0usize;
                 for outer_idx in 0..outer_size {
@@ -586,7 +582,7 @@ macro_rules! impl_arg_axis {
                         for inner_idx in 0..inner_size {
                             let v = unsafe { *src_ptr.add(src_idx) };
                             let out_idx = out_base + inner_idx;
-                            if v $cmp best_vals[out_idx] {
+                            if axis_idx == 0 || better!(v, $cmp, best_vals[out_idx]) {
                                 best_vals[out_idx] = v;
                                 unsafe { *result_ptr.add(out_idx) = axis_idx as i64; }
                             }
@@ -601,9 +597,8 @@ macro_rules! impl_arg_axis {
                     let mut best_val = unsafe { *start };
                     let mut best_idx = 0i64;
                     for j in 1..axis_len {
-                        let v = unsafe { *(start as *const u8).offset(axis_stride * j as isize) as *const T };
-                        let v = unsafe { *v };
-                        if v $cmp best_val {
+                        let v = unsafe { *((start as *const u8).offset(axis_stride * j as isize) as *const T) };
+                        if better!(v, $cmp, best_val) {
                             best_val = v;
                             best_idx = j as i64;
                         }
@@ -617,8 +612,8 @@ macro_rules! impl_arg_axis {
     };
 }
 
-impl_arg_axis!(argmax_axis_typed, >, neg_infinity);
-impl_arg_axis!(argmin_axis_typed, <, pos_infinity);
+impl_arg_axis!(argmax_axis_typed, >);
+impl_arg_axis!(argmin_axis_typed, <);
 
 impl RumpyArray {
 
@@ -665,7 +660,7 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), result_dtype.clone());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
@@ -845,7 +840,6 @@ impl RumpyArray {
     pub fn nanmin(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_min(self) {
-            Some(val) if val == f64::INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::INFINITY, |acc, v| acc.min(v));
@@ -878,7 +872,6 @@ impl RumpyArray {
     pub fn nanmax(&self) -> f64 {
         use crate::ops::dispatch;
         match dispatch::dispatch_nan_reduce_max(self) {
-            Some(val) if val == f64::NEG_INFINITY => f64::NAN, // All NaN case
             Some(val) => val,
             None => {
                 let (val, found) = self.nan_reduce_full(f64::NEG_INFINITY, |acc, v| acc.max(v));
@@ -907,6 +900,19 @@ impl RumpyArray {
         })
     }
 
+    /// Does some lane along `axis` consist of NaN only?
+    pub fn has_all_nan_lane(&self, axis: usize) -> bool {
+        let len = self.shape()[axis];
+        let stride = self.strides()[axis];
+        let (ptr, dtype) = (self.data_ptr(), self.dtype());
+        self.axis_offsets(axis).any(|base| {
+            (0..len).all(|j| {
+                let val = unsafe { dtype.ops().read_f64(ptr, base + stride * j as isize) };
+                val.is_some_and(f64::is_nan)
+            })
+        })
+    }
+
     /// Index of minimum element, ignoring NaN values.
     /// Returns None if all elements are NaN.
     pub fn nanargmin(&self) -> Option<usize> {
@@ -920,7 +926,7 @@ impl RumpyArray {
         let mut min_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val < min_val {
+            if !val.is_nan() && (min_idx.is_none() || val < min_val) {
                 min_val = val;
                 min_idx = Some(i);
             }
@@ -946,7 +952,7 @@ impl RumpyArray {
         let mut max_idx: Option<usize> = None;
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            if !val.is_nan() && val > max_val {
+            if !val.is_nan() && (max_idx.is_none() || val > max_val) {
                 max_val = val;
                 max_idx = Some(i);
             }
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 4ed0ef0..6ec9487 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1931,6 +1931,7 @@ where
         + ReduceKernel<i64>
         + ReduceKernel<i32>
         + ReduceKernel<i16>
+        + ReduceKernel<i8>
         + ReduceKernel<u64>
         + ReduceKernel<u32>
         + ReduceKernel<u16>
@@ -1945,6 +1946,7 @@ where
         DTypeKind::Int64 => dispatch_cumulative_typed::<i64, K>(arr, axis, kernel, DType::int64()),
         DTypeKind::Int32 => dispatch_cumulative_typed::<i32, K>(arr, axis, kernel, DType::int32()),
         DTypeKind::Int16 => dispatch_cumulative_typed::<i16, K>(arr, axis, kernel, DType::int16()),
+        DTypeKind::Int8 => dispatch_cumulative_typed::<i8, K>(arr, axis, kernel, DType::int8()),
         DTypeKind::Uint64 => dispatch_cumulative_typed::<u64, K>(arr, axis, kernel, DType::uint64()),
         DTypeKind::Uint32 => dispatch_cumulative_typed::<u32, K>(arr, axis, kernel, DType::uint32()),
         DTypeKind::Uint16 => dispatch_cumulative_typed::<u16, K>(arr, axis, kernel, DType::uint16()),
diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 118bbe1..569af40 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -155,13 +155,13 @@ macro_rules! impl_float_arithmetic {
             #[inline(always)]
             fn init() -> $T { <$T>::NEG_INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v > acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v > acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for Min {
             #[inline(always)]
             fn init() -> $T { <$T>::INFINITY }
             #[inline(always)]
-            fn combine(acc: $T, v: $T) -> $T { if v < acc { v } else { acc } }
+            fn combine(acc: $T, v: $T) -> $T { if v < acc || v.is_nan() { v } else { acc } }
         }
         impl ReduceKernel<$T> for SumOfSquares {
             #[inline(always)]
@@ -272,18 +272,20 @@ macro_rules! impl_nan_reduce {
         }
         impl ReduceKernel<$T> for NanMax {
             #[inline(always)]
-            fn init() -> $T { <$T>::NEG_INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v > acc { v } else { acc }
+                // The accumulator is NaN until a value is seen
+                if v > acc || acc.is_nan() { v } else { acc }
             }
         }
         impl ReduceKernel<$T> for NanMin {
             #[inline(always)]
-            fn init() -> $T { <$T>::INFINITY }
+            fn init() -> $T { <$T>::NAN }
             #[inline(always)]
             fn combine(acc: $T, v: $T) -> $T {
-                if v.is_nan() { acc } else if v < acc { v } else { acc }
+                // The accumulator is NaN until a value is seen
+                if v < acc || acc.is_nan() { v } else { acc }
             }
         }
     };
@@ -330,13 +332,13 @@ impl ReduceKernel<f16> for Max {
     #[inline(always)]
     fn init() -> f16 { f16::NEG_INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v > acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v > acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for Min {
     #[inline(always)]
     fn init() -> f16 { f16::INFINITY }
     #[inline(always)]
-    fn combine(acc: f16, v: f16) -> f16 { if v < acc { v } else { acc } }
+    fn combine(acc: f16, v: f16) -> f16 { if v < acc || v.is_nan() { v } else { acc } }
 }
 impl ReduceKernel<f16> for SumOfSquares {
     #[inline(always)]
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 5f17775..5c8aabb 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -398,6 +398,26 @@ pub fn corrcoef(arr: &RumpyArray) -> RumpyArray {
 // RumpyArray method implementations
 // ============================================================================
 
+/// Median of the values; NaN if one of them is NaN.
+fn median_of(mut values: Vec<f64>) -> f64 {
+    if values.iter().any(|v| v.is_nan()) {
+        return f64::NAN;
+    }
+    let n = values.len();
+    let mid = n / 2;
+
+    // select_nth_unstable partitions so values[mid] is the correct element
+    values.select_nth_unstable_by(mid, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+
+    if n.is_multiple_of(2) {
+        // For even length, need max of left partition (which is unsorted)
+        let left_max = values[..mid].iter().cloned().fold(f64::NEG_INFINITY, f64::max);
+        (left_max + values[mid]) / 2.0
+    } else {
+        values[mid]
+    }
+}
+
 impl RumpyArray {
     /// Median of all elements (flattened).
     /// Uses select_nth_unstable for O(n) instead of O(n log n) sort.
@@ -406,26 +426,14 @@ impl RumpyArray {
         if size == 0 {
             return f64::NAN;
         }
-        let mut values = self.to_vec();
-        let mid = size / 2;
-
-        // select_nth_unstable partitions so values[mid] is the correct element
-        values.select_nth_unstable_by(mid, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-
-        if size.is_multiple_of(2) {
-            // For even length, need max of left partition (which is unsorted)
-            let left_max = values[..mid].iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-            (left_max + values[mid]) / 2.0
-        } else {
-            values[mid]
-        }
+        median_of(self.to_vec())
     }
 
     /// Median along axis.
     pub fn median_axis(&self, axis: usize) -> RumpyArray {
         let shape = self.shape();
-        let ndim = self.ndim();
         let axis_len = shape[axis];
+        let axis_stride = self.strides()[axis];
 
         // Output shape: remove the axis dimension
         let mut out_shape: Vec<usize> = shape[..axis].to_vec();
@@ -434,10 +442,8 @@ impl RumpyArray {
             out_shape = vec![1];
         }
 
-        let out_size: usize = out_shape.iter().product();
-        let mut result = RumpyArray::zeros(out_shape.clone(), DType::float64());
-
-        if out_size == 0 || axis_len == 0 {
+        let mut result = RumpyArray::full(out_shape, f64::NAN, DType::float64());
+        if result.size() == 0 || axis_len == 0 {
             return result;
         }
 
@@ -445,29 +451,14 @@ impl RumpyArray {
         let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
         let result_ptr = result_buffer.as_mut_ptr() as *mut f64;
 
-        let mut outer_indices = vec![0usize; out_shape.len()];
-        for out_i in 0..out_size {
-            // Collect values along axis
-            let mut values = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                // Build input indices: insert k at position `axis`
-                let mut in_indices = Vec::with_capacity(ndim);
-                in_indices.extend_from_slice(&outer_indices[..axis]);
-                in_indices.push(k);
-                in_indices.extend_from_slice(&outer_indices[axis..]);
-                values.push(self.get_element(&in_indices));
-            }
-
-            // Sort and compute median
-            values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-            let median = if axis_len.is_multiple_of(2) {
-                (values[axis_len / 2 - 1] + values[axis_len / 2]) / 2.0
-            } else {
-                values[axis_len / 2]
-            };
-
-            unsafe { *result_ptr.add(out_i) = median; }
-            increment_indices(&mut outer_indices, &out_shape);
+        let src_ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        for (i, base_offset) in self.axis_offsets(axis).enumerate() {
+            let values: Vec<f64> = (0..axis_len)
+                .map(|k| unsafe { ops.read_f64(src_ptr, base_offset + axis_stride * k as isize) }.unwrap_or(0.0))
+                .collect();
+            unsafe { *result_ptr.add(i) = median_of(values); }
         }
         result
     }
@@ -564,7 +555,7 @@ impl RumpyArray {
         }
 
         let out_size: usize = out_shape.iter().product();
-        let mut result = RumpyArray::zeros(out_shape, DType::float64());
+        let mut result = RumpyArray::full(out_shape, f64::NAN, DType::float64());
 
         if out_size == 0 || axis_len == 0 {
             return result;
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index a3166c6..583e585 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -683,7 +683,7 @@ pub fn reduce_axis_op(arr: &RumpyArray, axis: usize, op: ReduceOp) -> RumpyArray
     let mut result = RumpyArray::zeros(out_shape, arr.dtype());
     let out_size = result.size();
 
-    if out_size == 0 || axis_len == 0 {
+    if out_size == 0 {
         return result;
     }
 
diff --git a/src/python/pyarray/methods_reductions.rs b/src/python/pyarray/methods_reductions.rs
index 4ff86b4..ce09e3d 100644
--- a/src/python/pyarray/methods_reductions.rs
+++ b/src/python/pyarray/methods_reductions.rs
@@ -8,6 +8,15 @@ use super::{
 };
 use crate::array::DType;
 
+/// Dtype of a floating-point statistic of the array.
+fn float_dtype(arr: &crate::array::RumpyArray) -> DType {
+    use crate::array::dtype::DTypeKind;
+    match arr.dtype().kind() {
+        DTypeKind::Float16 | DTypeKind::Float32 => arr.dtype(),
+        _ => DType::float64(),
+    }
+}
+
 #[pymethods]
 impl PyRumpyArray {
     #[pyo3(signature = (axis=None, keepdims=false))]
@@ -23,6 +32,7 @@ impl PyRumpyArray {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.sum_axis(ax),
                     ax,
                     keepdims,
@@ -44,6 +54,7 @@ impl PyRumpyArray {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.prod_axis(ax),
                     ax,
                     keepdims,
@@ -54,6 +65,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn max(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::require_nonempty(&self.inner, axis)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -65,6 +77,7 @@ impl PyRumpyArray {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.max_axis(ax),
                     ax,
                     keepdims,
@@ -75,6 +88,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None, keepdims=false))]
     fn min(&self, axis: Option<isize>, keepdims: bool) -> PyResult<ReductionResult> {
+        super::require_nonempty(&self.inner, axis)?;
         match axis {
             None => Ok(scalar_reduction_with_keepdims(
                 &self.inner,
@@ -86,6 +100,7 @@ impl PyRumpyArray {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.min_axis(ax),
                     ax,
                     keepdims,
@@ -101,12 +116,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.mean(),
                 keepdims,
-                self.inner.dtype(),
+                float_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.mean_axis(ax),
                     ax,
                     keepdims,
@@ -122,12 +138,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.var(),
                 keepdims,
-                self.inner.dtype(),
+                float_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.var_axis(ax),
                     ax,
                     keepdims,
@@ -143,12 +160,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.std(),
                 keepdims,
-                self.inner.dtype(),
+                float_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.std_axis(ax),
                     ax,
                     keepdims,
@@ -165,12 +183,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.moment(k),
                 keepdims,
-                self.inner.dtype(),
+                float_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.moment_axis(k, ax),
                     ax,
                     keepdims,
@@ -187,12 +206,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.skew(),
                 keepdims,
-                self.inner.dtype(),
+                float_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.skew_axis(ax),
                     ax,
                     keepdims,
@@ -209,12 +229,13 @@ impl PyRumpyArray {
                 &self.inner,
                 self.inner.kurtosis(),
                 keepdims,
-                self.inner.dtype(),
+                float_dtype(&self.inner),
             )),
             Some(ax) => {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.kurtosis_axis(ax),
                     ax,
                     keepdims,
@@ -225,6 +246,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None))]
     fn argmax(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
+        super::require_nonempty(&self.inner, axis)?;
         match axis {
             None => Ok(ReductionResult::Scalar(self.inner.argmax() as f64)),
             Some(ax) => {
@@ -239,6 +261,7 @@ impl PyRumpyArray {
 
     #[pyo3(signature = (axis=None))]
     fn argmin(&self, axis: Option<isize>) -> PyResult<ReductionResult> {
+        super::require_nonempty(&self.inner, axis)?;
         match axis {
             None => Ok(ReductionResult::Scalar(self.inner.argmin() as f64)),
             Some(ax) => {
@@ -266,6 +289,7 @@ impl PyRumpyArray {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.all_axis(ax),
                     ax,
                     keepdims,
@@ -289,6 +313,7 @@ impl PyRumpyArray {
                 let ax = super::resolve_axis(ax, self.inner.ndim());
                 check_axis(ax, self.inner.ndim())?;
                 Ok(axis_reduction_with_keepdims(
+                    &self.inner,
                     self.inner.any_axis(ax),
                     ax,
                     keepdims,
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index b85cffd..bf39d3d 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -144,10 +144,22 @@ fn check_axis(axis: usize, ndim: usize) -> PyResult<()> {
     }
 }
 
-/// Apply keepdims to a reduction result.
-fn apply_keepdims(arr: RumpyArray, axis: usize) -> RumpyArray {
-    // Insert a dimension of size 1 at the reduced axis position
-    arr.expand_dims(axis).unwrap_or(arr)
+/// Reductions without an identity need at least one element in every lane.
+fn require_nonempty(arr: &RumpyArray, axis: Option<isize>) -> PyResult<()> {
+    let axes = axis.map(|ax| vec![resolve_axis(ax, arr.ndim())]);
+    if crate::python::reductions::has_empty_lane(arr, axes.as_deref()) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "zero-size array to reduction operation which has no identity",
+        ));
+    }
+    Ok(())
+}
+
+/// Apply keepdims to the reduction of `source` along `axis`.
+fn apply_keepdims(arr: RumpyArray, source: &RumpyArray, axis: usize) -> RumpyArray {
+    let mut shape = source.shape().to_vec();
+    shape[axis] = 1;
+    arr.reshape(shape).unwrap_or(arr)
 }
 
 /// Helper for scalar reductions with keepdims support.
@@ -172,12 +184,13 @@ fn scalar_reduction_with_keepdims(
 
 /// Helper for axis reductions with keepdims support.
 fn axis_reduction_with_keepdims(
+    source: &RumpyArray,
     result: RumpyArray,
     axis: usize,
     keepdims: bool,
 ) -> ReductionResult {
     if keepdims {
-        ReductionResult::Array(PyRumpyArray::new(apply_keepdims(result, axis)))
+        ReductionResult::Array(PyRumpyArray::new(apply_keepdims(result, source, axis)))
     } else {
         ReductionResult::Array(PyRumpyArray::new(result))
     }
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 3912a0b..8319b9b 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -27,6 +27,14 @@ pub fn resolve_axis(axis: isize, ndim: usize) -> usize {
     }
 }
 
+/// Reject repeated axes.
+fn check_distinct(axes: &[usize]) -> PyResult<()> {
+    if (1..axes.len()).any(|i| axes[..i].contains(&axes[i])) {
+        return Err(pyo3::exceptions::PyValueError::new_err("duplicate value in 'axis'"));
+    }
+    Ok(())
+}
+
 /// Parse axis parameter - can be None, a single int, or a tuple of ints.
 /// Returns None if axis is None, or Some(Vec<usize>) with normalized axes.
 fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Option<Vec<usize>>> {
@@ -51,6 +59,7 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
                 if axes.is_empty() {
                     return Err(pyo3::exceptions::PyValueError::new_err("axis tuple cannot be empty"));
                 }
+                check_distinct(&axes)?;
                 Ok(Some(axes))
             }
             // Try to extract as a list
@@ -64,6 +73,7 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
                 if axes.is_empty() {
                     return Err(pyo3::exceptions::PyValueError::new_err("axis list cannot be empty"));
                 }
+                check_distinct(&axes)?;
                 Ok(Some(axes))
             }
             else {
@@ -75,21 +85,34 @@ fn parse_axis(axis: Option<&Bound<'_, pyo3::PyAny>>, ndim: usize) -> PyResult<Op
     }
 }
 
-/// Perform sequential reductions over multiple axes.
-/// When reducing axis N, all subsequent axes with index > N shift down by 1.
-/// To match NumPy, we sort axes in descending order and reduce from highest to lowest.
-fn reduce_multi_axis<F>(arr: &RumpyArray, mut axes: Vec<usize>, reduce_fn: F) -> RumpyArray
+/// Do the lanes of a reduction over `axes` (all axes if None) have no elements?
+pub(crate) fn has_empty_lane(arr: &RumpyArray, axes: Option<&[usize]>) -> bool {
+    let reduced = |d: &usize| axes.is_none_or(|ax| ax.contains(d));
+    let shape = arr.shape();
+    (0..arr.ndim()).any(|d| reduced(&d) && shape[d] == 0)
+}
+
+/// Reject reductions without an identity over empty lanes.
+fn require_nonempty(arr: &RumpyArray, axes: &Option<Vec<usize>>) -> PyResult<()> {
+    if has_empty_lane(arr, axes.as_deref()) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "zero-size array to reduction operation which has no identity",
+        ));
+    }
+    Ok(())
+}
+
+/// Reduce over several axes at once: they are moved to the end and merged into one.
+fn reduce_multi_axis<F>(arr: &RumpyArray, axes: Vec<usize>, reduce_fn: F) -> RumpyArray
 where
     F: Fn(&RumpyArray, usize) -> RumpyArray,
 {
-    // Sort axes in descending order to avoid index shifting issues
-    axes.sort_by(|a, b| b.cmp(a));
-
-    let mut result = arr.clone();
-    for &axis in &axes {
-        result = reduce_fn(&result, axis);
-    }
-    result
+    let kept: Vec<usize> = (0..arr.ndim()).filter(|d| !axes.contains(d)).collect();
+    let order: Vec<usize> = kept.iter().chain(axes.iter()).copied().collect();
+    let mut merged_shape: Vec<usize> = kept.iter().map(|&d| arr.shape()[d]).collect();
+    merged_shape.push(axes.iter().map(|&d| arr.shape()[d]).product());
+    let merged = arr.transpose_axes(&order).copy().reshape(merged_shape).expect("same number of elements");
+    reduce_fn(&merged, kept.len())
 }
 
 // ============================================================================
@@ -186,6 +209,7 @@ pub fn std_fn(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    require_nonempty(&x.inner, &axes)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.max())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -203,6 +227,7 @@ pub fn max(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyo3(signature = (x, axis=None))]
 pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    require_nonempty(&x.inner, &axes)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.min())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -220,6 +245,7 @@ pub fn min(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<
 #[pyo3(signature = (x, axis=None))]
 pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    require_nonempty(&x.inner, &axes)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmax() as f64)),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -237,6 +263,7 @@ pub fn argmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn argmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    require_nonempty(&x.inner, &axes)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.argmin() as f64)),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -343,6 +370,7 @@ pub fn nanstd(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    require_nonempty(&x.inner, &axes)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmin())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -360,6 +388,7 @@ pub fn nanmin(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResu
 #[pyo3(signature = (x, axis=None))]
 pub fn nanmax(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    require_nonempty(&x.inner, &axes)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.nanmax())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -388,6 +417,10 @@ pub fn nanargmin(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
+            require_nonempty(&x.inner, &Some(vec![ax]))?;
+            if x.inner.has_all_nan_lane(ax) {
+                return Err(pyo3::exceptions::PyValueError::new_err("All-NaN slice encountered"));
+            }
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmin_axis(ax))))
         }
     }
@@ -409,6 +442,10 @@ pub fn nanargmax(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<pyarray::Red
         Some(ax) => {
             let ax = resolve_axis(ax, x.inner.ndim());
             check_axis(ax, x.inner.ndim())?;
+            require_nonempty(&x.inner, &Some(vec![ax]))?;
+            if x.inner.has_all_nan_lane(ax) {
+                return Err(pyo3::exceptions::PyValueError::new_err("All-NaN slice encountered"));
+            }
             Ok(pyarray::ReductionResult::Array(PyRumpyArray::new(x.inner.nanargmax_axis(ax))))
         }
     }
@@ -546,6 +583,7 @@ pub fn average(
 #[pyo3(signature = (x, axis=None))]
 pub fn ptp(x: &PyRumpyArray, axis: Option<&Bound<'_, pyo3::PyAny>>) -> PyResult<pyarray::ReductionResult> {
     let axes = parse_axis(axis, x.inner.ndim())?;
+    require_nonempty(&x.inner, &axes)?;
     match axes {
         None => Ok(pyarray::ReductionResult::Scalar(x.inner.ptp())),
         Some(ax_vec) if ax_vec.len() == 1 => {
@@ -785,8 +823,10 @@ pub fn count_nonzero(x: &PyRumpyArray) -> usize {
 
 #[pyfunction]
 #[pyo3(signature = (x, n=1, axis=-1))]
-pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diff(n, resolve_axis(axis, x.inner.ndim())))
+pub fn diff(x: &PyRumpyArray, n: usize, axis: isize) -> PyResult<PyRumpyArray> {
+    let axis = resolve_axis(axis, x.inner.ndim());
+    check_axis(axis, x.inner.ndim())?;
+    Ok(PyRumpyArray::new(x.inner.diff(n, axis)))
 }
 
 // ============================================================================
-- 
2.43.0


From e37e1fdf9104b18bd00ade395b839ed79724efa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:44 +0000
Subject: [PATCH 16/69] fix: all/any of empty lanes, n-th difference of empty
 arrays

---
 src/ops/array_methods/cumulative.rs | 2 +-
 src/ops/array_methods/logical.rs    | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index b72ecf6..f2f49c6 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -136,7 +136,7 @@ impl RumpyArray {
 
         let out_size: usize = new_shape.iter().product();
         if out_size == 0 {
-            return result;
+            return result.diff(n - 1, axis);
         }
 
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
diff --git a/src/ops/array_methods/logical.rs b/src/ops/array_methods/logical.rs
index 561ba08..d0d08b1 100644
--- a/src/ops/array_methods/logical.rs
+++ b/src/ops/array_methods/logical.rs
@@ -55,7 +55,7 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
@@ -122,7 +122,7 @@ impl RumpyArray {
 
         let mut result = RumpyArray::zeros(out_shape.clone(), DType::bool());
         let out_size = result.size();
-        if out_size == 0 || axis_len == 0 {
+        if out_size == 0 {
             return result;
         }
 
-- 
2.43.0


From 6e8c184d12a064e7ecf2e64f3327c76a68006892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:45:38 +0000
Subject: [PATCH 17/69] fix: 2-norm of arrays with eight or more elements or
 non-contiguous layout

---
 src/ops/array_methods/reductions.rs | 11 ++++++++++-
 src/ops/dispatch.rs                 | 30 -----------------------------
 2 files changed, 10 insertions(+), 31 deletions(-)

diff --git a/src/ops/array_methods/reductions.rs b/src/ops/array_methods/reductions.rs
index 0d2feb3..de56f3a 100644
--- a/src/ops/array_methods/reductions.rs
+++ b/src/ops/array_methods/reductions.rs
@@ -34,7 +34,16 @@ impl RumpyArray {
     /// Sum of squares: sum(x*x). Single pass, no intermediate allocation.
     /// Used for efficient 2-norm computation: sqrt(sum_of_squares(x)).
     pub fn sum_of_squares(&self) -> f64 {
-        crate::ops::dispatch::dispatch_reduce_sum_of_squares(self).unwrap_or(0.0)
+        let (ptr, dtype) = (self.data_ptr(), self.dtype());
+        let ops = dtype.ops();
+        self.iter_offsets()
+            .map(|offset| {
+                let (re, im) = unsafe { ops.read_complex(ptr, offset) }
+                    .or_else(|| unsafe { ops.read_f64(ptr, offset) }.map(|re| (re, 0.0)))
+                    .unwrap_or((0.0, 0.0));
+                re * re + im * im
+            })
+            .sum()
     }
 
     /// Product of all elements.
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 6ec9487..e59fad6 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -440,36 +440,6 @@ pub fn dispatch_reduce_min(arr: &RumpyArray) -> Option<RumpyArray> {
     dispatch_reduce_to_array(arr, Min)
 }
 
-/// Sum of squares reduction: sum(x*x). Single pass, no intermediate allocation.
-pub fn dispatch_reduce_sum_of_squares(arr: &RumpyArray) -> Option<f64> {
-    let kind = arr.dtype().kind();
-    let size = arr.size();
-
-    match kind {
-        DTypeKind::Float64 => dispatch_reduce_typed::<f64, SumOfSquares>(arr, size, SumOfSquares),
-        DTypeKind::Float32 => dispatch_reduce_typed::<f32, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Float16 => dispatch_reduce_typed::<f16, SumOfSquares>(arr, size, SumOfSquares).map(|v| v.to_f64()),
-        DTypeKind::Int64 => dispatch_reduce_typed::<i64, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Int32 => dispatch_reduce_typed::<i32, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Int16 => dispatch_reduce_typed::<i16, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Int8 => dispatch_reduce_typed::<i8, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint64 => dispatch_reduce_typed::<u64, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint32 => dispatch_reduce_typed::<u32, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint16 => dispatch_reduce_typed::<u16, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        DTypeKind::Uint8 => dispatch_reduce_typed::<u8, SumOfSquares>(arr, size, SumOfSquares).map(|v| v as f64),
-        // Complex: return magnitude squared sum (re^2 + im^2)
-        DTypeKind::Complex128 => {
-            dispatch_reduce_typed::<Complex<f64>, SumOfSquares>(arr, size, SumOfSquares)
-                .map(|c| c.re + c.im)
-        }
-        DTypeKind::Complex64 => {
-            dispatch_reduce_typed::<Complex<f32>, SumOfSquares>(arr, size, SumOfSquares)
-                .map(|c| (c.re + c.im) as f64)
-        }
-        _ => None,
-    }
-}
-
 /// Generic reduce dispatch returning a 0-d array.
 fn dispatch_reduce_to_array<K>(arr: &RumpyArray, kernel: K) -> Option<RumpyArray>
 where
-- 
2.43.0


From edf229d0a8dd8dae9a23d08b2a6680b1ddece5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:23 +0000
Subject: [PATCH 18/69] fix: drop imports left unused by the reduction repairs

---
 src/ops/dispatch.rs   | 2 +-
 src/ops/statistics.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index e59fad6..0340b22 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -17,7 +17,7 @@ use crate::ops::kernels::arithmetic::{
     Add, Sub, Mul, Div, Sum, Prod, Max, Min,
     Pow, Mod, FloorDiv, Maximum, Minimum,
     Arctan2, Hypot, FMax, FMin, Copysign, Logaddexp, Logaddexp2, Nextafter,
-    NanSum, NanProd, NanMax, NanMin, SumOfSquares,
+    NanSum, NanProd, NanMax, NanMin,
 };
 use crate::ops::kernels::math::{
     Neg, Abs, Sqrt, Exp, Log, Log10, Log2, Sin, Cos, Tan, Floor, Ceil, Square,
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index 5c8aabb..db64aba 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -2,7 +2,7 @@
 //!
 //! These are higher-level operations that build on the core ufunc machinery.
 
-use crate::array::{increment_indices, DType, RumpyArray};
+use crate::array::{DType, RumpyArray};
 use crate::ops::{BinaryOp, matmul};
 use std::sync::Arc;
 
-- 
2.43.0


From c9dae8fc0e7353305c2cda29d2f996c919f82360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:55 +0000
Subject: [PATCH 19/69] fix: sorting, partitioning and unique of NaN, wide
 integer, complex and strided data; in-place sort and partition write through
 views; axis and kth errors

---
 src/array/dtype/complex128.rs    |  12 +-
 src/array/dtype/complex64.rs     |  12 +-
 src/array/dtype/datetime64.rs    |   8 +-
 src/array/dtype/float16.rs       |   3 +-
 src/array/dtype/macros.rs        |   3 +-
 src/ops/array_methods/sorting.rs | 211 ++++++++++++++-----------------
 src/python/indexing.rs           |  46 +++++--
 src/python/pyarray/mod.rs        | 160 +++++------------------
 src/python/reductions.rs         |   2 +-
 9 files changed, 186 insertions(+), 271 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index 8901a46..eb9d9b9 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -390,12 +390,16 @@ impl DTypeOps for Complex128Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic (real, imaginary), NaN last
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        let a_nan = ar.is_nan() || ai.is_nan();
+        let b_nan = br.is_nan() || bi.is_nan();
+        if a_nan || b_nan {
+            return a_nan.cmp(&b_nan);
+        }
+        ar.partial_cmp(&br).unwrap_or(Ordering::Equal)
+            .then(ai.partial_cmp(&bi).unwrap_or(Ordering::Equal))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 19e06f9..3b11d0f 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -387,12 +387,16 @@ impl DTypeOps for Complex64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        // Compare by magnitude (not ideal but allows sorting)
+        // Lexicographic (real, imaginary), NaN last
         let (ar, ai) = Self::read(a, a_offset);
         let (br, bi) = Self::read(b, b_offset);
-        let mag_a = ar * ar + ai * ai;
-        let mag_b = br * br + bi * bi;
-        mag_a.partial_cmp(&mag_b).unwrap_or(Ordering::Equal)
+        let a_nan = ar.is_nan() || ai.is_nan();
+        let b_nan = br.is_nan() || bi.is_nan();
+        if a_nan || b_nan {
+            return a_nan.cmp(&b_nan);
+        }
+        ar.partial_cmp(&br).unwrap_or(Ordering::Equal)
+            .then(ai.partial_cmp(&bi).unwrap_or(Ordering::Equal))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 186db18..85a7644 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -232,7 +232,9 @@ impl DTypeOps for DateTime64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        // NaT last
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        (av == NAT, av).cmp(&(bv == NAT, bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
@@ -406,7 +408,9 @@ impl DTypeOps for TimeDelta64Ops {
     }
 
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
-        Self::read(a, a_offset).cmp(&Self::read(b, b_offset))
+        // NaT last
+        let (av, bv) = (Self::read(a, a_offset), Self::read(b, b_offset));
+        (av == NAT, av).cmp(&(bv == NAT, bv))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index b82d3f6..59581e3 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -164,7 +164,8 @@ impl DTypeOps for Float16Ops {
     unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> Ordering {
         let av = Self::read(a, a_offset);
         let bv = Self::read(b, b_offset);
-        av.partial_cmp(&bv).unwrap_or(Ordering::Equal)
+        // NaN last
+        av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
     }
 
     unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index a05f9a0..d76b032 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -172,7 +172,8 @@ macro_rules! impl_float_dtype {
             unsafe fn compare_elements(&self, a: *const u8, a_offset: isize, b: *const u8, b_offset: isize) -> std::cmp::Ordering {
                 let av = Self::read(a, a_offset);
                 let bv = Self::read(b, b_offset);
-                av.partial_cmp(&bv).unwrap_or(std::cmp::Ordering::Equal)
+                // NaN last
+                av.partial_cmp(&bv).unwrap_or_else(|| av.is_nan().cmp(&bv.is_nan()))
             }
 
             unsafe fn is_truthy(&self, ptr: *const u8, byte_offset: isize) -> bool {
diff --git a/src/ops/array_methods/sorting.rs b/src/ops/array_methods/sorting.rs
index 3239991..0b013cd 100644
--- a/src/ops/array_methods/sorting.rs
+++ b/src/ops/array_methods/sorting.rs
@@ -30,12 +30,38 @@ impl RumpyArray {
         values
     }
 
+    /// The elements at the given flat positions of a contiguous array, as a 1-D array.
+    pub(crate) fn take_positions(&self, positions: &[usize]) -> RumpyArray {
+        let dtype = self.dtype();
+        let itemsize = dtype.itemsize() as isize;
+        let mut result = RumpyArray::zeros(vec![positions.len()], dtype.clone());
+        if positions.is_empty() {
+            return result;
+        }
+        let ops = dtype.ops();
+        let dst = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+        for (i, &p) in positions.iter().enumerate() {
+            unsafe { ops.copy_element(self.data_ptr(), p as isize * itemsize, dst, i); }
+        }
+        result
+    }
+
+    /// Flat positions of a contiguous array in ascending element order (stable).
+    pub(crate) fn sorted_positions(&self) -> Vec<usize> {
+        let ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        let itemsize = dtype.itemsize() as isize;
+        let mut order: Vec<usize> = (0..self.size()).collect();
+        order.sort_by(|&a, &b| unsafe {
+            ops.compare_elements(ptr, a as isize * itemsize, ptr, b as isize * itemsize)
+        });
+        order
+    }
+
     /// Return unique sorted values.
     pub fn unique(&self) -> RumpyArray {
-        let mut values = self.to_vec();
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-        values.dedup_by(|a, b| (*a - *b).abs() < f64::EPSILON);
-        RumpyArray::from_vec(values, self.dtype())
+        self.unique_all().0
     }
 
     /// Return unique sorted values (same as unique, Array API compatible).
@@ -65,63 +91,37 @@ impl RumpyArray {
     /// - inverse_indices: index into values that reconstructs original (same shape as input)
     /// - counts: count of each unique value
     pub fn unique_all(&self) -> (RumpyArray, RumpyArray, RumpyArray, RumpyArray) {
-        let values = self.to_vec();
-        let n = values.len();
-        if n == 0 {
-            return (
-                RumpyArray::from_vec(Vec::<f64>::new(), self.dtype()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-                RumpyArray::from_vec_i64(Vec::<i64>::new(), DType::int64()),
-            );
-        }
-
-        // Create indices and sort by value
-        let mut indexed: Vec<(f64, usize)> = values.iter().copied().enumerate().map(|(i, v)| (v, i)).collect();
-        indexed.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-        // Collect unique values with all metadata
-        let mut unique_vals = Vec::new();
-        let mut first_indices = Vec::new();
-        let mut counts = Vec::new();
-        let mut inverse = vec![0i64; n];
-
-        let mut prev = indexed[0].0;
-        let mut unique_idx = 0i64;
-        let mut first_idx = indexed[0].1;
-        let mut count = 1i64;
-        inverse[indexed[0].1] = unique_idx;
-
-        for &(val, orig_idx) in &indexed[1..] {
-            if (val - prev).abs() < f64::EPSILON {
-                count += 1;
-                // Update first_idx if this occurrence is earlier
-                if orig_idx < first_idx {
-                    first_idx = orig_idx;
-                }
-                inverse[orig_idx] = unique_idx;
+        let flat = self.copy();
+        let order = flat.sorted_positions();
+        let ptr = flat.data_ptr();
+        let dtype = flat.dtype();
+        let ops = dtype.ops();
+        let itemsize = dtype.itemsize() as isize;
+
+        let mut first_positions: Vec<usize> = Vec::new();
+        let mut counts: Vec<i64> = Vec::new();
+        let mut inverse = vec![0i64; order.len()];
+        for &pos in &order {
+            // The order is stable: the first of a run of equal elements occurs first
+            let same = first_positions.last().is_some_and(|&p| unsafe {
+                ops.compare_elements(ptr, p as isize * itemsize, ptr, pos as isize * itemsize)
+            } == std::cmp::Ordering::Equal);
+            if same {
+                *counts.last_mut().expect("run") += 1;
             } else {
-                unique_vals.push(prev);
-                first_indices.push(first_idx as i64);
-                counts.push(count);
-
-                prev = val;
-                first_idx = orig_idx;
-                count = 1;
-                unique_idx += 1;
-                inverse[orig_idx] = unique_idx;
+                first_positions.push(pos);
+                counts.push(1);
             }
+            inverse[pos] = first_positions.len() as i64 - 1;
         }
-        unique_vals.push(prev);
-        first_indices.push(first_idx as i64);
-        counts.push(count);
+        let first_indices = first_positions.iter().map(|&p| p as i64).collect();
 
         // Reshape inverse to match original array shape
         let inverse_arr = RumpyArray::from_vec_i64(inverse, DType::int64());
         let inverse_shaped = inverse_arr.reshape(self.shape().to_vec()).unwrap_or(inverse_arr);
 
         (
-            RumpyArray::from_vec(unique_vals, self.dtype()),
+            flat.take_positions(&first_positions),
             RumpyArray::from_vec_i64(first_indices, DType::int64()),
             inverse_shaped,
             RumpyArray::from_vec_i64(counts, DType::int64()),
@@ -140,56 +140,29 @@ impl RumpyArray {
         };
         assert!(axis < self.ndim(), "axis out of bounds");
 
-        let shape = self.shape();
-        let axis_len = shape[axis];
-        let dtype = self.dtype().clone();
-
         let mut result = self.copy();
-        if axis_len <= 1 {
+        let axis_len = self.shape()[axis];
+        if axis_len <= 1 || self.size() == 0 {
             return result;
         }
 
-        // For each position along other axes, sort the elements along the target axis
-        let mut out_shape: Vec<usize> = shape[..axis].to_vec();
-        out_shape.extend_from_slice(&shape[axis + 1..]);
-        if out_shape.is_empty() {
-            out_shape = vec![1];
-        }
-        let out_size: usize = out_shape.iter().product();
-
+        let indices = self.argsort(Some(axis));
+        let dtype = self.dtype();
         let ops = dtype.ops();
-        let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
-        let result_ptr = result_buffer.as_mut_ptr();
-
-        let mut out_indices = vec![0usize; out_shape.len()];
-        for _ in 0..out_size {
-            // Collect values along axis
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                values.push((self.get_element(&in_indices), k));
-            }
-
-            // Sort by value
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
-
-            // Write sorted values back
-            for (k, (val, _)) in values.iter().enumerate() {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                let byte_offset = result.byte_offset_for(&in_indices);
-                let linear_idx = byte_offset as usize / dtype.itemsize();
-                unsafe { ops.write_f64(result_ptr, linear_idx, *val); }
+        let src_ptr = self.data_ptr();
+        let axis_stride = self.strides()[axis];
+        let result_ptr = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+        let index_ptr = indices.data_ptr() as *const i64;
+        // Offsets of the first element of each lane, repeated along the lane
+        let lane_strides: Vec<isize> = self.strides().iter().enumerate()
+            .map(|(d, &s)| if d == axis { 0 } else { s })
+            .collect();
+        let lanes = self.view_with(0, self.shape().to_vec(), lane_strides);
+        for (i, lane) in lanes.iter_offsets().enumerate() {
+            unsafe {
+                let position = lane + *index_ptr.add(i) as isize * axis_stride;
+                ops.copy_element(src_ptr, position, result_ptr, i);
             }
-
-            increment_indices(&mut out_indices, &out_shape);
         }
         result
     }
@@ -224,25 +197,31 @@ impl RumpyArray {
 
         let result_buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
         let result_ptr = result_buffer.as_mut_ptr() as *mut i64;
+        let src_ptr = self.data_ptr();
+        let dtype = self.dtype();
+        let ops = dtype.ops();
+        let axis_stride = self.strides()[axis];
 
         let mut out_indices = vec![0usize; out_shape.len()];
         for _ in 0..out_size {
-            // Collect values along axis with their indices
-            let mut values: Vec<(f64, usize)> = Vec::with_capacity(axis_len);
-            for k in 0..axis_len {
-                let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
-                in_indices.push(k);
-                if axis < self.ndim() - 1 {
-                    in_indices.extend_from_slice(&out_indices[axis..]);
-                }
-                values.push((self.get_element(&in_indices), k));
-            }
-
-            // Sort by value, keeping track of original indices
-            values.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap_or(std::cmp::Ordering::Equal));
+            let mut first: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
+            first.push(0);
+            if axis < self.ndim() - 1 {
+                first.extend_from_slice(&out_indices[axis..]);
+            }
+            let base = self.byte_offset_for(&first);
+
+            // Sort positions by value (stable)
+            let mut order: Vec<usize> = (0..axis_len).collect();
+            order.sort_by(|&a, &b| unsafe {
+                ops.compare_elements(
+                    src_ptr, base + a as isize * axis_stride,
+                    src_ptr, base + b as isize * axis_stride,
+                )
+            });
 
             // Write sorted indices back
-            for (k, (_, orig_idx)) in values.iter().enumerate() {
+            for (k, orig_idx) in order.iter().enumerate() {
                 let mut in_indices: Vec<usize> = out_indices[..axis.min(out_indices.len())].to_vec();
                 in_indices.push(k);
                 if axis < self.ndim() - 1 {
@@ -332,11 +311,11 @@ fn partition_inplace(arr: &mut RumpyArray, kth: usize, axis: usize) {
         match dtype.kind() {
             DTypeKind::Float64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f64, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())));
             }
             DTypeKind::Float32 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut f32, axis_len) };
-                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+                slice.select_nth_unstable_by(kth, |a, b| a.partial_cmp(b).unwrap_or_else(|| a.is_nan().cmp(&b.is_nan())));
             }
             DTypeKind::Int64 => {
                 let slice = unsafe { std::slice::from_raw_parts_mut(ptr as *mut i64, axis_len) };
@@ -486,7 +465,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                 });
             }
             DTypeKind::Float32 => {
@@ -494,7 +473,7 @@ fn argpartition_impl(arr: &RumpyArray, kth: usize, axis: usize) -> RumpyArray {
                 indices.select_nth_unstable_by(kth, |&a, &b| {
                     let va = slice[a as usize];
                     let vb = slice[b as usize];
-                    va.partial_cmp(&vb).unwrap_or(std::cmp::Ordering::Equal)
+                    va.partial_cmp(&vb).unwrap_or_else(|| va.is_nan().cmp(&vb.is_nan()))
                 });
             }
             DTypeKind::Int64 => {
@@ -666,11 +645,11 @@ pub fn lexsort(keys: &[&RumpyArray]) -> Option<RumpyArray> {
                 match info.dtype.kind() {
                     DTypeKind::Float64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f64, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        slice[a].partial_cmp(&slice[b]).unwrap_or_else(|| slice[a].is_nan().cmp(&slice[b].is_nan()))
                     }
                     DTypeKind::Float32 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const f32, n) };
-                        slice[a].partial_cmp(&slice[b]).unwrap_or(std::cmp::Ordering::Equal)
+                        slice[a].partial_cmp(&slice[b]).unwrap_or_else(|| slice[a].is_nan().cmp(&slice[b].is_nan()))
                     }
                     DTypeKind::Int64 => {
                         let slice = unsafe { std::slice::from_raw_parts(info.ptr as *const i64, n) };
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 94e9041..15552c2 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -308,36 +308,58 @@ pub fn setxor1d(ar1: &PyRumpyArray, ar2: &PyRumpyArray) -> PyRumpyArray {
 // Sorting
 // ============================================================================
 
+/// Resolve the axis of a sorting function, which must be an axis of the array.
+pub(crate) fn resolve_sort_axis(x: &RumpyArray, axis: Option<isize>) -> PyResult<Option<usize>> {
+    let resolved = axis.map(|a| super::reductions::resolve_axis(a, x.ndim()));
+    if let Some(ax) = resolved {
+        super::reductions::check_axis(ax, x.ndim())?;
+    }
+    Ok(resolved)
+}
+
+/// Check that kth designates an element of the lanes to be partitioned.
+pub(crate) fn check_kth(x: &RumpyArray, kth: usize, axis: Option<usize>) -> PyResult<()> {
+    let len = axis.map_or(x.size(), |ax| x.shape()[ax]);
+    if kth >= len {
+        return Err(pyo3::exceptions::PyValueError::new_err(format!(
+            "kth(={}) out of bounds ({})", kth, len
+        )));
+    }
+    Ok(())
+}
+
 /// Return a sorted copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.sort(resolved_axis))
+pub fn sort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = resolve_sort_axis(&x.inner, axis)?;
+    Ok(PyRumpyArray::new(x.inner.sort(resolved_axis)))
 }
 
 /// Return indices that would sort an array.
 #[pyfunction]
 #[pyo3(signature = (x, axis=-1))]
-pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argsort(resolved_axis))
+pub fn argsort(x: &PyRumpyArray, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = resolve_sort_axis(&x.inner, axis)?;
+    Ok(PyRumpyArray::new(x.inner.argsort(resolved_axis)))
 }
 
 /// Return a partitioned copy of an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn partition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.partition(kth, resolved_axis))
+pub fn partition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = resolve_sort_axis(&x.inner, axis)?;
+    check_kth(&x.inner, kth, resolved_axis)?;
+    Ok(PyRumpyArray::new(x.inner.partition(kth, resolved_axis)))
 }
 
 /// Return indices that would partition an array.
 #[pyfunction]
 #[pyo3(signature = (x, kth, axis=-1))]
-pub fn argpartition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyRumpyArray {
-    let resolved_axis = axis.map(|a| super::reductions::resolve_axis(a, x.inner.ndim()));
-    PyRumpyArray::new(x.inner.argpartition(kth, resolved_axis))
+pub fn argpartition(x: &PyRumpyArray, kth: usize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
+    let resolved_axis = resolve_sort_axis(&x.inner, axis)?;
+    check_kth(&x.inner, kth, resolved_axis)?;
+    Ok(PyRumpyArray::new(x.inner.argpartition(kth, resolved_axis)))
 }
 
 /// Perform an indirect stable sort using a sequence of keys.
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index bf39d3d..ffa8585 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -492,16 +492,18 @@ impl PyRumpyArray {
 
     /// Return indices that would sort the array.
     #[pyo3(signature = (axis=None))]
-    fn argsort(&self, axis: Option<isize>) -> Self {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), false);
-        Self::new(self.inner.argsort(ax))
+    fn argsort(&self, axis: Option<isize>) -> PyResult<Self> {
+        let ax = crate::python::indexing::resolve_sort_axis(&self.inner, axis)?;
+        Ok(Self::new(self.inner.argsort(ax)))
     }
 
     /// Sort array in-place.
     #[pyo3(signature = (axis=None))]
-    fn sort(&mut self, axis: Option<isize>) {
-        let ax = normalize_axis_option(axis, self.inner.ndim(), true);
-        self.inner = self.inner.sort(ax);
+    fn sort(&mut self, axis: Option<isize>) -> PyResult<()> {
+        let ax = crate::python::indexing::resolve_sort_axis(&self.inner, Some(axis.unwrap_or(-1)))?;
+        let sorted = self.inner.sort(ax);
+        store_elements(&mut self.inner, &sorted);
+        Ok(())
     }
 
     /// Find indices where elements should be inserted to maintain order.
@@ -880,65 +882,21 @@ impl PyRumpyArray {
         Ok(result.unbind())
     }
 
-    /// Partially sort array in-place so element at kth position is in sorted position.
+    /// Partially sort array in-place along the last axis so that the element at kth
+    /// position is in sorted position.
     fn partition(&mut self, kth: usize) -> PyResult<()> {
-        let size = self.inner.size();
-        if kth >= size {
-            return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
-            )));
-        }
-
-        // Fast path: contiguous float64 array - work directly on buffer
-        if self.inner.is_c_contiguous() && self.inner.dtype().ops().name() == "float64" {
-            let ptr = self.inner.data_ptr_mut() as *mut f64;
-            let slice = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-            partition_select(slice, kth);
-            return Ok(());
-        }
-
-        // General path: copy, partition, write back
-        let mut values: Vec<f64> = Vec::with_capacity(size);
-        for offset in self.inner.iter_offsets() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            values.push(val);
-        }
-        partition_select(&mut values, kth);
-
-        let shape = self.inner.shape().to_vec();
-        let mut indices = vec![0usize; self.inner.ndim()];
-        for (i, &val) in values.iter().enumerate() {
-            self.inner.set_element(&indices, val);
-            if i + 1 < size {
-                crate::array::increment_indices(&mut indices, &shape);
-            }
-        }
-
+        let ax = crate::python::indexing::resolve_sort_axis(&self.inner, Some(-1))?;
+        crate::python::indexing::check_kth(&self.inner, kth, ax)?;
+        let partitioned = self.inner.partition(kth, ax);
+        store_elements(&mut self.inner, &partitioned);
         Ok(())
     }
 
-    /// Return indices that would partition the array.
+    /// Return indices that would partition the array along the last axis.
     fn argpartition(&self, kth: usize) -> PyResult<Self> {
-        let size = self.inner.size();
-        if kth >= size {
-            return Err(pyo3::exceptions::PyValueError::new_err(format!(
-                "kth(={}) out of bounds ({})", kth, size
-            )));
-        }
-
-        // Collect values with original indices
-        let mut indexed: Vec<(f64, usize)> = Vec::with_capacity(size);
-        for (i, offset) in self.inner.iter_offsets().enumerate() {
-            let val = unsafe { self.inner.dtype().ops().read_f64(self.inner.data_ptr(), offset) }.unwrap_or(0.0);
-            indexed.push((val, i));
-        }
-
-        // Partition by value
-        partition_select_indexed(&mut indexed, kth);
-
-        // Extract indices
-        let indices: Vec<f64> = indexed.iter().map(|(_, idx)| *idx as f64).collect();
-        Ok(Self::new(RumpyArray::from_vec(indices, DType::int64())))
+        let ax = crate::python::indexing::resolve_sort_axis(&self.inner, Some(-1))?;
+        crate::python::indexing::check_kth(&self.inner, kth, ax)?;
+        Ok(Self::new(self.inner.argpartition(kth, ax)))
     }
 
 }
@@ -1025,6 +983,18 @@ fn normalize_axis_option(axis: Option<isize>, ndim: usize, default_last: bool) -
     }
 }
 
+/// Overwrite the elements of an array, through its view, with those of a contiguous
+/// array of the same shape and dtype.
+fn store_elements(dst: &mut RumpyArray, src: &RumpyArray) {
+    let itemsize = dst.itemsize();
+    let ptr = dst.data_ptr_mut();
+    for (i, offset) in dst.iter_offsets().enumerate() {
+        unsafe {
+            std::ptr::copy_nonoverlapping(src.data_ptr().add(i * itemsize), ptr.offset(offset), itemsize);
+        }
+    }
+}
+
 /// Extract i64 values from a Python list or array.
 fn extract_i64_vec(obj: &Bound<'_, PyAny>, name: &str) -> PyResult<Vec<i64>> {
     if let Ok(list) = obj.downcast::<PyList>() {
@@ -1397,76 +1367,6 @@ where
     }
 }
 
-/// Quickselect-style partition: rearrange so that element at kth position is in sorted position.
-fn partition_select(arr: &mut [f64], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    // Simple quickselect
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx];
-
-        // Move pivot to end
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i] < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
-/// Quickselect for indexed values: partition so kth smallest is at position kth.
-fn partition_select_indexed(arr: &mut [(f64, usize)], kth: usize) {
-    if arr.len() <= 1 {
-        return;
-    }
-
-    let mut left = 0;
-    let mut right = arr.len() - 1;
-
-    while left < right {
-        let pivot_idx = (left + right) / 2;
-        let pivot = arr[pivot_idx].0;
-
-        arr.swap(pivot_idx, right);
-
-        let mut store = left;
-        for i in left..right {
-            if arr[i].0 < pivot {
-                arr.swap(i, store);
-                store += 1;
-            }
-        }
-        arr.swap(store, right);
-
-        if store == kth {
-            return;
-        } else if store < kth {
-            left = store + 1;
-        } else {
-            right = store.saturating_sub(1);
-        }
-    }
-}
-
 /// Python-visible flags object (like numpy.ndarray.flags).
 #[pyclass(name = "flagsobj", module = "rumpy")]
 pub struct PyArrayFlags {
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 8319b9b..e9cdec6 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -7,7 +7,7 @@ use super::{pyarray, PyRumpyArray};
 use crate::array::RumpyArray;
 
 /// Helper for axis bounds checking.
-fn check_axis(axis: usize, ndim: usize) -> PyResult<()> {
+pub(crate) fn check_axis(axis: usize, ndim: usize) -> PyResult<()> {
     if axis >= ndim {
         Err(pyo3::exceptions::PyValueError::new_err(format!(
             "axis {} is out of bounds for array of dimension {}",
-- 
2.43.0


From b512109c354101075554dc3b1e0cc6a9328dc7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:58:03 +0000
Subject: [PATCH 20/69] fix: set functions compare exactly in the common dtype;
 nonzero of complex arrays

---
 src/ops/mod.rs            |   4 +-
 src/ops/set_ops.rs        | 232 +++++++++++++++-----------------------
 src/python/pyarray/mod.rs |  13 ---
 3 files changed, 95 insertions(+), 154 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index feae325..10d1933 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -139,8 +139,8 @@ impl RumpyArray {
         let mut indices = vec![0usize; ndim];
         let size = self.size();
         for _ in 0..size {
-            let val = self.get_element(&indices);
-            if val != 0.0 {
+            let offset = self.byte_offset_for(&indices);
+            if unsafe { self.dtype().ops().is_truthy(self.data_ptr(), offset) } {
                 for (dim, &idx) in indices.iter().enumerate() {
                     indices_per_dim[dim].push(idx as i64);
                 }
diff --git a/src/ops/set_ops.rs b/src/ops/set_ops.rs
index 69a39f5..c6fd30f 100644
--- a/src/ops/set_ops.rs
+++ b/src/ops/set_ops.rs
@@ -7,60 +7,82 @@
 
 use crate::array::dtype::DTypeKind;
 use crate::array::{DType, RumpyArray};
-use std::collections::HashSet;
+use std::cmp::Ordering;
 use std::sync::Arc;
 
-/// Collect array values as f64 Vec (for any contiguous array).
-fn collect_values(arr: &RumpyArray) -> Vec<f64> {
-    if arr.is_c_contiguous() {
-        let ptr = arr.data_ptr();
-        let size = arr.size();
-        match arr.dtype().kind() {
-            DTypeKind::Float64 => {
-                let p = ptr as *const f64;
-                (0..size).map(|i| unsafe { *p.add(i) }).collect()
-            }
-            DTypeKind::Int64 => {
-                let p = ptr as *const i64;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Int32 => {
-                let p = ptr as *const i32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            DTypeKind::Float32 => {
-                let p = ptr as *const f32;
-                (0..size).map(|i| unsafe { *p.add(i) as f64 }).collect()
-            }
-            _ => {
-                let dtype = arr.dtype();
-                let ops = dtype.ops();
-                arr.iter_offsets()
-                    .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-                    .collect()
-            }
-        }
-    } else {
-        let dtype = arr.dtype();
-        let ops = dtype.ops();
-        let ptr = arr.data_ptr();
-        arr.iter_offsets()
-            .map(|offset| unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0))
-            .collect()
+/// Both arrays in their common dtype, so that elements compare exactly.
+fn common(ar1: &RumpyArray, ar2: &RumpyArray) -> (RumpyArray, RumpyArray) {
+    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
+    (ar1.astype(dtype.clone()), ar2.astype(dtype))
+}
+
+/// Compare element `i` of `a` with element `j` of `b` (contiguous, same dtype).
+fn compare(a: &RumpyArray, i: usize, b: &RumpyArray, j: usize) -> Ordering {
+    let dtype = a.dtype();
+    let itemsize = dtype.itemsize() as isize;
+    unsafe {
+        dtype.ops().compare_elements(a.data_ptr(), i as isize * itemsize, b.data_ptr(), j as isize * itemsize)
     }
 }
 
-/// Extract values from array as sorted unique f64 Vec.
-fn collect_sorted_unique(arr: &RumpyArray) -> Vec<f64> {
-    let mut values = collect_values(arr);
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
-    values.dedup();
-    values
+/// Whether element `i` differs from itself (NaN or NaT).
+fn is_unordered(a: &RumpyArray, i: usize) -> bool {
+    let dtype = a.dtype();
+    let offset = (i * dtype.itemsize()) as isize;
+    match dtype.kind() {
+        DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_) => {
+            let value = unsafe { dtype.ops().read_i64(a.data_ptr(), offset) };
+            value == Some(i64::MIN)
+        }
+        DTypeKind::Complex64 | DTypeKind::Complex128 => {
+            unsafe { dtype.ops().read_complex(a.data_ptr(), offset) }
+                .is_some_and(|(re, im)| re.is_nan() || im.is_nan())
+        }
+        _ => unsafe { dtype.ops().read_f64(a.data_ptr(), offset) }.is_some_and(f64::is_nan),
+    }
 }
 
-/// Build a HashSet from array values for O(1) lookup.
-fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
-    collect_values(arr).into_iter().map(|v| v.to_bits()).collect()
+/// Merge the sorted unique elements of two arrays: keep those only in the first, in both,
+/// only in the second. NaN equals nothing.
+fn merge(v1: &RumpyArray, v2: &RumpyArray, first: bool, both: bool, second: bool) -> RumpyArray {
+    let mut picks: Vec<(bool, usize)> = Vec::with_capacity(v1.size() + v2.size());
+    let (mut i, mut j) = (0, 0);
+    while i < v1.size() || j < v2.size() {
+        let ord = if i >= v1.size() {
+            Ordering::Greater
+        } else if j >= v2.size() {
+            Ordering::Less
+        } else {
+            compare(v1, i, v2, j).then_with(|| if is_unordered(v1, i) { Ordering::Less } else { Ordering::Equal })
+        };
+        match ord {
+            Ordering::Less => {
+                if first { picks.push((true, i)); }
+                i += 1;
+            }
+            Ordering::Greater => {
+                if second { picks.push((false, j)); }
+                j += 1;
+            }
+            Ordering::Equal => {
+                if both { picks.push((true, i)); }
+                i += 1;
+                j += 1;
+            }
+        }
+    }
+    let dtype = v1.dtype();
+    let itemsize = dtype.itemsize();
+    let mut result = RumpyArray::zeros(vec![picks.len()], dtype.clone());
+    if picks.is_empty() {
+        return result;
+    }
+    let dst = Arc::get_mut(result.buffer_mut()).expect("unique").as_mut_ptr();
+    for (k, &(in_first, p)) in picks.iter().enumerate() {
+        let src = if in_first { v1 } else { v2 };
+        unsafe { dtype.ops().copy_element(src.data_ptr(), (p * itemsize) as isize, dst, k); }
+    }
+    result
 }
 
 /// Test whether each element of `element` is also present in `test_elements`.
@@ -68,8 +90,8 @@ fn collect_hashset(arr: &RumpyArray) -> HashSet<u64> {
 ///
 /// If `invert` is true, returns the inverse (elements NOT in test_elements).
 pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> RumpyArray {
-    let test_set = collect_hashset(test_elements);
-    let values = collect_values(element);
+    let (values, tests) = common(element, test_elements);
+    let tests = tests.unique();
 
     // Create result array with same shape as element
     let mut result = RumpyArray::zeros(element.shape().to_vec(), DType::bool());
@@ -82,8 +104,19 @@ pub fn isin(element: &RumpyArray, test_elements: &RumpyArray, invert: bool) -> R
     let result_buffer = Arc::get_mut(buffer).expect("buffer must be unique");
     let result_ptr = result_buffer.as_mut_ptr();
 
-    for (i, val) in values.iter().enumerate() {
-        let found = test_set.contains(&val.to_bits());
+    for i in 0..values.size() {
+        let (mut lo, mut hi) = (0, tests.size());
+        while lo < hi {
+            let mid = (lo + hi) / 2;
+            if compare(&tests, mid, &values, i) == Ordering::Less {
+                lo = mid + 1;
+            } else {
+                hi = mid;
+            }
+        }
+        let found = lo < tests.size()
+            && compare(&tests, lo, &values, i) == Ordering::Equal
+            && !is_unordered(&values, i);
         unsafe { *result_ptr.add(i) = if found != invert { 1u8 } else { 0u8 }; }
     }
 
@@ -100,109 +133,30 @@ pub fn in1d(ar1: &RumpyArray, ar2: &RumpyArray, invert: bool) -> RumpyArray {
 /// Find the intersection of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in both arrays.
 pub fn intersect1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge intersection on sorted arrays
-    let mut result = Vec::with_capacity(v1.len().min(v2.len()));
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (v1, v2) = common(ar1, ar2);
+    merge(&v1.unique(), &v2.unique(), false, true, false)
 }
 
 /// Find the union of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in either array.
 pub fn union1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge union on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            result.push(v1[i]);
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (v1, v2) = common(ar1, ar2);
+    // NaN occurs at most once in a union
+    merge(&v1.unique(), &v2.unique(), true, true, true).unique()
 }
 
 /// Find the set difference of two arrays using sorted merge.
 /// Returns the sorted, unique values in ar1 that are not in ar2.
 pub fn setdiff1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge difference on sorted arrays (elements in v1 not in v2)
-    let mut result = Vec::with_capacity(v1.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() {
-        if j >= v2.len() || v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            j += 1;
-        } else {
-            // Equal - skip this element from v1
-            i += 1;
-            j += 1;
-        }
-    }
-
-    RumpyArray::from_vec(result, ar1.dtype())
+    let (v1, v2) = common(ar1, ar2);
+    merge(&v1.unique(), &v2.unique(), true, false, false).astype(ar1.dtype())
 }
 
 /// Find the symmetric difference of two arrays using sorted merge.
 /// Returns the sorted, unique values that are in exactly one of the arrays.
 pub fn setxor1d(ar1: &RumpyArray, ar2: &RumpyArray) -> RumpyArray {
-    let v1 = collect_sorted_unique(ar1);
-    let v2 = collect_sorted_unique(ar2);
-
-    // Merge symmetric difference on sorted arrays
-    let mut result = Vec::with_capacity(v1.len() + v2.len());
-    let (mut i, mut j) = (0, 0);
-    while i < v1.len() && j < v2.len() {
-        if v1[i] < v2[j] {
-            result.push(v1[i]);
-            i += 1;
-        } else if v1[i] > v2[j] {
-            result.push(v2[j]);
-            j += 1;
-        } else {
-            // Equal - skip both
-            i += 1;
-            j += 1;
-        }
-    }
-    result.extend_from_slice(&v1[i..]);
-    result.extend_from_slice(&v2[j..]);
-
-    let dtype = crate::array::promote_dtype(&ar1.dtype(), &ar2.dtype());
-    RumpyArray::from_vec(result, dtype)
+    let (v1, v2) = common(ar1, ar2);
+    merge(&v1.unique(), &v2.unique(), true, false, true)
 }
 
 #[cfg(test)]
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index ffa8585..45014a0 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -970,19 +970,6 @@ fn resolve_axis(axis: isize, ndim: usize) -> usize {
     }
 }
 
-/// Normalize axis for sort/argsort operations.
-/// - If axis is None and default_last is false, returns None (flatten behavior)
-/// - If axis is None and default_last is true, returns last axis
-/// - Handles negative axis values
-fn normalize_axis_option(axis: Option<isize>, ndim: usize, default_last: bool) -> Option<usize> {
-    match axis {
-        None if default_last => Some(ndim - 1),
-        None => None,
-        Some(a) if a >= 0 => Some(a as usize),
-        Some(a) => Some((ndim as isize + a) as usize),
-    }
-}
-
 /// Overwrite the elements of an array, through its view, with those of a contiguous
 /// array of the same shape and dtype.
 fn store_elements(dst: &mut RumpyArray, src: &RumpyArray) {
-- 
2.43.0


From 8e547644455eb30705df319cf26e51ad5deafd5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:40 +0000
Subject: [PATCH 21/69] fix: digitize with decreasing bins, NaN and wide
 integers

---
 src/ops/indexing.rs | 84 +++++++++++----------------------------------
 1 file changed, 20 insertions(+), 64 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index e9593be..4a558b1 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -887,72 +887,28 @@ pub fn triu_indices(n: usize, k: i64, m: usize) -> (RumpyArray, RumpyArray) {
 /// Uses binary search to find insertion points. If bins are increasing,
 /// `digitize(x, bins, right=False)` is equivalent to `searchsorted(bins, x, side='right')`.
 pub fn digitize(x: &RumpyArray, bins: &RumpyArray, right: bool) -> RumpyArray {
-    let x_size = x.size();
-    let bins_size = bins.size();
-
-    if x_size == 0 {
-        return RumpyArray::zeros(x.shape().to_vec(), DType::int64());
-    }
-
-    let mut result = RumpyArray::zeros(x.shape().to_vec(), DType::int64());
-    let result_buffer = result.buffer_mut();
-    let buffer = Arc::get_mut(result_buffer).expect("buffer must be unique");
-    let result_ptr = buffer.as_mut_ptr() as *mut i64;
-
-    // Check if bins are monotonically decreasing
-    let bins_dtype = bins.dtype();
-    let bins_ops = bins_dtype.ops();
-    let bins_ptr = bins.data_ptr();
-
-    let is_decreasing = if bins_size >= 2 {
-        let first_offset = bins.byte_offset_for(&[0]);
-        let last_offset = bins.byte_offset_for(&[bins_size - 1]);
-        let first = unsafe { bins_ops.read_f64(bins_ptr, first_offset) }.unwrap_or(0.0);
-        let last = unsafe { bins_ops.read_f64(bins_ptr, last_offset) }.unwrap_or(0.0);
-        first > last
-    } else {
-        false
-    };
-
-    // Read bins into a Vec for binary search
-    let bins_values: Vec<f64> = bins.iter_offsets()
-        .map(|offset| unsafe { bins_ops.read_f64(bins_ptr, offset) }.unwrap_or(0.0))
-        .collect();
-
-    // Pre-compute reversed bins for decreasing case (avoid allocation in loop)
-    let reversed_bins: Vec<f64> = if is_decreasing {
-        bins_values.iter().rev().copied().collect()
-    } else {
-        Vec::new()
+    let edges = bins.copy().reshape(vec![bins.size()]).expect("a copy is contiguous");
+    let n = edges.size();
+    let side = if right { "left" } else { "right" };
+
+    // Decreasing bins: len(bins) - searchsorted(reversed bins, x, side)
+    let is_decreasing = n >= 2 && {
+        let dtype = edges.dtype();
+        let last = edges.byte_offset_for(&[n - 1]);
+        let ptr = edges.data_ptr();
+        unsafe { dtype.ops().compare_elements(ptr, 0, ptr, last) == std::cmp::Ordering::Greater }
     };
-
-    let x_dtype = x.dtype();
-    let x_ops = x_dtype.ops();
-    let x_ptr = x.data_ptr();
-
-    for (i, offset) in x.iter_offsets().enumerate() {
-        let val = unsafe { x_ops.read_f64(x_ptr, offset) }.unwrap_or(0.0);
-
-        let bin_idx = if is_decreasing {
-            // For decreasing bins: len(bins) - searchsorted(reversed_bins, val, side)
-            let search_idx = if right {
-                reversed_bins.partition_point(|&b| b <= val)
-            } else {
-                reversed_bins.partition_point(|&b| b < val)
-            };
-            bins_size - search_idx
-        } else {
-            // For increasing bins, standard binary search
-            if right {
-                bins_values.partition_point(|&b| b < val)
-            } else {
-                bins_values.partition_point(|&b| b <= val)
-            }
-        };
-
-        unsafe { *result_ptr.add(i) = bin_idx as i64; }
+    if !is_decreasing {
+        return searchsorted(&edges, x, side).expect("edges are one-dimensional");
+    }
+    let reversed = edges.flip(0).expect("axis 0 exists").copy();
+    let mut result = searchsorted(&reversed, x, side).expect("edges are one-dimensional");
+    let size = result.size();
+    let buffer = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique");
+    let ptr = buffer.as_mut_ptr() as *mut i64;
+    for i in 0..size {
+        unsafe { *ptr.add(i) = n as i64 - *ptr.add(i); }
     }
-
     result
 }
 
-- 
2.43.0


From f00165bad6bf3c21cba600252a1790fe4331f339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:00 +0000
Subject: [PATCH 22/69] fix: joined arrays take the common dtype; repeat, tile,
 pad, roll, insert, delete, diag and tril/triu keep exact values and check
 their arguments

---
 src/array/manipulation.rs | 167 +++++++++++++++++++-------------------
 src/ops/linalg.rs         |  30 +------
 src/python/creation.rs    |   4 +-
 src/python/pyarray/mod.rs |  18 ++--
 src/python/shape.rs       |  12 +--
 5 files changed, 105 insertions(+), 126 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 1fce611..2df92f3 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -2,7 +2,7 @@
 
 use std::sync::Arc;
 
-use super::dtype::DType;
+use super::dtype::{promote_dtype, DType};
 use super::{increment_indices, RumpyArray};
 
 /// Concatenate arrays along an axis.
@@ -35,9 +35,9 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     let mut out_shape = first.shape().to_vec();
     out_shape[axis] = arrays.iter().map(|a| a.shape()[axis]).sum();
 
-    // Use dtype of first array (TODO: dtype promotion)
-    let dtype = first.dtype();
-    let mut result = RumpyArray::zeros(out_shape, dtype);
+    // The result has the common dtype of all the arrays
+    let dtype = arrays.iter().skip(1).fold(first.dtype(), |d, a| promote_dtype(&d, &a.dtype()));
+    let mut result = RumpyArray::zeros(out_shape, dtype.clone());
 
     if result.size() == 0 {
         return Some(result);
@@ -50,6 +50,13 @@ pub fn concatenate(arrays: &[RumpyArray], axis: usize) -> Option<RumpyArray> {
     // Copy data from each array
     let mut axis_offset = 0usize;
     for arr in arrays {
+        let converted;
+        let arr = if arr.dtype().kind() == dtype.kind() {
+            arr
+        } else {
+            converted = arr.astype(dtype.clone());
+            &converted
+        };
         let size = arr.size();
         let src_ptr = arr.data_ptr();
         let mut src_indices = vec![0usize; ndim];
@@ -552,18 +559,19 @@ pub fn tri(n: usize, m: usize, k: isize, dtype: DType) -> RumpyArray {
     arr
 }
 
-/// Helper for tril/triu - extract triangle from 2D array.
+/// Helper for tril/triu - extract triangle of the last two axes.
 fn extract_triangle(arr: &RumpyArray, k: isize, lower: bool) -> Option<RumpyArray> {
-    if arr.ndim() != 2 {
+    let ndim = arr.ndim();
+    if ndim < 2 {
         return None;
     }
 
     let shape = arr.shape();
-    let n = shape[0];
-    let m = shape[1];
+    let n = shape[ndim - 2];
+    let m = shape[ndim - 1];
     let mut result = RumpyArray::zeros(shape.to_vec(), arr.dtype());
 
-    if n == 0 || m == 0 {
+    if arr.size() == 0 {
         return Some(result);
     }
 
@@ -571,8 +579,8 @@ fn extract_triangle(arr: &RumpyArray, k: isize, lower: bool) -> Option<RumpyArra
     let result_ptr = buffer.as_mut_ptr();
     let itemsize = arr.itemsize();
 
-    // Fast path: contiguous source array - use memcpy for row segments
-    if arr.is_c_contiguous() {
+    // Fast path: contiguous source matrix - use memcpy for row segments
+    if ndim == 2 && arr.is_c_contiguous() {
         let src_ptr = arr.data_ptr();
         for i in 0..n {
             // Calculate range of columns to copy for this row
@@ -600,19 +608,19 @@ fn extract_triangle(arr: &RumpyArray, k: isize, lower: bool) -> Option<RumpyArra
     let ops = result.dtype.ops();
     let src_ptr = arr.data_ptr();
 
-    for i in 0..n {
-        for j in 0..m {
-            let include = if lower {
-                (j as isize) <= (i as isize) + k
-            } else {
-                (j as isize) >= (i as isize) + k
-            };
-            if include {
-                let offset = arr.byte_offset_for(&[i, j]);
-                let idx = i * m + j;
-                unsafe { ops.copy_element(src_ptr, offset, result_ptr, idx); }
-            }
+    let mut indices = vec![0usize; ndim];
+    for idx in 0..arr.size() {
+        let (i, j) = (indices[ndim - 2], indices[ndim - 1]);
+        let include = if lower {
+            (j as isize) <= (i as isize) + k
+        } else {
+            (j as isize) >= (i as isize) + k
+        };
+        if include {
+            let offset = arr.byte_offset_for(&indices);
+            unsafe { ops.copy_element(src_ptr, offset, result_ptr, idx); }
         }
+        increment_indices(&mut indices, arr.shape());
     }
     Some(result)
 }
@@ -909,10 +917,6 @@ fn linear_index(indices: &[usize], shape: &[usize]) -> usize {
 /// Repeat elements of an array.
 /// If axis is None, flatten and repeat. Otherwise repeat along axis.
 pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<RumpyArray> {
-    if repeats == 0 {
-        return Some(RumpyArray::zeros(vec![0], arr.dtype()));
-    }
-
     match axis {
         None => {
             // Flatten and repeat each element
@@ -922,17 +926,14 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let mut result = RumpyArray::zeros(vec![new_size], src_dtype.clone());
 
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
+            let ops = src_dtype.ops();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_idx = 0;
             for offset in arr.iter_offsets() {
-                let val = unsafe { src_ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
                 for _ in 0..repeats {
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_idx, val); }
+                    unsafe { ops.copy_element(src_ptr, offset, dst_ptr, dst_idx); }
                     dst_idx += 1;
                 }
             }
@@ -952,11 +953,9 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
 
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
+            let ops = src_dtype.ops();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             // Iterate through source indices and write repeated values
             let src_shape = arr.shape();
@@ -966,7 +965,6 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
             let size = arr.size();
             for _ in 0..size {
                 let src_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_offset) }.unwrap_or(0.0);
 
                 // Write this value `repeats` times along the axis
                 dst_indices.copy_from_slice(&src_indices);
@@ -974,7 +972,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
                 for r in 0..repeats {
                     dst_indices[axis] = base_axis_idx + r;
                     let dst_offset = linear_index(&dst_indices, &new_shape);
-                    unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                    unsafe { ops.copy_element(src_ptr, src_offset, dst_ptr, dst_offset); }
                 }
 
                 increment_indices(&mut src_indices, src_shape);
@@ -987,7 +985,7 @@ pub fn repeat(arr: &RumpyArray, repeats: usize, axis: Option<isize>) -> Option<R
 
 /// Construct array by repeating input array by given reps.
 pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
-    if reps.is_empty() || reps.iter().all(|&r| r == 1) {
+    if reps.len() <= arr.ndim() && reps.iter().all(|&r| r == 1) {
         return arr.copy();
     }
 
@@ -1036,11 +1034,9 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
     }
 
     let src_ptr = arr.data_ptr();
-    let src_ops = src_dtype.ops();
-    let dst_dtype = result.dtype();
+    let ops = src_dtype.ops();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     // Iterate through destination indices
     let mut dst_indices = vec![0usize; max_ndim];
@@ -1061,11 +1057,10 @@ pub fn tile(arr: &RumpyArray, reps: &[usize]) -> RumpyArray {
             src_indices
         };
         let src_byte_offset = arr.byte_offset_for(&actual_src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
 
         // Destination offset (result is C-contiguous, so use linear index)
         let dst_offset = linear_index(&dst_indices, &new_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         // Increment destination indices
         if i + 1 < dst_size {
@@ -1107,13 +1102,24 @@ pub fn append(arr: &RumpyArray, values: &RumpyArray, axis: Option<isize>) -> Opt
 /// Insert values into array at given index.
 /// If axis is None, flatten first.
 pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<isize>) -> Option<RumpyArray> {
+    // The result keeps the dtype of the array
+    let converted;
+    let values = if values.dtype().kind() == arr.dtype().kind() {
+        values
+    } else {
+        converted = values.astype(arr.dtype());
+        &converted
+    };
     match axis {
         None => {
             // Flatten
             let flat = ravel_arr(arr);
             let size = flat.size();
-            let idx = if index < 0 { (size as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(size);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx > size as isize {
+                return None;
+            }
+            let idx = idx as usize;
 
             // Split at index, insert, concatenate
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1130,8 +1136,11 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
             }
 
             let axis_len = arr.shape()[axis];
-            let idx = if index < 0 { (axis_len as isize + index + 1).max(0) as usize } else { index as usize };
-            let idx = idx.min(axis_len);
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx > axis_len as isize {
+                return None;
+            }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, idx as isize, axis_len as isize, 1);
@@ -1153,13 +1162,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
         None => {
             let flat = ravel_arr(arr);
             let size = flat.size();
-            if size == 0 {
-                return Some(flat);
-            }
-            let idx = if index < 0 { (size as isize + index).max(0) as usize } else { index as usize };
-            if idx >= size {
-                return Some(flat);
+            let idx = if index < 0 { size as isize + index } else { index };
+            if idx < 0 || idx >= size as isize {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = if idx > 0 { flat.slice_axis(0, 0, idx as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
             let after = if idx + 1 < size { flat.slice_axis(0, (idx + 1) as isize, size as isize, 1) } else { RumpyArray::zeros(vec![0], arr.dtype()) };
@@ -1174,13 +1181,11 @@ pub fn delete(arr: &RumpyArray, index: isize, axis: Option<isize>) -> Option<Rum
             }
 
             let axis_len = arr.shape()[axis];
-            if axis_len == 0 {
-                return Some(arr.clone());
-            }
-            let idx = if index < 0 { (axis_len as isize + index).max(0) as usize } else { index as usize };
-            if idx >= axis_len {
-                return Some(arr.clone());
+            let idx = if index < 0 { axis_len as isize + index } else { index };
+            if idx < 0 || idx >= axis_len as isize {
+                return None;
             }
+            let idx = idx as usize;
 
             let before = arr.slice_axis(axis, 0, idx as isize, 1);
             let after = arr.slice_axis(axis, (idx + 1) as isize, axis_len as isize, 1);
@@ -1211,13 +1216,15 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
             Some(result)
         }
         "edge" => {
+            // There is no edge to repeat along an empty axis
+            if arr.shape().iter().zip(pad_width.iter()).any(|(&s, &(b, a))| s == 0 && b + a > 0) {
+                return None;
+            }
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(new_shape.clone(), src_dtype.clone());
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
+            let ops = src_dtype.ops();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let dst_size: usize = new_shape.iter().product();
@@ -1236,9 +1243,8 @@ pub fn pad(arr: &RumpyArray, pad_width: &[(usize, usize)], mode: &str, constant_
                     .collect();
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
                 let dst_offset = linear_index(&dst_indices, &new_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, &new_shape);
             }
@@ -1256,11 +1262,9 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
 
     let src_ptr = src.data_ptr();
     let src_dtype = src.dtype();
-    let src_ops = src_dtype.ops();
-    let dst_dtype = dst.dtype();
+    let ops = src_dtype.ops();
     let buffer = Arc::get_mut(dst.buffer_mut()).expect("unique");
     let dst_ptr = buffer.as_mut_ptr();
-    let dst_ops = dst_dtype.ops();
 
     let mut src_indices = vec![0usize; ndim];
     let src_size = src.size();
@@ -1273,10 +1277,8 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
             .collect();
 
         let src_byte_offset = src.byte_offset_for(&src_indices);
-        let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
         let dst_offset = linear_index(&dst_indices, dst_shape);
-        unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+        unsafe { ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
         increment_indices(&mut src_indices, src_shape);
     }
@@ -1284,21 +1286,21 @@ fn copy_region(src: &RumpyArray, dst: &mut RumpyArray, pad_width: &[(usize, usiz
 
 /// Roll array elements along given axis.
 /// If axis is None, rolls over flattened array but preserves original shape.
-pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
-    match axis {
+pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> Option<RumpyArray> {
+    let rolled = match axis {
         None => {
             // Flatten, roll, reshape back to original shape
             let original_shape = arr.shape().to_vec();
             let flat = ravel_arr(arr);
             let size = flat.size();
             if size == 0 {
-                return arr.copy();
+                return Some(arr.copy());
             }
 
             // Normalize shift
             let shift = ((shift % size as isize) + size as isize) as usize % size;
             if shift == 0 {
-                return arr.copy();
+                return Some(arr.copy());
             }
 
             let src_dtype = flat.dtype();
@@ -1335,29 +1337,27 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
             let ndim = arr.ndim();
             let axis = if ax < 0 { (ndim as isize + ax) as usize } else { ax as usize };
             if axis >= ndim {
-                return arr.copy();
+                return None;
             }
 
             let axis_len = arr.shape()[axis];
             if axis_len == 0 {
-                return arr.copy();
+                return Some(arr.copy());
             }
 
             // Normalize shift
             let shift = ((shift % axis_len as isize) + axis_len as isize) as usize % axis_len;
             if shift == 0 {
-                return arr.copy();
+                return Some(arr.copy());
             }
 
             let result_shape = arr.shape().to_vec();
             let src_dtype = arr.dtype();
             let mut result = RumpyArray::zeros(result_shape.clone(), src_dtype.clone());
             let src_ptr = arr.data_ptr();
-            let src_ops = src_dtype.ops();
-            let dst_dtype = result.dtype();
+            let ops = src_dtype.ops();
             let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
             let dst_ptr = buffer.as_mut_ptr();
-            let dst_ops = dst_dtype.ops();
 
             let mut dst_indices = vec![0usize; ndim];
             let size = arr.size();
@@ -1368,17 +1368,16 @@ pub fn roll(arr: &RumpyArray, shift: isize, axis: Option<isize>) -> RumpyArray {
                 src_indices[axis] = (dst_indices[axis] + axis_len - shift) % axis_len;
 
                 let src_byte_offset = arr.byte_offset_for(&src_indices);
-                let val = unsafe { src_ops.read_f64(src_ptr, src_byte_offset) }.unwrap_or(0.0);
-
                 let dst_offset = linear_index(&dst_indices, &result_shape);
-                unsafe { dst_ops.write_f64(dst_ptr, dst_offset, val); }
+                unsafe { ops.copy_element(src_ptr, src_byte_offset, dst_ptr, dst_offset); }
 
                 increment_indices(&mut dst_indices, arr.shape());
             }
 
             result
         }
-    }
+    };
+    Some(rolled)
 }
 
 /// Rotate array 90 degrees k times in the plane specified by axes.
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index 75342a4..f1ae36f 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -389,32 +389,10 @@ pub fn cholesky(a: &RumpyArray) -> Option<RumpyArray> {
 /// - 2D input: returns 1D array of diagonal elements
 pub fn diag(a: &RumpyArray) -> Option<RumpyArray> {
     match a.ndim() {
-        1 => {
-            // Create diagonal matrix from 1D array
-            let n = a.shape()[0];
-            let result = RumpyArray::zeros(vec![n, n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i]);
-                unsafe {
-                    let ptr = result.data_ptr().add((i * n + i) * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
-        }
-        2 => {
-            // Extract diagonal from 2D matrix
-            let n = a.shape()[0].min(a.shape()[1]);
-            let result = RumpyArray::zeros(vec![n], a.dtype());
-            for i in 0..n {
-                let val = a.get_element(&[i, i]);
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = val;
-                }
-            }
-            Some(result)
-        }
+        // Create diagonal matrix from 1D array
+        1 => Some(crate::array::manipulation::diagflat(a, 0)),
+        // Extract diagonal from 2D matrix
+        2 => Some(a.diagonal().copy()),
         _ => None,
     }
 }
diff --git a/src/python/creation.rs b/src/python/creation.rs
index 37f3d97..f817ae3 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -192,7 +192,7 @@ pub fn tri(n: usize, m: Option<usize>, k: isize, dtype: Option<&Bound<'_, PyAny>
 pub fn tril(m: &PyRumpyArray, k: isize) -> PyResult<PyRumpyArray> {
     crate::array::tril(&m.inner, k)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("tril requires 2D array"))
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("tril requires an array with at least 2 dimensions"))
 }
 
 /// Return upper triangle of an array.
@@ -201,7 +201,7 @@ pub fn tril(m: &PyRumpyArray, k: isize) -> PyResult<PyRumpyArray> {
 pub fn triu(m: &PyRumpyArray, k: isize) -> PyResult<PyRumpyArray> {
     crate::array::triu(&m.inner, k)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("triu requires 2D array"))
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("triu requires an array with at least 2 dimensions"))
 }
 
 /// Create a 2D array with flattened input as diagonal.
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index 45014a0..b7b9fae 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -529,21 +529,22 @@ impl PyRumpyArray {
 
     /// Repeat elements of an array.
     #[pyo3(signature = (repeats, axis=None))]
-    fn repeat(&self, repeats: usize, axis: Option<usize>) -> PyResult<Self> {
+    fn repeat(&self, repeats: usize, axis: Option<isize>) -> PyResult<Self> {
         let arr = &self.inner;
         let dtype = arr.dtype();
 
         // For axis=None, flatten first; for axis=Some, validate bounds
         let (src, ax) = match axis {
             None => (arr.copy().reshape(vec![arr.size()]).unwrap(), 0usize),
-            Some(ax) => {
-                if ax >= arr.ndim() {
+            Some(axis) => {
+                let ax = if axis < 0 { axis + arr.ndim() as isize } else { axis };
+                if ax < 0 || ax >= arr.ndim() as isize {
                     return Err(pyo3::exceptions::PyValueError::new_err(format!(
                         "axis {} is out of bounds for array of dimension {}",
-                        ax, arr.ndim()
+                        axis, arr.ndim()
                     )));
                 }
-                (arr.clone(), ax)
+                (arr.clone(), ax as usize)
             }
         };
 
@@ -560,10 +561,9 @@ impl PyRumpyArray {
             let src_ptr = src.data_ptr();
             let itemsize = dtype.itemsize();
             for i in 0..shape[0] {
-                let val = unsafe { dtype.ops().read_f64(src_ptr, (i * itemsize) as isize) }.unwrap_or(0.0);
                 let base = i * repeats;
                 for j in 0..repeats {
-                    unsafe { dtype.ops().write_f64(result_ptr, base + j, val); }
+                    unsafe { dtype.ops().copy_element(src_ptr, (i * itemsize) as isize, result_ptr, base + j); }
                 }
             }
         } else {
@@ -572,8 +572,8 @@ impl PyRumpyArray {
             for i in 0..result.size() {
                 let mut src_indices = out_indices.clone();
                 src_indices[ax] /= repeats;
-                let val = src.get_element(&src_indices);
-                unsafe { dtype.ops().write_f64(result_ptr, i, val); }
+                let offset = src.byte_offset_for(&src_indices);
+                unsafe { dtype.ops().copy_element(src.data_ptr(), offset, result_ptr, i); }
                 crate::array::increment_indices(&mut out_indices, &new_shape);
             }
         }
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 944d76c..9cbaf15 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -637,10 +637,10 @@ pub fn append(arr: &PyRumpyArray, values: &PyRumpyArray, axis: Option<isize>) ->
 #[pyo3(signature = (arr, index, values, axis=None))]
 pub fn insert(arr: &PyRumpyArray, index: isize, values: &Bound<'_, pyo3::PyAny>, axis: Option<isize>) -> PyResult<PyRumpyArray> {
     // Parse values - can be scalar or array
-    let values_arr = if let Ok(scalar) = values.extract::<f64>() {
-        RumpyArray::full(vec![1], scalar, arr.inner.dtype())
-    } else if let Ok(arr_ref) = values.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+    let values_arr = if let Ok(arr_ref) = values.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         arr_ref.inner.clone()
+    } else if let Ok(scalar) = values.extract::<f64>() {
+        RumpyArray::full(vec![1], scalar, arr.inner.dtype())
     } else if let Ok(list) = values.downcast::<pyo3::types::PyList>() {
         let data: Vec<f64> = list.iter().map(|x| x.extract::<f64>()).collect::<PyResult<Vec<_>>>()?;
         RumpyArray::from_vec(data, arr.inner.dtype())
@@ -680,7 +680,7 @@ pub fn pad(
     let pad_spec: Vec<(usize, usize)> = if let Ok(n) = pad_width.extract::<usize>() {
         vec![(n, n); arr.inner.ndim()]
     } else if let Ok(tuple) = pad_width.downcast::<pyo3::types::PyTuple>() {
-        if tuple.len() == 2 {
+        if tuple.len() == 2 && tuple.get_item(0)?.extract::<usize>().is_ok() {
             let before = tuple.get_item(0)?.extract::<usize>()?;
             let after = tuple.get_item(1)?.extract::<usize>()?;
             vec![(before, after); arr.inner.ndim()]
@@ -714,7 +714,9 @@ pub fn pad(
 #[pyfunction]
 #[pyo3(signature = (arr, shift, axis=None))]
 pub fn roll(arr: &PyRumpyArray, shift: isize, axis: Option<isize>) -> PyResult<PyRumpyArray> {
-    Ok(PyRumpyArray::new(crate::array::roll(&arr.inner, shift, axis)))
+    crate::array::roll(&arr.inner, shift, axis)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("axis is out of bounds for roll"))
 }
 
 /// Rotate an array by 90 degrees in the plane specified by axes.
-- 
2.43.0


From 73e52b67069b951bed3f9e79251c51d9810f4d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:45:00 +0000
Subject: [PATCH 23/69] fix: take and integer-array indexing keep the shape of
 the indices; block, choose, select, compress and extract follow broadcasting
 and truth values

---
 src/array/mod.rs       |  13 ++---
 src/ops/indexing.rs    |  38 +++++++++++----
 src/python/indexing.rs |   2 +-
 src/python/misc.rs     | 105 ++++++++++++++++++++++++++---------------
 4 files changed, 105 insertions(+), 53 deletions(-)

diff --git a/src/array/mod.rs b/src/array/mod.rs
index c08e524..e9746cf 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -288,12 +288,12 @@ impl RumpyArray {
     pub fn select_by_indices(&self, indices: &RumpyArray) -> Option<Self> {
         let num_indices = indices.size();
 
-        // Output shape: replace first dimension with number of indices
-        let mut out_shape = self.shape().to_vec();
-        if out_shape.is_empty() {
+        // Output shape: replace first dimension with the shape of the indices
+        if self.shape().is_empty() {
             return None; // Can't index a scalar
         }
-        out_shape[0] = num_indices;
+        let mut out_shape = indices.shape().to_vec();
+        out_shape.extend_from_slice(&self.shape()[1..]);
 
         let mut result = Self::zeros(out_shape, self.dtype());
         if num_indices == 0 {
@@ -301,7 +301,7 @@ impl RumpyArray {
         }
 
         let axis_len = self.shape()[0];
-        let slice_size: usize = self.shape()[1..].iter().product::<usize>().max(1);
+        let slice_size: usize = self.shape()[1..].iter().product();
 
         let buffer = Arc::get_mut(&mut result.buffer).expect("buffer must be unique");
         let result_ptr = buffer.as_mut_ptr();
@@ -310,7 +310,8 @@ impl RumpyArray {
         let src_ptr = self.data_ptr();
         let mut idx_indices = vec![0usize; indices.ndim()];
         for i in 0..num_indices {
-            let idx_val = indices.get_element(&idx_indices) as isize;
+            let idx_offset = indices.byte_offset_for(&idx_indices);
+            let idx_val = unsafe { indices.dtype.ops().read_i64(indices.data_ptr(), idx_offset) }? as isize;
             let idx = if idx_val < 0 {
                 (axis_len as isize + idx_val) as usize
             } else {
diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 4a558b1..29490d0 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -1,7 +1,7 @@
 //! Indexing operations: take, take_along_axis, compress, searchsorted, etc.
 
 use std::sync::Arc;
-use crate::array::{DType, RumpyArray};
+use crate::array::{broadcast_shapes, promote_dtype, DType, RumpyArray};
 
 /// Normalize a potentially negative index.
 #[inline]
@@ -15,11 +15,23 @@ fn normalize_index(idx: isize, len: usize) -> Option<usize> {
 }
 
 /// Take elements from an array along an axis.
+/// The axis is replaced by the shape of the indices; without an axis the array is flattened.
 pub fn take(arr: &RumpyArray, indices: &RumpyArray, axis: Option<usize>) -> Option<RumpyArray> {
-    let axis = axis.unwrap_or(0);
+    let Some(axis) = axis else {
+        let flat = arr.copy().reshape(vec![arr.size()])?;
+        return take(&flat, indices, Some(0));
+    };
     if axis >= arr.ndim() {
         return None;
     }
+    let mut shape = arr.shape()[..axis].to_vec();
+    shape.extend_from_slice(indices.shape());
+    shape.extend_from_slice(&arr.shape()[axis + 1..]);
+    take_flat(arr, indices, axis)?.reshape(shape)
+}
+
+/// Take elements along an axis for indices in row-major order.
+fn take_flat(arr: &RumpyArray, indices: &RumpyArray, axis: usize) -> Option<RumpyArray> {
 
     let num_indices = indices.size();
     let axis_len = arr.shape()[axis];
@@ -85,8 +97,8 @@ fn take_axis0_contiguous(arr: &RumpyArray, indices: &[usize], mut result: RumpyA
     let result_ptr = buffer.as_mut_ptr();
     let src_ptr = arr.data_ptr();
 
-    // Each "row" is stride[0] bytes (for contiguous, this is product of remaining dims * itemsize)
-    let row_bytes = arr.strides()[0] as usize;
+    // Bytes of one "row" (the stride of an axis of length one can be anything)
+    let row_bytes = arr.shape()[1..].iter().product::<usize>() * arr.itemsize();
 
     for (i, &idx) in indices.iter().enumerate() {
         unsafe {
@@ -220,6 +232,11 @@ pub fn take_along_axis(arr: &RumpyArray, indices: &RumpyArray, axis: usize) -> O
 
 /// Select elements using a boolean condition along an axis.
 pub fn compress(condition: &[bool], arr: &RumpyArray, axis: Option<usize>) -> Option<RumpyArray> {
+    // A true condition must select an existing element
+    let len = axis.map_or(Some(arr.size()), |ax| arr.shape().get(ax).copied())?;
+    if condition.iter().skip(len).any(|&b| b) {
+        return None;
+    }
     match axis {
         None => compress_flat(condition, arr),
         Some(ax) => compress_axis(condition, arr, ax),
@@ -606,14 +623,17 @@ pub fn choose(indices: &RumpyArray, choices: &[RumpyArray]) -> Option<RumpyArray
     }
 
     let num_choices = choices.len();
-    let out_shape = indices.shape().to_vec();
-    let out_dtype = choices[0].dtype();
+    let out_dtype = choices.iter().skip(1).fold(choices[0].dtype(), |d, c| promote_dtype(&d, &c.dtype()));
 
+    // The indices and the choices are broadcast against each other
+    let mut out_shape = indices.shape().to_vec();
     for choice in choices {
-        if choice.shape() != indices.shape() {
-            return None;
-        }
+        out_shape = broadcast_shapes(&out_shape, choice.shape())?;
     }
+    let indices = &indices.broadcast_to(&out_shape)?;
+    let choices = choices.iter()
+        .map(|choice| choice.astype(out_dtype.clone()).broadcast_to(&out_shape))
+        .collect::<Option<Vec<_>>>()?;
 
     let mut result = RumpyArray::zeros(out_shape.clone(), out_dtype);
     let result_size: usize = out_shape.iter().product();
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index 15552c2..dae7b79 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -75,7 +75,7 @@ pub fn compress(
 
     crate::ops::indexing::compress(&cond_vec, &a.inner, axis)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("axis out of bounds"))
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("axis or condition out of bounds"))
 }
 
 // ============================================================================
diff --git a/src/python/misc.rs b/src/python/misc.rs
index cfc735f..fa3f25e 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -163,14 +163,46 @@ pub fn unstack(py: Python<'_>, x: &PyRumpyArray, axis: isize) -> PyResult<Py<PyT
 #[pyfunction]
 pub fn block(arrays: &Bound<'_, PyAny>) -> PyResult<PyRumpyArray> {
     // Recursively process the nested list structure
-    let result = process_block(arrays, 0)?;
+    let list_depth = block_depth(arrays);
+    let ndim = block_ndim(arrays).max(list_depth);
+    let result = process_block(arrays, 0, list_depth, ndim)?;
     Ok(PyRumpyArray::new(result))
 }
 
-fn process_block(obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<RumpyArray> {
+/// Nesting depth of the lists in a block specification.
+fn block_depth(obj: &Bound<'_, PyAny>) -> usize {
+    match obj.downcast::<PyList>() {
+        Ok(list) => 1 + list.iter().map(|item| block_depth(&item)).max().unwrap_or(0),
+        Err(_) => 0,
+    }
+}
+
+/// Largest number of dimensions of the arrays in a block specification.
+fn block_ndim(obj: &Bound<'_, PyAny>) -> usize {
+    if let Ok(arr) = obj.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+        arr.inner.ndim()
+    } else if let Ok(list) = obj.downcast::<PyList>() {
+        list.iter().map(|item| block_ndim(&item)).max().unwrap_or(0)
+    } else {
+        0
+    }
+}
+
+/// Prepend axes of length one until the array has `ndim` dimensions.
+fn block_leaf(mut arr: RumpyArray, ndim: usize) -> RumpyArray {
+    while arr.ndim() < ndim {
+        match arr.expand_dims(0) {
+            Some(expanded) => arr = expanded,
+            None => break,
+        }
+    }
+    arr
+}
+
+fn process_block(obj: &Bound<'_, PyAny>, depth: usize, list_depth: usize, ndim: usize) -> PyResult<RumpyArray> {
     // If it's a RumpyArray, return it
     if let Ok(arr) = obj.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        return Ok(arr.inner.clone());
+        return Ok(block_leaf(arr.inner.clone(), ndim));
     }
 
     // If it's a list, process recursively
@@ -183,24 +215,16 @@ fn process_block(obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<RumpyArray> {
 
         // Process each element
         let blocks: Vec<RumpyArray> = list.iter()
-            .map(|item| process_block(&item, depth + 1))
+            .map(|item| process_block(&item, depth + 1, list_depth, ndim))
             .collect::<PyResult<Vec<_>>>()?;
 
-        // Concatenate along the appropriate axis
-        // depth 0 = concatenate along last axis (horizontal)
-        // depth 1 = concatenate along first axis (vertical)
-        // etc.
-
-        // For a simple 2D block, we have depth=0 for rows, depth=1 for cols
-        // numpy's block concatenates at depth according to nesting level
-
         if blocks.len() == 1 {
-            return Ok(blocks.into_iter().next().unwrap());
+            return Ok(blocks.into_iter().next().unwrap().copy());
         }
 
-        // Determine axis: for the outermost list it's axis 0, inner is axis 1, etc.
-        let max_ndim = blocks.iter().map(|b| b.ndim()).max().unwrap_or(1);
-        let axis = if depth < max_ndim { depth } else { max_ndim - 1 };
+        // The innermost lists are joined along the last axis, the lists around
+        // them along the second-last axis, and so on
+        let axis = ndim - (list_depth - depth);
 
         crate::array::manipulation::concatenate(&blocks, axis)
             .ok_or_else(|| pyo3::exceptions::PyValueError::new_err(
@@ -208,7 +232,7 @@ fn process_block(obj: &Bound<'_, PyAny>, depth: usize) -> PyResult<RumpyArray> {
             ))
     } else {
         // Try to convert to array
-        to_rumpy_array(obj)
+        Ok(block_leaf(to_rumpy_array(obj)?, ndim))
     }
 }
 
@@ -309,8 +333,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('f') || trim.contains('F') {
                 first = size;
                 for i in 0..size {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         first = i;
                         break;
                     }
@@ -321,8 +344,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
             if trim.contains('b') || trim.contains('B') {
                 last = first;
                 for i in (0..size).rev() {
-                    let val = unsafe { ops.read_f64(ptr, offsets[i]) }.unwrap_or(0.0);
-                    if val != 0.0 {
+                    if unsafe { ops.is_truthy(ptr, offsets[i]) } {
                         last = i + 1;
                         break;
                     }
@@ -347,7 +369,7 @@ pub fn trim_zeros(filt: &PyRumpyArray, trim: &str) -> PyResult<PyRumpyArray> {
 /// Return elements of an array that satisfy a condition.
 #[pyfunction]
 pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpyArray> {
-    let cond = &condition.inner;
+    let cond = &condition.inner.astype(DType::bool());
     let inner = &arr.inner;
 
     // Both must have same total size when flattened
@@ -414,8 +436,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
                 let mut dst_idx = 0usize;
                 for i in 0..size {
                     if unsafe { *cond_ptr.add(i) } != 0 {
-                        let val = unsafe { ops.read_f64(src_ptr, (i * inner.itemsize()) as isize) }.unwrap_or(0.0);
-                        unsafe { ops.write_f64(dst_ptr, dst_idx, val); }
+                        unsafe { ops.copy_element(src_ptr, (i * inner.itemsize()) as isize, dst_ptr, dst_idx); }
                         dst_idx += 1;
                     }
                 }
@@ -479,8 +500,7 @@ pub fn extract(condition: &PyRumpyArray, arr: &PyRumpyArray) -> PyResult<PyRumpy
             let mut dst_idx = 0usize;
             for i in 0..size {
                 if unsafe { *(cond_ptr.offset(cond_offsets[i]) as *const u8) } != 0 {
-                    let val = unsafe { ops.read_f64(src_ptr, src_offsets[i]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, dst_idx as usize, val); }
+                    unsafe { ops.copy_element(src_ptr, src_offsets[i], dst_ptr, dst_idx as usize); }
                     dst_idx += 1;
                 }
             }
@@ -754,9 +774,23 @@ pub fn select(
         ));
     }
 
-    let shape = condlist[0].inner.shape().to_vec();
-    let size = condlist[0].inner.size();
-    let out_dtype = choicelist[0].inner.dtype();
+    // The conditions and the choices are broadcast against each other
+    let mut shape = condlist[0].inner.shape().to_vec();
+    for arr in condlist.iter().chain(choicelist.iter()) {
+        shape = crate::array::broadcast_shapes(&shape, arr.inner.shape()).ok_or_else(|| {
+            pyo3::exceptions::PyValueError::new_err("shapes cannot be broadcast together")
+        })?;
+    }
+    let size: usize = shape.iter().product();
+    let out_dtype = choicelist.iter().skip(1)
+        .fold(choicelist[0].inner.dtype(), |d, c| crate::array::promote_dtype(&d, &c.inner.dtype()));
+    let expand = |arr: &RumpyArray, dtype: DType| arr.astype(dtype).broadcast_to(&shape);
+    let condlist: Vec<RumpyArray> = condlist.iter()
+        .filter_map(|c| expand(&c.inner, DType::bool()))
+        .collect();
+    let choicelist: Vec<RumpyArray> = choicelist.iter()
+        .filter_map(|c| expand(&c.inner, out_dtype.clone()))
+        .collect();
 
     let mut result = RumpyArray::full(shape, default, out_dtype.clone());
     let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
@@ -764,18 +798,18 @@ pub fn select(
 
     // Collect offsets
     let cond_offsets: Vec<Vec<isize>> = condlist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
     let choice_offsets: Vec<Vec<isize>> = choicelist.iter()
-        .map(|c| c.inner.iter_offsets().collect())
+        .map(|c| c.iter_offsets().collect())
         .collect();
 
     // Collect raw pointers
     let cond_ptrs: Vec<*const u8> = condlist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
     let choice_ptrs: Vec<*const u8> = choicelist.iter()
-        .map(|c| c.inner.data_ptr())
+        .map(|c| c.data_ptr())
         .collect();
 
     macro_rules! select_typed {
@@ -814,10 +848,7 @@ pub fn select(
                 for cond_idx in 0..condlist.len() {
                     let cond_val = unsafe { *(cond_ptrs[cond_idx].offset(cond_offsets[cond_idx][i]) as *const u8) };
                     if cond_val != 0 {
-                        let choice = &choicelist[cond_idx].inner;
-                        let choice_dtype = choice.dtype();
-                        let val = unsafe { choice_dtype.ops().read_f64(choice_ptrs[cond_idx], choice_offsets[cond_idx][i]) }.unwrap_or(0.0);
-                        unsafe { dst_ops.write_f64(dst_ptr, i, val); }
+                        unsafe { dst_ops.copy_element(choice_ptrs[cond_idx], choice_offsets[cond_idx][i], dst_ptr, i); }
                         break;
                     }
                 }
-- 
2.43.0


From b8f0adcba8e7566c58547c95fd1e9a4ee0b6b2cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:17:42 +0000
Subject: [PATCH 24/69] fix: contractions keep their dtype and shape: matmul
 broadcasting and 1-D operands, dot, inner, outer, kron, cross, tensordot,
 vdot, trace and einsum

---
 src/ops/dot.rs        |  22 ++-
 src/ops/einsum.rs     | 309 ++++++------------------------------------
 src/ops/gufunc/mod.rs |   6 +-
 src/ops/inner.rs      |  17 +--
 src/ops/linalg.rs     | 245 +++++++--------------------------
 src/ops/matmul.rs     |  91 ++++++++-----
 src/ops/outer.rs      |  22 +--
 src/python/linalg.rs  |  26 +++-
 8 files changed, 195 insertions(+), 543 deletions(-)

diff --git a/src/ops/dot.rs b/src/ops/dot.rs
index 47bf4db..06c04a7 100644
--- a/src/ops/dot.rs
+++ b/src/ops/dot.rs
@@ -18,25 +18,19 @@ pub fn dot(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
             if a.shape()[0] != b.shape()[0] {
                 return None;
             }
-            let mut sum = 0.0;
-            for i in 0..a.shape()[0] {
-                sum += a.get_element(&[i]) * b.get_element(&[i]);
-            }
-            // Return as 0D array (scalar)
-            Some(RumpyArray::full(vec![], sum, a.dtype()))
+            // (a 0D array: scalar)
+            matmul(a, b)
         }
-        (0, _) => {
+        (0, _) | (_, 0) => {
             // Scalar × array: element-wise
-            let scalar = a.get_element(&[]);
-            Some(b.scalar_op(scalar, crate::ops::BinaryOp::Mul))
+            a.binary_op(b, crate::ops::BinaryOp::Mul).ok()
         }
-        (_, 0) => {
-            // Array × scalar: element-wise
-            let scalar = b.get_element(&[]);
-            Some(a.scalar_op(scalar, crate::ops::BinaryOp::Mul))
+        (_, n) if n > 2 => {
+            // Last axis of a with the second-to-last of b, for every pair of the rest
+            crate::ops::linalg::tensordot(a, b, (vec![a.ndim() - 1], vec![n - 2]))
         }
         _ => {
-            // 2D cases (and higher): use matmul
+            // 2D cases (and a of any dimension): use matmul
             matmul(a, b)
         }
     }
diff --git a/src/ops/einsum.rs b/src/ops/einsum.rs
index 1446127..97ebb86 100644
--- a/src/ops/einsum.rs
+++ b/src/ops/einsum.rs
@@ -155,7 +155,10 @@ pub fn validate_subscript(
     }
 
     // Validate output indices exist in inputs
-    for &c in &parsed.output {
+    for (i, &c) in parsed.output.iter().enumerate() {
+        if parsed.output[..i].contains(&c) {
+            return Err(format!("Output index '{}' appears more than once", c));
+        }
         if !dim_map.contains_key(&c) {
             return Err(format!(
                 "Output index '{}' not found in any input subscript",
@@ -284,30 +287,11 @@ fn try_single_operand_optimized(parsed: &ParsedSubscript, a: &RumpyArray) -> Opt
         return Some(a.transpose_axes(&perm));
     }
 
-    // Check for trace: ii-> (repeated index, scalar output)
-    if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.is_empty() {
-        // trace() returns f64, create scalar with input dtype
-        let trace_val = a.trace();
-        return Some(RumpyArray::full(vec![], trace_val, a.dtype().clone()));
-    }
-
     // Check for diagonal: ii->i (repeated index, vector output) - returns view with same dtype
     if in_sub.len() == 2 && in_sub[0] == in_sub[1] && out_sub.len() == 1 && out_sub[0] == in_sub[0] {
         return Some(a.diagonal());
     }
 
-    // Check for sum over axis: ij->i or ij->j (sum_axis preserves dtype)
-    if in_sub.len() == 2 && in_set.len() == 2 && out_sub.len() == 1 {
-        let sum_axis = if out_sub[0] == in_sub[0] { 1 } else { 0 };
-        return Some(a.sum_axis(sum_axis));
-    }
-
-    // Check for total sum: ij-> (sum all elements) - sum() returns f64, use input dtype
-    if !in_sub.is_empty() && in_set.len() == in_sub.len() && out_sub.is_empty() {
-        let sum_val = a.sum();
-        return Some(RumpyArray::full(vec![], sum_val, a.dtype().clone()));
-    }
-
     None
 }
 
@@ -351,6 +335,33 @@ fn compute_strides(shape: &[usize]) -> Vec<usize> {
     strides
 }
 
+/// View an operand over the given labels: a label it lacks gets stride 0, and
+/// one it repeats walks the diagonal.
+fn label_view(a: &RumpyArray, sub: &[char], labels: &[char], dim_map: &HashMap<char, usize>) -> RumpyArray {
+    let shape: Vec<usize> = labels.iter().map(|c| dim_map[c]).collect();
+    let strides: Vec<isize> = labels
+        .iter()
+        .map(|c| sub.iter().zip(a.strides()).filter(|(x, _)| *x == c).map(|(_, s)| s).sum())
+        .collect();
+    a.view_with(0, shape, strides)
+}
+
+/// Sum a product laid out as (output labels, contracted labels) into `result`,
+/// in the dtype of the result.
+fn sum_into(product: &RumpyArray, result: &RumpyArray) -> Result<(), String> {
+    let n = result.size();
+    let contracted = product.size() / n.max(1);
+    let dtype = result.dtype();
+    let sums = product
+        .reshape(vec![n, contracted])
+        .and_then(|p| crate::ops::matmul::matmul(&p, &RumpyArray::ones(vec![contracted], dtype.clone())))
+        .ok_or_else(|| format!("einsum is not defined for dtype {}", dtype.ops().name()))?;
+    for (i, offset) in sums.iter_offsets().enumerate() {
+        unsafe { dtype.ops().copy_element(sums.data_ptr(), offset, result.data_ptr() as *mut u8, i) };
+    }
+    Ok(())
+}
+
 /// Single-operand einsum (trace, diagonal, transpose, sum, etc.)
 fn einsum_single(
     parsed: &ParsedSubscript,
@@ -359,143 +370,8 @@ fn einsum_single(
     dim_map: &HashMap<char, usize>,
     contraction_indices: &[char],
 ) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let out_sub = &parsed.output;
-
-    // Find which output index corresponds to which a index
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-
-    // Find contraction index positions in a (may have multiple for repeated indices)
-    let contract_in_a: Vec<(char, usize)> = contraction_indices.iter()
-        .flat_map(|&c| {
-            a_sub.iter().enumerate()
-                .filter(move |(_, ac)| **ac == c)
-                .map(move |(pos, _)| (c, pos))
-        })
-        .collect();
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
-    let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides = compute_strides(&out_shape);
-    let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
-
-    // Check for repeated indices (diagonal/trace)
-    let has_repeated_in_a = {
-        let mut seen: HashSet<char> = HashSet::new();
-        a_sub.iter().any(|c| !seen.insert(*c))
-    };
-
-    let a_strides = a.strides();
-    let a_ptr = a.data_ptr();
-    let out_ptr = result.data_ptr();
-    let a_dtype = a.dtype();
-
-    // Iterate over output positions
-    for out_flat in 0..out_size {
-        // Decode output position to multi-index
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides[i];
-            rem %= out_strides[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        if contraction_indices.is_empty() {
-            // No contraction, just copy/transpose
-            // Build mapping from output index position to output value
-            let mut out_val_map: HashMap<char, usize> = HashMap::new();
-            for (i, &c) in out_sub.iter().enumerate() {
-                out_val_map.insert(c, out_idx[i]);
-            }
-
-            // Set all positions in a_idx that correspond to output indices
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (pos, &c) in a_sub.iter().enumerate() {
-                if let Some(&val) = out_val_map.get(&c) {
-                    a_idx[pos] = val;
-                }
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-            sum = val;
-        } else {
-            // Iterate over contraction indices
-            for c_flat in 0..contract_size {
-                // Decode contraction position
-                let mut c_idx = vec![0usize; contract_dims.len()];
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-
-                // Build full a index
-                let mut a_idx = vec![0usize; a_sub.len()];
-                for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                    if let Some(a_pos) = maybe_a_pos {
-                        a_idx[a_pos] = out_idx[i];
-                    }
-                }
-                // Map contraction index to contraction dimension and then to position
-                let mut c_idx_map: HashMap<char, usize> = HashMap::new();
-                for (ci, &c) in contraction_indices.iter().enumerate() {
-                    c_idx_map.insert(c, c_idx[ci]);
-                }
-                for &(c, a_pos) in &contract_in_a {
-                    if let Some(&idx) = c_idx_map.get(&c) {
-                        a_idx[a_pos] = idx;
-                    }
-                }
-
-                // Handle repeated indices
-                if has_repeated_in_a {
-                    let mut idx_vals: HashMap<char, usize> = HashMap::new();
-                    let mut valid = true;
-                    for (pos, &c) in a_sub.iter().enumerate() {
-                        if let Some(&existing) = idx_vals.get(&c) {
-                            if a_idx[pos] != existing {
-                                valid = false;
-                                break;
-                            }
-                        } else {
-                            idx_vals.insert(c, a_idx[pos]);
-                        }
-                    }
-                    if !valid {
-                        continue;
-                    }
-                }
-
-                let a_offset = compute_offset(&a_idx, a_strides);
-                let val = unsafe { a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0) };
-                sum += val;
-            }
-        }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
-        }
-    }
-
-    Ok(())
-}
-
-fn compute_offset(idx: &[usize], strides: &[isize]) -> isize {
-    idx.iter()
-        .zip(strides.iter())
-        .map(|(&i, &s)| (i as isize) * s)
-        .sum()
+    let labels: Vec<char> = parsed.output.iter().chain(contraction_indices).copied().collect();
+    sum_into(&label_view(a, &parsed.inputs[0], &labels, dim_map), result)
 }
 
 /// Check if binary contraction can use BLAS (no repeated indices within operands).
@@ -666,110 +542,14 @@ fn einsum_binary_elementwise(
     dim_map: &HashMap<char, usize>,
     contraction_indices: &[char],
 ) -> Result<(), String> {
-    let a_sub = &parsed.inputs[0];
-    let b_sub = &parsed.inputs[1];
-    let out_sub = &parsed.output;
-
-    // Compute dimensions
-    let out_dims: Vec<usize> = out_sub.iter().map(|c| dim_map[c]).collect();
-    let contract_dims: Vec<usize> = contraction_indices.iter().map(|c| dim_map[c]).collect();
-    let out_shape = if out_dims.is_empty() { vec![1] } else { out_dims.clone() };
-    let out_strides_local = compute_strides(&out_shape);
-    let contract_size: usize = contract_dims.iter().product();
-    let out_size: usize = out_shape.iter().product();
-
-    // Build index mappings
-    let out_to_a: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let out_to_b: Vec<Option<usize>> = out_sub.iter()
-        .map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-    let contract_in_a: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| a_sub.iter().position(|ac| ac == c))
-        .collect();
-    let contract_in_b: Vec<usize> = contraction_indices.iter()
-        .filter_map(|c| b_sub.iter().position(|bc| bc == c))
-        .collect();
-
-    let a_strides = a.strides();
-    let b_strides = b.strides();
-    let a_dtype = a.dtype();
-    let b_dtype = b.dtype();
-
-    let a_ptr = a.data_ptr();
-    let b_ptr = b.data_ptr();
-    let out_ptr = result.data_ptr();
-
-    // Iterate over output positions
-    for out_flat in 0..out_size {
-        // Decode output position
-        let mut out_idx = vec![0usize; out_shape.len()];
-        let mut rem = out_flat;
-        for i in 0..out_shape.len() {
-            out_idx[i] = rem / out_strides_local[i];
-            rem %= out_strides_local[i];
-        }
-
-        // Sum over contraction indices
-        let mut sum = 0.0f64;
-
-        let contract_iters = if contract_size == 0 { 1 } else { contract_size };
-
-        for c_flat in 0..contract_iters {
-            // Decode contraction position
-            let mut c_idx = vec![0usize; contract_dims.len()];
-            if !contract_dims.is_empty() {
-                let mut c_rem = c_flat;
-                for i in (0..contract_dims.len()).rev() {
-                    c_idx[i] = c_rem % contract_dims[i];
-                    c_rem /= contract_dims[i];
-                }
-            }
-
-            // Build a index
-            let mut a_idx = vec![0usize; a_sub.len()];
-            for (i, &maybe_a_pos) in out_to_a.iter().enumerate() {
-                if let Some(a_pos) = maybe_a_pos {
-                    a_idx[a_pos] = out_idx[i];
-                }
-            }
-            for (ci, &a_pos) in contract_in_a.iter().enumerate() {
-                a_idx[a_pos] = c_idx[ci];
-            }
-
-            // Build b index
-            let mut b_idx = vec![0usize; b_sub.len()];
-            for (i, &maybe_b_pos) in out_to_b.iter().enumerate() {
-                if let Some(b_pos) = maybe_b_pos {
-                    b_idx[b_pos] = out_idx[i];
-                }
-            }
-            for (ci, &b_pos) in contract_in_b.iter().enumerate() {
-                b_idx[b_pos] = c_idx[ci];
-            }
-
-            let a_offset = compute_offset(&a_idx, a_strides);
-            let b_offset = compute_offset(&b_idx, b_strides);
-
-            let a_val: f64 = unsafe {
-                a_dtype.ops().read_f64(a_ptr, a_offset).unwrap_or(0.0)
-            };
-            let b_val: f64 = unsafe {
-                b_dtype.ops().read_f64(b_ptr, b_offset).unwrap_or(0.0)
-            };
-
-            sum += a_val * b_val;
-        }
-
-        // Write result using dtype-aware method
-        let out_dtype = result.dtype();
-        unsafe {
-            out_dtype.ops().write_f64(out_ptr as *mut u8, out_flat, sum);
-        }
-    }
-
-    Ok(())
+    let labels: Vec<char> = parsed.output.iter().chain(contraction_indices).copied().collect();
+    let product = label_view(a, &parsed.inputs[0], &labels, dim_map)
+        .binary_op(
+            &label_view(b, &parsed.inputs[1], &labels, dim_map),
+            crate::ops::BinaryOp::Mul,
+        )
+        .map_err(|_| "einsum is not defined for these dtypes".to_string())?;
+    sum_into(&product, result)
 }
 
 /// Multi-operand einsum (3+ operands).
@@ -869,10 +649,9 @@ fn einsum_multi(
     // Copy result to output array (dtype-aware)
     let out_ptr = result.data_ptr() as *mut u8;
     let cur_ptr = current.data_ptr();
-    let itemsize = result.dtype().itemsize();
-    let size = result.size() * itemsize;
-    unsafe {
-        std::ptr::copy_nonoverlapping(cur_ptr, out_ptr, size);
+    let dtype = result.dtype();
+    for (i, offset) in current.iter_offsets().enumerate() {
+        unsafe { dtype.ops().copy_element(cur_ptr, offset, out_ptr, i) };
     }
 
     Ok(())
diff --git a/src/ops/gufunc/mod.rs b/src/ops/gufunc/mod.rs
index 83721a8..5cd07be 100644
--- a/src/ops/gufunc/mod.rs
+++ b/src/ops/gufunc/mod.rs
@@ -66,7 +66,11 @@ pub fn gufunc_call<K: GufuncKernel>(
         let input_cores: Vec<RumpyArray> = inputs
             .iter()
             .enumerate()
-            .map(|(i, arr)| arr.gufunc_subarray(&loop_indices, dims.input_loop_ndims[i]))
+            .map(|(i, arr)| {
+                // Loop dimensions are aligned on the right
+                let missing = loop_indices.len() - dims.input_loop_ndims[i];
+                arr.gufunc_subarray(&loop_indices[missing..], dims.input_loop_ndims[i])
+            })
             .collect();
 
         // Extract output core sub-arrays
diff --git a/src/ops/inner.rs b/src/ops/inner.rs
index 6950523..1c743d7 100644
--- a/src/ops/inner.rs
+++ b/src/ops/inner.rs
@@ -30,18 +30,13 @@ impl GufuncKernel for InnerKernel {
         let b = &inputs[1];
         let c = &outputs[0];
 
-        let n = a.shape()[0];
-
         // Inner product: sum_i a[i] * b[i]
-        let mut sum = 0.0;
-        for i in 0..n {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-
-        // Write scalar result
-        let c_ptr = c.data_ptr() as *mut f64;
-        unsafe {
-            *c_ptr = sum;
+        let dtype = c.dtype();
+        if let Some(sum) = crate::ops::matmul::matmul(a, b) {
+            // Write scalar result
+            unsafe {
+                dtype.ops().copy_element(sum.data_ptr(), 0, c.data_ptr() as *mut u8, 0);
+            }
         }
     }
 }
diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index f1ae36f..b9c83e7 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -826,14 +826,14 @@ pub fn eig(a: &RumpyArray) -> Option<(RumpyArray, RumpyArray)> {
 /// Vector dot product (conjugate first argument for complex).
 /// For 1D arrays: sum(conj(a) * b)
 /// For nD arrays: dot product over last axes (flattened).
-pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
+pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<(f64, f64)> {
     if a.size() != b.size() {
         return None;
     }
 
     let n = a.size();
     if n == 0 {
-        return Some(0.0);
+        return Some((0.0, 0.0));
     }
 
     // Fast path for contiguous float64 arrays using faer's optimized matmul
@@ -870,7 +870,7 @@ pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
                 1.0,
                 faer::Parallelism::None,
             );
-            return Some(result);
+            return Some((result, 0.0));
         }
     }
 
@@ -880,10 +880,10 @@ pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
     let a_dtype = a.dtype();
     let b_dtype = b.dtype();
 
-    let sum = a.iter_offsets().zip(b.iter_offsets()).fold(0.0, |acc, (a_off, b_off)| {
-        let a_val = unsafe { a_dtype.ops().read_f64(a_ptr, a_off).unwrap_or(0.0) };
-        let b_val = unsafe { b_dtype.ops().read_f64(b_ptr, b_off).unwrap_or(0.0) };
-        acc + a_val * b_val
+    let sum = a.iter_offsets().zip(b.iter_offsets()).fold((0.0, 0.0), |(re, im), (a_off, b_off)| {
+        let (ar, ai) = unsafe { a_dtype.ops().read_complex(a_ptr, a_off).unwrap_or((0.0, 0.0)) };
+        let (br, bi) = unsafe { b_dtype.ops().read_complex(b_ptr, b_off).unwrap_or((0.0, 0.0)) };
+        (re + (ar * br + ai * bi), im + (ar * bi - ai * br))
     });
 
     Some(sum)
@@ -891,120 +891,22 @@ pub fn vdot(a: &RumpyArray, b: &RumpyArray) -> Option<f64> {
 
 /// Kronecker product of two arrays.
 pub fn kron(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
-    if a.ndim() < 1 || b.ndim() < 1 {
-        return None;
-    }
-
-    // Broadcast to same ndim (prepend 1s to smaller)
+    // Interleave the axes of both (prepending 1s to the smaller): a varies slowest
     let max_ndim = a.ndim().max(b.ndim());
-    let mut a_shape = vec![1usize; max_ndim];
-    let mut b_shape = vec![1usize; max_ndim];
-
-    for i in 0..a.ndim() {
-        a_shape[max_ndim - a.ndim() + i] = a.shape()[i];
-    }
-    for i in 0..b.ndim() {
-        b_shape[max_ndim - b.ndim() + i] = b.shape()[i];
-    }
-
-    // Result shape is element-wise product
+    let mut a_shape = Vec::with_capacity(2 * max_ndim);
+    let mut b_shape = Vec::with_capacity(2 * max_ndim);
     let mut out_shape = Vec::with_capacity(max_ndim);
     for i in 0..max_ndim {
-        out_shape.push(a_shape[i] * b_shape[i]);
-    }
-
-    let result = RumpyArray::zeros(out_shape.clone(), DType::float64());
-
-    // For 2D case (most common)
-    if max_ndim == 2 {
-        let (m, n) = (a_shape[0], a_shape[1]);
-        let (p, q) = (b_shape[0], b_shape[1]);
-        let out_cols = out_shape[1];
-
-        // Fast path for contiguous float64 arrays
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = unsafe { *a_ptr.add(i * n + j) };
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = unsafe { *b_ptr.add(k * q + l) };
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                *out_ptr.add(out_i * out_cols + out_j) = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        } else {
-            // General path
-            for i in 0..m {
-                for j in 0..n {
-                    let a_val = a.get_element(&[i, j]);
-                    for k in 0..p {
-                        for l in 0..q {
-                            let b_val = b.get_element(&[k, l]);
-                            let out_i = i * p + k;
-                            let out_j = j * q + l;
-                            unsafe {
-                                let ptr = result.data_ptr().add((out_i * out_cols + out_j) * 8) as *mut f64;
-                                *ptr = a_val * b_val;
-                            }
-                        }
-                    }
-                }
-            }
-        }
-    } else if max_ndim == 1 {
-        // 1D case
-        let m = a_shape[0];
-        let p = b_shape[0];
-
-        // Fast path for contiguous float64
-        if a.is_c_contiguous() && b.is_c_contiguous()
-            && a.dtype().kind() == DTypeKind::Float64
-            && b.dtype().kind() == DTypeKind::Float64
-        {
-            let a_ptr = a.data_ptr() as *const f64;
-            let b_ptr = b.data_ptr() as *const f64;
-            let out_ptr = result.data_ptr() as *mut f64;
-
-            for i in 0..m {
-                let a_val = unsafe { *a_ptr.add(i) };
-                for k in 0..p {
-                    let b_val = unsafe { *b_ptr.add(k) };
-                    unsafe {
-                        *out_ptr.add(i * p + k) = a_val * b_val;
-                    }
-                }
-            }
-        } else {
-            for i in 0..m {
-                let a_val = a.get_element(&[i]);
-                for k in 0..p {
-                    let b_val = b.get_element(&[k]);
-                    unsafe {
-                        let ptr = result.data_ptr().add((i * p + k) * 8) as *mut f64;
-                        *ptr = a_val * b_val;
-                    }
-                }
-            }
-        }
-    } else {
-        // General nD case - not yet implemented
-        return None;
-    }
-
-    Some(result)
+        let m = (i + a.ndim()).checked_sub(max_ndim).map_or(1, |k| a.shape()[k]);
+        let p = (i + b.ndim()).checked_sub(max_ndim).map_or(1, |k| b.shape()[k]);
+        a_shape.extend([m, 1]);
+        b_shape.extend([1, p]);
+        out_shape.push(m * p);
+    }
+    a.reshape(a_shape)?
+        .binary_op(&b.reshape(b_shape)?, crate::ops::BinaryOp::Mul)
+        .ok()?
+        .reshape(out_shape)
 }
 
 /// Cross product of two 3D vectors.
@@ -1017,22 +919,18 @@ pub fn cross(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
         return None;
     }
 
-    let a0 = a.get_element(&[0]);
-    let a1 = a.get_element(&[1]);
-    let a2 = a.get_element(&[2]);
-    let b0 = b.get_element(&[0]);
-    let b1 = b.get_element(&[1]);
-    let b2 = b.get_element(&[2]);
-
-    let result = RumpyArray::zeros(vec![3], DType::float64());
-    unsafe {
-        let ptr = result.data_ptr() as *mut f64;
-        *ptr = a1 * b2 - a2 * b1;
-        *ptr.add(1) = a2 * b0 - a0 * b2;
-        *ptr.add(2) = a0 * b1 - a1 * b0;
+    if a.dtype().kind() == DTypeKind::Bool && b.dtype().kind() == DTypeKind::Bool {
+        return None; // subtraction is not defined for truth values
     }
 
-    Some(result)
+    // c[i] = a[i+1] * b[i+2] - a[i+2] * b[i+1]
+    let pick = |x: &RumpyArray, idx: [i64; 3]| {
+        crate::ops::indexing::take(x, &RumpyArray::from_slice_i64(&idx), Some(0))
+    };
+    let mul = |x: RumpyArray, y: RumpyArray| x.binary_op(&y, crate::ops::BinaryOp::Mul).ok();
+    let plus = mul(pick(a, [1, 2, 0])?, pick(b, [2, 0, 1])?)?;
+    let minus = mul(pick(a, [2, 0, 1])?, pick(b, [1, 2, 0])?)?;
+    plus.binary_op(&minus, crate::ops::BinaryOp::Sub).ok()
 }
 
 /// Singular values only (no U or Vt).
@@ -1076,13 +974,12 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
     if a.shape()[1] != size {
         return None; // Must be square
     }
-    if size == 0 {
-        return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
-    }
-
     // Handle n == 0: return identity
     if n == 0 {
-        return Some(RumpyArray::eye(size, DType::float64()));
+        return Some(RumpyArray::eye(size, a.dtype()));
+    }
+    if size == 0 {
+        return Some(a.clone());
     }
 
     // For negative powers, compute inverse first
@@ -1094,7 +991,7 @@ pub fn matrix_power(a: &RumpyArray, n: i64) -> Option<RumpyArray> {
     let exp = n.unsigned_abs();
 
     // Binary exponentiation for efficiency
-    let mut result = RumpyArray::eye(size, DType::float64());
+    let mut result = RumpyArray::eye(size, base.dtype());
     let mut current = base;
     let mut remaining = exp;
 
@@ -1266,65 +1163,19 @@ pub fn tensordot(a: &RumpyArray, b: &RumpyArray, axes: (Vec<usize>, Vec<usize>))
         }
     }
 
-    if result_shape.is_empty() {
-        result_shape.push(1); // Scalar result
-    }
-
-    let result = RumpyArray::zeros(result_shape.clone(), DType::float64());
-
-    // For now, only support up to 2D arrays
-    if a.ndim() > 2 || b.ndim() > 2 {
+    // Bring the contracted axes together: (free, contracted) @ (contracted, free)
+    let distinct = |axes: &[usize]| axes.iter().enumerate().all(|(i, ax)| !axes[..i].contains(ax));
+    if !distinct(&a_axes) || !distinct(&b_axes) {
         return None;
     }
-
-    // 1D cases
-    if a.ndim() == 1 && b.ndim() == 1 {
-        // Inner product
-        let mut sum = 0.0;
-        for i in 0..a.shape()[0] {
-            sum += a.get_element(&[i]) * b.get_element(&[i]);
-        }
-        unsafe {
-            let ptr = result.data_ptr() as *mut f64;
-            *ptr = sum;
-        }
-        return Some(result);
-    }
-
-    // 2D x 1D or 1D x 2D
-    if a.ndim() == 2 && b.ndim() == 1 {
-        // axes=([1], [0]) means matrix-vector product
-        if a_axes == vec![1] && b_axes == vec![0] {
-            for i in 0..a.shape()[0] {
-                let mut sum = 0.0;
-                for j in 0..a.shape()[1] {
-                    sum += a.get_element(&[i, j]) * b.get_element(&[j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(i * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    if a.ndim() == 1 && b.ndim() == 2 {
-        // axes=([0], [0]) means vector-matrix product
-        if a_axes == vec![0] && b_axes == vec![0] {
-            for j in 0..b.shape()[1] {
-                let mut sum = 0.0;
-                for i in 0..a.shape()[0] {
-                    sum += a.get_element(&[i]) * b.get_element(&[i, j]);
-                }
-                unsafe {
-                    let ptr = result.data_ptr().add(j * 8) as *mut f64;
-                    *ptr = sum;
-                }
-            }
-            return Some(result);
-        }
-    }
-
-    None // Unsupported case
+    let mut a_order: Vec<usize> = (0..a.ndim()).filter(|i| !a_axes.contains(i)).collect();
+    let rows: usize = a_order.iter().map(|&i| a.shape()[i]).product();
+    let inner: usize = a_axes.iter().map(|&i| a.shape()[i]).product();
+    let mut b_order = b_axes.clone();
+    b_order.extend((0..b.ndim()).filter(|i| !b_axes.contains(i)));
+    let cols: usize = b_order[b_axes.len()..].iter().map(|&i| b.shape()[i]).product();
+    a_order.extend(&a_axes);
+    let lhs = a.transpose_axes(&a_order).reshape(vec![rows, inner])?;
+    let rhs = b.transpose_axes(&b_order).reshape(vec![inner, cols])?;
+    crate::ops::matmul::matmul(&lhs, &rhs)?.reshape(result_shape)
 }
diff --git a/src/ops/matmul.rs b/src/ops/matmul.rs
index aa195ff..e3f27bf 100644
--- a/src/ops/matmul.rs
+++ b/src/ops/matmul.rs
@@ -3,7 +3,8 @@
 //! Implements batched matrix multiplication with signature "(m,n),(n,p)->(m,p)".
 //! Uses BLAS (Accelerate on macOS) when available, falls back to faer.
 
-use crate::array::{DType, RumpyArray};
+use crate::array::dtype::DTypeKind;
+use crate::array::{promote_dtype, DType, RumpyArray};
 use crate::ops::gufunc::{gufunc_call, GufuncKernel, GufuncSignature};
 
 // Link BLAS when accelerate feature is enabled
@@ -40,6 +41,9 @@ impl GufuncKernel for MatmulKernel {
         let n = a.shape()[1];
         let p = b.shape()[1];
         let dtype = c.dtype();
+        if m == 0 || n == 0 || p == 0 {
+            return; // nothing to add up: the output stays zero
+        }
 
         #[cfg(feature = "accelerate")]
         {
@@ -147,12 +151,12 @@ impl GufuncKernel for MatmulKernel {
 
 /// Bool matmul: C[i,j] = any(A[i,k] AND B[k,j] for all k)
 fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize) {
-    let a_row_stride = a.strides()[0] as usize;
-    let a_col_stride = a.strides()[1] as usize;
-    let b_row_stride = b.strides()[0] as usize;
-    let b_col_stride = b.strides()[1] as usize;
-    let c_row_stride = c.strides()[0] as usize;
-    let c_col_stride = c.strides()[1] as usize;
+    let a_row_stride = a.strides()[0];
+    let a_col_stride = a.strides()[1];
+    let b_row_stride = b.strides()[0];
+    let b_col_stride = b.strides()[1];
+    let c_row_stride = c.strides()[0];
+    let c_col_stride = c.strides()[1];
 
     let a_ptr = a.data_ptr();
     let b_ptr = b.data_ptr();
@@ -163,8 +167,8 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
             let mut result = false;
             for k in 0..n {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride) != 0;
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride) != 0;
+                    let a_val = *a_ptr.offset(i as isize * a_row_stride + k as isize * a_col_stride) != 0;
+                    let b_val = *b_ptr.offset(k as isize * b_row_stride + j as isize * b_col_stride) != 0;
                     if a_val && b_val {
                         result = true;
                         break; // Short-circuit: any true is enough
@@ -172,7 +176,7 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = result as u8;
+                *c_ptr.offset(i as isize * c_row_stride + j as isize * c_col_stride) = result as u8;
             }
         }
     }
@@ -181,15 +185,17 @@ fn matmul_bool(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usiz
 /// Generic matmul for integer types (no BLAS/faer support)
 fn matmul_generic<T>(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n: usize, p: usize)
 where
-    T: Copy + Default + std::ops::Add<Output = T> + std::ops::Mul<Output = T>,
+    T: Copy + Default,
+    std::num::Wrapping<T>: std::ops::Add<Output = std::num::Wrapping<T>>
+        + std::ops::Mul<Output = std::num::Wrapping<T>>,
 {
     let elem_size = std::mem::size_of::<T>() as isize;
-    let a_row_stride = (a.strides()[0] / elem_size) as usize;
-    let a_col_stride = (a.strides()[1] / elem_size) as usize;
-    let b_row_stride = (b.strides()[0] / elem_size) as usize;
-    let b_col_stride = (b.strides()[1] / elem_size) as usize;
-    let c_row_stride = (c.strides()[0] / elem_size) as usize;
-    let c_col_stride = (c.strides()[1] / elem_size) as usize;
+    let a_row_stride = a.strides()[0] / elem_size;
+    let a_col_stride = a.strides()[1] / elem_size;
+    let b_row_stride = b.strides()[0] / elem_size;
+    let b_col_stride = b.strides()[1] / elem_size;
+    let c_row_stride = c.strides()[0] / elem_size;
+    let c_col_stride = c.strides()[1] / elem_size;
 
     let a_ptr = a.data_ptr() as *const T;
     let b_ptr = b.data_ptr() as *const T;
@@ -197,16 +203,16 @@ where
 
     for i in 0..m {
         for j in 0..p {
-            let mut sum = T::default();
+            let mut sum = std::num::Wrapping(T::default());
             for k in 0..n {
                 unsafe {
-                    let a_val = *a_ptr.add(i * a_row_stride + k * a_col_stride);
-                    let b_val = *b_ptr.add(k * b_row_stride + j * b_col_stride);
-                    sum = sum + a_val * b_val;
+                    let a_val = *a_ptr.offset(i as isize * a_row_stride + k as isize * a_col_stride);
+                    let b_val = *b_ptr.offset(k as isize * b_row_stride + j as isize * b_col_stride);
+                    sum = sum + std::num::Wrapping(a_val) * std::num::Wrapping(b_val);
                 }
             }
             unsafe {
-                *c_ptr.add(i * c_row_stride + j * c_col_stride) = sum;
+                *c_ptr.offset(i as isize * c_row_stride + j as isize * c_col_stride) = sum.0;
             }
         }
     }
@@ -355,23 +361,38 @@ fn matmul_faer_c64(a: &RumpyArray, b: &RumpyArray, c: &RumpyArray, m: usize, n:
 /// let c = rp.matmul(a, b);      // (3, 2, 5)
 /// ```
 pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
+    // The kernels read both operands in one dtype. The types without a kernel
+    // are multiplied in a wider one and wrap (or round) back afterwards.
+    let dtype = promote_dtype(&a.dtype(), &b.dtype());
+    let work = match dtype.kind() {
+        DTypeKind::Int8 | DTypeKind::Int16
+        | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => DType::int64(),
+        DTypeKind::Float16 => DType::float32(),
+        DTypeKind::Bool | DTypeKind::Int32 | DTypeKind::Int64 | DTypeKind::Float32
+        | DTypeKind::Float64 | DTypeKind::Complex64 | DTypeKind::Complex128 => dtype.clone(),
+        _ => return None,
+    };
+    let cast = |x: &RumpyArray| if x.dtype() == work { x.clone() } else { x.astype(work.clone()) };
+
     // Handle 1D inputs by expanding dims
-    let (a_expanded, b_expanded, squeeze_result) = expand_for_matmul(a, b)?;
+    let (a_expanded, b_expanded) = expand_for_matmul(&cast(a), &cast(b))?;
 
     let kernel = MatmulKernel::new();
     let mut results = gufunc_call(&kernel, &[&a_expanded, &b_expanded])?;
 
-    let result = results.pop()?;
+    let mut result = results.pop()?;
 
-    // Squeeze result if we expanded inputs
-    if squeeze_result {
-        Some(result.squeeze())
-    } else {
-        Some(result)
+    // Drop the axes that expanding added
+    if a.ndim() == 1 {
+        result = result.squeeze_axis(result.ndim() - 2);
+    }
+    if b.ndim() == 1 {
+        result = result.squeeze_axis(result.ndim() - 1);
     }
+    Some(if work == dtype { result } else { result.astype(dtype) })
 }
 
-/// Expand 1D arrays for matmul and return whether to squeeze result.
+/// Expand 1D arrays for matmul.
 ///
 /// NumPy semantics:
 /// - 1D @ 1D -> scalar (inner product)
@@ -380,7 +401,7 @@ pub fn matmul(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 fn expand_for_matmul(
     a: &RumpyArray,
     b: &RumpyArray,
-) -> Option<(RumpyArray, RumpyArray, bool)> {
+) -> Option<(RumpyArray, RumpyArray)> {
     let a_ndim = a.ndim();
     let b_ndim = b.ndim();
 
@@ -390,23 +411,23 @@ fn expand_for_matmul(
             // Expand to (1, n) @ (n, 1) -> (1, 1), then squeeze
             let a_exp = a.expand_dims(0)?;
             let b_exp = b.expand_dims(1)?;
-            Some((a_exp, b_exp, true))
+            Some((a_exp, b_exp))
         }
         (1, _) => {
             // (n,) @ (..., n, p) -> (..., p)
             // Expand to (1, n) @ (..., n, p) -> (..., 1, p), squeeze axis -2
             let a_exp = a.expand_dims(0)?;
-            Some((a_exp, b.clone(), true))
+            Some((a_exp, b.clone()))
         }
         (_, 1) => {
             // (..., m, n) @ (n,) -> (..., m)
             // Expand to (..., m, n) @ (n, 1) -> (..., m, 1), squeeze last
             let b_exp = b.expand_dims(1)?;
-            Some((a.clone(), b_exp, true))
+            Some((a.clone(), b_exp))
         }
         _ => {
             // Standard 2D+ case
-            Some((a.clone(), b.clone(), false))
+            Some((a.clone(), b.clone()))
         }
     }
 }
diff --git a/src/ops/outer.rs b/src/ops/outer.rs
index 0c31abe..4cd5acb 100644
--- a/src/ops/outer.rs
+++ b/src/ops/outer.rs
@@ -30,23 +30,13 @@ impl GufuncKernel for OuterKernel {
         let b = &inputs[1];
         let c = &outputs[0];
 
-        let m = a.shape()[0];
-        let n = b.shape()[0];
-
-        let c_ptr = c.data_ptr() as *mut u8;
-        let c_stride_0 = c.strides()[0];
-        let c_stride_1 = c.strides()[1];
-
         // Outer product: c[i,j] = a[i] * b[j]
-        for i in 0..m {
-            let ai = a.get_element(&[i]);
-            for j in 0..n {
-                let bj = b.get_element(&[j]);
-                let byte_offset = (i as isize) * c_stride_0 + (j as isize) * c_stride_1;
-                unsafe {
-                    let dst = c_ptr.offset(byte_offset);
-                    *(dst as *mut f64) = ai * bj;
-                }
+        let Some(col) = a.expand_dims(1) else { return };
+        if let Ok(product) = col.binary_op(b, crate::ops::BinaryOp::Mul) {
+            let dtype = c.dtype();
+            let c_ptr = c.data_ptr() as *mut u8; // freshly allocated, C order
+            for (i, offset) in product.iter_offsets().enumerate() {
+                unsafe { dtype.ops().copy_element(product.data_ptr(), offset, c_ptr, i) };
             }
         }
     }
diff --git a/src/python/linalg.rs b/src/python/linalg.rs
index 70f6769..689ad1f 100644
--- a/src/python/linalg.rs
+++ b/src/python/linalg.rs
@@ -3,6 +3,8 @@
 //! Many functions are exposed at both top-level (np.dot) and submodule (np.linalg.solve).
 
 use pyo3::prelude::*;
+use pyo3::types::{PyComplex, PyFloat};
+use crate::array::dtype::DTypeKind;
 use crate::ops::linalg as linalg_ops;
 use crate::ops::solve as solve_ops;
 use crate::python::PyRumpyArray;
@@ -45,9 +47,24 @@ pub fn outer(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Compute trace of a matrix (sum of diagonal elements).
 #[pyfunction]
-pub fn trace(a: &PyRumpyArray) -> PyResult<f64> {
-    linalg_ops::trace(&a.inner)
-        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("trace requires 2D array"))
+pub fn trace(py: Python<'_>, a: &PyRumpyArray) -> PyResult<PyObject> {
+    let err = || pyo3::exceptions::PyValueError::new_err("trace requires 2D array");
+    let re = linalg_ops::trace(&a.inner.real()).ok_or_else(err)?;
+    let im = linalg_ops::trace(&a.inner.imag()).ok_or_else(err)?;
+    Ok(real_or_complex(py, re, im, is_complex(&a.inner)))
+}
+
+fn is_complex(a: &crate::array::RumpyArray) -> bool {
+    matches!(a.dtype().kind(), DTypeKind::Complex64 | DTypeKind::Complex128)
+}
+
+/// A Python float, or a complex when the operands were complex.
+fn real_or_complex(py: Python<'_>, re: f64, im: f64, complex: bool) -> PyObject {
+    if complex {
+        PyComplex::from_doubles(py, re, im).into_any().unbind()
+    } else {
+        PyFloat::new(py, re).into_any().unbind()
+    }
 }
 
 /// Extract diagonal or construct diagonal matrix.
@@ -60,8 +77,9 @@ pub fn diag(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 
 /// Vector dot product (flattens arrays then computes inner product).
 #[pyfunction]
-pub fn vdot(a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<f64> {
+pub fn vdot(py: Python<'_>, a: &PyRumpyArray, b: &PyRumpyArray) -> PyResult<PyObject> {
     linalg_ops::vdot(&a.inner, &b.inner)
+        .map(|(re, im)| real_or_complex(py, re, im, is_complex(&a.inner) || is_complex(&b.inner)))
         .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("vdot: arrays must have same total size"))
 }
 
-- 
2.43.0


From 9e76bfe47749d9da4b9357d05f71ab98953bd95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 25/69] fix: irfft/irfftn/hfft rebuild odd-length and truncated
 spectra and reject empty ones

---
 src/ops/fft.rs | 85 +++++++++++++++++---------------------------------
 1 file changed, 28 insertions(+), 57 deletions(-)

diff --git a/src/ops/fft.rs b/src/ops/fft.rs
index 3714109..fa0e8f8 100644
--- a/src/ops/fft.rs
+++ b/src/ops/fft.rs
@@ -161,16 +161,10 @@ pub fn irfft(arr: &RumpyArray) -> Option<RumpyArray> {
     }
 
     let n = 2 * (n_freq - 1);
-    let input = to_complex_buffer(arr);
-
-    // Reconstruct full spectrum using Hermitian symmetry
-    let mut buffer = vec![Complex64::new(0.0, 0.0); n];
-    for (i, &c) in input.iter().enumerate() {
-        buffer[i] = c;
-    }
-    for i in 1..n_freq - 1 {
-        buffer[n - i] = input[i].conj();
+    if n == 0 {
+        return None;
     }
+    let mut buffer = hermitian_spectrum(&to_complex_buffer(arr), n);
 
     let mut planner = FftPlanner::new();
     let ifft = planner.plan_fft_inverse(n);
@@ -190,6 +184,19 @@ pub fn irfft(arr: &RumpyArray) -> Option<RumpyArray> {
     Some(result)
 }
 
+/// Full spectrum of length n of a real signal from its non-negative frequencies
+/// (truncated or zero-padded to n / 2 + 1 entries).
+fn hermitian_spectrum(half: &[Complex64], n: usize) -> Vec<Complex64> {
+    let mut full = vec![Complex64::new(0.0, 0.0); n];
+    for (k, &c) in half.iter().enumerate().take(n / 2 + 1) {
+        if k > 0 {
+            full[n - k] = c.conj();
+        }
+        full[k] = c;
+    }
+    full
+}
+
 /// Shift array by given amounts along each axis.
 fn shift_array(arr: &RumpyArray, shifts: &[usize]) -> RumpyArray {
     let shape = arr.shape();
@@ -524,8 +531,11 @@ pub fn irfftn(arr: &RumpyArray, shape_hint: Option<&[usize]>, axes: Option<&[usi
     // Determine output size on last axis
     let out_last_len = match shape_hint {
         Some(s) if last_axis < s.len() => s[last_axis],
-        _ => 2 * (n_freq - 1),  // Default: even length
+        _ => 2 * n_freq.saturating_sub(1),  // Default: even length
     };
+    if out_last_len == 0 {
+        return None;
+    }
 
     // Convert to complex buffer
     let mut buffer = to_complex_buffer(arr);
@@ -572,26 +582,14 @@ pub fn irfftn(arr: &RumpyArray, shape_hint: Option<&[usize]>, axes: Option<&[usi
     let mut out_buffer = vec![Complex64::new(0.0, 0.0); out_size];
 
     let ifft_plan = planner.plan_fft_inverse(out_last_len);
-    let mut work_buffer = vec![Complex64::new(0.0, 0.0); out_last_len];
 
-    for other_idx in 0..n_other.max(1) {
+    for other_idx in 0..n_other {
         let in_base = index_from_transform_idx(other_idx, &other_shape, &other_in_strides);
         let out_base = index_from_transform_idx(other_idx, &other_shape, &other_out_strides);
 
-        // Fill work buffer: positive frequencies from input
-        for i in 0..n_freq {
-            work_buffer[i] = buffer[in_base + i * last_in_stride];
-        }
-        // Clear rest first
-        for i in n_freq..out_last_len {
-            work_buffer[i] = Complex64::new(0.0, 0.0);
-        }
-        // Fill negative frequencies using Hermitian symmetry
-        for k in 1..(n_freq - 1) {
-            if out_last_len > k {
-                work_buffer[out_last_len - k] = buffer[in_base + k * last_in_stride].conj();
-            }
-        }
+        // Positive frequencies from input, negative ones by Hermitian symmetry
+        let half: Vec<Complex64> = (0..n_freq).map(|i| buffer[in_base + i * last_in_stride]).collect();
+        let mut work_buffer = hermitian_spectrum(&half, out_last_len);
 
         // Apply inverse FFT
         ifft_plan.process(&mut work_buffer);
@@ -654,39 +652,12 @@ pub fn hfft(arr: &RumpyArray, n: Option<usize>) -> Option<RumpyArray> {
     // Output length
     let out_len = n.unwrap_or(2 * (n_freq - 1));
     if out_len == 0 {
-        return Some(RumpyArray::zeros(vec![0], DType::float64()));
-    }
-
-    let input = to_complex_buffer(arr);
-
-    // hfft(x, n) = irfft(conj(padded_x), n) where padded_x has n//2+1 elements
-    // The n//2+1 elements represent the positive frequencies for output length n
-    let padded_len = out_len / 2 + 1;
-
-    // Create padded input (zero-padded or truncated)
-    let mut padded = vec![Complex64::new(0.0, 0.0); padded_len];
-    for (i, &c) in input.iter().enumerate().take(padded_len) {
-        padded[i] = c.conj();
-    }
-
-    // Reconstruct full spectrum
-    let mut buffer = vec![Complex64::new(0.0, 0.0); out_len];
-
-    // Copy positive frequencies
-    for (i, &c) in padded.iter().enumerate() {
-        buffer[i] = c;
+        return None;
     }
 
-    // Fill negative frequencies using Hermitian symmetry
-    // buffer[out_len - k] = conj(padded[k]) = input[k] for k = 1 to padded_len-2
-    for k in 1..(padded_len.min(out_len) - 1) {
-        if out_len > k && k < input.len() {
-            buffer[out_len - k] = input[k];
-        } else if out_len > k {
-            // Zero padding case
-            buffer[out_len - k] = Complex64::new(0.0, 0.0);
-        }
-    }
+    // hfft(x, n) = n * irfft(conj(x), n)
+    let conj: Vec<Complex64> = to_complex_buffer(arr).iter().map(|c| c.conj()).collect();
+    let mut buffer = hermitian_spectrum(&conj, out_len);
 
     let mut planner = FftPlanner::new();
     let ifft = planner.plan_fft_inverse(out_len);
-- 
2.43.0


From fe0f30e09034d180ba26b86841cc349f701b6131 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 26/69] fix: ediff1d wraps unsigned differences and converts
 to_begin/to_end to the dtype of the array

---
 src/python/misc.rs | 146 ++++++---------------------------------------
 1 file changed, 18 insertions(+), 128 deletions(-)

diff --git a/src/python/misc.rs b/src/python/misc.rs
index fa3f25e..6cc8243 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -995,138 +995,28 @@ pub fn ediff1d(
     to_end: Option<&Bound<'_, pyo3::PyAny>>,
     to_begin: Option<&Bound<'_, pyo3::PyAny>>,
 ) -> PyResult<PyRumpyArray> {
-    let inner = &ary.inner;
-    let size = inner.size();
-    let dtype = inner.dtype();
-
-    // Get begin/end array references or scalars
-    let begin_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_begin.and_then(|v| v.extract().ok());
-    let end_arr: Option<pyo3::PyRef<'_, PyRumpyArray>> = to_end.and_then(|v| v.extract().ok());
-    let begin_scalar: Option<f64> = if begin_arr.is_none() { to_begin.and_then(|v| v.extract().ok()) } else { None };
-    let end_scalar: Option<f64> = if end_arr.is_none() { to_end.and_then(|v| v.extract().ok()) } else { None };
-
-    let begin_len = begin_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if begin_scalar.is_some() { 1 } else { 0 });
-    let end_len = end_arr.as_ref().map(|a| a.inner.size()).unwrap_or(if end_scalar.is_some() { 1 } else { 0 });
-
-    let diff_len = if size > 0 { size - 1 } else { 0 };
-    let out_len = begin_len + diff_len + end_len;
-
-    let mut result = RumpyArray::zeros(vec![out_len], dtype.clone());
-    if out_len == 0 {
-        return Ok(PyRumpyArray::new(result));
-    }
-
-    let buffer = Arc::get_mut(&mut result.buffer).expect("unique");
-    let dst_ptr = buffer.as_mut_ptr();
-
-    macro_rules! ediff1d_typed {
-        ($ty:ty) => {{
-            let dst = dst_ptr as *mut $ty;
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-                idx += 1;
-            }
-
-            // Write differences
-            if size > 1 {
-                let src = inner.data_ptr() as *const $ty;
-                if inner.is_c_contiguous() {
-                    for i in 1..size {
-                        unsafe { *dst.add(idx) = *src.add(i) - *src.add(i - 1); }
-                        idx += 1;
-                    }
-                } else {
-                    let offsets: Vec<isize> = inner.iter_offsets().collect();
-                    for i in 1..size {
-                        let curr = unsafe { *(inner.data_ptr().offset(offsets[i]) as *const $ty) };
-                        let prev = unsafe { *(inner.data_ptr().offset(offsets[i - 1]) as *const $ty) };
-                        unsafe { *dst.add(idx) = curr - prev; }
-                        idx += 1;
-                    }
-                }
-            }
-
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    unsafe { *dst.add(idx) = *(arr.inner.data_ptr().offset(offsets[j]) as *const $ty); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { *dst.add(idx) = scalar as $ty; }
-            }
-        }};
-    }
-
-    match dtype.kind() {
-        DTypeKind::Float32 => ediff1d_typed!(f32),
-        DTypeKind::Float64 => ediff1d_typed!(f64),
-        DTypeKind::Int32 => ediff1d_typed!(i32),
-        DTypeKind::Int64 => ediff1d_typed!(i64),
-        DTypeKind::Uint32 => ediff1d_typed!(u32),
-        DTypeKind::Uint64 => ediff1d_typed!(u64),
-        DTypeKind::Int8 => ediff1d_typed!(i8),
-        DTypeKind::Int16 => ediff1d_typed!(i16),
-        DTypeKind::Uint8 => ediff1d_typed!(u8),
-        DTypeKind::Uint16 => ediff1d_typed!(u16),
-        _ => {
-            // Complex types fallback
-            let ops = dtype.ops();
-            let mut idx = 0usize;
-
-            // Write begin values
-            if let Some(ref arr) = begin_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..begin_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = begin_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-                idx += 1;
-            }
+    let dtype = ary.inner.dtype();
 
-            // Write differences
-            if size > 1 {
-                let offsets: Vec<isize> = inner.iter_offsets().collect();
-                for i in 1..size {
-                    let curr = unsafe { ops.read_f64(inner.data_ptr(), offsets[i]) }.unwrap_or(0.0);
-                    let prev = unsafe { ops.read_f64(inner.data_ptr(), offsets[i - 1]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, curr - prev); }
-                    idx += 1;
-                }
-            }
+    let flat = |a: &RumpyArray| {
+        let a = a.copy();
+        let n = a.size();
+        a.reshape(vec![n]).expect("contiguous copy")
+    };
 
-            // Write end values
-            if let Some(ref arr) = end_arr {
-                let arr_dtype = arr.inner.dtype();
-                let arr_ops = arr_dtype.ops();
-                let offsets: Vec<isize> = arr.inner.iter_offsets().collect();
-                for j in 0..end_len {
-                    let val = unsafe { arr_ops.read_f64(arr.inner.data_ptr(), offsets[j]) }.unwrap_or(0.0);
-                    unsafe { ops.write_f64(dst_ptr, idx, val); }
-                    idx += 1;
-                }
-            } else if let Some(scalar) = end_scalar {
-                unsafe { ops.write_f64(dst_ptr, idx, scalar); }
-            }
+    // begin/end may be arrays or scalars; both take the dtype of `ary`
+    let side = |v: Option<&Bound<'_, pyo3::PyAny>>| -> PyResult<Option<RumpyArray>> {
+        let Some(v) = v.filter(|v| !v.is_none()) else { return Ok(None) };
+        if let Ok(arr) = v.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+            return Ok(Some(flat(&arr.inner.astype(dtype.clone()))));
         }
-    }
+        Ok(Some(RumpyArray::full(vec![1], v.extract::<f64>()?, dtype.clone())))
+    };
 
-    Ok(PyRumpyArray::new(result))
+    let diffs = flat(&ary.inner).diff(1, 0);
+    let parts: Vec<RumpyArray> = [side(to_begin)?, Some(diffs), side(to_end)?].into_iter().flatten().collect();
+    crate::array::concatenate(&parts, 0)
+        .map(PyRumpyArray::new)
+        .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("ediff1d: incompatible operands"))
 }
 
 // ============================================================================
-- 
2.43.0


From d50d51e3079cc91c1b96e3e4181643988b5c8875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 27/69] fix: round of integer arrays and array() return fresh
 memory

---
 src/ops/dispatch.rs    | 14 +++++++-------
 src/python/creation.rs |  8 ++++++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 0340b22..913dc3b 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1498,13 +1498,13 @@ pub fn dispatch_round(arr: &RumpyArray, decimals: i32) -> Option<RumpyArray> {
         DTypeKind::Float64 => dispatch_round_f64(arr, decimals),
         DTypeKind::Float32 => dispatch_round_f32(arr, decimals),
         // For integers, round is a no-op if decimals >= 0
-        DTypeKind::Int64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Int16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint64 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint32 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint16 if decimals >= 0 => Some(arr.clone()),
-        DTypeKind::Uint8 if decimals >= 0 => Some(arr.clone()),
+        DTypeKind::Int64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Int16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint64 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint32 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint16 if decimals >= 0 => Some(arr.copy()),
+        DTypeKind::Uint8 if decimals >= 0 => Some(arr.copy()),
         // Negative decimals on integers: round to tens, hundreds, etc.
         DTypeKind::Int64 => dispatch_round_i64(arr, decimals),
         DTypeKind::Int32 => dispatch_round_i32(arr, decimals),
diff --git a/src/python/creation.rs b/src/python/creation.rs
index f817ae3..05e3e3a 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -302,11 +302,15 @@ pub fn asarray(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_,
     array_impl(py, obj, dtype)
 }
 
-/// Create an array (alias for asarray).
+/// Create an array (like asarray, but an existing array is copied).
 #[pyfunction]
 #[pyo3(signature = (obj, dtype=None))]
 pub fn array(py: Python<'_>, obj: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    array_impl(py, obj, dtype)
+    let arr = array_impl(py, obj, dtype)?;
+    if obj.is_instance_of::<PyRumpyArray>() {
+        return Ok(PyRumpyArray::new(arr.inner.copy()));
+    }
+    Ok(arr)
 }
 
 /// Implementation for array/asarray.
-- 
2.43.0


From cc743ad19b8a1429779a69923c45a87c2606b05e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:39:08 +0000
Subject: [PATCH 28/69] fix: large mixed-dtype operands are computed in the
 promoted dtype like small ones

---
 src/ops/ufunc.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index 583e585..fb2d983 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -298,7 +298,7 @@ pub fn map_binary_op_inplace(
     let result_dtype = promote_dtype(&a_bc.dtype(), &b_bc.dtype());
 
     // Mixed numeric dtypes: compute in the promoted dtype (exact for integers)
-    if out.is_none() && a_bc.dtype() != b_bc.dtype() && is_numeric_kind(&a_bc.dtype().kind())
+    if a_bc.dtype() != b_bc.dtype() && is_numeric_kind(&a_bc.dtype().kind())
         && is_numeric_kind(&b_bc.dtype().kind())
     {
         let a_cast = a.astype(result_dtype.clone());
-- 
2.43.0


From 88b11a1ed51021263750ef6a57ec88127fa00154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:50:20 +0000
Subject: [PATCH 29/69] fix: array(obj, dtype) converts values, honours byte
 order and infers list dtypes from all elements

---
 src/python/creation.rs | 169 +++++++++++++++++++----------------------
 1 file changed, 77 insertions(+), 92 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index 05e3e3a..a99c491 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -3,7 +3,7 @@
 use pyo3::prelude::*;
 use pyo3::types::PyList;
 
-use crate::array::{increment_indices, DType, RumpyArray};
+use crate::array::{increment_indices, DType, DTypeKind, RumpyArray};
 use super::{parse_dtype, parse_dtype_any, parse_shape, PyRumpyArray};
 
 /// Helper to parse optional dtype argument.
@@ -369,10 +369,13 @@ fn from_array_interface(
 
     // Extract typestr to determine dtype
     let typestr: String = interface.get_item("typestr")?.extract()?;
-    let dtype = if let Some(dt) = dtype_override {
-        parse_dtype_any(dt)?
-    } else {
-        dtype_from_typestr(&typestr)?
+    let dtype = dtype_from_typestr(&typestr)?;
+    let target = dtype_override.map(parse_dtype_any).transpose()?;
+    let finish = |arr: RumpyArray| {
+        PyRumpyArray::new(match target {
+            Some(dt) if dt != arr.dtype() => arr.astype(dt),
+            _ => arr,
+        })
     };
 
     // Extract data pointer
@@ -399,7 +402,7 @@ fn from_array_interface(
     let mut arr = RumpyArray::zeros(shape.clone(), dtype);
 
     if size == 0 {
-        return Ok(PyRumpyArray::new(arr));
+        return Ok(finish(arr));
     }
 
     // Copy data respecting strides
@@ -429,29 +432,65 @@ fn from_array_interface(
         increment_indices(&mut indices, &shape);
     }
 
-    Ok(PyRumpyArray::new(arr))
+    // Big-endian sources: swap the bytes of every component
+    let component = match dtype.kind() {
+        DTypeKind::Complex64 | DTypeKind::Complex128 => itemsize / 2,
+        DTypeKind::Str(_) => 4,
+        _ => itemsize,
+    };
+    if typestr.starts_with('>') && component > 1 {
+        let bytes = unsafe { std::slice::from_raw_parts_mut(dst_ptr, size * itemsize) };
+        for c in bytes.chunks_exact_mut(component) {
+            c.reverse();
+        }
+    }
+
+    Ok(finish(arr))
 }
 
-/// Infer dtype from first element of a Python list.
+/// Smallest of bool, int64 and float64 that holds every element of a (nested) list of
+/// Python numbers; None if there are no elements or other objects among them.
+fn numeric_dtype_of_list(list: &Bound<'_, PyList>) -> Option<DType> {
+    // 0 = nothing seen, 1 = bool, 2 = int, 3 = float
+    fn rank(list: &Bound<'_, PyList>) -> Option<u8> {
+        let mut r = 0;
+        for item in list.iter() {
+            r = r.max(if let Ok(sub) = item.downcast::<PyList>() {
+                rank(sub)?
+            } else if item.is_instance_of::<pyo3::types::PyBool>() {
+                1
+            } else if item.is_instance_of::<pyo3::types::PyInt>() {
+                2
+            } else if item.is_instance_of::<pyo3::types::PyFloat>() {
+                3
+            } else {
+                return None;
+            });
+        }
+        Some(r)
+    }
+    match rank(list)? {
+        1 => Some(DType::bool()),
+        2 => Some(DType::int64()),
+        3 => Some(DType::float64()),
+        _ => None,
+    }
+}
+
+/// Infer dtype of a Python list.
 fn infer_dtype_from_list(list: &Bound<'_, PyList>) -> Option<DType> {
     if list.is_empty() {
         return Some(DType::float64());
     }
+    // Numbers: the widest kind of any element, at any depth
+    if let Some(dt) = numeric_dtype_of_list(list) {
+        return Some(dt);
+    }
     let first = list.get_item(0).ok()?;
     // Recurse into nested lists
     if let Ok(sublist) = first.downcast::<PyList>() {
         return infer_dtype_from_list(sublist);
     }
-    // Check type of first element - order matters: bool before int!
-    if first.is_instance_of::<pyo3::types::PyBool>() {
-        return Some(DType::bool());
-    }
-    if first.is_instance_of::<pyo3::types::PyInt>() {
-        return Some(DType::int64());
-    }
-    if first.is_instance_of::<pyo3::types::PyFloat>() {
-        return Some(DType::float64());
-    }
     // Check for strings - compute max length from all elements
     if first.is_instance_of::<pyo3::types::PyString>() {
         let max_len = compute_max_string_length(list).unwrap_or(0);
@@ -514,7 +553,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     // Handle datetime64 dtype - parse string inputs
     if let DTypeKind::DateTime64(unit) = dtype.kind() {
         if first.downcast::<PyList>().is_ok() {
-            let (shape, strings) = flatten_nested_list_str(list)?;
+            let (shape, strings) = flatten_nested_list::<String>(list)?;
             let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
         }
@@ -532,7 +571,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     // Handle timedelta64 dtype
     if let DTypeKind::TimeDelta64(_unit) = dtype.kind() {
         if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_i64(list)?;
+            let (shape, data) = flatten_nested_list::<i64>(list)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
         }
         let data: Vec<i64> = list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<_>>>()?;
@@ -542,7 +581,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     // Handle string dtype
     if let DTypeKind::Str(_) = dtype.kind() {
         if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_str(list)?;
+            let (shape, data) = flatten_nested_list::<String>(list)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_str_with_shape(data, shape, dtype)));
         }
         let data: Vec<String> = list
@@ -555,7 +594,7 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     // Handle bytes dtype
     if let DTypeKind::Bytes(_) = dtype.kind() {
         if first.downcast::<PyList>().is_ok() {
-            let (shape, data) = flatten_nested_list_bytes(list)?;
+            let (shape, data) = flatten_nested_list::<Vec<u8>>(list)?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_bytes_with_shape(data, shape, dtype)));
         }
         let data: Vec<Vec<u8>> = list
@@ -569,11 +608,11 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
         // Nested list - recursively get shape and flatten
         // Try integer path for integer dtypes, fall back to f64
         if dtype.is_integer() {
-            if let Ok((shape, data)) = flatten_nested_list_i64(list) {
+            if let Ok((shape, data)) = flatten_nested_list::<i64>(list) {
                 return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
             }
         }
-        let (shape, data) = flatten_nested_list(list)?;
+        let (shape, data) = flatten_nested_list::<f64>(list)?;
         return Ok(PyRumpyArray::new(RumpyArray::from_vec_with_shape(data, shape, dtype)));
     }
 
@@ -596,83 +635,29 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     Ok(PyRumpyArray::new(RumpyArray::from_vec(data, dtype)))
 }
 
-/// Flatten nested Python list, returning shape and data as f64.
-fn flatten_nested_list(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<f64>)> {
-    let mut shape = vec![list.len()];
+/// Flatten a nested Python list, returning its shape and elements.
+fn flatten_nested_list<'py, T: FromPyObject<'py>>(list: &Bound<'py, PyList>) -> PyResult<(Vec<usize>, Vec<T>)> {
+    let mut inner: Option<Vec<usize>> = None;
     let mut data = Vec::new();
 
     for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
+        let sub_shape = if let Ok(sublist) = item.downcast::<PyList>() {
             let (sub_shape, sub_data) = flatten_nested_list(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
+            data.extend::<Vec<T>>(sub_data);
+            sub_shape
         } else {
-            data.push(item.extract::<f64>()?);
-        }
-    }
-
-    Ok((shape, data))
-}
-
-/// Flatten nested Python list, returning shape and data as i64.
-fn flatten_nested_list_i64(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<i64>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_i64(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<i64>()?);
-        }
-    }
-
-    Ok((shape, data))
-}
-
-/// Flatten nested Python list, returning shape and data as String.
-fn flatten_nested_list_str(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<String>)> {
-    let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_str(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<String>()?);
+            data.push(item.extract::<T>()?);
+            vec![]
+        };
+        if inner.get_or_insert_with(|| sub_shape.clone()) != &sub_shape {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "nested lists have an inhomogeneous shape",
+            ));
         }
     }
 
-    Ok((shape, data))
-}
-
-/// Flatten nested Python list, returning shape and data as Vec<u8> (bytes).
-fn flatten_nested_list_bytes(list: &Bound<'_, PyList>) -> PyResult<(Vec<usize>, Vec<Vec<u8>>)> {
     let mut shape = vec![list.len()];
-    let mut data = Vec::new();
-
-    for item in list.iter() {
-        if let Ok(sublist) = item.downcast::<PyList>() {
-            let (sub_shape, sub_data) = flatten_nested_list_bytes(sublist)?;
-            if shape.len() == 1 {
-                shape.extend(sub_shape);
-            }
-            data.extend(sub_data);
-        } else {
-            data.push(item.extract::<Vec<u8>>()?);
-        }
-    }
-
+    shape.extend(inner.unwrap_or_default());
     Ok((shape, data))
 }
 
-- 
2.43.0


From b7345838e80c9569fdce6ec145e5b5560d25c78c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:12 +0000
Subject: [PATCH 30/69] fix: string arrays export their width; Python scalar
 conversions of one-element arrays are exact

---
 src/array/dtype/mod.rs           |  9 ++++++++-
 src/ops/io.rs                    |  2 +-
 src/ops/mod.rs                   | 17 +++++++++++++++++
 src/python/pyarray/dunder_ops.rs | 31 +++++++++++++++++++++++++++----
 4 files changed, 53 insertions(+), 6 deletions(-)

diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index 7c56589..d601965 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -412,7 +412,14 @@ impl DType {
     pub fn itemsize(&self) -> usize { self.0.itemsize() }
 
     #[inline]
-    pub fn typestr(&self) -> &'static str { self.0.typestr() }
+    pub fn typestr(&self) -> String {
+        match self.kind() {
+            // The element width is part of the type string of string dtypes
+            DTypeKind::Str(n) => format!("<U{}", n),
+            DTypeKind::Bytes(n) => format!("|S{}", n),
+            _ => self.0.typestr().to_string(),
+        }
+    }
 
     #[inline]
     pub fn format_char(&self) -> &'static str { self.0.format_char() }
diff --git a/src/ops/io.rs b/src/ops/io.rs
index 5e70630..bf684be 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -379,7 +379,7 @@ pub fn save_npy(path: &Path, arr: &RumpyArray) -> Result<(), String> {
 /// Write array in NPY format to a writer.
 pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), String> {
     // Build header dictionary
-    let descr = arr.dtype().ops().typestr();
+    let descr = arr.dtype().typestr();
     let fortran_order = arr.is_f_contiguous() && !arr.is_c_contiguous();
     let shape_str = format!(
         "({}{})",
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 10d1933..f923401 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -319,6 +319,23 @@ impl RumpyArray {
             let val = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(0);
             return Ok(val.into_pyobject(py)?.into_any().unbind());
         }
+        if dtype.kind() == DTypeKind::Bool {
+            let val = unsafe { ops.is_truthy(ptr, offset) };
+            return Ok(pyo3::types::PyBool::new(py, val).to_owned().into_any().unbind());
+        }
+        if let DTypeKind::Str(n) = dtype.kind() {
+            let val: String = (0..n)
+                .map(|i| unsafe { (ptr.offset(offset) as *const u32).add(i).read_unaligned() })
+                .take_while(|&c| c != 0)
+                .filter_map(char::from_u32)
+                .collect();
+            return Ok(val.into_pyobject(py)?.into_any().unbind());
+        }
+        if let DTypeKind::Bytes(n) = dtype.kind() {
+            let raw = unsafe { std::slice::from_raw_parts(ptr.offset(offset), n) };
+            let len = n - raw.iter().rev().take_while(|&&b| b == 0).count();
+            return Ok(pyo3::types::PyBytes::new(py, &raw[..len]).into_any().unbind());
+        }
         let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
         Ok(val.into_pyobject(py)?.into_any().unbind())
     }
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index ba67c60..2a8e251 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -114,22 +114,45 @@ impl PyRumpyArray {
         Self::new(self.inner.abs().expect("abs always succeeds"))
     }
 
-    fn __float__(&self) -> PyResult<f64> {
+    fn __float__(&self, py: Python<'_>) -> PyResult<f64> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "only size-1 arrays can be converted to Python scalars",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]))
+        // Through the Python value: complex numbers do not convert
+        let value = self.inner.element_to_py(py, 0)?;
+        py.get_type::<pyo3::types::PyFloat>().call1((value,))?.extract()
     }
 
-    fn __int__(&self) -> PyResult<i64> {
+    fn __complex__<'py>(&self, py: Python<'py>) -> PyResult<Bound<'py, pyo3::types::PyComplex>> {
         if self.inner.size() != 1 {
             return Err(pyo3::exceptions::PyTypeError::new_err(
                 "only size-1 arrays can be converted to Python scalars",
             ));
         }
-        Ok(self.inner.get_element(&vec![0; self.inner.ndim()]) as i64)
+        let value = self.inner.element_to_py(py, 0)?;
+        Ok(py.get_type::<pyo3::types::PyComplex>().call1((value,))?.downcast_into()?)
+    }
+
+    fn __bool__(&self, py: Python<'_>) -> PyResult<bool> {
+        if self.inner.size() != 1 {
+            return Err(pyo3::exceptions::PyValueError::new_err(
+                "the truth value of an array with other than one element is ambiguous",
+            ));
+        }
+        self.inner.element_to_py(py, 0)?.bind(py).is_truthy()
+    }
+
+    fn __int__(&self, py: Python<'_>) -> PyResult<PyObject> {
+        if self.inner.size() != 1 {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "only size-1 arrays can be converted to Python scalars",
+            ));
+        }
+        // Through the exact Python value: wide integers do not fit a float
+        let value = self.inner.element_to_py(py, 0)?;
+        Ok(py.get_type::<pyo3::types::PyInt>().call1((value,))?.unbind())
     }
 
     // Comparison operations
-- 
2.43.0


From e4d6d374a789d69c5e56599fd8dc0b766d919360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:12 +0000
Subject: [PATCH 31/69] fix: frombuffer rejects partial elements and offsets
 beyond the buffer

---
 src/ops/io.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index bf684be..e97109e 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -661,10 +661,16 @@ fn compute_f_strides(shape: &[usize], itemsize: usize) -> Vec<isize> {
 /// Create array from raw bytes buffer.
 pub fn frombuffer(data: &[u8], dtype: DType, count: isize, offset: usize) -> Result<RumpyArray, String> {
     let itemsize = dtype.itemsize();
-    let available_bytes = data.len().saturating_sub(offset);
-    let max_elements = available_bytes / itemsize;
+    if offset > data.len() {
+        return Err(format!("offset {} is beyond the end of the buffer", offset));
+    }
+    let available_bytes = data.len() - offset;
+    let max_elements = available_bytes / itemsize.max(1);
 
     let n = if count < 0 {
+        if max_elements * itemsize != available_bytes {
+            return Err("buffer size must be a multiple of element size".to_string());
+        }
         max_elements
     } else {
         let requested = count as usize;
-- 
2.43.0


From 1fadb8961ba14ca4959fa0839fe10ad414cf8840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 32/69] fix: arange of floats is a float array and rejects a
 zero step; full of integers is exact

---
 src/python/creation.rs | 45 +++++++++++++++++++++++++++++++-----------
 1 file changed, 34 insertions(+), 11 deletions(-)

diff --git a/src/python/creation.rs b/src/python/creation.rs
index a99c491..fd45897 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -36,16 +36,29 @@ pub fn ones(shape: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyRes
 #[pyfunction]
 #[pyo3(signature = (start_or_stop, stop=None, step=None, dtype=None))]
 pub fn arange(
-    start_or_stop: f64,
-    stop: Option<f64>,
-    step: Option<f64>,
+    start_or_stop: &Bound<'_, PyAny>,
+    stop: Option<&Bound<'_, PyAny>>,
+    step: Option<&Bound<'_, PyAny>>,
     dtype: Option<&Bound<'_, PyAny>>,
 ) -> PyResult<PyRumpyArray> {
-    let (start, stop, step) = match stop {
-        Some(stop) => (start_or_stop, stop, step.unwrap_or(1.0)),
-        None => (0.0, start_or_stop, step.unwrap_or(1.0)),
+    // Without a dtype the result is integral unless an argument is a float
+    let any_float = [Some(start_or_stop), stop, step]
+        .into_iter()
+        .flatten()
+        .any(|v| v.is_instance_of::<pyo3::types::PyFloat>());
+    let first: f64 = start_or_stop.extract()?;
+    let step: f64 = step.map_or(Ok(1.0), |s| s.extract())?;
+    let (start, stop) = match stop {
+        Some(stop) => (first, stop.extract()?),
+        None => (0.0, first),
     };
-    let dtype = resolve_dtype(dtype, "int64")?;
+    let len = (stop - start) / step;
+    if step == 0.0 || !len.is_finite() {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "arange requires finite bounds and a non-zero step",
+        ));
+    }
+    let dtype = resolve_dtype(dtype, if any_float { "float64" } else { "int64" })?;
     Ok(PyRumpyArray::new(RumpyArray::arange(start, stop, step, dtype)))
 }
 
@@ -73,10 +86,20 @@ pub fn eye(n: usize, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray>
 /// Create array filled with given value.
 #[pyfunction]
 #[pyo3(signature = (shape, fill_value, dtype=None))]
-pub fn full(shape: &Bound<'_, PyAny>, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full(shape: &Bound<'_, PyAny>, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = parse_shape(shape)?;
     let dtype = resolve_dtype(dtype, "float64")?;
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    filled(shape, fill_value, dtype)
+}
+
+/// An array of one repeated value; integers fill integer arrays exactly.
+fn filled(shape: Vec<usize>, fill_value: &Bound<'_, PyAny>, dtype: DType) -> PyResult<PyRumpyArray> {
+    if dtype.is_integer() {
+        if let Ok(v) = fill_value.extract::<i64>() {
+            return Ok(PyRumpyArray::new(RumpyArray::full_i64(shape, v, dtype)));
+        }
+    }
+    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value.extract()?, dtype)))
 }
 
 /// Create uninitialized array.
@@ -129,13 +152,13 @@ pub fn empty_like(a: &PyRumpyArray, dtype: Option<&Bound<'_, PyAny>>) -> PyResul
 /// Create array filled with given value, with same shape and dtype as input.
 #[pyfunction]
 #[pyo3(signature = (a, fill_value, dtype=None))]
-pub fn full_like(a: &PyRumpyArray, fill_value: f64, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
+pub fn full_like(a: &PyRumpyArray, fill_value: &Bound<'_, PyAny>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
     let shape = a.inner.shape().to_vec();
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(&dt)?,
         None => a.inner.dtype(),
     };
-    Ok(PyRumpyArray::new(RumpyArray::full(shape, fill_value, dtype)))
+    filled(shape, fill_value, dtype)
 }
 
 /// Create an n x n identity matrix.
-- 
2.43.0


From 9283995e570a9c16a9a2a85462b9e40c2783ff2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:02 +0000
Subject: [PATCH 33/69] fix: unravel_index, ravel_multi_index, ix_, ndenumerate
 and unpackbits follow layout, masks, counts and exact values

---
 src/ops/indexing.rs    | 32 +++++++++++------
 src/python/indexing.rs | 81 +++++++++++++++++++++++-------------------
 src/python/misc.rs     |  2 +-
 3 files changed, 66 insertions(+), 49 deletions(-)

diff --git a/src/ops/indexing.rs b/src/ops/indexing.rs
index 29490d0..b4f03b8 100644
--- a/src/ops/indexing.rs
+++ b/src/ops/indexing.rs
@@ -727,7 +727,7 @@ pub fn unravel_index(indices: &[i64], shape: &[usize], order: char) -> Option<Ve
     } else {
         // C order: last dim varies fastest
         let mut s = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
+        for i in (0..ndim.saturating_sub(1)).rev() {
             s[i] = s[i + 1] * shape[i + 1];
         }
         s
@@ -776,7 +776,7 @@ pub fn ravel_multi_index(
     }
 
     // All index arrays must have the same length
-    let n = multi_index[0].len();
+    let n = multi_index.first()?.len();
     for idx_arr in multi_index.iter() {
         if idx_arr.len() != n {
             return None;
@@ -792,7 +792,7 @@ pub fn ravel_multi_index(
         s
     } else {
         let mut s = vec![1usize; ndim];
-        for i in (0..ndim - 1).rev() {
+        for i in (0..ndim.saturating_sub(1)).rev() {
             s[i] = s[i + 1] * shape[i + 1];
         }
         s
@@ -811,10 +811,10 @@ pub fn ravel_multi_index(
 
             // Handle modes
             match mode {
-                "clip" => {
+                "clip" if dim_size > 0 => {
                     idx = idx.clamp(0, dim_size - 1);
                 }
-                "wrap" => {
+                "wrap" if dim_size > 0 => {
                     idx = idx.rem_euclid(dim_size);
                 }
                 "raise" => {
@@ -1064,7 +1064,7 @@ fn packbits_axis(arr: &RumpyArray, axis: usize, big_endian: bool) -> RumpyArray
 }
 
 /// Unpack uint8 array to binary values.
-pub fn unpackbits(arr: &RumpyArray, axis: Option<usize>, count: Option<usize>, bitorder: &str) -> RumpyArray {
+pub fn unpackbits(arr: &RumpyArray, axis: Option<usize>, count: Option<isize>, bitorder: &str) -> RumpyArray {
     let big_endian = bitorder != "little";
 
     match axis {
@@ -1073,10 +1073,19 @@ pub fn unpackbits(arr: &RumpyArray, axis: Option<usize>, count: Option<usize>, b
     }
 }
 
-fn unpackbits_flat(arr: &RumpyArray, count: Option<usize>, big_endian: bool) -> RumpyArray {
+/// Number of bits to return: negative counts drop bits from the end, larger counts pad with zeros.
+fn unpacked_len(available: usize, count: Option<isize>) -> usize {
+    match count {
+        None => available,
+        Some(c) if c < 0 => available.saturating_sub(c.unsigned_abs()),
+        Some(c) => c as usize,
+    }
+}
+
+fn unpackbits_flat(arr: &RumpyArray, count: Option<isize>, big_endian: bool) -> RumpyArray {
     let size = arr.size();
     let full_out_size = size * 8;
-    let out_size = count.unwrap_or(full_out_size).min(full_out_size);
+    let out_size = unpacked_len(full_out_size, count);
 
     let mut result = RumpyArray::zeros(vec![out_size], DType::uint8());
     if out_size == 0 {
@@ -1112,7 +1121,7 @@ fn unpackbits_flat(arr: &RumpyArray, count: Option<usize>, big_endian: bool) ->
     result
 }
 
-fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<usize>, big_endian: bool) -> RumpyArray {
+fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<isize>, big_endian: bool) -> RumpyArray {
     let shape = arr.shape();
     let ndim = arr.ndim();
 
@@ -1122,7 +1131,7 @@ fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<usize>, big_endi
 
     let axis_len = shape[axis];
     let full_out_axis_len = axis_len * 8;
-    let out_axis_len = count.unwrap_or(full_out_axis_len).min(full_out_axis_len);
+    let out_axis_len = unpacked_len(full_out_axis_len, count);
 
     let mut out_shape = shape.to_vec();
     out_shape[axis] = out_axis_len;
@@ -1156,7 +1165,8 @@ fn unpackbits_axis(arr: &RumpyArray, axis: usize, count: Option<usize>, big_endi
             .map(|(&i, &s)| i as isize * s)
             .sum();
 
-        let byte = unsafe { *ptr.add(src_offset as usize) };
+        // Bits beyond the end of the axis are zero
+        let byte = if byte_idx < axis_len { unsafe { *ptr.offset(src_offset) } } else { 0 };
         let val = if big_endian {
             (byte >> (7 - bit_idx)) & 1
         } else {
diff --git a/src/python/indexing.rs b/src/python/indexing.rs
index dae7b79..f61cb90 100644
--- a/src/python/indexing.rs
+++ b/src/python/indexing.rs
@@ -3,8 +3,9 @@
 use pyo3::prelude::*;
 use pyo3::types::PyList;
 
-use crate::array::{DType, RumpyArray};
+use crate::array::{DType, DTypeKind, RumpyArray};
 use super::{PyRumpyArray, creation};
+use super::misc::resolve_axis;
 
 // ============================================================================
 // Selection operations
@@ -402,19 +403,15 @@ pub fn unravel_index(
     // Check if input is scalar
     let is_scalar = indices.extract::<i64>().is_ok();
 
-    // Extract indices as Vec<i64>
+    // Extract indices as Vec<i64>; the results have the shape of an index array
+    let mut index_shape = None;
     let idx_vec: Vec<i64> = if let Ok(scalar) = indices.extract::<i64>() {
         vec![scalar]
+    } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
+        index_shape = Some(arr.inner.shape().to_vec());
+        read_index_array(&arr.inner)
     } else if let Ok(list) = indices.extract::<Vec<i64>>() {
         list
-    } else if let Ok(arr) = indices.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-        let size = arr.inner.size();
-        let ptr = arr.inner.data_ptr();
-        let dtype = arr.inner.dtype();
-        let ops = dtype.ops();
-        (0..size)
-            .map(|i| unsafe { ops.read_i64(ptr, (i * dtype.itemsize()) as isize) }.unwrap_or(0))
-            .collect()
     } else {
         return Err(pyo3::exceptions::PyTypeError::new_err(
             "indices must be integer, list, or array",
@@ -443,6 +440,10 @@ pub fn unravel_index(
         let tuple = pyo3::types::PyTuple::new(
             py,
             result.into_iter().map(|arr| {
+                let arr = match &index_shape {
+                    Some(s) => arr.reshape(s.clone()).expect("one coordinate per index"),
+                    None => arr,
+                };
                 pyo3::Py::new(py, PyRumpyArray::new(arr)).unwrap()
             }),
         )?;
@@ -450,6 +451,15 @@ pub fn unravel_index(
     }
 }
 
+/// The elements of an integer array in row-major order.
+fn read_index_array(arr: &crate::array::RumpyArray) -> Vec<i64> {
+    let ptr = arr.data_ptr();
+    let dtype = arr.dtype();
+    arr.iter_offsets()
+        .map(|offset| unsafe { dtype.ops().read_i64(ptr, offset) }.unwrap_or(0))
+        .collect()
+}
+
 /// Convert a tuple of coordinate arrays to an array of flat indices.
 #[pyfunction]
 #[pyo3(signature = (multi_index, dims, mode="raise", order="C"))]
@@ -462,6 +472,8 @@ pub fn ravel_multi_index(
     // Extract multi_index as Vec<Vec<i64>>
     let multi_idx: Vec<Vec<i64>> = if let Ok(list) = multi_index.extract::<Vec<Vec<i64>>>() {
         list
+    } else if let Ok(arrays) = multi_index.extract::<Vec<pyo3::PyRef<'_, PyRumpyArray>>>() {
+        arrays.iter().map(|arr| read_index_array(&arr.inner)).collect()
     } else if let Ok(arr) = multi_index.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
         // Handle 2D array input
         let shape = arr.inner.shape();
@@ -712,14 +724,8 @@ pub fn packbits(
     a: &PyRumpyArray,
     axis: Option<isize>,
     bitorder: &str,
-) -> PyRumpyArray {
-    let resolved_axis = axis.map(|ax| {
-        if ax < 0 {
-            (a.inner.ndim() as isize + ax) as usize
-        } else {
-            ax as usize
-        }
-    });
+) -> PyResult<PyRumpyArray> {
+    let resolved_axis = axis.map(|ax| resolve_axis(ax, a.inner.ndim())).transpose()?;
 
     // axis=None means flatten first (use default axis)
     let actual_axis = if axis.is_none() {
@@ -728,7 +734,7 @@ pub fn packbits(
         resolved_axis
     };
 
-    PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::packbits(&a.inner, actual_axis, bitorder)))
 }
 
 /// Unpack elements of uint8 array into binary-valued output.
@@ -737,18 +743,17 @@ pub fn packbits(
 pub fn unpackbits(
     a: &PyRumpyArray,
     axis: Option<isize>,
-    count: Option<usize>,
+    count: Option<isize>,
     bitorder: &str,
-) -> PyRumpyArray {
-    let resolved_axis = axis.map(|ax| {
-        if ax < 0 {
-            (a.inner.ndim() as isize + ax) as usize
-        } else {
-            ax as usize
-        }
-    });
+) -> PyResult<PyRumpyArray> {
+    if a.inner.dtype().kind() != DTypeKind::Uint8 {
+        return Err(pyo3::exceptions::PyTypeError::new_err(
+            "expected an input array of unsigned byte data type",
+        ));
+    }
+    let resolved_axis = axis.map(|ax| resolve_axis(ax, a.inner.ndim())).transpose()?;
 
-    PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder))
+    Ok(PyRumpyArray::new(crate::ops::indexing::unpackbits(&a.inner, resolved_axis, count, bitorder)))
 }
 
 // ============================================================================
@@ -779,13 +784,19 @@ pub fn ix_(_py: Python<'_>, args: &Bound<'_, pyo3::types::PyTuple>) -> PyResult<
                 "input arrays must be 1-dimensional",
             ));
         }
+        // Masks stand for the positions of their true elements
+        let positions = if arr.inner.dtype().kind() == DTypeKind::Bool {
+            arr.inner.nonzero().swap_remove(0)
+        } else {
+            arr.inner.clone()
+        };
 
         // Build the shape: (1, 1, ..., len, ..., 1)
         let mut new_shape = vec![1usize; n];
-        new_shape[i] = arr.inner.size();
+        new_shape[i] = positions.size();
 
         // Reshape the array
-        let reshaped = arr.inner.reshape(new_shape).expect("reshape failed");
+        let reshaped = positions.reshape(new_shape).expect("reshape failed");
         result.push(PyRumpyArray::new(reshaped));
     }
 
@@ -933,23 +944,19 @@ impl NdEnumerate {
         slf
     }
 
-    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> Option<(pyo3::PyObject, f64)> {
+    fn __next__<'py>(mut slf: PyRefMut<'py, Self>) -> Option<(pyo3::PyObject, pyo3::PyObject)> {
         if slf.flat_idx >= slf.size {
             return None;
         }
 
         let indices = slf.indices.clone();
-        let ptr = slf.arr.data_ptr();
-        let dtype = slf.arr.dtype();
-        let ops = dtype.ops();
-
         // Calculate offset from indices
         let strides = slf.arr.strides();
         let offset: isize = slf.indices.iter().zip(strides.iter())
             .map(|(&i, &s)| (i as isize) * s)
             .sum();
 
-        let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
+        let val = slf.arr.element_to_py(slf.py(), offset).ok()?;
 
         // Increment indices (clone shape to avoid borrow conflict)
         slf.flat_idx += 1;
diff --git a/src/python/misc.rs b/src/python/misc.rs
index 6cc8243..5ee67c8 100644
--- a/src/python/misc.rs
+++ b/src/python/misc.rs
@@ -25,7 +25,7 @@ use super::{PyRumpyArray, shape::to_rumpy_array};
 
 
 /// Resolve a potentially negative axis to a positive index.
-fn resolve_axis(axis: isize, ndim: usize) -> PyResult<usize> {
+pub(super) fn resolve_axis(axis: isize, ndim: usize) -> PyResult<usize> {
     let resolved = if axis < 0 {
         (ndim as isize + axis) as usize
     } else {
-- 
2.43.0


From 159811b11957e81febfe115b12ec2aa770efdf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:15 +0000
Subject: [PATCH 34/69] fix: linspace ends exactly at stop and floors into
 integer dtypes

---
 src/array/constructors.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/array/constructors.rs b/src/array/constructors.rs
index 16d34a6..d02c5b7 100644
--- a/src/array/constructors.rs
+++ b/src/array/constructors.rs
@@ -3,7 +3,7 @@
 use std::sync::Arc;
 
 use super::buffer::ArrayBuffer;
-use super::dtype::DType;
+use super::dtype::{DType, DTypeKind};
 use super::flags::ArrayFlags;
 use super::{compute_c_strides, RumpyArray};
 
@@ -146,8 +146,12 @@ impl RumpyArray {
         // step = (stop - start) / (num - 1) for num > 1, else 0
         let step = if num > 1 { (stop - start) / (num - 1) as f64 } else { 0.0 };
 
+        let integral = matches!(arr.dtype.kind(), DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32
+            | DTypeKind::Int64 | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64);
         for i in 0..num {
-            let val = start + (i as f64) * step;
+            // The last sample is the endpoint itself, free of rounding.
+            let val = if i > 0 && i == num - 1 { stop } else { start + (i as f64) * step };
+            let val = if integral { val.floor() } else { val };
             unsafe { ops.write_f64(ptr, i, val); }
         }
         arr
-- 
2.43.0


From 8137c116c5e939e0f94cffd5fa6751a209928abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:22 +0000
Subject: [PATCH 35/69] fix: solve writes float64 results, singular systems are
 rejected, norms of integers do not wrap

---
 src/ops/linalg.rs | 34 ++++++++++++++++++++++++----------
 src/ops/solve.rs  |  8 ++++++--
 2 files changed, 30 insertions(+), 12 deletions(-)

diff --git a/src/ops/linalg.rs b/src/ops/linalg.rs
index b9c83e7..fedafbb 100644
--- a/src/ops/linalg.rs
+++ b/src/ops/linalg.rs
@@ -87,15 +87,17 @@ pub fn inv(a: &RumpyArray) -> Option<RumpyArray> {
         return Some(RumpyArray::zeros(vec![0, 0], DType::float64()));
     }
 
-    // Try zero-copy path first
-    if let Some(fa) = try_as_faer_mat(a) {
-        let inv = fa.partial_piv_lu().inverse();
-        return Some(faer_to_rumpy(inv.as_ref()));
-    }
-    // Fallback: copy data
-    let fa = copy_to_faer_mat(a);
-    let inv = fa.partial_piv_lu().inverse();
-    Some(faer_to_rumpy(inv.as_ref()))
+    // Zero-copy path first, fallback: copy data
+    let plu = if let Some(fa) = try_as_faer_mat(a) {
+        fa.partial_piv_lu()
+    } else {
+        copy_to_faer_mat(a).partial_piv_lu()
+    };
+    let u = plu.compute_u();
+    if (0..n).any(|i| u[(i, i)] == 0.0) {
+        return None; // exactly singular
+    }
+    Some(faer_to_rumpy(plu.inverse().as_ref()))
 }
 
 /// Compute determinant of a square matrix using LU decomposition.
@@ -162,6 +164,16 @@ pub fn norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
     }
 }
 
+/// Norms of integers and truth values are taken in float64, where absolute values
+/// and sums do not wrap.
+fn without_wrapping(a: &RumpyArray) -> RumpyArray {
+    match a.dtype().kind() {
+        DTypeKind::Float16 | DTypeKind::Float32 | DTypeKind::Float64
+        | DTypeKind::Complex64 | DTypeKind::Complex128 => a.clone(),
+        _ => a.astype(DType::float64()),
+    }
+}
+
 /// Compute vector norm with flexible ord parameter.
 /// ord can be: 1, 2, inf, -inf, or arbitrary p for p-norm
 /// This is a simplified version that flattens the array and computes the norm.
@@ -170,6 +182,7 @@ pub fn vector_norm(a: &RumpyArray, ord: Option<f64>) -> Option<f64> {
     if n == 0 {
         return Some(0.0);
     }
+    let a = &without_wrapping(a);
 
     match ord {
         None | Some(2.0) => {
@@ -224,6 +237,7 @@ pub fn matrix_norm(a: &RumpyArray, ord: Option<&str>) -> Option<f64> {
     if m == 0 || n == 0 {
         return Some(0.0);
     }
+    let a = &without_wrapping(a);
 
     let ord = ord.unwrap_or("fro");
 
@@ -408,7 +422,7 @@ pub fn slogdet(a: &RumpyArray) -> Option<(f64, f64)> {
         return None; // Must be square
     }
     if n == 0 {
-        return Some((1.0, f64::NEG_INFINITY)); // Empty matrix: det = 1, log(1) = 0, but we return -inf for log(0) product convention
+        return Some((1.0, 0.0)); // Empty matrix: det = 1, log(1) = 0
     }
 
     let plu = if let Some(fa) = try_as_faer_mat(a) {
diff --git a/src/ops/solve.rs b/src/ops/solve.rs
index f128578..f240b2a 100644
--- a/src/ops/solve.rs
+++ b/src/ops/solve.rs
@@ -2,7 +2,7 @@
 //!
 //! Solves Ax = b for x using LU decomposition with partial pivoting.
 
-use crate::array::RumpyArray;
+use crate::array::{DType, RumpyArray};
 use faer::prelude::SpSolver;
 
 /// Solve linear system Ax = b.
@@ -49,10 +49,14 @@ pub fn solve(a: &RumpyArray, b: &RumpyArray) -> Option<RumpyArray> {
 
     // Solve using LU with partial pivoting
     let plu = fa.partial_piv_lu();
+    let u = plu.compute_u();
+    if (0..n).any(|i| u[(i, i)] == 0.0) {
+        return None; // exactly singular
+    }
     let fx = plu.solve(&fb);
 
     // Copy result to output
-    let result = RumpyArray::zeros(vec![n, m], a.dtype());
+    let result = RumpyArray::zeros(vec![n, m], DType::float64());
     let result_ptr = result.data_ptr() as *mut u8;
     let r_stride_0 = result.strides()[0];
     let r_stride_1 = result.strides()[1];
-- 
2.43.0


From 8bb797b999c1b3dede749cda2b062235eda828fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:21 +0000
Subject: [PATCH 36/69] fix: gradient writes each lane at the offset of the
 result, not of the operand

---
 src/ops/numerical.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 146c9e4..0a2d8e6 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -123,14 +123,15 @@ pub fn gradient_with_coords(f: &RumpyArray, coords: &RumpyArray, axis: usize) ->
     }
 
     let x = read_to_f64_vec(coords);
+    let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), &x, n, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_offsets) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), &x, n, src_stride, out_stride); }
             }
         };
     }
@@ -159,6 +160,7 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
         return result;
     }
 
+    let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let (src_stride, out_stride) = (f.strides()[axis], result.strides()[axis]);
@@ -166,8 +168,8 @@ fn gradient_axis(f: &RumpyArray, spacing: f64, axis: usize) -> RumpyArray {
 
     macro_rules! run {
         ($loop_fn:ident, $src_ptr:expr) => {
-            for base in f.axis_offsets(axis) {
-                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(base), n, h, h2, src_stride, out_stride); }
+            for (base, out_base) in f.axis_offsets(axis).zip(out_offsets) {
+                unsafe { $loop_fn($src_ptr.byte_offset(base), result_ptr.byte_offset(out_base), n, h, h2, src_stride, out_stride); }
             }
         };
     }
@@ -193,6 +195,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let n = shape[axis];
     let mut result = RumpyArray::zeros(shape.to_vec(), DType::float64());
 
+    let out_offsets: Vec<isize> = result.axis_offsets(axis).collect();
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
     let axis_stride = f.strides()[axis];
@@ -200,7 +203,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
     let f_dtype = f.dtype();
     let f_ops = f_dtype.ops();
 
-    for base in f.axis_offsets(axis) {
+    for (base, out_base) in f.axis_offsets(axis).zip(out_offsets) {
         let vals = read_axis_values(f.data_ptr(), base, axis_stride, n, &*f_ops);
         let mut grad = vec![0.0; n];
 
@@ -221,7 +224,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
         }
 
         for (i, &val) in grad.iter().enumerate() {
-            let idx = (base + i as isize * out_stride) / 8;
+            let idx = (out_base + i as isize * out_stride) / 8;
             unsafe { *result_ptr.offset(idx) = val; }
         }
     }
-- 
2.43.0


From b0420287a74898d48633dbc0c7ecfe2d960e80c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:54 +0000
Subject: [PATCH 37/69] fix: convolve, correlate, interp, gradient and
 trapezoid agree at the edges of their domains

The longer operand may come second in convolve/correlate, empty operands are
rejected, interp keeps the sample value at the end points, gradient over
uneven coordinates is second-order accurate and trapezoid rejects sample
points of another length.
---
 src/array/manipulation.rs | 13 ++++---------
 src/ops/numerical.rs      | 41 ++++++++++++++++++++++-----------------
 src/python/numerical.rs   |  6 +++---
 3 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 2df92f3..16725e3 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -809,13 +809,7 @@ pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray
     let m = v.size();
 
     if n == 0 || m == 0 {
-        let out_len = match mode {
-            "full" => n + m - 1,
-            "same" => n,
-            "valid" => n.saturating_sub(m - 1),
-            _ => return None,
-        };
-        return Some(RumpyArray::zeros(vec![out_len.max(0)], DType::float64()));
+        return None;
     }
 
     // Collect values (needed for both methods)
@@ -850,10 +844,11 @@ pub fn convolve(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArray
 
     // Extract the portion based on mode
     let full_len = n + m - 1;
+    let (long, short) = (n.max(m), n.min(m));
     let (out_len, start) = match mode {
         "full" => (full_len, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
+        "same" => (long, (short - 1) / 2),
+        "valid" => (long - short + 1, short - 1),
         _ => return None,
     };
 
diff --git a/src/ops/numerical.rs b/src/ops/numerical.rs
index 0a2d8e6..d1041cf 100644
--- a/src/ops/numerical.rs
+++ b/src/ops/numerical.rs
@@ -48,7 +48,8 @@ macro_rules! impl_typed_loops {
             for i in 1..n - 1 {
                 let v_prev = *src.offset((i as isize - 1) * src_step) as f64;
                 let v_next = *src.offset((i as isize + 1) * src_step) as f64;
-                *out.offset(i as isize * out_step) = (v_next - v_prev) / (x[i + 1] - x[i - 1]);
+                let v = *src.offset(i as isize * src_step) as f64;
+                *out.offset(i as isize * out_step) = nonuniform_slope(v_prev, v, v_next, x[i] - x[i - 1], x[i + 1] - x[i]);
             }
 
             let v_last = *src.offset((n as isize - 1) * src_step) as f64;
@@ -95,6 +96,13 @@ impl_typed_loops!(gradient_loop_u8, gradient_coords_loop_u8, trapezoid_loop_u8,
 // Gradient
 // ============================================================================
 
+/// Second-order accurate slope at the middle of three unevenly spaced points
+/// (`hs` before it, `hd` after it).
+#[inline]
+fn nonuniform_slope(prev: f64, mid: f64, next: f64, hs: f64, hd: f64) -> f64 {
+    (hs * hs * next + (hd * hd - hs * hs) * mid - hd * hd * prev) / (hs * hd * (hs + hd))
+}
+
 /// Compute numerical gradient of an array.
 pub fn gradient(f: &RumpyArray, spacing: Option<f64>, axis: Option<usize>) -> Option<Vec<RumpyArray>> {
     if f.size() == 0 || f.shape().iter().any(|&d| d < 2) {
@@ -210,7 +218,7 @@ fn gradient_fallback(f: &RumpyArray, x: Option<&[f64]>, spacing: Option<f64>, ax
         if let Some(x) = x {
             grad[0] = (vals[1] - vals[0]) / (x[1] - x[0]);
             for i in 1..n - 1 {
-                grad[i] = (vals[i + 1] - vals[i - 1]) / (x[i + 1] - x[i - 1]);
+                grad[i] = nonuniform_slope(vals[i - 1], vals[i], vals[i + 1], x[i] - x[i - 1], x[i + 1] - x[i]);
             }
             grad[n - 1] = (vals[n - 1] - vals[n - 2]) / (x[n - 1] - x[n - 2]);
         } else {
@@ -250,6 +258,9 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
 
     let shape = y.shape();
     let n = shape[axis];
+    if x.is_some_and(|xa| xa.ndim() != 1 || xa.size() != n) {
+        return None;
+    }
     let out_shape: Vec<usize> = shape.iter().enumerate()
         .filter(|&(i, _)| i != axis).map(|(_, &d)| d).collect();
     let out_shape = if out_shape.is_empty() { vec![1] } else { out_shape };
@@ -262,10 +273,7 @@ pub fn trapezoid(y: &RumpyArray, x: Option<&RumpyArray>, dx: f64, axis: isize) -
     let buffer = Arc::get_mut(result.buffer_mut()).expect("unique");
     let result_ptr = buffer.as_mut_ptr() as *mut f64;
 
-    let x_vals: Option<Vec<f64>> = x.and_then(|xa| {
-        if xa.ndim() != 1 || xa.size() != n { return None; }
-        Some(read_to_f64_vec(xa))
-    });
+    let x_vals: Option<Vec<f64>> = x.map(read_to_f64_vec);
 
     let axis_stride = y.strides()[axis];
 
@@ -335,7 +343,7 @@ pub fn interp(
 
     let n = xp.size();
     if n == 0 {
-        return Some(RumpyArray::zeros(x.shape().to_vec(), DType::float64()));
+        return None;
     }
 
     let xp_vals = read_to_f64_vec(xp);
@@ -382,8 +390,9 @@ pub fn interp(
 #[inline]
 fn interp_single(xi: f64, xp: &[f64], fp: &[f64], left: f64, right: f64) -> f64 {
     let n = xp.len();
-    if xi <= xp[0] { return left; }
-    if xi >= xp[n - 1] { return right; }
+    if xi < xp[0] { return left; }
+    if xi > xp[n - 1] { return right; }
+    if xi == xp[n - 1] { return fp[n - 1]; }
 
     let (mut lo, mut hi) = (0, n - 1);
     while hi - lo > 1 {
@@ -407,13 +416,7 @@ pub fn correlate(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArra
 
     let (n, m) = (a.size(), v.size());
     if n == 0 || m == 0 {
-        let out_len = match mode {
-            "full" => (n + m).saturating_sub(1),
-            "same" => n,
-            "valid" => n.saturating_sub(m.saturating_sub(1)),
-            _ => return None,
-        };
-        return Some(RumpyArray::zeros(vec![out_len.max(0)], DType::float64()));
+        return None;
     }
 
     let a_vals = read_to_f64_vec(a);
@@ -426,10 +429,12 @@ pub fn correlate(a: &RumpyArray, v: &RumpyArray, mode: &str) -> Option<RumpyArra
         convolve_direct(&a_vals, &v_vals)
     };
 
+    let (long, short) = (n.max(m), n.min(m));
     let (out_len, start) = match mode {
         "full" => (n + m - 1, 0),
-        "same" => (n, (m - 1) / 2),
-        "valid" => (n.saturating_sub(m - 1).max(1), m - 1),
+        // with the longer operand second, the window is mirrored
+        "same" => (long, if n >= m { (short - 1) / 2 } else { short / 2 }),
+        "valid" => (long - short + 1, short - 1),
         _ => return None,
     };
 
diff --git a/src/python/numerical.rs b/src/python/numerical.rs
index a953bbb..ee8aca0 100644
--- a/src/python/numerical.rs
+++ b/src/python/numerical.rs
@@ -14,7 +14,7 @@ pub fn convolve(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyRu
     crate::array::convolve(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
-            pyo3::exceptions::PyValueError::new_err("convolve requires 1D arrays and valid mode")
+            pyo3::exceptions::PyValueError::new_err("convolve requires non-empty 1D arrays and valid mode")
         })
 }
 
@@ -25,7 +25,7 @@ pub fn correlate(a: &PyRumpyArray, v: &PyRumpyArray, mode: &str) -> PyResult<PyR
     crate::ops::numerical::correlate(&a.inner, &v.inner, mode)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
-            pyo3::exceptions::PyValueError::new_err("correlate requires 1D arrays and valid mode")
+            pyo3::exceptions::PyValueError::new_err("correlate requires non-empty 1D arrays and valid mode")
         })
 }
 
@@ -129,6 +129,6 @@ pub fn interp(
     crate::ops::numerical::interp(&x.inner, &xp.inner, &fp.inner, left, right)
         .map(PyRumpyArray::new)
         .ok_or_else(|| {
-            pyo3::exceptions::PyValueError::new_err("interp: xp and fp must be 1D with same size")
+            pyo3::exceptions::PyValueError::new_err("interp: xp and fp must be non-empty and 1D with same size")
         })
 }
-- 
2.43.0


From 9021b347cb57c1118c62d32893f459654d5529b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:05 +0000
Subject: [PATCH 38/69] fix: percentiles of data with NaN are NaN, of empty
 data undefined

---
 src/array/manipulation.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 16725e3..ebab8f7 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -258,7 +258,7 @@ pub fn percentile(arr: &RumpyArray, q: &[f64], axis: Option<usize>) -> Option<Ru
 fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     let size = arr.size();
     if size == 0 {
-        return Some(RumpyArray::zeros(vec![q.len()], DType::float64()));
+        return None;
     }
 
     // Collect and sort values
@@ -270,7 +270,7 @@ fn percentile_flat(arr: &RumpyArray, q: &[f64]) -> Option<RumpyArray> {
     for offset in arr.iter_offsets() {
         values.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
     }
-    values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+    values.sort_by(f64::total_cmp);
 
     // Compute percentiles using linear interpolation
     let mut result = RumpyArray::zeros(vec![q.len()], DType::float64());
@@ -312,9 +312,12 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
     };
 
     let reduced_size: usize = reduced_shape.iter().product();
-    if axis_len == 0 || reduced_size == 0 {
+    if reduced_size == 0 {
         return Some(RumpyArray::zeros(out_shape, DType::float64()));
     }
+    if axis_len == 0 {
+        return None;
+    }
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
     let buffer = result.buffer_mut();
@@ -334,7 +337,7 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
             values.push(unsafe { ops.read_f64(ptr, 0) }.unwrap_or(0.0));
             ptr = unsafe { ptr.offset(axis_stride) };
         }
-        values.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
+        values.sort_by(f64::total_cmp);
 
         // Compute percentiles
         if q.len() == 1 {
@@ -349,10 +352,10 @@ fn percentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyArra
     Some(result)
 }
 
-/// Linear interpolation for percentile.
+/// Linear interpolation for percentile; NaN if one of the values is NaN.
 fn interpolate_percentile(sorted: &[f64], pct: f64) -> f64 {
     let n = sorted.len();
-    if n == 0 {
+    if n == 0 || sorted[0].is_nan() || sorted[n - 1].is_nan() {
         return f64::NAN;
     }
     if n == 1 {
@@ -442,7 +445,7 @@ fn nanpercentile_axis(arr: &RumpyArray, q: &[f64], axis: usize) -> Option<RumpyA
 
     let reduced_size: usize = reduced_shape.iter().product();
     if axis_len == 0 || reduced_size == 0 {
-        return Some(RumpyArray::zeros(out_shape, DType::float64()));
+        return Some(RumpyArray::full(out_shape, f64::NAN, DType::float64()));
     }
 
     let mut result = RumpyArray::zeros(out_shape, DType::float64());
-- 
2.43.0


From 38ad996c4f7c179f2975ed4e6cdc26ea045f3d79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:42 +0000
Subject: [PATCH 39/69] fix: histogram bins are the half-open intervals between
 the returned edges

Constant data, NaN, zero bins, reversed ranges and range lists of the wrong
length gave zero-width bins, panics or counts that contradicted the edges.
---
 src/ops/statistics.rs    | 211 ++++++++++++---------------------------
 src/python/reductions.rs |  11 +-
 2 files changed, 70 insertions(+), 152 deletions(-)

diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index db64aba..b587ac7 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -10,37 +10,57 @@ use std::sync::Arc;
 // Module-level functions
 // ============================================================================
 
-/// Compute histogram of 1D array.
-/// Returns (counts, bin_edges) tuple.
-pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> (RumpyArray, RumpyArray) {
-    let values = arr.to_vec();
-
-    let (min_val, max_val) = range.unwrap_or_else(|| {
-        if values.is_empty() {
-            (0.0, 1.0)
-        } else {
+/// Equally spaced bin edges over `range`, or over the range of the values.
+/// A range without extent is widened by one half on both sides.
+fn uniform_edges(values: &[f64], bins: usize, range: Option<(f64, f64)>) -> Result<Vec<f64>, &'static str> {
+    if bins == 0 {
+        return Err("number of bins must be positive");
+    }
+    let (mut lo, mut hi) = match range {
+        Some((lo, hi)) if lo > hi => return Err("max must be larger than min in range"),
+        Some(r) => r,
+        None if values.is_empty() => (0.0, 1.0),
+        None => {
+            if values.iter().any(|v| !v.is_finite()) {
+                return Err("range of the data is not finite");
+            }
             let min_v = values.iter().cloned().fold(f64::INFINITY, f64::min);
             let max_v = values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
             (min_v, max_v)
         }
-    });
+    };
+    if !lo.is_finite() || !hi.is_finite() {
+        return Err("range must be finite");
+    }
+    if lo == hi {
+        lo -= 0.5;
+        hi += 0.5;
+    }
+    let width = (hi - lo) / bins as f64;
+    let mut edges: Vec<f64> = (0..bins).map(|i| lo + i as f64 * width).collect();
+    edges.push(hi);
+    Ok(edges)
+}
 
-    // Create bin edges
-    let mut bin_edges = Vec::with_capacity(bins + 1);
-    let bin_width = (max_val - min_val) / bins as f64;
-    for i in 0..=bins {
-        bin_edges.push(min_val + i as f64 * bin_width);
+/// The bin `val` falls into: half-open bins, the last one closed.
+fn find_bin(edges: &[f64], val: f64) -> Option<usize> {
+    let bins = edges.len() - 1;
+    if !(val >= edges[0] && val <= edges[bins]) {
+        return None;
     }
+    Some((edges.partition_point(|&e| e <= val) - 1).min(bins - 1))
+}
+
+/// Compute histogram of 1D array.
+/// Returns (counts, bin_edges) tuple.
+pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> Result<(RumpyArray, RumpyArray), &'static str> {
+    let values = arr.to_vec();
+    let bin_edges = uniform_edges(&values, bins, range)?;
 
     // Count values in each bin
     let mut counts = vec![0i64; bins];
     for &val in &values {
-        if val >= min_val && val <= max_val {
-            let mut bin_idx = ((val - min_val) / bin_width) as usize;
-            // Handle edge case: value == max_val goes in last bin
-            if bin_idx >= bins {
-                bin_idx = bins - 1;
-            }
+        if let Some(bin_idx) = find_bin(&bin_edges, val) {
             counts[bin_idx] += 1;
         }
     }
@@ -49,32 +69,13 @@ pub fn histogram(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> (R
     let counts_arr = RumpyArray::from_vec(counts_data, DType::int64());
     let edges_arr = RumpyArray::from_vec(bin_edges, DType::float64());
 
-    (counts_arr, edges_arr)
+    Ok((counts_arr, edges_arr))
 }
 
 /// Compute bin edges for histogram without computing the histogram itself.
 /// This is useful when you want to use consistent bins across multiple histograms.
-pub fn histogram_bin_edges(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> RumpyArray {
-    let values = arr.to_vec();
-
-    let (min_val, max_val) = range.unwrap_or_else(|| {
-        if values.is_empty() {
-            (0.0, 1.0)
-        } else {
-            let min_v = values.iter().cloned().fold(f64::INFINITY, f64::min);
-            let max_v = values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-            (min_v, max_v)
-        }
-    });
-
-    // Create bin edges
-    let mut bin_edges = Vec::with_capacity(bins + 1);
-    let bin_width = (max_val - min_val) / bins as f64;
-    for i in 0..=bins {
-        bin_edges.push(min_val + i as f64 * bin_width);
-    }
-
-    RumpyArray::from_vec(bin_edges, DType::float64())
+pub fn histogram_bin_edges(arr: &RumpyArray, bins: usize, range: Option<(f64, f64)>) -> Result<RumpyArray, &'static str> {
+    Ok(RumpyArray::from_vec(uniform_edges(&arr.to_vec(), bins, range)?, DType::float64()))
 }
 
 /// Compute 2D histogram of two data samples.
@@ -94,62 +95,21 @@ pub fn histogram2d(
         return Err("x and y must have the same length");
     }
 
-    // Determine ranges
-    let (x_min, x_max, y_min, y_max) = match range {
-        Some(r) => (r[0][0], r[0][1], r[1][0], r[1][1]),
-        None => {
-            if x_values.is_empty() {
-                (0.0, 1.0, 0.0, 1.0)
-            } else {
-                let x_min = x_values.iter().cloned().fold(f64::INFINITY, f64::min);
-                let x_max = x_values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                let y_min = y_values.iter().cloned().fold(f64::INFINITY, f64::min);
-                let y_max = y_values.iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                (x_min, x_max, y_min, y_max)
-            }
-        }
-    };
-
-    // Create bin edges
-    let x_bin_width = (x_max - x_min) / bins_x as f64;
-    let y_bin_width = (y_max - y_min) / bins_y as f64;
-
-    let mut x_edges = Vec::with_capacity(bins_x + 1);
-    for i in 0..=bins_x {
-        x_edges.push(x_min + i as f64 * x_bin_width);
-    }
-
-    let mut y_edges = Vec::with_capacity(bins_y + 1);
-    for i in 0..=bins_y {
-        y_edges.push(y_min + i as f64 * y_bin_width);
-    }
+    let x_edges = uniform_edges(&x_values, bins_x, range.map(|r| (r[0][0], r[0][1])))?;
+    let y_edges = uniform_edges(&y_values, bins_y, range.map(|r| (r[1][0], r[1][1])))?;
 
     // Count values in each 2D bin
     let mut counts = vec![0.0f64; bins_x * bins_y];
 
-    for i in 0..x_values.len() {
-        let xv = x_values[i];
-        let yv = y_values[i];
-
-        if xv >= x_min && xv <= x_max && yv >= y_min && yv <= y_max {
-            let mut x_bin = ((xv - x_min) / x_bin_width) as usize;
-            let mut y_bin = ((yv - y_min) / y_bin_width) as usize;
-
-            // Handle edge case: value == max goes in last bin
-            if x_bin >= bins_x {
-                x_bin = bins_x - 1;
-            }
-            if y_bin >= bins_y {
-                y_bin = bins_y - 1;
-            }
-
+    for (&xv, &yv) in x_values.iter().zip(&y_values) {
+        if let (Some(x_bin), Some(y_bin)) = (find_bin(&x_edges, xv), find_bin(&y_edges, yv)) {
             counts[x_bin * bins_y + y_bin] += 1.0;
         }
     }
 
     // Apply density normalization if requested
     if density && !x_values.is_empty() {
-        let bin_area = x_bin_width * y_bin_width;
+        let bin_area = (x_edges[bins_x] - x_edges[0]) / bins_x as f64 * ((y_edges[bins_y] - y_edges[0]) / bins_y as f64);
         let total: f64 = counts.iter().sum();
         if total > 0.0 && bin_area > 0.0 {
             let norm = total * bin_area;
@@ -179,31 +139,8 @@ pub fn histogramdd(
 ) -> Result<(RumpyArray, Vec<RumpyArray>), &'static str> {
     let shape = sample.shape();
 
-    // Handle empty sample
-    if shape[0] == 0 {
-        // For empty sample, still create properly shaped output
-        let ndim = if shape.len() == 2 { shape[1] } else { 1 };
-        let bins: Vec<usize> = if bins_per_dim.len() == 1 {
-            vec![bins_per_dim[0]; ndim]
-        } else if bins_per_dim.len() == ndim {
-            bins_per_dim.to_vec()
-        } else {
-            return Err("bins must have one element or match sample dimensions");
-        };
-
-        let h_arr = RumpyArray::zeros(bins.clone(), DType::float64());
-        let edges: Vec<RumpyArray> = bins.iter().enumerate().map(|(d, &b)| {
-            let (lo, hi) = if let Some(r) = range {
-                (r[d][0], r[d][1])
-            } else {
-                (0.0, 1.0)
-            };
-            let width = (hi - lo) / b as f64;
-            let edge_vals: Vec<f64> = (0..=b).map(|i| lo + i as f64 * width).collect();
-            RumpyArray::from_vec(edge_vals, DType::float64())
-        }).collect();
-
-        return Ok((h_arr, edges));
+    if shape.is_empty() || shape.len() > 2 {
+        return Err("sample must be 1D or 2D");
     }
 
     // Determine number of dimensions from sample
@@ -234,33 +171,14 @@ pub fn histogramdd(
             .collect()
     };
 
-    // Compute ranges for each dimension
-    let ranges: Vec<(f64, f64)> = (0..ndim)
-        .map(|d| {
-            if let Some(r) = range {
-                (r[d][0], r[d][1])
-            } else {
-                let min_v = dim_data[d].iter().cloned().fold(f64::INFINITY, f64::min);
-                let max_v = dim_data[d].iter().cloned().fold(f64::NEG_INFINITY, f64::max);
-                (min_v, max_v)
-            }
-        })
-        .collect();
-
-    // Compute bin widths
-    let bin_widths: Vec<f64> = (0..ndim)
-        .map(|d| (ranges[d].1 - ranges[d].0) / bins[d] as f64)
-        .collect();
+    if range.is_some_and(|r| r.len() != ndim) {
+        return Err("range must have one entry per sample dimension");
+    }
 
     // Create edges for each dimension
-    let edges: Vec<RumpyArray> = (0..ndim)
-        .map(|d| {
-            let edge_vals: Vec<f64> = (0..=bins[d])
-                .map(|i| ranges[d].0 + i as f64 * bin_widths[d])
-                .collect();
-            RumpyArray::from_vec(edge_vals, DType::float64())
-        })
-        .collect();
+    let edges: Vec<Vec<f64>> = (0..ndim)
+        .map(|d| uniform_edges(&dim_data[d], bins[d], range.map(|r| (r[d][0], r[d][1]))))
+        .collect::<Result<_, _>>()?;
 
     // Compute total number of bins and create histogram array
     let total_bins: usize = bins.iter().product();
@@ -271,16 +189,10 @@ pub fn histogramdd(
         // Find bin indices for this sample
         let mut bin_indices = Vec::with_capacity(ndim);
         for d in 0..ndim {
-            let val = dim_data[d][i];
-            let (lo, hi) = ranges[d];
-            if val < lo || val > hi {
-                continue 'sample;
-            }
-            let mut bin = ((val - lo) / bin_widths[d]) as usize;
-            if bin >= bins[d] {
-                bin = bins[d] - 1;
+            match find_bin(&edges[d], dim_data[d][i]) {
+                Some(bin) => bin_indices.push(bin),
+                None => continue 'sample,
             }
-            bin_indices.push(bin);
         }
 
         // Convert N-D bin indices to flat index (row-major order)
@@ -296,7 +208,7 @@ pub fn histogramdd(
 
     // Apply density normalization if requested
     if density && nsamples > 0 {
-        let bin_volume: f64 = bin_widths.iter().product();
+        let bin_volume: f64 = (0..ndim).map(|d| (edges[d][bins[d]] - edges[d][0]) / bins[d] as f64).product();
         let total: f64 = counts.iter().sum();
         if total > 0.0 && bin_volume > 0.0 {
             let norm = total * bin_volume;
@@ -309,6 +221,7 @@ pub fn histogramdd(
     let h_arr = RumpyArray::from_vec(counts, DType::float64())
         .reshape(bins)
         .unwrap();
+    let edges = edges.into_iter().map(|e| RumpyArray::from_vec(e, DType::float64())).collect();
 
     Ok((h_arr, edges))
 }
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index e9cdec6..9f6ce7f 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -604,7 +604,8 @@ pub fn histogram(
     bins: usize,
     range: Option<(f64, f64)>,
 ) -> PyResult<(PyRumpyArray, PyRumpyArray)> {
-    let (counts, edges) = crate::ops::histogram(&x.inner, bins, range);
+    let (counts, edges) = crate::ops::histogram(&x.inner, bins, range)
+        .map_err(pyo3::exceptions::PyValueError::new_err)?;
     Ok((PyRumpyArray::new(counts), PyRumpyArray::new(edges)))
 }
 
@@ -617,7 +618,9 @@ pub fn histogram_bin_edges(
     range: Option<(f64, f64)>,
 ) -> PyResult<PyRumpyArray> {
     let Some(bins) = bins else {
-        return Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, 10, range)));
+        return crate::ops::histogram_bin_edges(&a.inner, 10, range)
+            .map(PyRumpyArray::new)
+            .map_err(pyo3::exceptions::PyValueError::new_err);
     };
 
     // If bins is an array/list, return it directly as edges
@@ -633,7 +636,9 @@ pub fn histogram_bin_edges(
         pyo3::exceptions::PyTypeError::new_err("bins must be an integer or array-like")
     })?;
 
-    Ok(PyRumpyArray::new(crate::ops::histogram_bin_edges(&a.inner, nbins, range)))
+    crate::ops::histogram_bin_edges(&a.inner, nbins, range)
+        .map(PyRumpyArray::new)
+        .map_err(pyo3::exceptions::PyValueError::new_err)
 }
 
 /// Compute 2D histogram.
-- 
2.43.0


From 6914c52799979a8b92ff7115eaf81f8d360c23af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:42 +0000
Subject: [PATCH 40/69] fix: cov and corrcoef compute in float64 and reject N-d
 observations, bincount rejects non-integers

---
 src/array/manipulation.rs |  7 +++++--
 src/ops/statistics.rs     |  1 +
 src/python/reductions.rs  | 18 ++++++++++++++----
 3 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index ebab8f7..228c8b8 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -1,5 +1,6 @@
 //! Array manipulation functions: concatenate, stack, split, tile, repeat, pad, roll, etc.
 
+use crate::array::dtype::DTypeKind;
 use std::sync::Arc;
 
 use super::dtype::{promote_dtype, DType};
@@ -195,8 +196,10 @@ pub fn broadcast_shapes(a: &[usize], b: &[usize]) -> Option<Vec<usize>> {
 /// Count occurrences of each value in an array of non-negative integers.
 /// Returns an array of counts where result[i] = number of times i appears in x.
 pub fn bincount(x: &RumpyArray, minlength: usize) -> Option<RumpyArray> {
-    // Must be 1D
-    if x.ndim() != 1 {
+    // Must be 1D and of integers
+    if x.ndim() != 1 || !matches!(x.dtype().kind(),
+        DTypeKind::Bool | DTypeKind::Int8 | DTypeKind::Int16 | DTypeKind::Int32 | DTypeKind::Int64
+        | DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64) {
         return None;
     }
 
diff --git a/src/ops/statistics.rs b/src/ops/statistics.rs
index b587ac7..e12ada5 100644
--- a/src/ops/statistics.rs
+++ b/src/ops/statistics.rs
@@ -230,6 +230,7 @@ pub fn histogramdd(
 /// x should be 2D with each row representing a variable and each column an observation.
 /// Returns a 2D array where element [i,j] is cov(row_i, row_j).
 pub fn cov(arr: &RumpyArray, ddof: usize) -> RumpyArray {
+    let arr = &arr.astype(DType::float64());
     // For 1D input, compute variance
     if arr.ndim() == 1 {
         let n = arr.size();
diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 9f6ce7f..6b48d9e 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -749,14 +749,24 @@ pub fn histogramdd(
 /// Compute covariance matrix.
 #[pyfunction]
 #[pyo3(name = "cov", signature = (x, ddof=1))]
-pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::cov(&x.inner, ddof))
+pub fn cov_fn(x: &PyRumpyArray, ddof: usize) -> PyResult<PyRumpyArray> {
+    check_observations(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::cov(&x.inner, ddof)))
+}
+
+/// Observations are a vector, or a matrix with one variable per row.
+fn check_observations(x: &crate::array::RumpyArray) -> PyResult<()> {
+    if x.ndim() == 0 || x.ndim() > 2 {
+        return Err(pyo3::exceptions::PyValueError::new_err("observations must be 1D or 2D"));
+    }
+    Ok(())
 }
 
 /// Compute correlation coefficient matrix.
 #[pyfunction]
-pub fn corrcoef(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(crate::ops::corrcoef(&x.inner))
+pub fn corrcoef(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    check_observations(&x.inner)?;
+    Ok(PyRumpyArray::new(crate::ops::corrcoef(&x.inner)))
 }
 
 /// Count occurrences of each non-negative integer value.
-- 
2.43.0


From b548573c544305c80bdb21a4b82c0a0e1d9cf93e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:12 +0000
Subject: [PATCH 41/69] fix: polynomial roots may be complex, polyint takes its
 constants in order, polyfit weights the residuals

---
 src/ops/poly.rs | 62 ++++++++++++++++---------------------------------
 1 file changed, 20 insertions(+), 42 deletions(-)

diff --git a/src/ops/poly.rs b/src/ops/poly.rs
index 143f849..f23fb01 100644
--- a/src/ops/poly.rs
+++ b/src/ops/poly.rs
@@ -108,7 +108,10 @@ pub fn polyint(p: &RumpyArray, m: usize, k: Option<&RumpyArray>) -> RumpyArray {
             new_coeffs.push(c / power);
         }
         // Append integration constant
-        let constant = k_values.get(m - 1 - i).copied().unwrap_or(0.0);
+        let constant = match k_values.len() {
+            1 => k_values[0],
+            _ => k_values.get(i).copied().unwrap_or(0.0),
+        };
         new_coeffs.push(constant);
         coeffs = new_coeffs;
     }
@@ -162,16 +165,15 @@ pub fn polyfit(x: &RumpyArray, y: &RumpyArray, deg: usize, w: Option<&RumpyArray
             return None;
         }
 
-        // Weight by sqrt(w): W*V and W*y where W = diag(sqrt(w))
+        // The weights apply to the residuals: W*V and W*y where W = diag(w)
         let mut v_data = Vec::with_capacity(n * cols);
         let mut y_data = Vec::with_capacity(n);
 
         for i in 0..n {
-            let sw = w_vals[i].sqrt();
             for j in 0..cols {
-                v_data.push(vander.get_element(&[i, j]) * sw);
+                v_data.push(vander.get_element(&[i, j]) * w_vals[i]);
             }
-            y_data.push(y_vals[i] * sw);
+            y_data.push(y_vals[i] * w_vals[i]);
         }
 
         let vw = RumpyArray::from_vec(v_data, DType::float64()).reshape(vec![n, cols])?;
@@ -215,9 +217,8 @@ pub fn roots(p: &RumpyArray) -> Option<RumpyArray> {
     let mut coeffs = array_to_vec(p);
 
     // Remove leading zeros
-    while !coeffs.is_empty() && coeffs[0].abs() < 1e-15 {
-        coeffs.remove(0);
-    }
+    let leading = coeffs.iter().take_while(|&&c| c == 0.0).count();
+    coeffs.drain(..leading);
 
     let n = coeffs.len();
     if n <= 1 {
@@ -255,9 +256,7 @@ pub fn roots(p: &RumpyArray) -> Option<RumpyArray> {
                 roots.sort_by(|a, b| b.abs().partial_cmp(&a.abs()).unwrap_or(std::cmp::Ordering::Equal));
                 Some(RumpyArray::from_vec(roots, DType::float64()))
             } else {
-                // Complex roots - return empty for now (we don't support complex output)
-                // A more complete implementation would return complex128
-                Some(RumpyArray::from_vec(Vec::new(), DType::float64()))
+                roots_via_companion(&coeffs, degree)
             }
         }
         _ => {
@@ -291,38 +290,17 @@ fn roots_via_companion(coeffs: &[f64], degree: usize) -> Option<RumpyArray> {
     let companion = RumpyArray::from_vec(companion_data, DType::float64())
         .reshape(vec![degree, degree])?;
 
-    // Use QR iteration for eigenvalues
-    // 50 iterations is typically sufficient for convergence
-    let eigenvalues = qr_eigenvalues(&companion, 50)?;
-
-    Some(eigenvalues)
-}
-
-/// QR algorithm for eigenvalues of a general matrix.
-/// Returns real eigenvalues (may miss complex conjugate pairs).
-fn qr_eigenvalues(a: &RumpyArray, max_iter: usize) -> Option<RumpyArray> {
-    let n = a.shape()[0];
-    if n == 0 {
-        return Some(RumpyArray::from_vec(Vec::new(), DType::float64()));
-    }
-
-    let mut matrix = a.copy();
-
-    // Plain QR iteration (no shifts)
-    for _ in 0..max_iter {
-        let (q, r) = linalg::qr(&matrix)?;
-        // A_new = R * Q
-        matrix = crate::ops::matmul::matmul(&r, &q)?;
-    }
-
-    // Extract diagonal (eigenvalues for converged matrix)
-    let mut eigenvalues = Vec::with_capacity(n);
-    for i in 0..n {
-        eigenvalues.push(matrix.get_element(&[i, i]));
+    // Real output if all the roots are real, complex128 otherwise
+    let eigenvalues = linalg::eigvals(&companion)?;
+    let ptr = eigenvalues.data_ptr() as *const f64;
+    let mut roots: Vec<(f64, f64)> = (0..degree)
+        .map(|i| unsafe { (*ptr.add(2 * i), *ptr.add(2 * i + 1)) })
+        .collect();
+    if roots.iter().any(|&(_, im)| im != 0.0) {
+        return Some(eigenvalues);
     }
 
     // Sort by magnitude (largest first, matching NumPy convention)
-    eigenvalues.sort_by(|a, b| b.abs().partial_cmp(&a.abs()).unwrap_or(std::cmp::Ordering::Equal));
-
-    Some(RumpyArray::from_vec(eigenvalues, DType::float64()))
+    roots.sort_by(|a, b| b.0.abs().partial_cmp(&a.0.abs()).unwrap_or(std::cmp::Ordering::Equal));
+    Some(RumpyArray::from_vec(roots.into_iter().map(|(re, _)| re).collect(), DType::float64()))
 }
-- 
2.43.0


From e87568e4527a1815093d670d1853dc3740c37154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 42/69] fix: npy files of Fortran-ordered arrays, malformed npy
 headers and truncated data

---
 src/ops/io.rs | 112 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 69 insertions(+), 43 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index e97109e..aea702b 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -1,6 +1,6 @@
 //! I/O operations for reading and writing arrays to files.
 
-use crate::array::{ArrayBuffer, ArrayFlags, DType, RumpyArray};
+use crate::array::{is_c_contiguous, is_f_contiguous, ArrayBuffer, ArrayFlags, DType, DTypeKind, RumpyArray};
 use std::fs::File;
 use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::Path;
@@ -392,20 +392,24 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
     );
 
     let header = format!(
-        "{{'descr': '{}', 'fortran_order': {}, 'shape': {}}}",
+        "{{'descr': '{}', 'fortran_order': {}, 'shape': {}, }}",
         descr,
         if fortran_order { "True" } else { "False" },
         shape_str
     );
 
-    // Calculate padding for 64-byte alignment (version 1.0)
-    let header_len = header.len();
-    let total_header_len = 10 + header_len; // magic(6) + version(2) + header_len(2)
-    let padding_needed = (64 - (total_header_len % 64)) % 64;
+    // Calculate padding for 64-byte alignment; the header always ends with a newline
+    let header_len = header.len() + 1;
+    let padding = |prefix: usize| (64 - ((prefix + header_len) % 64)) % 64;
+    let mut padding_needed = padding(10); // magic(6) + version(2) + header_len(2)
+    let version_2 = header_len + padding_needed > 65535;
+    if version_2 {
+        padding_needed = padding(12);
+    }
     let padded_header_len = header_len + padding_needed;
 
     // Check if we need version 2.0 (header > 65535 bytes)
-    if padded_header_len > 65535 {
+    if version_2 {
         // Version 2.0: 4-byte header length
         writer.write_all(NPY_MAGIC).map_err(|e| e.to_string())?;
         writer
@@ -429,15 +433,15 @@ pub fn write_npy<W: Write>(writer: &mut W, arr: &RumpyArray) -> Result<(), Strin
         .map_err(|e| e.to_string())?;
 
     // Write padding (spaces, ending with newline)
-    if padding_needed > 0 {
-        let mut padding = vec![b' '; padding_needed];
-        padding[padding_needed - 1] = b'\n';
-        writer.write_all(&padding).map_err(|e| e.to_string())?;
-    }
+    let mut padding = vec![b' '; padding_needed];
+    padding.push(b'\n');
+    writer.write_all(&padding).map_err(|e| e.to_string())?;
 
-    // Write data - need contiguous array
+    // Write data in the declared order
     let contiguous = if arr.is_c_contiguous() {
         arr.clone()
+    } else if fortran_order {
+        arr.transpose().copy()
     } else {
         arr.copy()
     };
@@ -473,13 +477,13 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
         .map_err(|e| format!("Failed to read version: {}", e))?;
 
     // Read header length
-    let header_len = if version[0] == 1 {
+    let header_len = if version == NPY_VERSION_1_0 {
         let mut len_bytes = [0u8; 2];
         reader
             .read_exact(&mut len_bytes)
             .map_err(|e| format!("Failed to read header length: {}", e))?;
         u16::from_le_bytes(len_bytes) as usize
-    } else if version[0] >= 2 {
+    } else if version == NPY_VERSION_2_0 || version == [3, 0] {
         let mut len_bytes = [0u8; 4];
         reader
             .read_exact(&mut len_bytes)
@@ -490,40 +494,50 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     };
 
     // Read header
-    let mut header_bytes = vec![0u8; header_len];
-    reader
-        .read_exact(&mut header_bytes)
+    let header_bytes = read_bytes(reader, header_len)
         .map_err(|e| format!("Failed to read header: {}", e))?;
 
     let header =
         String::from_utf8(header_bytes).map_err(|_| "Header is not valid UTF-8".to_string())?;
 
     // Parse header (simplified parsing of Python dict literal)
-    let (dtype, shape, fortran_order) = parse_npy_header(&header)?;
+    let (dtype, shape, fortran_order, swapped) = parse_npy_header(&header)?;
 
     // Create array and read data
-    let size: usize = shape.iter().product();
-    let nbytes = size * dtype.itemsize();
+    let nbytes = shape
+        .iter()
+        .try_fold(dtype.itemsize(), |n, &d| n.checked_mul(d))
+        .filter(|&n| n <= isize::MAX as usize)
+        .ok_or_else(|| "Array is too large".to_string())?;
+    let mut data = read_bytes(reader, nbytes).map_err(|e| format!("Failed to read data: {}", e))?;
+    if swapped {
+        let unit = match dtype.kind() {
+            DTypeKind::Complex64 | DTypeKind::Str(_) => 4,
+            DTypeKind::Complex128 => 8,
+            DTypeKind::Bytes(_) => 1,
+            _ => dtype.itemsize(),
+        };
+        data.chunks_exact_mut(unit.max(1)).for_each(|c| c.reverse());
+    }
 
     let mut buffer = ArrayBuffer::new(nbytes);
-    let buf_ptr = buffer.as_mut_ptr();
-    let buf_slice = unsafe { std::slice::from_raw_parts_mut(buf_ptr, nbytes) };
-    reader
-        .read_exact(buf_slice)
-        .map_err(|e| format!("Failed to read data: {}", e))?;
+    unsafe {
+        std::ptr::copy_nonoverlapping(data.as_ptr(), buffer.as_mut_ptr(), nbytes);
+    }
 
     // Compute strides based on fortran_order
+    let itemsize = dtype.itemsize();
     let strides = if fortran_order {
-        compute_f_strides(&shape, dtype.itemsize())
+        compute_f_strides(&shape, itemsize)
     } else {
-        compute_c_strides(&shape, dtype.itemsize())
+        compute_c_strides(&shape, itemsize)
     };
 
     let mut flags = ArrayFlags::WRITEABLE;
-    if !fortran_order {
+    if is_c_contiguous(&shape, &strides, itemsize) {
         flags |= ArrayFlags::C_CONTIGUOUS;
     }
-    if fortran_order || shape.iter().filter(|&&d| d > 1).count() <= 1 {
+    if is_f_contiguous(&shape, &strides, itemsize) {
         flags |= ArrayFlags::F_CONTIGUOUS;
     }
 
@@ -537,13 +551,29 @@ pub fn read_npy<R: Read>(reader: &mut R) -> Result<RumpyArray, String> {
     })
 }
 
+/// Read exactly `n` bytes; the allocation grows with the data actually present.
+fn read_bytes<R: Read>(reader: &mut R, n: usize) -> Result<Vec<u8>, String> {
+    let mut data = Vec::new();
+    reader
+        .take(n as u64)
+        .read_to_end(&mut data)
+        .map_err(|e| e.to_string())?;
+    if data.len() < n {
+        return Err("unexpected end of file".to_string());
+    }
+    Ok(data)
+}
+
 /// Parse NPY header dictionary.
-fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
+/// Returns dtype, shape, Fortran order and whether the data has the other byte order.
+fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool, bool), String> {
     let header = header.trim();
 
     // Extract descr
     let descr = extract_string_value(header, "descr")?;
+    let swapped = descr.starts_with('>');
     let dtype = descr
+        .replacen('>', "<", 1)
         .parse::<DType>()
         .map_err(|_| format!("Unsupported dtype: {}", descr))?;
 
@@ -553,7 +583,7 @@ fn parse_npy_header(header: &str) -> Result<(DType, Vec<usize>, bool), String> {
     // Extract shape
     let shape = extract_shape(header)?;
 
-    Ok((dtype, shape, fortran_order))
+    Ok((dtype, shape, fortran_order, swapped))
 }
 
 /// Extract a string value from header dict.
@@ -616,19 +646,15 @@ fn extract_shape(header: &str) -> Result<Vec<usize>, String> {
                 let shape_str = &rest[..end];
 
                 // Parse shape values
-                let shape: Vec<usize> = shape_str
+                return shape_str
                     .split(',')
-                    .filter_map(|s| {
-                        let trimmed = s.trim();
-                        if trimmed.is_empty() {
-                            None
-                        } else {
-                            trimmed.parse().ok()
-                        }
+                    .map(|s| s.trim())
+                    .filter(|s| !s.is_empty())
+                    .map(|s| {
+                        s.parse()
+                            .map_err(|_| format!("Invalid shape in header: ({})", shape_str))
                     })
                     .collect();
-
-                return Ok(shape);
             }
         }
     }
@@ -909,7 +935,7 @@ pub fn load_npz(path: &Path) -> Result<Vec<(String, RumpyArray)>, String> {
         let arr = read_npy(&mut cursor)?;
 
         // Extract name without .npy extension
-        let array_name = name.trim_end_matches(".npy").to_string();
+        let array_name = name.strip_suffix(".npy").unwrap_or(&name).to_string();
         results.push((array_name, arr));
     }
 
-- 
2.43.0


From 73a3dd15cb78badcc3d601549667a8f1c6d7dd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:43 +0000
Subject: [PATCH 43/69] fix: text files keep integers exact, honour printf
 formats, inline comments and missing columns

---
 src/ops/io.rs | 339 ++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 247 insertions(+), 92 deletions(-)

diff --git a/src/ops/io.rs b/src/ops/io.rs
index aea702b..7303946 100644
--- a/src/ops/io.rs
+++ b/src/ops/io.rs
@@ -6,6 +6,64 @@ use std::io::{BufRead, BufReader, BufWriter, Read, Write};
 use std::path::Path;
 use std::sync::Arc;
 
+/// A number read from a text file.
+#[derive(Clone, Copy)]
+enum Number {
+    Int(i128),
+    Float(f64),
+}
+
+impl Number {
+    /// Integers keep all their digits when they are meant for an integer dtype.
+    fn parse(s: &str, dtype: &DType) -> Option<Self> {
+        if dtype.ops().is_integer() {
+            if let Ok(v) = s.parse::<i128>() {
+                return int_in_range(v, dtype).then_some(Number::Int(v));
+            }
+        }
+        s.parse().ok().map(Number::Float)
+    }
+}
+
+/// Whether an integer fits the integer dtype.
+fn int_in_range(v: i128, dtype: &DType) -> bool {
+    let bits = 8 * dtype.itemsize() as u32;
+    match dtype.kind() {
+        DTypeKind::Uint8 | DTypeKind::Uint16 | DTypeKind::Uint32 | DTypeKind::Uint64 => {
+            (0..1i128 << bits).contains(&v)
+        }
+        _ => (-(1i128 << (bits - 1))..1i128 << (bits - 1)).contains(&v),
+    }
+}
+
+/// Build an array from numbers in row-major order.
+fn numbers_to_array(data: &[Number], shape: Vec<usize>, dtype: DType) -> RumpyArray {
+    let mut arr = RumpyArray::zeros(shape, dtype.clone());
+    let ops = dtype.ops();
+    let ptr = arr.data_ptr_mut();
+    for (i, n) in data.iter().enumerate() {
+        unsafe {
+            match *n {
+                Number::Int(v) => {
+                    ops.write_i64(ptr, i, v as i64);
+                }
+                Number::Float(v) => {
+                    ops.write_f64(ptr, i, v);
+                }
+            }
+        }
+    }
+    arr
+}
+
+/// The part of a line before a comment.
+fn strip_comment<'a>(line: &'a str, comments: &str) -> &'a str {
+    if comments.is_empty() {
+        return line;
+    }
+    line.find(comments).map_or(line, |i| &line[..i])
+}
+
 /// Load data from a text file.
 ///
 /// Each row in the file must have the same number of columns.
@@ -22,7 +80,7 @@ pub fn loadtxt(
     let file = File::open(path).map_err(|e| format!("Failed to open file: {}", e))?;
     let reader = BufReader::new(file);
 
-    let mut data: Vec<f64> = Vec::new();
+    let mut data: Vec<Number> = Vec::new();
     let mut ncols: Option<usize> = None;
     let mut nrows = 0usize;
     let delimiter = delimiter.unwrap_or_default();
@@ -41,10 +99,9 @@ pub fn loadtxt(
         }
 
         let line = line_result.map_err(|e| format!("Failed to read line: {}", e))?;
-        let trimmed = line.trim();
-
         // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
+        let trimmed = strip_comment(&line, comments).trim();
+        if trimmed.is_empty() {
             continue;
         }
 
@@ -58,8 +115,12 @@ pub fn loadtxt(
         // Select columns
         let selected: Vec<&str> = if let Some(cols) = usecols {
             cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
+                .map(|&i| {
+                    values.get(i).copied().ok_or_else(|| {
+                        format!("Line {} has no column {}", line_num + 1, i)
+                    })
+                })
+                .collect::<Result<_, _>>()?
         } else {
             values
         };
@@ -80,9 +141,8 @@ pub fn loadtxt(
 
         // Parse and collect values
         for s in selected {
-            let val: f64 = s
-                .parse()
-                .map_err(|_| format!("Cannot parse '{}' as number at line {}", s, line_num + 1))?;
+            let val = Number::parse(s, &dtype)
+                .ok_or_else(|| format!("Cannot parse '{}' as number at line {}", s, line_num + 1))?;
             data.push(val);
         }
 
@@ -100,7 +160,7 @@ pub fn loadtxt(
         vec![nrows, ncols]
     };
 
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+    Ok(numbers_to_array(&data, shape, dtype))
 }
 
 /// Save array to a text file.
@@ -114,8 +174,8 @@ pub fn savetxt(
     fmt: &str,
     comments: &str,
 ) -> Result<(), String> {
-    let file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
-    let mut writer = BufWriter::new(file);
+    // Format everything before touching the file
+    let mut writer: Vec<u8> = Vec::new();
 
     // Write header
     if !header.is_empty() {
@@ -132,16 +192,12 @@ pub fn savetxt(
         }
     }
 
-    let ptr = arr.data_ptr();
-    let dtype = arr.dtype();
-    let ops = dtype.ops();
     let shape = arr.shape();
     let ndim = arr.ndim();
 
     if ndim == 0 {
         // Scalar
-        let val = arr.get_element(&[]);
-        let formatted = format_value(val, fmt);
+        let formatted = format_element(arr, 0, fmt)?;
         writer
             .write_all(formatted.as_bytes())
             .map_err(|e| e.to_string())?;
@@ -152,8 +208,7 @@ pub fn savetxt(
         // 1D array - write as column or row based on convention
         // NumPy writes 1D as a single column
         for offset in arr.iter_offsets() {
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, fmt);
+            let formatted = format_element(arr, offset, fmt)?;
             writer
                 .write_all(formatted.as_bytes())
                 .map_err(|e| e.to_string())?;
@@ -179,8 +234,7 @@ pub fn savetxt(
 
                 let flat_idx = row * ncols + col;
                 let offset = offsets[flat_idx];
-                let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-                let formatted = format_value(val, fmt);
+                let formatted = format_element(arr, offset, fmt)?;
                 writer
                     .write_all(formatted.as_bytes())
                     .map_err(|e| e.to_string())?;
@@ -206,46 +260,150 @@ pub fn savetxt(
         }
     }
 
-    writer.flush().map_err(|e| e.to_string())?;
-    Ok(())
+    std::fs::write(path, writer).map_err(|e| format!("Failed to write file: {}", e))
 }
 
-/// Format a value using a format string.
-fn format_value(val: f64, fmt: &str) -> String {
-    if fmt.is_empty() || fmt == "%.18e" {
-        // Default scientific notation
-        format!("{:.18e}", val)
-    } else if fmt.starts_with("%.") && fmt.ends_with('e') {
-        // Scientific notation with precision
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            format!("{:.prec$e}", val, prec = precision)
-        } else {
-            format!("{:.18e}", val)
+/// The element at a byte offset as text, using a printf-style format string.
+fn format_element(arr: &RumpyArray, offset: isize, fmt: &str) -> Result<String, String> {
+    let dtype = arr.dtype();
+    let (ptr, ops) = (arr.data_ptr(), dtype.ops());
+    unsafe {
+        if dtype.ops().is_integer() || dtype.kind() == DTypeKind::Bool {
+            let v = match dtype.kind() {
+                DTypeKind::Bool => ops.read_f64(ptr, offset).map(|v| v as i64),
+                _ => ops.read_i64(ptr, offset),
+            }
+            .unwrap_or(0);
+            let v = if dtype.kind() == DTypeKind::Uint64 { v as u64 as i128 } else { v as i128 };
+            return format_number(Number::Int(v), fmt);
         }
-    } else if fmt.starts_with("%.") && fmt.ends_with('f') {
-        // Fixed-point with precision
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            format!("{:.prec$}", val, prec = precision)
-        } else {
-            format!("{}", val)
-        }
-    } else if fmt.starts_with("%.") && fmt.ends_with('g') {
-        // General format
-        if let Ok(precision) = fmt[2..fmt.len() - 1].parse::<usize>() {
-            // Rust doesn't have %g, approximate it
-            if val.abs() < 1e-4 || val.abs() >= 10f64.powi(precision as i32) {
-                format!("{:.prec$e}", val, prec = precision)
+        if matches!(dtype.kind(), DTypeKind::Complex64 | DTypeKind::Complex128) {
+            let (re, im) = ops.read_complex(ptr, offset).unwrap_or((0.0, 0.0));
+            let re = format_number(Number::Float(re), fmt)?;
+            let im = format_number(Number::Float(im), fmt)?;
+            return Ok(format!(" ({}+{}j)", re, im).replace("+-", "-"));
+        }
+        format_number(Number::Float(ops.read_f64(ptr, offset).unwrap_or(0.0)), fmt)
+    }
+}
+
+/// Format a number with one printf-style conversion, possibly surrounded by plain text.
+/// An empty format stands for the shortest text that reads back to the same number.
+fn format_number(val: Number, fmt: &str) -> Result<String, String> {
+    if fmt.is_empty() {
+        return Ok(match val {
+            Number::Int(v) => v.to_string(),
+            Number::Float(v) if v.is_nan() => "nan".to_string(),
+            Number::Float(v) => format!("{:?}", v),
+        });
+    }
+    let invalid = || format!("Unsupported format '{}'", fmt);
+    let start = fmt.find('%').ok_or_else(invalid)?;
+    let spec = &fmt[start + 1..];
+    let flags_len = spec.find(|c| !"-+ 0#".contains(c)).ok_or_else(invalid)?;
+    let (flags, spec) = spec.split_at(flags_len);
+    let width_len = spec.find(|c: char| !c.is_ascii_digit()).ok_or_else(invalid)?;
+    let width: usize = spec[..width_len].parse().unwrap_or(0);
+    let mut spec = &spec[width_len..];
+    let mut precision = None;
+    if let Some(rest) = spec.strip_prefix('.') {
+        let len = rest.find(|c: char| !c.is_ascii_digit()).ok_or_else(invalid)?;
+        precision = Some(rest[..len].parse::<usize>().unwrap_or(0));
+        spec = &rest[len..];
+    }
+    let conversion = spec.chars().next().ok_or_else(invalid)?;
+    let suffix = &spec[conversion.len_utf8()..];
+    if suffix.contains('%') || width > 1000 || precision.unwrap_or(0) > 1000 {
+        return Err(invalid());
+    }
+
+    // Sign and digits of the magnitude
+    let float = match val {
+        Number::Int(v) => v as f64,
+        Number::Float(v) => v,
+    };
+    let mut negative = float.is_sign_negative() && !float.is_nan();
+    let magnitude = float.abs();
+    let precision_or_6 = precision.unwrap_or(6);
+    let body = match conversion {
+        'd' | 'i' => {
+            let v = match val {
+                Number::Int(v) => v,
+                Number::Float(v) if !v.is_finite() => {
+                    return Err(format!("Cannot format {} as an integer", v))
+                }
+                Number::Float(v) if v.abs() >= 1e38 => {
+                    return Err(format!("Cannot format {} as an integer", v))
+                }
+                Number::Float(v) => v.trunc() as i128,
+            };
+            negative = v < 0;
+            format!("{:0>1$}", v.unsigned_abs(), precision.unwrap_or(1))
+        }
+        'e' | 'E' | 'f' | 'F' | 'g' | 'G' if magnitude.is_nan() => "nan".to_string(),
+        'e' | 'E' | 'f' | 'F' | 'g' | 'G' if magnitude.is_infinite() => "inf".to_string(),
+        'f' | 'F' => format!("{:.*}", precision_or_6, magnitude),
+        'e' | 'E' => format_exponent(magnitude, precision_or_6),
+        'g' | 'G' => {
+            let digits = precision_or_6.max(1);
+            let exponential = format_exponent(magnitude, digits - 1);
+            let exponent: i64 = exponential
+                .split_once('e')
+                .and_then(|(_, e)| e.parse().ok())
+                .unwrap_or(0);
+            let (text, exponent_text) = if exponent < -4 || exponent >= digits as i64 {
+                let (mantissa, e) = exponential.split_once('e').unwrap_or((&exponential, "+00"));
+                (mantissa.to_string(), format!("e{}", e))
             } else {
-                format!("{:.prec$}", val, prec = precision)
-            }
-        } else {
-            format!("{}", val)
+                let decimals = (digits as i64 - 1 - exponent).max(0) as usize;
+                (format!("{:.*}", decimals, magnitude), String::new())
+            };
+            let text = if text.contains('.') && !flags.contains('#') {
+                text.trim_end_matches('0').trim_end_matches('.').to_string()
+            } else {
+                text
+            };
+            text + &exponent_text
+        }
+        's' => {
+            negative = false;
+            format_number(val, "")?
         }
-    } else if fmt.starts_with('%') && fmt.ends_with('d') {
-        // Integer format
-        format!("{}", val as i64)
+        _ => return Err(invalid()),
+    };
+    let body = if conversion.is_ascii_uppercase() { body.to_uppercase() } else { body };
+
+    let sign = if negative {
+        "-"
+    } else if conversion == 's' {
+        ""
+    } else if flags.contains('+') {
+        "+"
+    } else if flags.contains(' ') {
+        " "
+    } else {
+        ""
+    };
+    let fill = width.saturating_sub(sign.len() + body.len());
+    let padded = if flags.contains('-') {
+        format!("{}{}{}", sign, body, " ".repeat(fill))
+    } else if flags.contains('0') && magnitude.is_finite() && conversion != 's' {
+        format!("{}{}{}", sign, "0".repeat(fill), body)
     } else {
-        format!("{}", val)
+        format!("{}{}{}", " ".repeat(fill), sign, body)
+    };
+    Ok(format!("{}{}{}", &fmt[..start], padded, suffix))
+}
+
+/// Scientific notation with a signed exponent of at least two digits.
+fn format_exponent(magnitude: f64, precision: usize) -> String {
+    let text = format!("{:.*e}", precision, magnitude);
+    match text.split_once('e') {
+        Some((mantissa, e)) => {
+            let e: i64 = e.parse().unwrap_or(0);
+            format!("{}e{}{:02}", mantissa, if e < 0 { '-' } else { '+' }, e.abs())
+        }
+        None => text,
     }
 }
 
@@ -274,7 +432,7 @@ pub fn genfromtxt(
     let end_idx = lines.len().saturating_sub(skip_footer);
     let delimiter = delimiter.unwrap_or_default();
 
-    let mut data: Vec<f64> = Vec::new();
+    let mut data: Vec<Number> = Vec::new();
     let mut ncols: Option<usize> = None;
     let mut nrows = 0usize;
     let mut processed_rows = 0usize;
@@ -297,10 +455,9 @@ pub fn genfromtxt(
             }
         }
 
-        let trimmed = line.trim();
-
         // Skip empty lines and comments
-        if trimmed.is_empty() || (!comments.is_empty() && trimmed.starts_with(comments)) {
+        let trimmed = strip_comment(&line, comments).trim();
+        if trimmed.is_empty() {
             continue;
         }
 
@@ -314,8 +471,12 @@ pub fn genfromtxt(
         // Select columns
         let selected: Vec<&str> = if let Some(cols) = usecols {
             cols.iter()
-                .filter_map(|&i| values.get(i).copied())
-                .collect()
+                .map(|&i| {
+                    values.get(i).copied().ok_or_else(|| {
+                        format!("Line {} has no column {}", line_num + 1, i)
+                    })
+                })
+                .collect::<Result<_, _>>()?
         } else {
             values
         };
@@ -337,11 +498,11 @@ pub fn genfromtxt(
         // Parse values with missing value handling
         for s in selected {
             let val = if s.is_empty() || s == missing_values {
-                filling_values
+                None
             } else {
-                s.parse().unwrap_or(filling_values)
+                Number::parse(s, &dtype)
             };
-            data.push(val);
+            data.push(val.unwrap_or(Number::Float(filling_values)));
         }
 
         nrows += 1;
@@ -359,7 +520,7 @@ pub fn genfromtxt(
         vec![nrows, ncols]
     };
 
-    Ok(RumpyArray::from_vec_with_shape(data, shape, dtype))
+    Ok(numbers_to_array(&data, shape, dtype))
 }
 
 // NPY format constants
@@ -727,7 +888,7 @@ pub fn frombuffer(data: &[u8], dtype: DType, count: isize, offset: usize) -> Res
         shape,
         strides,
         dtype,
-        flags: ArrayFlags::default(),
+        flags: ArrayFlags::WRITEABLE | ArrayFlags::C_CONTIGUOUS | ArrayFlags::F_CONTIGUOUS,
     })
 }
 
@@ -741,6 +902,9 @@ pub fn fromfile(
 ) -> Result<RumpyArray, String> {
     if !sep.is_empty() {
         // Text mode - read as delimited text
+        if offset != 0 {
+            return Err("offset is not supported for text files".to_string());
+        }
         return fromfile_text(path, dtype, count, sep);
     }
 
@@ -791,7 +955,7 @@ pub fn fromfile(
         shape,
         strides,
         dtype,
-        flags: ArrayFlags::default(),
+        flags: ArrayFlags::WRITEABLE | ArrayFlags::C_CONTIGUOUS | ArrayFlags::F_CONTIGUOUS,
     })
 }
 
@@ -800,32 +964,28 @@ fn fromfile_text(path: &Path, dtype: DType, count: isize, sep: &str) -> Result<R
     let content =
         std::fs::read_to_string(path).map_err(|e| format!("Failed to read file: {}", e))?;
 
-    let values: Vec<f64> = content
-        .split(sep)
-        .filter_map(|s| {
-            let trimmed = s.trim();
-            if trimmed.is_empty() {
-                None
-            } else {
-                trimmed.parse().ok()
-            }
-        })
-        .collect();
-
+    // A separator of blanks stands for any amount of whitespace
+    let tokens: Vec<&str> = if sep.trim().is_empty() {
+        content.split_whitespace().collect()
+    } else {
+        content.split(sep.trim()).map(|s| s.trim()).filter(|s| !s.is_empty()).collect()
+    };
     let n = if count < 0 {
-        values.len()
+        tokens.len()
     } else {
-        (count as usize).min(values.len())
+        (count as usize).min(tokens.len())
     };
 
-    let data = values[..n].to_vec();
-    Ok(RumpyArray::from_vec(data, dtype))
+    let data = tokens[..n]
+        .iter()
+        .map(|s| Number::parse(s, &dtype).ok_or_else(|| format!("Cannot parse '{}' as number", s)))
+        .collect::<Result<Vec<_>, _>>()?;
+    Ok(numbers_to_array(&data, vec![n], dtype))
 }
 
 /// Write array to binary file.
 pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<(), String> {
-    let file = File::create(path).map_err(|e| format!("Failed to create file: {}", e))?;
-    let mut writer = BufWriter::new(file);
+    let mut writer: Vec<u8> = Vec::new();
 
     if sep.is_empty() {
         // Binary mode
@@ -839,9 +999,6 @@ pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<
         writer.write_all(data).map_err(|e| e.to_string())?;
     } else {
         // Text mode
-        let ptr = arr.data_ptr();
-        let dtype = arr.dtype();
-        let ops = dtype.ops();
         let mut first = true;
 
         for offset in arr.iter_offsets() {
@@ -850,14 +1007,12 @@ pub fn tofile(arr: &RumpyArray, path: &Path, sep: &str, format: &str) -> Result<
             }
             first = false;
 
-            let val = unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0);
-            let formatted = format_value(val, format);
+            let formatted = format_element(arr, offset, format)?;
             writer.write_all(formatted.as_bytes()).map_err(|e| e.to_string())?;
         }
     }
 
-    writer.flush().map_err(|e| e.to_string())?;
-    Ok(())
+    std::fs::write(path, writer).map_err(|e| format!("Failed to write file: {}", e))
 }
 
 // Re-export helper for seek
-- 
2.43.0


From f30501c78b46fe0cd1f6904c39e620053f56b907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 44/69] fix: random integers, shuffles, permutations and
 choices are exact for every dtype and layout, invalid parameters are rejected

---
 src/python/random.rs    | 234 ++++++++++++++-----------------
 src/random/generator.rs | 300 ++++++++++++++++++++++++++--------------
 2 files changed, 293 insertions(+), 241 deletions(-)

diff --git a/src/python/random.rs b/src/python/random.rs
index 9032e35..49c9538 100644
--- a/src/python/random.rs
+++ b/src/python/random.rs
@@ -1,5 +1,6 @@
 // Python bindings for random module
 
+use pyo3::exceptions::PyValueError;
 use pyo3::prelude::*;
 use rand_core::RngCore;
 use std::sync::Mutex;
@@ -91,14 +92,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    // Return scalar - use integers with shape [1] and extract
-                    let arr = gen.integers(low, high, vec![1]);
-                    let val = arr.get_element(&[0]) as i64;
+                    let val = gen.next_integer(low, high).map_err(PyValueError::new_err)?;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.integers(low, high, shape);
+                    let arr = gen.integers(low, high, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -118,12 +117,12 @@ impl PyGenerator {
             match size {
                 None => {
                     // Return scalar
-                    let val = low + gen.next_f64() * (high - low);
+                    let val = gen.uniform(low, high, vec![1]).map_err(PyValueError::new_err)?.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.uniform(low, high, shape);
+                    let arr = gen.uniform(low, high, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -142,13 +141,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    // Return scalar
-                    let z = gen.next_standard_normal();
-                    Ok((loc + scale * z).into_pyobject(py)?.into_any().unbind())
+                    let arr = gen.normal(loc, scale, vec![1]).map_err(PyValueError::new_err)?;
+                    Ok(arr.get_element(&[0]).into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.normal(loc, scale, shape);
+                    let arr = gen.normal(loc, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -185,12 +183,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let z = gen.next_standard_exponential();
-                    Ok((scale * z).into_pyobject(py)?.into_any().unbind())
+                    let arr = gen.exponential(scale, vec![1]).map_err(PyValueError::new_err)?;
+                    Ok(arr.get_element(&[0]).into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.exponential(scale, shape);
+                    let arr = gen.exponential(scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -222,23 +220,13 @@ impl PyGenerator {
 
         // Try integer first
         if let Ok(n) = x.extract::<usize>() {
-            let arr = gen.permutation(n);
-            return Ok(PyRumpyArray::new(arr));
+            return Ok(PyRumpyArray::new(gen.permutation_array(n)));
         }
 
-        // Try array
+        // Try array: shuffle a copy along its first axis
         if let Ok(arr_ref) = x.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-            // Copy array data
-            let ptr = arr_ref.inner.data_ptr();
-            let dtype = arr_ref.inner.dtype();
-            let ops = dtype.ops();
-            let mut data: Vec<f64> = Vec::with_capacity(arr_ref.inner.size());
-            for offset in arr_ref.inner.iter_offsets() {
-                data.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-            }
-            // Shuffle
-            gen.shuffle_data(&mut data);
-            let result = RumpyArray::from_vec(data, DType::float64());
+            let result = arr_ref.inner.copy();
+            shuffle_rows(&mut gen, &result)?;
             return Ok(PyRumpyArray::new(result));
         }
 
@@ -250,40 +238,7 @@ impl PyGenerator {
     /// Shuffle array in place along its first axis.
     fn shuffle(&self, x: &Bound<'_, PyRumpyArray>) -> PyResult<()> {
         let mut gen = self.inner.lock().unwrap();
-        let py_arr = x.borrow();
-
-        let arr = &py_arr.inner;
-        let n = arr.shape()[0];
-
-        if n <= 1 {
-            return Ok(());
-        }
-
-        // Get mutable pointer to data
-        // Safety: We have exclusive access via PyO3's borrow checking and the GIL
-        let ptr = arr.data_ptr() as *mut f64;
-        let size = arr.size();
-        let data = unsafe { std::slice::from_raw_parts_mut(ptr, size) };
-
-        // For 1D arrays, shuffle elements directly
-        if arr.ndim() == 1 {
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                data.swap(i, j);
-            }
-        } else {
-            // For ND arrays, shuffle along first axis by swapping rows
-            let row_size = arr.shape()[1..].iter().product::<usize>();
-            for i in (1..n).rev() {
-                let j = gen.bounded_uint64((i + 1) as u64) as usize;
-                // Swap rows i and j
-                for k in 0..row_size {
-                    data.swap(i * row_size + k, j * row_size + k);
-                }
-            }
-        }
-
-        Ok(())
+        shuffle_rows(&mut gen, &x.borrow().inner)
     }
 
     /// Generate samples from beta distribution.
@@ -299,13 +254,13 @@ impl PyGenerator {
             match size {
                 None => {
                     // Return scalar - use beta with shape [1] and extract
-                    let arr = gen.beta(a, b, vec![1]);
+                    let arr = gen.beta(a, b, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.beta(a, b, shape);
+                    let arr = gen.beta(a, b, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -324,13 +279,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.gamma(shape_param, scale, vec![1]);
+                    let arr = gen.gamma(shape_param, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.gamma(shape_param, scale, shape);
+                    let arr = gen.gamma(shape_param, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -348,13 +303,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.poisson(lam, vec![1]);
+                    let arr = gen.poisson(lam, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.poisson(lam, shape);
+                    let arr = gen.poisson(lam, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -373,13 +328,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.binomial(n, p, vec![1]);
+                    let arr = gen.binomial(n, p, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.binomial(n, p, shape);
+                    let arr = gen.binomial(n, p, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -397,13 +352,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.chisquare(df, vec![1]);
+                    let arr = gen.chisquare(df, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.chisquare(df, shape);
+                    let arr = gen.chisquare(df, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -420,7 +375,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let n = size.unwrap_or(1);
-        let arr = gen.multivariate_normal(&mean, &cov, n);
+        let arr = gen.multivariate_normal(&mean, &cov, n).map_err(PyValueError::new_err)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -438,13 +393,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.lognormal(mean, sigma, vec![1]);
+                    let arr = gen.lognormal(mean, sigma, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.lognormal(mean, sigma, shape);
+                    let arr = gen.lognormal(mean, sigma, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -463,13 +418,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.laplace(loc, scale, vec![1]);
+                    let arr = gen.laplace(loc, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.laplace(loc, scale, shape);
+                    let arr = gen.laplace(loc, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -488,13 +443,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.logistic(loc, scale, vec![1]);
+                    let arr = gen.logistic(loc, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.logistic(loc, scale, shape);
+                    let arr = gen.logistic(loc, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -512,13 +467,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.rayleigh(scale, vec![1]);
+                    let arr = gen.rayleigh(scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.rayleigh(scale, shape);
+                    let arr = gen.rayleigh(scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -536,13 +491,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.weibull(a, vec![1]);
+                    let arr = gen.weibull(a, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.weibull(a, shape);
+                    let arr = gen.weibull(a, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -562,13 +517,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.geometric(p, vec![1]);
+                    let arr = gen.geometric(p, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.geometric(p, shape);
+                    let arr = gen.geometric(p, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -587,13 +542,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.negative_binomial(n, p, vec![1]);
+                    let arr = gen.negative_binomial(n, p, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.negative_binomial(n, p, shape);
+                    let arr = gen.negative_binomial(n, p, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -613,13 +568,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1]);
+                    let arr = gen.hypergeometric(ngood, nbad, nsample, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.hypergeometric(ngood, nbad, nsample, shape);
+                    let arr = gen.hypergeometric(ngood, nbad, nsample, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -636,7 +591,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let sz = size.unwrap_or(1);
-        let arr = gen.multinomial(n, &pvals, sz);
+        let arr = gen.multinomial(n, &pvals, sz).map_err(PyValueError::new_err)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -651,13 +606,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.zipf(a, vec![1]);
+                    let arr = gen.zipf(a, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]) as i64;
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.zipf(a, shape);
+                    let arr = gen.zipf(a, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -679,13 +634,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.triangular(left, mode, right, vec![1]);
+                    let arr = gen.triangular(left, mode, right, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.triangular(left, mode, right, shape);
+                    let arr = gen.triangular(left, mode, right, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -704,13 +659,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.vonmises(mu, kappa, vec![1]);
+                    let arr = gen.vonmises(mu, kappa, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.vonmises(mu, kappa, shape);
+                    let arr = gen.vonmises(mu, kappa, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -728,13 +683,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.pareto(a, vec![1]);
+                    let arr = gen.pareto(a, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.pareto(a, shape);
+                    let arr = gen.pareto(a, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -753,13 +708,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.wald(mean, scale, vec![1]);
+                    let arr = gen.wald(mean, scale, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.wald(mean, scale, shape);
+                    let arr = gen.wald(mean, scale, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -775,7 +730,7 @@ impl PyGenerator {
     ) -> PyResult<PyRumpyArray> {
         let mut gen = self.inner.lock().unwrap();
         let sz = size.unwrap_or(1);
-        let arr = gen.dirichlet(&alpha, sz);
+        let arr = gen.dirichlet(&alpha, sz).map_err(PyValueError::new_err)?;
         Ok(PyRumpyArray::new(arr))
     }
 
@@ -790,13 +745,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.standard_t(df, vec![1]);
+                    let arr = gen.standard_t(df, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.standard_t(df, shape);
+                    let arr = gen.standard_t(df, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -837,13 +792,13 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
             match size {
                 None => {
-                    let arr = gen.standard_gamma_dist(shape_param, vec![1]);
+                    let arr = gen.standard_gamma_dist(shape_param, vec![1]).map_err(PyValueError::new_err)?;
                     let val = arr.get_element(&[0]);
                     Ok(val.into_pyobject(py)?.into_any().unbind())
                 }
                 Some(s) => {
                     let shape = parse_shape(s)?;
-                    let arr = gen.standard_gamma_dist(shape_param, shape);
+                    let arr = gen.standard_gamma_dist(shape_param, shape).map_err(PyValueError::new_err)?;
                     Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
                 }
             }
@@ -864,21 +819,12 @@ impl PyGenerator {
             let mut gen = self.inner.lock().unwrap();
 
             // Parse `a` - either integer (range) or array-like
-            let values: Option<Vec<f64>> = if a.extract::<usize>().is_ok() {
+            let values: Option<RumpyArray> = if a.extract::<usize>().is_ok() {
                 None // Integer case: sample indices directly
             } else if let Ok(arr) = a.extract::<pyo3::PyRef<'_, PyRumpyArray>>() {
-                let ptr = arr.inner.data_ptr();
-                let dtype = arr.inner.dtype();
-                let ops = dtype.ops();
-                let mut vals = Vec::with_capacity(arr.inner.size());
-                for offset in arr.inner.iter_offsets() {
-                    vals.push(unsafe { ops.read_f64(ptr, offset) }.unwrap_or(0.0));
-                }
-                Some(vals)
+                Some(arr.inner.clone())
             } else if let Ok(list) = a.extract::<Vec<f64>>() {
-                Some(list)
-            } else if let Ok(list) = a.extract::<Vec<i64>>() {
-                Some(list.into_iter().map(|x| x as f64).collect())
+                Some(RumpyArray::from_vec(list, DType::float64()))
             } else {
                 return Err(pyo3::exceptions::PyTypeError::new_err(
                     "choice: 'a' must be an int or array-like"
@@ -886,7 +832,7 @@ impl PyGenerator {
             };
 
             let n = match &values {
-                Some(v) => v.len(),
+                Some(v) => v.size(),
                 None => a.extract::<usize>().unwrap(),
             };
 
@@ -909,33 +855,53 @@ impl PyGenerator {
             }
 
             // Generate samples
-            let result_data: Vec<f64> = if replace {
-                (0..total).map(|_| {
-                    let idx = gen.bounded_uint64(n as u64) as usize;
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
-                }).collect()
-            } else {
-                let mut available: Vec<usize> = (0..n).collect();
-                (0..total).map(|i| {
-                    let j = gen.bounded_uint64((n - i) as u64) as usize;
-                    let idx = available.swap_remove(j);
-                    values.as_ref().map_or(idx as f64, |v| v[idx])
-                }).collect()
+            let indices = gen.choice(n, replace, shape);
+            let arr = match &values {
+                Some(v) => crate::ops::indexing::take(v, &indices, None)
+                    .ok_or_else(|| PyValueError::new_err("choice: invalid population"))?,
+                None => indices,
             };
 
             if size.is_none() {
-                return Ok(result_data[0].into_pyobject(py)?.into_any().unbind());
+                return Ok(arr.get_element(&[0]).into_pyobject(py)?.into_any().unbind());
             }
 
-            let arr = RumpyArray::from_vec(result_data, DType::float64())
-                .reshape(shape)
-                .unwrap_or_else(|| RumpyArray::zeros(vec![total], DType::float64()));
-
             Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind())
         })
     }
 }
 
+/// Shuffle an array in place along its first axis, whatever its dtype and memory layout.
+fn shuffle_rows(gen: &mut Generator, arr: &RumpyArray) -> PyResult<()> {
+    if arr.ndim() == 0 {
+        return Err(pyo3::exceptions::PyTypeError::new_err("cannot shuffle a 0-d array"));
+    }
+    let n = arr.shape()[0];
+    let itemsize = arr.itemsize();
+    let stride = arr.strides()[0];
+    // Offsets of the elements of one row
+    let row = arr.view_with(0, arr.shape()[1..].to_vec(), arr.strides()[1..].to_vec());
+    let offsets: Vec<isize> = row.iter_offsets().collect();
+    // Safety: We have exclusive access via PyO3's borrow checking and the GIL
+    let ptr = arr.data_ptr() as *mut u8;
+    for i in (1..n).rev() {
+        let j = gen.bounded_uint64((i + 1) as u64) as usize;
+        if i == j {
+            continue;
+        }
+        for &offset in &offsets {
+            unsafe {
+                let a = ptr.offset(offset + i as isize * stride);
+                let b = ptr.offset(offset + j as isize * stride);
+                for k in 0..itemsize {
+                    std::ptr::swap(a.add(k), b.add(k));
+                }
+            }
+        }
+    }
+    Ok(())
+}
+
 /// Create a new Generator with PCG64DXSM BitGenerator.
 #[pyfunction]
 #[pyo3(signature = (seed=None))]
diff --git a/src/random/generator.rs b/src/random/generator.rs
index 3fe0b49..598a2ef 100644
--- a/src/random/generator.rs
+++ b/src/random/generator.rs
@@ -42,6 +42,31 @@ impl RngCore for Generator {
     }
 }
 
+/// Reject invalid distribution parameters.
+fn check(ok: bool, message: &str) -> Result<(), String> {
+    if ok { Ok(()) } else { Err(message.to_string()) }
+}
+
+/// Reject a negative (or NaN) scale parameter.
+fn check_scale(scale: f64) -> Result<(), String> {
+    check(scale >= 0.0, "scale must be non-negative")
+}
+
+fn invalid(error: impl std::fmt::Display) -> String {
+    error.to_string()
+}
+
+/// An int64 array of the given values.
+fn from_integers(data: &[i64], shape: Vec<usize>) -> RumpyArray {
+    let mut result = RumpyArray::zeros(shape, DType::int64());
+    let buffer = std::sync::Arc::get_mut(result.buffer_mut()).expect("unique");
+    let ptr = buffer.as_mut_ptr() as *mut i64;
+    for (i, &v) in data.iter().enumerate() {
+        unsafe { *ptr.add(i) = v; }
+    }
+    result
+}
+
 impl Generator {
     /// Generate next raw u64 value (internal method to avoid trait conflict).
     #[inline]
@@ -94,19 +119,19 @@ impl Generator {
         RumpyArray::from_vec_with_shape(data, shape, DType::float64())
     }
 
+    /// Generate one random integer in [low, high).
+    pub fn next_integer(&mut self, low: i64, high: i64) -> Result<i64, String> {
+        check(low < high, "low >= high")?;
+        // Bounded rejection sampling for uniform distribution
+        let range = high.wrapping_sub(low) as u64;
+        Ok(low.wrapping_add(self.bounded_uint64(range) as i64))
+    }
+
     /// Generate random integers in [low, high).
-    pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> RumpyArray {
-        let range = (high - low) as u64;
+    pub fn integers(&mut self, low: i64, high: i64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let mut data = Vec::with_capacity(size);
-
-        for _ in 0..size {
-            // Bounded rejection sampling for uniform distribution
-            let val = self.bounded_uint64(range);
-            data.push((low + val as i64) as f64);
-        }
-
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        let data = (0..size).map(|_| self.next_integer(low, high)).collect::<Result<Vec<i64>, String>>()?;
+        Ok(from_integers(&data, shape))
     }
 
     /// Generate bounded random u64 in [0, range) using Lemire's algorithm.
@@ -130,7 +155,8 @@ impl Generator {
     }
 
     /// Generate uniform random floats in [low, high).
-    pub fn uniform(&mut self, low: f64, high: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn uniform(&mut self, low: f64, high: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check((high - low).is_finite(), "high - low range exceeds valid bounds")?;
         let size: usize = shape.iter().product();
         let mut data = Vec::with_capacity(size);
         let range = high - low;
@@ -139,7 +165,7 @@ impl Generator {
             data.push(low + self.next_f64() * range);
         }
 
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard normal distribution using Ziggurat algorithm.
@@ -157,11 +183,11 @@ impl Generator {
     }
 
     /// Generate samples from normal distribution using Ziggurat algorithm.
-    pub fn normal(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn normal(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(scale)?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Normal::new(loc, scale).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        let data: Vec<f64> = (0..size).map(|_| loc + scale * self.next_standard_normal()).collect();
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard exponential distribution using Ziggurat algorithm.
@@ -179,75 +205,95 @@ impl Generator {
     }
 
     /// Generate samples from exponential distribution.
-    pub fn exponential(&mut self, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn exponential(&mut self, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(scale)?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Exp::new(1.0 / scale).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        let data: Vec<f64> = (0..size).map(|_| scale * self.next_standard_exponential()).collect();
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
-    /// Random permutation of integers from 0 to n-1, or a shuffled copy of an array.
-    pub fn permutation(&mut self, n: usize) -> RumpyArray {
-        let mut data: Vec<f64> = (0..n).map(|i| i as f64).collect();
+    /// Random permutation of the integers from 0 to n-1.
+    pub fn permutation(&mut self, n: usize) -> Vec<i64> {
+        let mut data: Vec<i64> = (0..n as i64).collect();
         // Fisher-Yates shuffle
         for i in (1..n).rev() {
             let j = self.bounded_uint64((i + 1) as u64) as usize;
             data.swap(i, j);
         }
-        RumpyArray::from_vec(data, DType::float64())
+        data
     }
 
-    /// Shuffle data in place using Fisher-Yates algorithm.
-    /// Takes a mutable slice of f64 values.
-    pub fn shuffle_data(&mut self, data: &mut [f64]) {
-        let n = data.len();
-        for i in (1..n).rev() {
-            let j = self.bounded_uint64((i + 1) as u64) as usize;
-            data.swap(i, j);
-        }
+    /// Random permutation of the integers from 0 to n-1, as an array.
+    pub fn permutation_array(&mut self, n: usize) -> RumpyArray {
+        from_integers(&self.permutation(n), vec![n])
+    }
+
+    /// Indices of a sample from a population of n, with or without replacement.
+    pub fn choice(&mut self, n: usize, replace: bool, shape: Vec<usize>) -> RumpyArray {
+        let total: usize = shape.iter().product();
+        let data: Vec<i64> = if replace {
+            (0..total).map(|_| self.bounded_uint64(n as u64) as i64).collect()
+        } else {
+            let mut available: Vec<i64> = (0..n as i64).collect();
+            (0..total).map(|i| {
+                let j = self.bounded_uint64((n - i) as u64) as usize;
+                available.swap_remove(j)
+            }).collect()
+        };
+        from_integers(&data, shape)
     }
 
     /// Generate one standard gamma value using rand_distr (optimized algorithm).
     #[inline]
-    fn next_standard_gamma(&mut self, shape_param: f64) -> f64 {
-        rand_distr::Gamma::new(shape_param, 1.0).unwrap().sample(self)
+    fn next_standard_gamma(&mut self, shape_param: f64) -> Result<f64, String> {
+        Ok(rand_distr::Gamma::new(shape_param, 1.0).map_err(invalid)?.sample(self))
     }
 
     /// Generate samples from gamma distribution.
-    pub fn gamma(&mut self, shape_param: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn gamma(&mut self, shape_param: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(shape_param)?;
+        check_scale(scale)?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, scale).unwrap();
+        if shape_param == 0.0 || scale == 0.0 {
+            return Ok(RumpyArray::zeros(shape, DType::float64()));
+        }
+        let dist = rand_distr::Gamma::new(shape_param, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from beta distribution.
-    pub fn beta(&mut self, a: f64, b: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn beta(&mut self, a: f64, b: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Beta::new(a, b).unwrap();
+        let dist = rand_distr::Beta::new(a, b).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Poisson distribution.
-    pub fn poisson(&mut self, lam: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn poisson(&mut self, lam: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check((0.0..=9.2e18).contains(&lam), "lam must be non-negative and not too large")?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Poisson::new(lam).unwrap();
+        if lam == 0.0 {
+            return Ok(RumpyArray::zeros(shape, DType::int64()));
+        }
+        let dist = rand_distr::Poisson::new(lam).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from binomial distribution.
-    pub fn binomial(&mut self, n: u64, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn binomial(&mut self, n: u64, p: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Binomial::new(n, p).unwrap();
+        let dist = rand_distr::Binomial::new(n, p).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from chi-square distribution.
     /// Chi-square(k) = Gamma(k/2, 2)
-    pub fn chisquare(&mut self, df: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn chisquare(&mut self, df: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check(df > 0.0, "df must be positive")?;
         self.gamma(df / 2.0, 2.0, shape)
     }
 
@@ -258,8 +304,10 @@ impl Generator {
         mean: &[f64],
         cov: &[Vec<f64>],
         size: usize,
-    ) -> RumpyArray {
+    ) -> Result<RumpyArray, String> {
         let d = mean.len();
+        check(cov.len() == d && cov.iter().all(|row| row.len() == d), "mean and cov must have the same length")?;
+        let largest = (0..d).map(|i| cov[i][i].abs()).fold(0.0, f64::max);
 
         // Cholesky decomposition (lower triangular)
         let mut l = vec![vec![0.0; d]; d];
@@ -268,8 +316,9 @@ impl Generator {
                 let mut sum = cov[i][j];
                 sum -= l[i][..j].iter().zip(&l[j][..j]).map(|(a, b)| a * b).sum::<f64>();
                 if i == j {
-                    l[i][j] = sum.sqrt();
-                } else {
+                    check(sum >= -1e-8 * largest, "covariance is not symmetric positive-semidefinite")?;
+                    l[i][j] = if sum > 1e-14 * largest { sum.sqrt() } else { 0.0 };
+                } else if l[j][j] != 0.0 {
                     l[i][j] = sum / l[j][j];
                 }
             }
@@ -291,110 +340,133 @@ impl Generator {
             }
         }
 
-        RumpyArray::from_vec_with_shape(data, vec![size, d], DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, vec![size, d], DType::float64()))
     }
 
     // === Tier 1 Distributions: Common ===
 
     /// Generate samples from lognormal distribution.
-    pub fn lognormal(&mut self, mean: f64, sigma: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn lognormal(&mut self, mean: f64, sigma: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(sigma)?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::LogNormal::new(mean, sigma).unwrap();
+        let dist = rand_distr::LogNormal::new(mean, sigma).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Laplace distribution (inverse CDF).
-    pub fn laplace(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn laplace(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
             let u = self.next_f64() - 0.5;
             loc - scale * u.signum() * (1.0 - 2.0 * u.abs()).ln()
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from logistic distribution (inverse CDF).
-    pub fn logistic(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn logistic(&mut self, loc: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
             let u = self.next_f64();
             loc + scale * (u / (1.0 - u)).ln()
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Rayleigh distribution (inverse CDF).
-    pub fn rayleigh(&mut self, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn rayleigh(&mut self, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
             scale * (-2.0 * (1.0 - self.next_f64()).ln()).sqrt()
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Weibull distribution.
-    pub fn weibull(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn weibull(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(a)?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Weibull::new(1.0, a).unwrap();
+        if a == 0.0 {
+            return Ok(RumpyArray::zeros(shape, DType::float64()));
+        }
+        let dist = rand_distr::Weibull::new(1.0, a).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     // === Tier 2 Distributions: Discrete ===
 
     /// Generate samples from geometric distribution.
-    pub fn geometric(&mut self, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn geometric(&mut self, p: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check(p > 0.0 && p <= 1.0, "p must be in (0, 1]")?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Geometric::new(p).unwrap();
+        let dist = rand_distr::Geometric::new(p).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from negative binomial distribution.
-    pub fn negative_binomial(&mut self, n: f64, p: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn negative_binomial(&mut self, n: f64, p: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check(n > 0.0, "n must be positive")?;
+        check(p > 0.0 && p <= 1.0, "p must be in (0, 1]")?;
         let size: usize = shape.iter().product();
         // Use gamma-Poisson mixture: NB(n, p) = Poisson(Gamma(n, (1-p)/p))
-        let gamma_dist = rand_distr::Gamma::new(n, (1.0 - p) / p).unwrap();
-        let data: Vec<f64> = (0..size).map(|_| {
+        if p == 1.0 {
+            return Ok(RumpyArray::zeros(shape, DType::int64()));
+        }
+        let gamma_dist = rand_distr::Gamma::new(n, (1.0 - p) / p).map_err(invalid)?;
+        let data = (0..size).map(|_| {
             let y = gamma_dist.sample(self);
-            rand_distr::Poisson::new(y).unwrap().sample(self) as f64
-        }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+            if y == 0.0 {
+                return Ok(0.0);
+            }
+            Ok(rand_distr::Poisson::new(y).map_err(invalid)?.sample(self) as f64)
+        }).collect::<Result<Vec<f64>, String>>()?;
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from hypergeometric distribution.
-    pub fn hypergeometric(&mut self, ngood: u64, nbad: u64, nsample: u64, shape: Vec<usize>) -> RumpyArray {
+    pub fn hypergeometric(&mut self, ngood: u64, nbad: u64, nsample: u64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        let total = ngood.checked_add(nbad).ok_or("ngood + nbad is too large")?;
+        check(nsample <= total, "nsample must not exceed ngood + nbad")?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Hypergeometric::new(ngood + nbad, ngood, nsample).unwrap();
+        let dist = rand_distr::Hypergeometric::new(total, ngood, nsample).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) as f64).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     /// Generate samples from multinomial distribution.
-    pub fn multinomial(&mut self, n: u64, pvals: &[f64], size: usize) -> RumpyArray {
+    pub fn multinomial(&mut self, n: u64, pvals: &[f64], size: usize) -> Result<RumpyArray, String> {
         let k = pvals.len();
-        let mut data = vec![0.0; size * k];
+        check(k > 0, "pvals must not be empty")?;
+        check(pvals.iter().all(|p| (0.0..=1.0).contains(p)), "pvals must be in [0, 1]")?;
+        check(pvals[..k - 1].iter().sum::<f64>() <= 1.0 + 1e-12, "sum(pvals[:-1]) > 1.0")?;
+        let mut data = vec![0i64; size * k];
         for i in 0..size {
             let row = &mut data[i * k..(i + 1) * k];
             let mut remaining = n;
             let mut p_remaining = 1.0;
             for j in 0..k - 1 {
                 if p_remaining > 0.0 {
-                    let p = pvals[j] / p_remaining;
-                    let c = rand_distr::Binomial::new(remaining, p).unwrap().sample(self);
-                    row[j] = c as f64;
+                    let p = f64::min(pvals[j] / p_remaining, 1.0);
+                    let c = rand_distr::Binomial::new(remaining, p).map_err(invalid)?.sample(self);
+                    row[j] = c as i64;
                     remaining -= c;
                     p_remaining -= pvals[j];
                 }
             }
-            row[k - 1] = remaining as f64;
+            row[k - 1] = remaining as i64;
         }
-        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64())
+        Ok(from_integers(&data, vec![size, k]))
     }
 
     /// Generate samples from Zipf distribution (rejection sampling).
-    pub fn zipf(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn zipf(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check(a > 1.0, "a must be greater than 1")?;
         let size: usize = shape.iter().product();
         // Use rejection sampling (rand_distr::Zipf has incompatible API)
         let am1 = a - 1.0;
@@ -410,21 +482,23 @@ impl Generator {
                 }
             }
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::int64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::int64()))
     }
 
     // === Tier 3 Distributions: Specialized ===
 
     /// Generate samples from triangular distribution.
-    pub fn triangular(&mut self, left: f64, mode: f64, right: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn triangular(&mut self, left: f64, mode: f64, right: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check(left < right, "left must be less than right")?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Triangular::new(left, right, mode).unwrap();
+        let dist = rand_distr::Triangular::new(left, right, mode).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from von Mises distribution.
-    pub fn vonmises(&mut self, mu: f64, kappa: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn vonmises(&mut self, mu: f64, kappa: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(kappa)?;
         let size: usize = shape.iter().product();
         // rand_distr doesn't have vonmises, use Best-Fisher algorithm
         let data: Vec<f64> = (0..size).map(|_| {
@@ -442,52 +516,60 @@ impl Generator {
                 let u2 = self.next_f64();
                 if c * (2.0 - c) - u2 > 0.0 || c.ln() - c + 1.0 - u2 >= 0.0 {
                     let sign = if self.next_f64() > 0.5 { 1.0 } else { -1.0 };
-                    return mu + sign * w.acos();
+                    let angle = mu + sign * w.clamp(-1.0, 1.0).acos();
+                    if angle.abs() <= std::f64::consts::PI {
+                        return angle;
+                    }
+                    let turn = 2.0 * std::f64::consts::PI;
+                    return (angle + std::f64::consts::PI).rem_euclid(turn) - std::f64::consts::PI;
                 }
             }
         }).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Pareto distribution.
-    pub fn pareto(&mut self, a: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn pareto(&mut self, a: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check(a > 0.0, "a must be positive")?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Pareto::new(1.0, a).unwrap();
+        let dist = rand_distr::Pareto::new(1.0, a).map_err(invalid)?;
         // NumPy's pareto returns (X - 1) where X ~ Pareto(1, a)
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self) - 1.0).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Wald (inverse Gaussian) distribution.
-    pub fn wald(&mut self, mean: f64, scale: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn wald(&mut self, mean: f64, scale: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
         let size: usize = shape.iter().product();
-        let dist = rand_distr::InverseGaussian::new(mean, scale).unwrap();
+        let dist = rand_distr::InverseGaussian::new(mean, scale).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from Dirichlet distribution.
-    pub fn dirichlet(&mut self, alpha: &[f64], size: usize) -> RumpyArray {
+    pub fn dirichlet(&mut self, alpha: &[f64], size: usize) -> Result<RumpyArray, String> {
         let k = alpha.len();
+        check(alpha.iter().all(|&a| a > 0.0), "alpha must be positive")?;
         // Can't use rand_distr::Dirichlet (requires const generic array size)
         // Use Gamma sampling: sample Gamma(alpha_i, 1) and normalize
         let mut data = Vec::with_capacity(size * k);
         for _ in 0..size {
-            let gamma_samples: Vec<f64> = alpha.iter()
+            let gamma_samples = alpha.iter()
                 .map(|&a| self.next_standard_gamma(a))
-                .collect();
+                .collect::<Result<Vec<f64>, String>>()?;
             let sum: f64 = gamma_samples.iter().sum();
             data.extend(gamma_samples.iter().map(|&g| g / sum));
         }
-        RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, vec![size, k], DType::float64()))
     }
 
     /// Generate samples from standard Student's t distribution.
-    pub fn standard_t(&mut self, df: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_t(&mut self, df: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check(df > 0.0, "df must be positive")?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::StudentT::new(df).unwrap();
+        let dist = rand_distr::StudentT::new(df).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 
     /// Generate samples from standard Cauchy distribution.
@@ -499,10 +581,14 @@ impl Generator {
     }
 
     /// Generate samples from standard gamma distribution (shape only, scale=1).
-    pub fn standard_gamma_dist(&mut self, shape_param: f64, shape: Vec<usize>) -> RumpyArray {
+    pub fn standard_gamma_dist(&mut self, shape_param: f64, shape: Vec<usize>) -> Result<RumpyArray, String> {
+        check_scale(shape_param)?;
         let size: usize = shape.iter().product();
-        let dist = rand_distr::Gamma::new(shape_param, 1.0).unwrap();
+        if shape_param == 0.0 {
+            return Ok(RumpyArray::zeros(shape, DType::float64()));
+        }
+        let dist = rand_distr::Gamma::new(shape_param, 1.0).map_err(invalid)?;
         let data: Vec<f64> = (0..size).map(|_| dist.sample(self)).collect();
-        RumpyArray::from_vec_with_shape(data, shape, DType::float64())
+        Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
     }
 }
-- 
2.43.0


From 05344f34672fced62cd46ed111a5571f4a0f4b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:51 +0000
Subject: [PATCH 45/69] fix: laplace and logistic draws are never infinite or
 NaN

---
 src/random/generator.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/random/generator.rs b/src/random/generator.rs
index 598a2ef..a8dd965 100644
--- a/src/random/generator.rs
+++ b/src/random/generator.rs
@@ -108,6 +108,17 @@ impl Generator {
         (self.next_u64() >> 11) as f64 * SCALE
     }
 
+    /// Generate uniform random float64 in (0, 1).
+    #[inline]
+    fn next_open_f64(&mut self) -> f64 {
+        loop {
+            let u = self.next_f64();
+            if u > 0.0 {
+                return u;
+            }
+        }
+    }
+
     /// Generate array of uniform random floats in [0, 1).
     pub fn random(&mut self, shape: Vec<usize>) -> RumpyArray {
         let size: usize = shape.iter().product();
@@ -359,7 +370,7 @@ impl Generator {
         check_scale(scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
-            let u = self.next_f64() - 0.5;
+            let u = self.next_open_f64() - 0.5;
             loc - scale * u.signum() * (1.0 - 2.0 * u.abs()).ln()
         }).collect();
         Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
@@ -370,7 +381,7 @@ impl Generator {
         check_scale(scale)?;
         let size: usize = shape.iter().product();
         let data: Vec<f64> = (0..size).map(|_| {
-            let u = self.next_f64();
+            let u = self.next_open_f64();
             loc + scale * (u / (1.0 - u)).ln()
         }).collect();
         Ok(RumpyArray::from_vec_with_shape(data, shape, DType::float64()))
-- 
2.43.0


From 88cec0656936eac44158324514f2fb435f939501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:24 +0000
Subject: [PATCH 46/69] fix: datetime arithmetic and comparison handle NaT and
 mixed units, invalid dates are rejected, business day functions broadcast

---
 src/array/dtype/datetime64.rs       | 296 ++++++++++++++--------------
 src/array/dtype/mod.rs              |   9 +-
 src/array/mod.rs                    |   2 +-
 src/ops/array_methods/cumulative.rs |  14 +-
 src/ops/datetime.rs                 | 291 +++++++++++++++++++++++++++
 src/ops/dispatch.rs                 |  44 -----
 src/ops/mod.rs                      |   1 +
 src/ops/ufunc.rs                    |  68 ++-----
 src/python/creation.rs              |   7 +-
 src/python/datetime.rs              | 267 +++++++++++++------------
 src/python/pyarray/dunder_ops.rs    |  12 +-
 src/python/pyarray/mod.rs           |  48 ++++-
 12 files changed, 677 insertions(+), 382 deletions(-)
 create mode 100644 src/ops/datetime.rs

diff --git a/src/array/dtype/datetime64.rs b/src/array/dtype/datetime64.rs
index 85a7644..8f0a862 100644
--- a/src/array/dtype/datetime64.rs
+++ b/src/array/dtype/datetime64.rs
@@ -53,6 +53,16 @@ impl TimeUnit {
         }
     }
 
+    /// Years and months have no fixed length in days.
+    pub fn is_calendar(&self) -> bool {
+        matches!(self, TimeUnit::Years | TimeUnit::Months)
+    }
+
+    /// The finer of two units (the declaration order goes from coarse to fine).
+    pub fn common(self, other: Self) -> Self {
+        if self as u8 >= other as u8 { self } else { other }
+    }
+
     /// Get the conversion factor to convert FROM this unit TO nanoseconds.
     /// Returns None for variable-length units (Years, Months).
     pub fn to_ns_factor(&self) -> Option<i64> {
@@ -205,7 +215,7 @@ impl DTypeOps for DateTime64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => NAT + 1,
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -215,6 +225,8 @@ impl DTypeOps for DateTime64Ops {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
         let result = match op {
+            // NaT propagates
+            _ if a == NAT || v == NAT => NAT,
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
@@ -381,7 +393,7 @@ impl DTypeOps for TimeDelta64Ops {
         let v = match op {
             ReduceOp::Sum => 0,
             ReduceOp::Prod => 1,
-            ReduceOp::Max => i64::MIN,
+            ReduceOp::Max => NAT + 1,
             ReduceOp::Min => i64::MAX,
         };
         Self::write(out, idx, v);
@@ -391,6 +403,8 @@ impl DTypeOps for TimeDelta64Ops {
         let a = Self::read(acc as *const u8, (idx * 8) as isize);
         let v = Self::read(val, byte_offset);
         let result = match op {
+            // NaT propagates
+            _ if a == NAT || v == NAT => NAT,
             ReduceOp::Sum => a.wrapping_add(v),
             ReduceOp::Prod => a.wrapping_mul(v),
             ReduceOp::Max => a.max(v),
@@ -458,20 +472,20 @@ pub fn format_datetime64(value: i64, unit: TimeUnit) -> String {
     match unit {
         TimeUnit::Years => {
             // value is years since 1970
-            let year = 1970 + value;
+            let year = 1970 + value as i128;
             format!("{:04}", year)
         }
         TimeUnit::Months => {
             // value is months since 1970-01
-            let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
+            let total_months = 1970 * 12 + value as i128;
+            let year = total_months.div_euclid(12);
+            let month = total_months.rem_euclid(12) + 1;
             format!("{:04}-{:02}", year, month)
         }
         TimeUnit::Weeks => {
             // value is weeks since 1970-01-01 (Thursday)
             // NumPy week epoch starts at Thursday 1970-01-01
-            days_to_date_string(value * 7)
+            days_to_date_string(value as i128 * 7)
         }
         TimeUnit::Days => {
             days_to_date_string(value)
@@ -561,19 +575,19 @@ fn format_timedelta64(value: i64, unit: TimeUnit) -> String {
 }
 
 /// Convert days since epoch (1970-01-01) to YYYY-MM-DD string.
-fn days_to_date_string(days: i64) -> String {
+fn days_to_date_string(days: impl Into<i128>) -> String {
     // Handle negative days (before 1970)
     let (year, month, day) = days_to_ymd(days);
     format!("{:04}-{:02}-{:02}", year, month, day)
 }
 
 /// Convert days since epoch to (year, month, day).
-fn days_to_ymd(days: i64) -> (i64, i64, i64) {
+fn days_to_ymd(days: impl Into<i128>) -> (i64, i64, i64) {
     // Algorithm from Howard Hinnant's date algorithms
     // http://howardhinnant.github.io/date_algorithms.html#civil_from_days
-    let z = days + 719468; // Shift epoch from 1970-01-01 to 0000-03-01
+    let z = days.into() + 719468; // Shift epoch from 1970-01-01 to 0000-03-01
     let era = if z >= 0 { z / 146097 } else { (z - 146096) / 146097 };
-    let doe = (z - era * 146097) as i64; // day of era [0, 146096]
+    let doe = z - era * 146097; // day of era [0, 146096]
     let yoe = (doe - doe/1460 + doe/36524 - doe/146096) / 365; // year of era [0, 399]
     let y = yoe + era * 400;
     let doy = doe - (365*yoe + yoe/4 - yoe/100); // day of year [0, 365]
@@ -581,7 +595,7 @@ fn days_to_ymd(days: i64) -> (i64, i64, i64) {
     let d = doy - (153*mp + 2)/5 + 1; // day [1, 31]
     let m = if mp < 10 { mp + 3 } else { mp - 9 }; // month [1, 12]
     let y = if m <= 2 { y + 1 } else { y };
-    (y, m, d)
+    (y as i64, m as i64, d as i64)
 }
 
 /// Convert (year, month, day) to days since epoch.
@@ -596,174 +610,152 @@ pub fn ymd_to_days(year: i64, month: i64, day: i64) -> i64 {
     era * 146097 + doe - 719468 // shift epoch from 0000-03-01 to 1970-01-01
 }
 
-/// Parse an ISO 8601 datetime string to a value in the given unit.
-/// Returns NAT on parse error.
-pub fn parse_datetime64(s: &str, unit: TimeUnit) -> i64 {
-    if s == "NaT" || s == "nat" {
-        return NAT;
+/// Number of days in a month of the proleptic Gregorian calendar.
+fn days_in_month(year: i64, month: i64) -> i64 {
+    match month {
+        4 | 6 | 9 | 11 => 30,
+        2 if year % 4 == 0 && (year % 100 != 0 || year % 400 == 0) => 29,
+        2 => 28,
+        _ => 31,
     }
+}
 
-    // Parse YYYY-MM-DDTHH:MM:SS.sss format
-    // Minimum is YYYY
-    let parts: Vec<&str> = s.split('T').collect();
-    let date_part = parts[0];
-    let time_part = parts.get(1).copied();
-
-    // Parse date: YYYY or YYYY-MM or YYYY-MM-DD
-    let date_parts: Vec<&str> = date_part.split('-').collect();
-    let year: i64 = match date_parts.first().and_then(|s| s.parse().ok()) {
-        Some(y) => y,
-        None => return NAT,
+/// Parse an ISO 8601 datetime string (YYYY[-MM[-DD[(T| )HH[:MM[:SS[.frac]]]]]])
+/// to a value in the given unit, rounding down to it.
+/// Returns None for anything that is not a valid date, NAT for "NaT".
+pub fn parse_datetime64(s: &str, unit: TimeUnit) -> Option<i64> {
+    let s = s.trim();
+    if s.is_empty() || s.eq_ignore_ascii_case("nat") {
+        return Some(NAT);
+    }
+    let number = |text: &str| -> Option<i64> {
+        (!text.is_empty() && text.bytes().all(|c| c.is_ascii_digit())).then(|| text.parse().ok())?
     };
-    let month: i64 = date_parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(1);
-    let day: i64 = date_parts.get(2).and_then(|s| s.parse().ok()).unwrap_or(1);
-
-    // Calculate days since epoch
-    let days = ymd_to_days(year, month, day);
+    let two_digits = |text: &str| if text.len() == 2 { number(text) } else { None };
 
-    // Parse time if present
-    let (hours, minutes, seconds, subseconds) = if let Some(time_str) = time_part {
-        parse_time_part(time_str)
-    } else {
-        (0, 0, 0, 0.0)
+    let (sign, rest) = match s.as_bytes()[0] {
+        b'-' => (-1, &s[1..]),
+        b'+' => (1, &s[1..]),
+        _ => (1, s),
+    };
+    let (date, time) = match rest.find(['T', ' ']) {
+        Some(at) => (&rest[..at], Some(&rest[at + 1..])),
+        None => (rest, None),
     };
 
-    // Convert to target unit
+    let mut fields = date.split('-');
+    let year = sign * number(fields.next()?)?;
+    let month = fields.next().map_or(Some(1), two_digits)?;
+    let day_given = fields.clone().next().is_some();
+    let day = fields.next().map_or(Some(1), two_digits)?;
+    let date_ok = fields.next().is_none()
+        && year.abs() < 1_000_000_000_000_000
+        && (1..=12).contains(&month)
+        && (1..=days_in_month(year, month)).contains(&day)
+        && (time.is_none() || day_given);
+    if !date_ok {
+        return None;
+    }
+
+    let (seconds, nanos) = match time {
+        Some(text) => parse_time_part(text.strip_suffix('Z').unwrap_or(text))?,
+        None => (0, 0),
+    };
+    let days = ymd_to_days(year, month, day);
     match unit {
-        TimeUnit::Years => year - 1970,
-        TimeUnit::Months => (year - 1970) * 12 + (month - 1),
-        TimeUnit::Weeks => days / 7,
-        TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24 + hours,
-        TimeUnit::Minutes => days * 24 * 60 + hours * 60 + minutes,
-        TimeUnit::Seconds => days * 86400 + hours * 3600 + minutes * 60 + seconds,
-        TimeUnit::Milliseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1000 + (subseconds * 1000.0) as i64
-        }
-        TimeUnit::Microseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000 + (subseconds * 1_000_000.0) as i64
-        }
-        TimeUnit::Nanoseconds => {
-            let secs = days * 86400 + hours * 3600 + minutes * 60 + seconds;
-            secs * 1_000_000_000 + (subseconds * 1_000_000_000.0) as i64
+        TimeUnit::Years => Some(year - 1970),
+        TimeUnit::Months => Some((year - 1970) * 12 + (month - 1)),
+        _ => {
+            let total = (days as i128 * 86400 + seconds as i128) * 1_000_000_000 + nanos as i128;
+            let value = i64::try_from(total.div_euclid(unit.to_ns_factor()? as i128)).ok()?;
+            (value != NAT).then_some(value)
         }
     }
 }
 
-/// Parse time part HH:MM:SS.sss returning (hours, minutes, seconds, subseconds as fraction).
-fn parse_time_part(s: &str) -> (i64, i64, i64, f64) {
-    let parts: Vec<&str> = s.split(':').collect();
-    let hours: i64 = parts.first().and_then(|s| s.parse().ok()).unwrap_or(0);
-    let minutes: i64 = parts.get(1).and_then(|s| s.parse().ok()).unwrap_or(0);
-
-    // Seconds may have fractional part
-    let (seconds, subseconds) = if let Some(sec_str) = parts.get(2) {
-        if let Some(dot_pos) = sec_str.find('.') {
-            let secs: i64 = sec_str[..dot_pos].parse().unwrap_or(0);
-            let frac: f64 = format!("0.{}", &sec_str[dot_pos+1..]).parse().unwrap_or(0.0);
-            (secs, frac)
-        } else {
-            (sec_str.parse().unwrap_or(0), 0.0)
+/// Parse a time of day HH[:MM[:SS[.frac]]] to (seconds, nanoseconds).
+fn parse_time_part(s: &str) -> Option<(i64, i64)> {
+    let digits = |text: &str| text.bytes().all(|c| c.is_ascii_digit());
+    let field = |text: &str, limit: i64| -> Option<i64> {
+        if text.len() != 2 || !digits(text) {
+            return None;
         }
-    } else {
-        (0, 0.0)
+        text.parse::<i64>().ok().filter(|v| *v < limit)
     };
-
-    (hours, minutes, seconds, subseconds)
+    let mut parts = s.split(':');
+    let hours = field(parts.next()?, 24)?;
+    let minutes = parts.next().map_or(Some(0), |t| field(t, 60))?;
+    let (seconds, nanos) = match parts.next() {
+        None => (0, 0),
+        Some(text) => {
+            let (whole, frac) = text.split_once('.').unwrap_or((text, "0"));
+            if frac.is_empty() || !digits(frac) {
+                return None;
+            }
+            // Digits below a nanosecond are dropped
+            let nanos: String = frac.chars().chain("000000000".chars()).take(9).collect();
+            (field(whole, 60)?, nanos.parse().ok()?)
+        }
+    };
+    if parts.next().is_some() {
+        return None;
+    }
+    Some((hours * 3600 + minutes * 60 + seconds, nanos))
 }
 
-/// Convert datetime64 value from one unit to another.
-/// Returns NAT if conversion would overflow or for variable-length units.
+/// Convert datetime64 value from one unit to another, rounding down when the
+/// target unit is coarser.
+/// Returns NAT if conversion would overflow.
 pub fn convert_datetime64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) -> i64 {
-    if value == NAT {
-        return NAT;
-    }
-    if from_unit == to_unit {
+    if value == NAT || from_unit == to_unit {
         return value;
     }
 
-    // For fixed-length units, we can convert via common unit (nanoseconds)
-    // For variable-length units (Y, M), we need special handling
+    // Years and months have a variable length and go through the calendar
     match (from_unit, to_unit) {
-        // Variable to variable
-        (TimeUnit::Years, TimeUnit::Months) => value * 12,
-        (TimeUnit::Months, TimeUnit::Years) => value / 12,
-
-        // Variable to fixed - convert via date calculation
-        (TimeUnit::Years, to) => {
-            let year = 1970 + value;
-            let days = ymd_to_days(year, 1, 1);
-            days_to_unit(days, to)
-        }
-        (TimeUnit::Months, to) => {
-            let total_months = 1970 * 12 + value;
-            let year = total_months / 12;
-            let month = (total_months % 12) + 1;
-            let days = ymd_to_days(year, month, 1);
-            days_to_unit(days, to)
-        }
-
-        // Fixed to variable - approximate conversion
-        (from, TimeUnit::Years) => {
-            let days = unit_to_days(value, from);
-            let (year, _, _) = days_to_ymd(days);
-            year - 1970
+        (TimeUnit::Years, TimeUnit::Months) => value.checked_mul(12).unwrap_or(NAT),
+        (TimeUnit::Months, TimeUnit::Years) => value.div_euclid(12),
+        (TimeUnit::Years | TimeUnit::Months, to) => {
+            let (year, month) = if from_unit == TimeUnit::Years {
+                (value as i128 + 1970, 1)
+            } else {
+                ((value as i128).div_euclid(12) + 1970, value.rem_euclid(12) + 1)
+            };
+            if year.abs() >= 1_000_000_000_000_000 {
+                return NAT;
+            }
+            rescale(ymd_to_days(year as i64, month, 1), TimeUnit::Days, to)
         }
+        (from, TimeUnit::Years) => days_to_ymd(rescale(value, from, TimeUnit::Days)).0 - 1970,
         (from, TimeUnit::Months) => {
-            let days = unit_to_days(value, from);
-            let (year, month, _) = days_to_ymd(days);
+            let (year, month, _) = days_to_ymd(rescale(value, from, TimeUnit::Days));
             (year - 1970) * 12 + (month - 1)
         }
-
-        // Fixed to fixed - use factors
-        (from, to) => {
-            let from_factor = from.to_ns_factor().unwrap();
-            let to_factor = to.to_ns_factor().unwrap();
-            if from_factor >= to_factor {
-                value * (from_factor / to_factor)
-            } else {
-                value / (to_factor / from_factor)
-            }
-        }
+        (from, to) => rescale(value, from, to),
     }
 }
 
-fn days_to_unit(days: i64, unit: TimeUnit) -> i64 {
-    match unit {
-        TimeUnit::Years | TimeUnit::Months => {
-            let (year, month, _) = days_to_ymd(days);
-            if matches!(unit, TimeUnit::Years) {
-                year - 1970
-            } else {
-                (year - 1970) * 12 + (month - 1)
-            }
-        }
-        TimeUnit::Weeks => days / 7,
-        TimeUnit::Days => days,
-        TimeUnit::Hours => days * 24,
-        TimeUnit::Minutes => days * 24 * 60,
-        TimeUnit::Seconds => days * 86400,
-        TimeUnit::Milliseconds => days * 86400 * 1000,
-        TimeUnit::Microseconds => days * 86400 * 1_000_000,
-        TimeUnit::Nanoseconds => days * 86400 * 1_000_000_000,
+/// Convert timedelta64 value from one unit to another, rounding down when the
+/// target unit is coarser. Years and months count with their mean length.
+/// Returns NAT if conversion would overflow.
+pub fn convert_timedelta64(value: i64, from_unit: TimeUnit, to_unit: TimeUnit) -> i64 {
+    if value == NAT || from_unit == to_unit {
+        return value;
     }
+    // 400 years or 4800 months are 146097 days
+    let day = TimeUnit::Days.to_ns_factor().unwrap_or(1) as i128;
+    let length = |unit: TimeUnit| match unit {
+        TimeUnit::Years => 146097 * 12 * day,
+        TimeUnit::Months => 146097 * day,
+        unit => unit.to_ns_factor().unwrap_or(1) as i128 * 4800,
+    };
+    let scaled = (value as i128).checked_mul(length(from_unit)).map(|v| v.div_euclid(length(to_unit)));
+    scaled.and_then(|v| i64::try_from(v).ok()).unwrap_or(NAT)
 }
 
-fn unit_to_days(value: i64, unit: TimeUnit) -> i64 {
-    match unit {
-        TimeUnit::Years | TimeUnit::Months => {
-            // These should be handled separately
-            0
-        }
-        TimeUnit::Weeks => value * 7,
-        TimeUnit::Days => value,
-        TimeUnit::Hours => value / 24,
-        TimeUnit::Minutes => value / (24 * 60),
-        TimeUnit::Seconds => value / 86400,
-        TimeUnit::Milliseconds => value / (86400 * 1000),
-        TimeUnit::Microseconds => value / (86400 * 1_000_000),
-        TimeUnit::Nanoseconds => value / (86400 * 1_000_000_000),
-    }
+/// Convert between units of fixed length, rounding down; NAT on overflow.
+fn rescale(value: i64, from: TimeUnit, to: TimeUnit) -> i64 {
+    let from_factor = from.to_ns_factor().unwrap_or(1) as i128;
+    let to_factor = to.to_ns_factor().unwrap_or(1) as i128;
+    i64::try_from((value as i128 * from_factor).div_euclid(to_factor)).unwrap_or(NAT)
 }
diff --git a/src/array/dtype/mod.rs b/src/array/dtype/mod.rs
index d601965..84b658c 100644
--- a/src/array/dtype/mod.rs
+++ b/src/array/dtype/mod.rs
@@ -21,7 +21,7 @@ use self::bool::BoolOps;
 use complex64::Complex64Ops;
 use complex128::Complex128Ops;
 use datetime64::{DateTime64Ops, TimeDelta64Ops};
-pub use datetime64::{TimeUnit, NAT, parse_datetime64, format_datetime64, convert_datetime64};
+pub use datetime64::{TimeUnit, NAT, parse_datetime64, format_datetime64, convert_datetime64, convert_timedelta64};
 use float16::Float16Ops;
 use floats::{Float32Ops, Float64Ops};
 use integers::{Int8Ops, Int16Ops, Int32Ops, Int64Ops, Uint8Ops, Uint16Ops, Uint32Ops, Uint64Ops};
@@ -550,6 +550,13 @@ pub fn promote_dtype(a: &DType, b: &DType) -> DType {
         return DType::complex64();
     }
 
+    // Times of different units promote to the finer unit
+    match (&ak, &bk) {
+        (DateTime64(x), DateTime64(y)) => return DType::datetime64(x.common(*y)),
+        (TimeDelta64(x), TimeDelta64(y)) => return DType::timedelta64(x.common(*y)),
+        _ => {}
+    }
+
     // Datetime doesn't promote with other types
     if matches!(ak, DateTime64(_)) || matches!(bk, DateTime64(_)) {
         // Return one of them; ops will likely fail anyway
diff --git a/src/array/mod.rs b/src/array/mod.rs
index e9746cf..8e1af16 100644
--- a/src/array/mod.rs
+++ b/src/array/mod.rs
@@ -411,7 +411,7 @@ impl RumpyArray {
                     for (i, offset) in self.iter_offsets().enumerate() {
                         let byte_offset = offset as isize / 8;
                         let val = unsafe { *src.offset(byte_offset) };
-                        let converted = dtype::convert_datetime64(val, *from_unit, *to_unit);
+                        let converted = dtype::convert_timedelta64(val, *from_unit, *to_unit);
                         unsafe { *dst.add(i) = converted; }
                     }
                 }
diff --git a/src/ops/array_methods/cumulative.rs b/src/ops/array_methods/cumulative.rs
index f2f49c6..389d278 100644
--- a/src/ops/array_methods/cumulative.rs
+++ b/src/ops/array_methods/cumulative.rs
@@ -124,7 +124,19 @@ impl RumpyArray {
             // Result has size 0 along axis
             let mut new_shape = self.shape().to_vec();
             new_shape[axis] = 0;
-            return RumpyArray::zeros(new_shape, self.dtype().clone());
+            let dtype = match self.dtype().kind() {
+                DTypeKind::DateTime64(unit) => DType::timedelta64(unit),
+                _ => self.dtype().clone(),
+            };
+            return RumpyArray::zeros(new_shape, dtype);
+        }
+
+        if crate::ops::datetime::is_time_kind(&self.dtype().kind()) {
+            // Subtraction of times: datetimes differ by timedeltas, NaT propagates
+            let upper = self.slice_axis(axis, 1, axis_len as isize, 1);
+            let lower = self.slice_axis(axis, 0, axis_len as isize - 1, 1);
+            let step = upper.binary_op(&lower, crate::ops::BinaryOp::Sub).expect("times of one dtype subtract");
+            return step.diff(n - 1, axis);
         }
 
         // Single diff: result[i] = input[i+1] - input[i]
diff --git a/src/ops/datetime.rs b/src/ops/datetime.rs
new file mode 100644
index 0000000..a144e75
--- /dev/null
+++ b/src/ops/datetime.rs
@@ -0,0 +1,291 @@
+//! Element-wise operations on datetime64 and timedelta64 operands.
+//!
+//! Operands of different units are brought to the finer unit, NaT propagates,
+//! and combinations without a meaning (datetime + datetime, datetime * 2, ...)
+//! are rejected.
+
+use std::sync::Arc;
+
+use super::{BinaryOpError, ComparisonOp, UnaryOpError};
+use crate::array::dtype::{
+    convert_datetime64, convert_timedelta64, BinaryOp, DTypeKind, TimeUnit, UnaryOp, NAT,
+};
+use crate::array::{DType, RumpyArray};
+
+/// True for datetime64 and timedelta64.
+pub fn is_time_kind(kind: &DTypeKind) -> bool {
+    matches!(kind, DTypeKind::DateTime64(_) | DTypeKind::TimeDelta64(_))
+}
+
+/// Common unit of two operands; durations in years or months have no fixed
+/// length and do not combine with the units below them.
+fn common_unit(a: &DTypeKind, b: &DTypeKind) -> Option<TimeUnit> {
+    use DTypeKind::*;
+    let (ua, ub) = match (a, b) {
+        (DateTime64(x) | TimeDelta64(x), DateTime64(y) | TimeDelta64(y)) => (*x, *y),
+        _ => return None,
+    };
+    let unit = ua.common(ub);
+    let convertible = |kind: &DTypeKind, from: TimeUnit| {
+        matches!(kind, DateTime64(_)) || from.is_calendar() == unit.is_calendar()
+    };
+    (convertible(a, ua) && convertible(b, ub)).then_some(unit)
+}
+
+/// Values of a datetime or timedelta array in the given unit.
+fn time_values(arr: &RumpyArray, unit: TimeUnit) -> Vec<i64> {
+    let kind = arr.dtype().kind();
+    let dtype = arr.dtype();
+    let ops = dtype.ops();
+    let ptr = arr.data_ptr();
+    arr.iter_offsets()
+        .map(|offset| {
+            let v = unsafe { ops.read_i64(ptr, offset) }.unwrap_or(NAT);
+            match kind {
+                DTypeKind::DateTime64(from) => convert_datetime64(v, from, unit),
+                DTypeKind::TimeDelta64(from) => convert_timedelta64(v, from, unit),
+                _ => v,
+            }
+        })
+        .collect()
+}
+
+/// Values of an integer array.
+fn integer_values(arr: &RumpyArray) -> Vec<i64> {
+    let wide = arr.astype(DType::int64());
+    let ptr = wide.data_ptr();
+    wide.iter_offsets().map(|offset| unsafe { *(ptr.offset(offset) as *const i64) }).collect()
+}
+
+/// Values of a floating point array.
+fn float_values(arr: &RumpyArray) -> Vec<f64> {
+    let wide = arr.astype(DType::float64());
+    let ptr = wide.data_ptr();
+    wide.iter_offsets().map(|offset| unsafe { *(ptr.offset(offset) as *const f64) }).collect()
+}
+
+fn floor_div(a: i64, b: i64) -> i64 {
+    let q = a.wrapping_div(b);
+    if a.wrapping_rem(b) != 0 && (a < 0) != (b < 0) { q - 1 } else { q }
+}
+
+fn floor_mod(a: i64, b: i64) -> i64 {
+    let r = a.wrapping_rem(b);
+    if r != 0 && (r < 0) != (b < 0) { r + b } else { r }
+}
+
+/// Truncate to an integer number of time units; NaN and overflow become NaT.
+fn from_float(v: f64) -> i64 {
+    if v.is_nan() || v.abs() >= 9_223_372_036_854_775_808.0 { NAT } else { v as i64 }
+}
+
+/// Combine two operands of a common unit, NaT in either one giving NaT.
+fn combine(a: Vec<i64>, b: Vec<i64>, f: impl Fn(i64, i64) -> i64) -> Vec<i64> {
+    a.into_iter().zip(b).map(|(x, y)| if x == NAT || y == NAT { NAT } else { f(x, y) }).collect()
+}
+
+/// Binary operation with at least one datetime or timedelta operand.
+/// Both operands have been broadcast to the same shape.
+pub fn binary(a: &RumpyArray, b: &RumpyArray, op: BinaryOp) -> Result<RumpyArray, BinaryOpError> {
+    use BinaryOp::*;
+    use DTypeKind::*;
+    let shape = a.shape().to_vec();
+    let (ak, bk) = (a.dtype().kind(), b.dtype().kind());
+    let both_time = is_time_kind(&ak) && is_time_kind(&bk);
+    let a_int = a.dtype().is_integer() || ak == Bool;
+    let b_int = b.dtype().is_integer() || bk == Bool;
+    let a_float = matches!(ak, Float16 | Float32 | Float64);
+    let b_float = matches!(bk, Float16 | Float32 | Float64);
+    let finish = |data: Vec<i64>, dtype: DType| {
+        Ok(RumpyArray::from_vec_i64_with_shape(data, shape.clone(), dtype))
+    };
+
+    if both_time {
+        let unit = common_unit(&ak, &bk).ok_or(BinaryOpError::UnsupportedDtype)?;
+        let dates = matches!(ak, DateTime64(_)) as u8 + matches!(bk, DateTime64(_)) as u8;
+        let first_is_date = matches!(ak, DateTime64(_));
+        let values = || (time_values(a, unit), time_values(b, unit));
+        let same_kind = if dates == 2 { DType::datetime64(unit) } else { DType::timedelta64(unit) };
+        return match op {
+            Add if dates < 2 => {
+                let (x, y) = values();
+                let dtype = if dates == 1 { DType::datetime64(unit) } else { DType::timedelta64(unit) };
+                finish(combine(x, y, i64::wrapping_add), dtype)
+            }
+            Sub if dates != 1 || first_is_date => {
+                let (x, y) = values();
+                let dtype = if dates == 1 { DType::datetime64(unit) } else { DType::timedelta64(unit) };
+                finish(combine(x, y, i64::wrapping_sub), dtype)
+            }
+            Maximum if dates != 1 => {
+                let (x, y) = values();
+                finish(combine(x, y, i64::max), same_kind)
+            }
+            Minimum if dates != 1 => {
+                let (x, y) = values();
+                finish(combine(x, y, i64::min), same_kind)
+            }
+            FMax | FMin if dates != 1 => {
+                let (x, y) = values();
+                let data = x.into_iter().zip(y).map(|(x, y)| match (x == NAT, y == NAT) {
+                    (true, _) => y,
+                    (_, true) => x,
+                    _ if op == FMax => x.max(y),
+                    _ => x.min(y),
+                });
+                finish(data.collect(), same_kind)
+            }
+            Div if dates == 0 => {
+                let (x, y) = values();
+                let ratio = x.into_iter().zip(y).map(|(x, y)| {
+                    if x == NAT || y == NAT { f64::NAN } else { x as f64 / y as f64 }
+                });
+                RumpyArray::from_vec(ratio.collect(), DType::float64())
+                    .reshape(shape)
+                    .ok_or(BinaryOpError::ShapeMismatch)
+            }
+            FloorDiv if dates == 0 => {
+                let (x, y) = values();
+                let data = x.into_iter().zip(y).map(|(x, y)| {
+                    if x == NAT || y == NAT || y == 0 { 0 } else { floor_div(x, y) }
+                });
+                finish(data.collect(), DType::int64())
+            }
+            Mod if dates == 0 => {
+                let (x, y) = values();
+                finish(combine(x, y, |x, y| if y == 0 { NAT } else { floor_mod(x, y) }), same_kind)
+            }
+            _ => Err(BinaryOpError::UnsupportedDtype),
+        };
+    }
+
+    match (ak.clone(), bk.clone()) {
+        // datetime or timedelta with a plain integer: a duration of the same unit, or a factor
+        (DateTime64(u) | TimeDelta64(u), _) if b_int => {
+            let (x, y) = (time_values(a, u), integer_values(b));
+            let is_delta = matches!(ak, TimeDelta64(_));
+            let data = match op {
+                Add => combine(x, y, i64::wrapping_add),
+                Sub => combine(x, y, i64::wrapping_sub),
+                Mul if is_delta => combine(x, y, i64::wrapping_mul),
+                Div if is_delta => combine(x, y, |x, y| if y == 0 { NAT } else { x.wrapping_div(y) }),
+                FloorDiv if is_delta => combine(x, y, |x, y| if y == 0 { NAT } else { floor_div(x, y) }),
+                _ => return Err(BinaryOpError::UnsupportedDtype),
+            };
+            finish(data, a.dtype())
+        }
+        (_, DateTime64(u) | TimeDelta64(u)) if a_int => {
+            let (x, y) = (integer_values(a), time_values(b, u));
+            let is_delta = matches!(bk, TimeDelta64(_));
+            let data = match op {
+                Add => combine(x, y, i64::wrapping_add),
+                Sub if is_delta => combine(x, y, i64::wrapping_sub),
+                Mul if is_delta => combine(x, y, i64::wrapping_mul),
+                _ => return Err(BinaryOpError::UnsupportedDtype),
+            };
+            finish(data, b.dtype())
+        }
+        // scaling a duration by a real factor
+        (TimeDelta64(u), _) if b_float => {
+            let pairs = time_values(a, u).into_iter().zip(float_values(b));
+            let f: fn(f64, f64) -> f64 = match op {
+                Mul => |x, y| x * y,
+                Div => |x, y| x / y,
+                FloorDiv => |x, y| (x / y).floor(),
+                _ => return Err(BinaryOpError::UnsupportedDtype),
+            };
+            let data = pairs.map(|(x, y)| if x == NAT { NAT } else { from_float(f(x as f64, y)) });
+            finish(data.collect(), a.dtype())
+        }
+        (_, TimeDelta64(u)) if a_float && op == Mul => {
+            let pairs = float_values(a).into_iter().zip(time_values(b, u));
+            let data = pairs.map(|(x, y)| if y == NAT { NAT } else { from_float(x * y as f64) });
+            finish(data.collect(), b.dtype())
+        }
+        _ => Err(BinaryOpError::UnsupportedDtype),
+    }
+}
+
+/// Comparison with at least one datetime or timedelta operand; both operands
+/// have been broadcast to the same shape. NaT compares unequal to everything.
+/// Operands without a common unit are unequal, and have no order.
+pub fn compare(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Result<RumpyArray, BinaryOpError> {
+    let (ak, bk) = (a.dtype().kind(), b.dtype().kind());
+    let delta_unit = |kind: &DTypeKind| match kind {
+        DTypeKind::TimeDelta64(u) => Some(*u),
+        _ => None,
+    };
+    let is_date = |kind: &DTypeKind| matches!(kind, DTypeKind::DateTime64(_));
+    let operands = match (delta_unit(&ak), delta_unit(&bk)) {
+        // a plain integer is a duration of the same unit
+        (Some(u), None) if b.dtype().is_integer() => Some((time_values(a, u), integer_values(b))),
+        (None, Some(u)) if a.dtype().is_integer() => Some((integer_values(a), time_values(b, u))),
+        _ if is_date(&ak) == is_date(&bk) => {
+            common_unit(&ak, &bk).map(|u| (time_values(a, u), time_values(b, u)))
+        }
+        _ => None,
+    };
+    let mut result = RumpyArray::zeros(a.shape().to_vec(), DType::bool());
+    let out = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    let size = a.size();
+    let Some((x, y)) = operands else {
+        return match op {
+            ComparisonOp::Eq => Ok(result),
+            ComparisonOp::Ne => {
+                for i in 0..size {
+                    unsafe { *out.add(i) = 1; }
+                }
+                Ok(result)
+            }
+            _ => Err(BinaryOpError::UnsupportedDtype),
+        };
+    };
+    for (i, (x, y)) in x.into_iter().zip(y).enumerate() {
+        let holds = if x == NAT || y == NAT {
+            op == ComparisonOp::Ne
+        } else {
+            match op {
+                ComparisonOp::Gt => x > y,
+                ComparisonOp::Lt => x < y,
+                ComparisonOp::Ge => x >= y,
+                ComparisonOp::Le => x <= y,
+                ComparisonOp::Eq => x == y,
+                ComparisonOp::Ne => x != y,
+            }
+        };
+        unsafe { *out.add(i) = holds as u8; }
+    }
+    Ok(result)
+}
+
+/// Unary operation on a datetime or timedelta array.
+pub fn unary(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOpError> {
+    if matches!(op, UnaryOp::Isnan | UnaryOp::Isinf | UnaryOp::Isfinite) {
+        let mut result = RumpyArray::zeros(arr.shape().to_vec(), DType::bool());
+        let out = Arc::get_mut(result.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+        let src = arr.data_ptr();
+        for (i, offset) in arr.iter_offsets().enumerate() {
+            let is_nat = unsafe { *(src.offset(offset) as *const i64) } == NAT;
+            let value = match op {
+                UnaryOp::Isnan => is_nat,
+                UnaryOp::Isfinite => !is_nat,
+                _ => false,
+            };
+            unsafe { *out.add(i) = value as u8; }
+        }
+        return Ok(result);
+    }
+    let unit = match arr.dtype().kind() {
+        DTypeKind::TimeDelta64(u) => u,
+        _ => return Err(UnaryOpError::UnsupportedDtype),
+    };
+    let f: fn(i64) -> i64 = match op {
+        UnaryOp::Neg => i64::wrapping_neg,
+        UnaryOp::Abs => i64::wrapping_abs,
+        UnaryOp::Sign => i64::signum,
+        UnaryOp::Positive => |v| v,
+        _ => return Err(UnaryOpError::UnsupportedDtype),
+    };
+    let data = time_values(arr, unit).into_iter().map(|v| if v == NAT { NAT } else { f(v) });
+    Ok(RumpyArray::from_vec_i64_with_shape(data.collect(), arr.shape().to_vec(), arr.dtype()))
+}
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 913dc3b..71cbf39 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -116,50 +116,6 @@ pub fn dispatch_binary_nextafter(a: &RumpyArray, b: &RumpyArray, out_shape: &[us
     dispatch_binary_kernel_float(a, b, out_shape, Nextafter)
 }
 
-/// Dispatch datetime + timedelta → datetime (fast path using i64 Add kernel).
-pub fn dispatch_datetime_add_timedelta(
-    datetime: &RumpyArray,
-    timedelta: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Add>(datetime, timedelta, out_shape, Add, out_dtype)
-}
-
-/// Dispatch timedelta + datetime → datetime (fast path using i64 Add kernel).
-pub fn dispatch_timedelta_add_datetime(
-    timedelta: &RumpyArray,
-    datetime: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Add>(timedelta, datetime, out_shape, Add, out_dtype)
-}
-
-/// Dispatch datetime - timedelta → datetime (fast path using i64 Sub kernel).
-pub fn dispatch_datetime_sub_timedelta(
-    datetime: &RumpyArray,
-    timedelta: &RumpyArray,
-    out_shape: &[usize],
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is datetime with same unit
-    let out_dtype = datetime.dtype();
-    dispatch_binary_typed::<i64, Sub>(datetime, timedelta, out_shape, Sub, out_dtype)
-}
-
-/// Dispatch datetime - datetime → timedelta (fast path using i64 Sub kernel).
-pub fn dispatch_datetime_sub_datetime(
-    a: &RumpyArray,
-    b: &RumpyArray,
-    out_shape: &[usize],
-    out_dtype: DType,
-) -> Option<RumpyArray> {
-    // Both are i64 internally, result is timedelta with same unit
-    dispatch_binary_typed::<i64, Sub>(a, b, out_shape, Sub, out_dtype)
-}
-
 /// Dispatch float_power: power operation that always outputs f64 (or complex128).
 /// Accepts any numeric input type, converts to f64/complex128 inline.
 pub fn dispatch_float_power(a: &RumpyArray, b: &RumpyArray, out_shape: &[usize]) -> Option<RumpyArray> {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index f923401..640b941 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -6,6 +6,7 @@ pub mod array_methods;
 pub mod bitwise;
 pub mod char;
 pub mod comparison;
+pub mod datetime;
 pub mod dispatch;
 pub mod dot;
 pub mod einsum;
diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index fb2d983..dc1645c 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -69,6 +69,10 @@ fn is_numeric_kind(kind: &DTypeKind) -> bool {
 pub fn map_unary_op(arr: &RumpyArray, op: UnaryOp) -> Result<RumpyArray, UnaryOpError> {
     let kind = arr.dtype().kind();
 
+    if super::datetime::is_time_kind(&kind) {
+        return super::datetime::unary(arr, op);
+    }
+
     // Transcendentals on non-float types: promote based on itemsize (like NumPy)
     // 1 byte -> float16, 2 bytes -> float32, 4+ bytes -> float64
     if is_transcendental(op) && !matches!(kind, DTypeKind::Float16 | DTypeKind::Float64 | DTypeKind::Float32 | DTypeKind::Complex64 | DTypeKind::Complex128) {
@@ -216,56 +220,10 @@ pub fn map_binary_op_inplace(
     let a_bc = a.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
     let b_bc = b.broadcast_to(&out_shape).ok_or(BinaryOpError::ShapeMismatch)?;
 
-    // Fast dispatch for datetime/timedelta operations
-    let a_is_datetime = matches!(a_bc.dtype().kind(), DTypeKind::DateTime64(_));
-    let b_is_datetime = matches!(b_bc.dtype().kind(), DTypeKind::DateTime64(_));
-    let a_is_timedelta = matches!(a_bc.dtype().kind(), DTypeKind::TimeDelta64(_));
-    let b_is_timedelta = matches!(b_bc.dtype().kind(), DTypeKind::TimeDelta64(_));
-
-    if a_is_datetime || b_is_datetime || a_is_timedelta || b_is_timedelta {
-        use crate::ops::dispatch;
-
-        match op {
-            // datetime + datetime is invalid
-            BinaryOp::Add if a_is_datetime && b_is_datetime => {
-                return Err(BinaryOpError::UnsupportedDtype);
-            }
-            // datetime + timedelta => datetime (fast path)
-            BinaryOp::Add if a_is_datetime && b_is_timedelta => {
-                if let Some(result) = dispatch::dispatch_datetime_add_timedelta(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // timedelta + datetime => datetime (fast path)
-            BinaryOp::Add if a_is_timedelta && b_is_datetime => {
-                if let Some(result) = dispatch::dispatch_timedelta_add_datetime(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // datetime - datetime => timedelta (fast path)
-            BinaryOp::Sub if a_is_datetime && b_is_datetime => {
-                if let (DTypeKind::DateTime64(unit_a), DTypeKind::DateTime64(unit_b)) = (a_bc.dtype().kind(), b_bc.dtype().kind()) {
-                    if unit_a == unit_b {
-                        let result_dtype = DType::timedelta64(unit_a);
-                        if let Some(result) = dispatch::dispatch_datetime_sub_datetime(&a_bc, &b_bc, &out_shape, result_dtype) {
-                            return Ok(result);
-                        }
-                    }
-                }
-            }
-            // datetime - timedelta => datetime (fast path)
-            BinaryOp::Sub if a_is_datetime && b_is_timedelta => {
-                if let Some(result) = dispatch::dispatch_datetime_sub_timedelta(&a_bc, &b_bc, &out_shape) {
-                    return Ok(result);
-                }
-            }
-            // Invalid operations for datetime
-            BinaryOp::Mul | BinaryOp::Div | BinaryOp::Pow | BinaryOp::Mod | BinaryOp::FloorDiv
-                if a_is_datetime || b_is_datetime => {
-                return Err(BinaryOpError::UnsupportedDtype);
-            }
-            _ => {}
-        }
+    if super::datetime::is_time_kind(&a_bc.dtype().kind())
+        || super::datetime::is_time_kind(&b_bc.dtype().kind())
+    {
+        return super::datetime::binary(&a_bc, &b_bc, op);
     }
 
     // Try new kernel/loop dispatch (same-type only for now)
@@ -511,6 +469,16 @@ fn compare_exact_integers(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> O
 pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Option<RumpyArray> {
     let out_shape = broadcast_shapes(a.shape(), b.shape())?;
 
+    if super::datetime::is_time_kind(&a.dtype().kind())
+        || super::datetime::is_time_kind(&b.dtype().kind())
+    {
+        return super::datetime::compare(
+            &a.broadcast_to(&out_shape)?,
+            &b.broadcast_to(&out_shape)?,
+            op,
+        ).ok();
+    }
+
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
     if a.dtype().is_integer() && b.dtype().is_integer() && !common_dtype.is_integer() {
diff --git a/src/python/creation.rs b/src/python/creation.rs
index fd45897..b09133f 100644
--- a/src/python/creation.rs
+++ b/src/python/creation.rs
@@ -559,7 +559,8 @@ fn compute_max_bytes_length(list: &Bound<'_, PyList>) -> Option<usize> {
 
 /// Create array from Python list.
 pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) -> PyResult<PyRumpyArray> {
-    use crate::array::dtype::{DTypeKind, parse_datetime64};
+    use crate::array::dtype::DTypeKind;
+    use super::datetime::parse_date;
 
     let dtype = match dtype {
         Some(dt) => parse_dtype_any(dt)?,
@@ -577,13 +578,13 @@ pub fn from_list(list: &Bound<'_, PyList>, dtype: Option<&Bound<'_, PyAny>>) ->
     if let DTypeKind::DateTime64(unit) = dtype.kind() {
         if first.downcast::<PyList>().is_ok() {
             let (shape, strings) = flatten_nested_list::<String>(list)?;
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
+            let data = strings.iter().map(|s| parse_date(s, unit)).collect::<PyResult<Vec<i64>>>()?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64_with_shape(data, shape, dtype)));
         }
         // Try to extract strings and parse them
         let strings: Result<Vec<String>, _> = list.iter().map(|item| item.extract::<String>()).collect();
         if let Ok(strings) = strings {
-            let data: Vec<i64> = strings.iter().map(|s| parse_datetime64(s, unit)).collect();
+            let data = strings.iter().map(|s| parse_date(s, unit)).collect::<PyResult<Vec<i64>>>()?;
             return Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(data, dtype)));
         }
         // Fall back to integer extraction
diff --git a/src/python/datetime.rs b/src/python/datetime.rs
index c9bab52..34cd7ec 100644
--- a/src/python/datetime.rs
+++ b/src/python/datetime.rs
@@ -6,7 +6,7 @@
 use pyo3::prelude::*;
 use pyo3::types::PyList;
 
-use crate::array::{DType, RumpyArray};
+use crate::array::{broadcast_shapes, DType, RumpyArray};
 use crate::array::dtype::{DTypeKind, TimeUnit, NAT, format_datetime64, parse_datetime64, convert_datetime64};
 
 use super::{parse_dtype, PyRumpyArray};
@@ -14,20 +14,80 @@ use super::{parse_dtype, PyRumpyArray};
 /// Default business day calendar (Mon-Fri, no holidays).
 const DEFAULT_WEEKMASK: [bool; 7] = [true, true, true, true, true, false, false];
 
-/// Parse dates from Python input (string or list of strings).
-fn parse_dates_input(dates: &Bound<'_, PyAny>) -> PyResult<Vec<i64>> {
+/// Parse a date string, raising ValueError for anything that is not a date.
+pub(super) fn parse_date(s: &str, unit: TimeUnit) -> PyResult<i64> {
+    parse_datetime64(s, unit).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err(format!("Error parsing datetime string {:?}", s))
+    })
+}
+
+/// Days since the epoch from Python input: a string, a list of strings or a
+/// datetime64 array whose unit holds whole days. Also returns the shape.
+fn parse_dates_input(dates: &Bound<'_, PyAny>) -> PyResult<(Vec<usize>, Vec<i64>)> {
     if let Ok(s) = dates.extract::<String>() {
-        Ok(vec![parse_datetime64(&s, TimeUnit::Days)])
-    } else if let Ok(list) = dates.downcast::<PyList>() {
-        list.iter()
-            .map(|item| {
-                let s: String = item.extract()?;
-                Ok(parse_datetime64(&s, TimeUnit::Days))
-            })
-            .collect()
-    } else {
-        Err(pyo3::exceptions::PyTypeError::new_err("dates must be string or list"))
+        return Ok((vec![], vec![parse_date(&s, TimeUnit::Days)?]));
+    }
+    if let Ok(list) = dates.downcast::<PyList>() {
+        let days = list.iter()
+            .map(|item| parse_date(&item.extract::<String>()?, TimeUnit::Days))
+            .collect::<PyResult<Vec<i64>>>()?;
+        return Ok((vec![days.len()], days));
+    }
+    if let Ok(arr) = dates.extract::<PyRef<'_, PyRumpyArray>>() {
+        if let DTypeKind::DateTime64(
+            TimeUnit::Years | TimeUnit::Months | TimeUnit::Weeks | TimeUnit::Days
+        ) = arr.inner.dtype().kind() {
+            let days = arr.inner.astype(DType::datetime64_d());
+            return Ok((days.shape().to_vec(), int64_values(&days)));
+        }
     }
+    Err(pyo3::exceptions::PyTypeError::new_err(
+        "dates must be string, list of strings, or datetime64[D] array"
+    ))
+}
+
+/// Elements of an array whose values are stored as i64.
+fn int64_values(arr: &RumpyArray) -> Vec<i64> {
+    let ptr = arr.data_ptr();
+    arr.iter_offsets().map(|offset| unsafe { *(ptr.offset(offset) as *const i64) }).collect()
+}
+
+/// Offsets from Python input: an integer, a list of integers or an integer array.
+fn parse_offsets_input(offsets: &Bound<'_, PyAny>) -> PyResult<(Vec<usize>, Vec<i64>)> {
+    if let Ok(arr) = offsets.extract::<PyRef<'_, PyRumpyArray>>() {
+        if arr.inner.dtype().is_integer() {
+            let wide = arr.inner.astype(DType::int64());
+            return Ok((wide.shape().to_vec(), int64_values(&wide)));
+        }
+    } else if let Ok(n) = offsets.extract::<i64>() {
+        return Ok((vec![], vec![n]));
+    } else if let Ok(list) = offsets.downcast::<PyList>() {
+        let values = list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<Vec<i64>>>()?;
+        return Ok((vec![values.len()], values));
+    }
+    Err(pyo3::exceptions::PyTypeError::new_err("offsets must be int, list or integer array"))
+}
+
+/// Combine two inputs element by element with broadcasting.
+fn broadcast_map(
+    a: (Vec<usize>, Vec<i64>),
+    b: (Vec<usize>, Vec<i64>),
+    dtype: DType,
+    f: impl Fn(i64, i64) -> PyResult<i64>,
+) -> PyResult<RumpyArray> {
+    let shape = broadcast_shapes(&a.0, &b.0).ok_or_else(|| {
+        pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
+    })?;
+    let spread = |(own, data): (Vec<usize>, Vec<i64>)| {
+        RumpyArray::from_vec_i64_with_shape(data, own, DType::int64())
+            .broadcast_to(&shape)
+            .map(|arr| int64_values(&arr))
+            .ok_or_else(|| pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes"))
+    };
+    let result = spread(a)?.into_iter().zip(spread(b)?)
+        .map(|(x, y)| f(x, y))
+        .collect::<PyResult<Vec<i64>>>()?;
+    Ok(RumpyArray::from_vec_i64_with_shape(result, shape, dtype))
 }
 
 /// Test element-wise for NaT (not a time) and return result as a boolean array.
@@ -138,14 +198,18 @@ impl BusDayCalendar {
         };
 
         // Parse holidays
-        let holidays_vec = match holidays {
+        let mut holidays_vec = match holidays {
             Some(h) => {
                 h.iter()
-                    .map(|s| parse_datetime64(s, TimeUnit::Days))
-                    .collect()
+                    .map(|s| parse_date(s, TimeUnit::Days))
+                    .collect::<PyResult<Vec<i64>>>()?
             }
             None => Vec::new(),
         };
+        // Keep each day once, and only those that would be business days
+        holidays_vec.retain(|day| *day != NAT && weekmask_arr[day_of_week(*day)]);
+        holidays_vec.sort_unstable();
+        holidays_vec.dedup();
 
         Ok(BusDayCalendar {
             weekmask: weekmask_arr,
@@ -167,28 +231,25 @@ impl BusDayCalendar {
 
 /// Parse weekmask string like "Mon Tue Wed Thu Fri" or "1111100".
 fn parse_weekmask(mask: &str) -> PyResult<[bool; 7]> {
-    let mask_lower = mask.to_lowercase();
-
-    // Check for day name format
-    if mask_lower.contains("mon") || mask_lower.contains("tue") {
-        let mut result = [false; 7];
-        if mask_lower.contains("mon") { result[0] = true; }
-        if mask_lower.contains("tue") { result[1] = true; }
-        if mask_lower.contains("wed") { result[2] = true; }
-        if mask_lower.contains("thu") { result[3] = true; }
-        if mask_lower.contains("fri") { result[4] = true; }
-        if mask_lower.contains("sat") { result[5] = true; }
-        if mask_lower.contains("sun") { result[6] = true; }
-        return Ok(result);
-    }
-
-    // Check for binary format "1111100"
-    let clean = mask.replace(" ", "");
+    const NAMES: [&str; 7] = ["mon", "tue", "wed", "thu", "fri", "sat", "sun"];
+    let clean: String = mask.split_whitespace().collect::<String>().to_lowercase();
+    let mut result = [false; 7];
+    let mut valid = clean.is_ascii();
     if clean.len() == 7 && clean.chars().all(|c| c == '0' || c == '1') {
-        let mut result = [false; 7];
+        // Binary format "1111100"
         for (i, c) in clean.chars().enumerate() {
             result[i] = c == '1';
         }
+    } else {
+        // Day name format "Mon Tue"
+        for name in clean.as_bytes().chunks(3) {
+            match NAMES.iter().position(|n| n.as_bytes() == name) {
+                Some(day) => result[day] = true,
+                None => valid = false,
+            }
+        }
+    }
+    if valid && result.contains(&true) {
         return Ok(result);
     }
 
@@ -205,41 +266,19 @@ pub fn is_busday(py: Python<'_>, dates: &Bound<'_, PyAny>, busdaycal: Option<&Bu
     let default_cal = BusDayCalendar { weekmask: DEFAULT_WEEKMASK, holidays: Vec::new() };
     let cal = busdaycal.unwrap_or(&default_cal);
 
-    // Handle single string - return scalar bool
-    if let Ok(s) = dates.extract::<String>() {
-        let result = is_business_day(parse_datetime64(&s, TimeUnit::Days), cal);
+    let is_scalar = dates.extract::<String>().is_ok();
+    let (shape, days) = parse_dates_input(dates)?;
+    if is_scalar {
+        let result = is_business_day(days[0], cal);
         return Ok(result.into_pyobject(py)?.to_owned().into_any().unbind());
     }
 
-    // Handle list of strings
-    if let Ok(list) = dates.downcast::<PyList>() {
-        let result: Vec<f64> = list.iter()
-            .map(|item| -> PyResult<f64> {
-                let s: String = item.extract()?;
-                Ok(if is_business_day(parse_datetime64(&s, TimeUnit::Days), cal) { 1.0 } else { 0.0 })
-            })
-            .collect::<PyResult<_>>()?;
-        return Ok(PyRumpyArray::new(RumpyArray::from_vec(result, DType::bool()))
-            .into_pyobject(py)?.into_any().unbind());
+    let mut result = RumpyArray::zeros(shape, DType::bool());
+    let dst_ptr = std::sync::Arc::get_mut(result.buffer_mut()).unwrap().as_mut_ptr();
+    for (i, day) in days.into_iter().enumerate() {
+        unsafe { *dst_ptr.add(i) = is_business_day(day, cal) as u8; }
     }
-
-    // Handle rumpy array
-    if let Ok(arr) = dates.extract::<PyRef<'_, PyRumpyArray>>() {
-        let inner = &arr.inner;
-        let mut result = RumpyArray::zeros(inner.shape().to_vec(), DType::bool());
-        let src_ptr = inner.data_ptr() as *const i64;
-        let dst_ptr = std::sync::Arc::get_mut(result.buffer_mut()).unwrap().as_mut_ptr() as *mut u8;
-
-        for (i, offset) in inner.iter_offsets().enumerate() {
-            let days = unsafe { *src_ptr.offset(offset as isize / 8) };
-            unsafe { *dst_ptr.add(i) = if is_business_day(days, cal) { 1 } else { 0 }; }
-        }
-        return Ok(PyRumpyArray::new(result).into_pyobject(py)?.into_any().unbind());
-    }
-
-    Err(pyo3::exceptions::PyTypeError::new_err(
-        "dates must be string, list of strings, or datetime64 array"
-    ))
+    Ok(PyRumpyArray::new(result).into_pyobject(py)?.into_any().unbind())
 }
 
 /// Check if a single day (days since epoch) is a business day.
@@ -253,10 +292,12 @@ fn is_business_day(days: i64, cal: &BusDayCalendar) -> bool {
         return false;
     }
 
-    // Get day of week (0=Mon, 6=Sun)
-    // 1970-01-01 was a Thursday (day 3)
-    let dow = ((days % 7 + 7 + 3) % 7) as usize;
-    cal.weekmask[dow]
+    cal.weekmask[day_of_week(days)]
+}
+
+/// Day of week (0=Mon, 6=Sun); 1970-01-01 was a Thursday (day 3).
+fn day_of_week(days: i64) -> usize {
+    ((days % 7 + 7 + 3) % 7) as usize
 }
 
 /// Offset dates by business days.
@@ -266,55 +307,37 @@ pub fn busday_offset(py: Python<'_>, dates: &Bound<'_, PyAny>, offsets: &Bound<'
     let default_cal = BusDayCalendar { weekmask: DEFAULT_WEEKMASK, holidays: Vec::new() };
     let cal = busdaycal.unwrap_or(&default_cal);
 
-    let dates_vec = parse_dates_input(dates)?;
-    let is_scalar_date = dates.extract::<String>().is_ok();
-
-    // Parse offsets
-    let is_scalar_offset = offsets.extract::<i64>().is_ok();
-    let offsets_vec: Vec<i64> = if let Ok(n) = offsets.extract::<i64>() {
-        vec![n; dates_vec.len()]
-    } else if let Ok(list) = offsets.downcast::<PyList>() {
-        list.iter().map(|item| item.extract::<i64>()).collect::<PyResult<_>>()?
-    } else {
-        return Err(pyo3::exceptions::PyTypeError::new_err("offsets must be int or list"));
-    };
-
-    let result: Vec<i64> = dates_vec.iter().zip(offsets_vec.iter())
-        .map(|(&date, &offset)| busday_offset_single(date, offset, cal))
-        .collect();
-
-    // Return 0-d array for scalar inputs
-    if is_scalar_date && is_scalar_offset {
-        let arr = RumpyArray::from_vec_i64(result, DType::datetime64_d())
-            .reshape(vec![]).expect("reshape to 0-d works for size 1");
-        return Ok(PyRumpyArray::new(arr).into_pyobject(py)?.into_any().unbind());
-    }
-
-    Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(result, DType::datetime64_d()))
-        .into_pyobject(py)?.into_any().unbind())
+    let result = broadcast_map(
+        parse_dates_input(dates)?,
+        parse_offsets_input(offsets)?,
+        DType::datetime64_d(),
+        |date, offset| busday_offset_single(date, offset, cal),
+    )?;
+    Ok(PyRumpyArray::new(result).into_pyobject(py)?.into_any().unbind())
 }
 
 /// Offset a single date by business days.
-fn busday_offset_single(date: i64, offset: i64, cal: &BusDayCalendar) -> i64 {
+fn busday_offset_single(date: i64, offset: i64, cal: &BusDayCalendar) -> PyResult<i64> {
     if date == NAT {
-        return NAT;
+        return Ok(NAT);
     }
+    let overflow = || pyo3::exceptions::PyOverflowError::new_err("busday_offset out of range");
 
     let mut current = date;
-    let mut remaining = offset.abs();
+    let mut remaining = offset.unsigned_abs();
     let step = if offset >= 0 { 1 } else { -1 };
 
     // First, if current day is not a business day, find the next/prev business day
     // (NumPy raises an error by default, but we'll just move to nearest)
 
     while remaining > 0 {
-        current += step;
+        current = current.checked_add(step).filter(|day| *day != NAT).ok_or_else(overflow)?;
         if is_business_day(current, cal) {
             remaining -= 1;
         }
     }
 
-    current
+    Ok(current)
 }
 
 /// Count business days between two dates.
@@ -324,39 +347,33 @@ pub fn busday_count(py: Python<'_>, begindates: &Bound<'_, PyAny>, enddates: &Bo
     let default_cal = BusDayCalendar { weekmask: DEFAULT_WEEKMASK, holidays: Vec::new() };
     let cal = busdaycal.unwrap_or(&default_cal);
 
-    let begin_vec = parse_dates_input(begindates)?;
-    let end_vec = parse_dates_input(enddates)?;
-
-    let result: Vec<i64> = begin_vec.iter().zip(end_vec.iter())
-        .map(|(&begin, &end)| busday_count_single(begin, end, cal))
-        .collect();
+    let is_scalar = begindates.extract::<String>().is_ok() && enddates.extract::<String>().is_ok();
+    let result = broadcast_map(
+        parse_dates_input(begindates)?,
+        parse_dates_input(enddates)?,
+        DType::int64(),
+        |begin, end| busday_count_single(begin, end, cal),
+    )?;
 
     // Return scalar for scalar inputs
-    if begindates.extract::<String>().is_ok() && enddates.extract::<String>().is_ok() {
-        return Ok(result[0].into_pyobject(py)?.into_any().unbind());
+    if is_scalar {
+        return Ok(int64_values(&result)[0].into_pyobject(py)?.into_any().unbind());
     }
-
-    Ok(PyRumpyArray::new(RumpyArray::from_vec_i64(result, DType::int64()))
-        .into_pyobject(py)?.into_any().unbind())
+    Ok(PyRumpyArray::new(result).into_pyobject(py)?.into_any().unbind())
 }
 
-/// Count business days between two dates (exclusive of end date).
-fn busday_count_single(begin: i64, end: i64, cal: &BusDayCalendar) -> i64 {
+/// Count business days in [begin, end); when begin is after end, minus the
+/// count in (end, begin].
+fn busday_count_single(begin: i64, end: i64, cal: &BusDayCalendar) -> PyResult<i64> {
     if begin == NAT || end == NAT {
-        return 0;
-    }
-
-    if begin >= end {
-        return 0;
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "Cannot compute a business day count with a NaT (not-a-time) date"
+        ));
     }
 
-    let mut count = 0i64;
-    for day in begin..end {
-        if is_business_day(day, cal) {
-            count += 1;
-        }
-    }
-    count
+    let days = if begin <= end { begin..end } else { end + 1..begin + 1 };
+    let count = days.filter(|day| is_business_day(*day, cal)).count() as i64;
+    Ok(if begin <= end { count } else { -count })
 }
 
 /// Factory function for busdaycalendar (lowercase for NumPy compatibility).
diff --git a/src/python/pyarray/dunder_ops.rs b/src/python/pyarray/dunder_ops.rs
index 2a8e251..3bef105 100644
--- a/src/python/pyarray/dunder_ops.rs
+++ b/src/python/pyarray/dunder_ops.rs
@@ -106,12 +106,16 @@ impl PyRumpyArray {
 
     // Unary operations
 
-    fn __neg__(&self) -> Self {
-        Self::new(self.inner.neg().expect("neg always succeeds"))
+    fn __neg__(&self) -> PyResult<Self> {
+        self.inner.neg().map(Self::new).map_err(|_| {
+            pyo3::exceptions::PyTypeError::new_err("negative is not supported for this dtype")
+        })
     }
 
-    fn __abs__(&self) -> Self {
-        Self::new(self.inner.abs().expect("abs always succeeds"))
+    fn __abs__(&self) -> PyResult<Self> {
+        self.inner.abs().map(Self::new).map_err(|_| {
+            pyo3::exceptions::PyTypeError::new_err("absolute is not supported for this dtype")
+        })
     }
 
     fn __float__(&self, py: Python<'_>) -> PyResult<f64> {
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index b7b9fae..b9bc84c 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -1217,6 +1217,9 @@ fn binary_op_dispatch_with_elision(
     } else if let Ok(scalar) = other.extract::<f64>() {
         // For scalar ops, result shape == arr shape, result dtype == arr dtype (usually)
         // TODO: Consider elision for scalar ops too
+        if let Some(time_scalar) = time_operand(arr, other) {
+            return time_result(arr.binary_op(&time_scalar?, op));
+        }
         Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
@@ -1245,6 +1248,9 @@ fn binary_op_dispatch(
                 }
             })
     } else if let Ok(scalar) = other.extract::<f64>() {
+        if let Some(time_scalar) = time_operand(arr, other) {
+            return time_result(arr.binary_op(&time_scalar?, op));
+        }
         Ok(PyRumpyArray::new(arr.scalar_op(scalar, op)))
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
@@ -1253,6 +1259,23 @@ fn binary_op_dispatch(
     }
 }
 
+/// Python number as the operand of a datetime64 or timedelta64 array.
+fn time_operand(arr: &RumpyArray, other: &Bound<'_, PyAny>) -> Option<PyResult<RumpyArray>> {
+    if !crate::ops::datetime::is_time_kind(&arr.dtype().kind()) {
+        return None;
+    }
+    Some(match other.extract::<i64>() {
+        Ok(v) => Ok(integer_scalar(v, DType::int64())),
+        Err(_) => other.extract::<f64>().map(|v| RumpyArray::full(vec![], v, DType::float64())),
+    })
+}
+
+fn time_result(result: Result<RumpyArray, crate::ops::BinaryOpError>) -> PyResult<PyRumpyArray> {
+    result.map(PyRumpyArray::new).map_err(|_| {
+        pyo3::exceptions::PyTypeError::new_err("operation not supported for these dtypes")
+    })
+}
+
 /// Dispatch reverse binary operation: scalar op array.
 fn rbinary_op_dispatch(
     arr: &RumpyArray,
@@ -1260,6 +1283,9 @@ fn rbinary_op_dispatch(
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
     if let Ok(scalar) = other.extract::<f64>() {
+        if let Some(time_scalar) = time_operand(arr, other) {
+            return time_result(time_scalar?.binary_op(arr, op));
+        }
         Ok(PyRumpyArray::new(arr.rscalar_op(scalar, op)))
     } else {
         Err(pyo3::exceptions::PyTypeError::new_err(
@@ -1268,6 +1294,14 @@ fn rbinary_op_dispatch(
     }
 }
 
+/// Datetime or timedelta operands that broadcast but have no common order.
+fn unordered_times(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> bool {
+    use crate::ops::datetime::is_time_kind;
+    (is_time_kind(&a.dtype().kind()) || is_time_kind(&b.dtype().kind()))
+        && crate::array::broadcast_shapes(a.shape(), b.shape()).is_some()
+        && a.compare(b, op).is_none()
+}
+
 /// Dispatch comparison operation: array cmp (array or scalar).
 fn comparison_op_dispatch(
     arr: &RumpyArray,
@@ -1275,11 +1309,23 @@ fn comparison_op_dispatch(
     op: ComparisonOp,
 ) -> PyResult<PyRumpyArray> {
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
-        arr.compare(&other_arr.inner, op)
+        let other_inner = &other_arr.inner;
+        if unordered_times(arr, other_inner, op) {
+            return Err(pyo3::exceptions::PyTypeError::new_err(
+                "comparison not supported for these dtypes",
+            ));
+        }
+        arr.compare(other_inner, op)
             .map(PyRumpyArray::new)
             .ok_or_else(|| {
                 pyo3::exceptions::PyValueError::new_err("operands have incompatible shapes")
             })
+    } else if let Some(time_scalar) = time_operand(arr, other) {
+        arr.compare(&time_scalar?, op)
+            .map(PyRumpyArray::new)
+            .ok_or_else(|| {
+                pyo3::exceptions::PyTypeError::new_err("comparison not supported for these dtypes")
+            })
     } else if let (true, Ok(scalar)) = (arr.dtype().is_integer(), other.extract::<i64>()) {
         // Integers compare exactly, without a detour through float64
         let scalar_arr = integer_scalar(scalar, DType::int64());
-- 
2.43.0


From 68254a03ba238afca467569172f4471832ddffc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:23 +0000
Subject: [PATCH 47/69] fix: string functions read views correctly and
 broadcast their operands

---
 src/ops/char.rs    | 51 +++++++++++++++++++++-------------------------
 src/python/char.rs | 14 ++++++-------
 2 files changed, 30 insertions(+), 35 deletions(-)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index 3701b90..f7ef074 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -3,7 +3,7 @@
 //! These operations work element-wise on string arrays.
 
 use crate::array::dtype::{DType, DTypeKind};
-use crate::array::RumpyArray;
+use crate::array::{broadcast_shapes, RumpyArray};
 use std::sync::Arc;
 
 // ============================================================================
@@ -277,20 +277,17 @@ fn cp_is_cased(cp: u32) -> bool {
     cp_is_upper(cp) || cp_is_lower(cp)
 }
 
-/// Read a string from a string array at the given flat index.
+/// Read a string from a string array at a byte offset (see `iter_offsets`).
 ///
 /// # Safety
-/// The array must have a string dtype and the index must be valid.
-unsafe fn read_string(arr: &RumpyArray, flat_idx: usize) -> String {
+/// The array must have a string dtype and the offset must be valid.
+unsafe fn read_string(arr: &RumpyArray, byte_offset: isize) -> String {
     let max_chars = match arr.dtype().kind() {
         DTypeKind::Str(mc) => mc,
         _ => return String::new(),
     };
 
-    let itemsize = arr.dtype().itemsize();
-    let ptr = arr.data_ptr();
-    let byte_offset = (flat_idx * itemsize) as isize;
-    let start = ptr.offset(byte_offset) as *const u32;
+    let start = arr.data_ptr().offset(byte_offset) as *const u32;
 
     let mut chars = Vec::with_capacity(max_chars);
     for i in 0..max_chars {
@@ -347,8 +344,8 @@ where
     // Compute max output length
     let mut max_out_len = 0usize;
     let mut results = Vec::with_capacity(size);
-    for i in 0..size {
-        let s = unsafe { read_string(arr, i) };
+    for offset in arr.iter_offsets() {
+        let s = unsafe { read_string(arr, offset) };
         let result = op(&s);
         max_out_len = max_out_len.max(result.chars().count());
         results.push(result);
@@ -380,18 +377,16 @@ where
         _ => return None,
     };
 
-    // For now, require same shape (no broadcasting)
-    if a.shape() != b.shape() {
-        return None;
-    }
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    let (a, b) = (a.broadcast_to(&shape)?, b.broadcast_to(&shape)?);
 
     let size = a.size();
     let mut max_out_len = 0usize;
     let mut results = Vec::with_capacity(size);
 
-    for i in 0..size {
-        let sa = unsafe { read_string(a, i) };
-        let sb = unsafe { read_string(b, i) };
+    for (a_offset, b_offset) in a.iter_offsets().zip(b.iter_offsets()) {
+        let sa = unsafe { read_string(&a, a_offset) };
+        let sb = unsafe { read_string(&b, b_offset) };
         let result = op(&sa, &sb);
         max_out_len = max_out_len.max(result.chars().count());
         results.push(result);
@@ -399,7 +394,7 @@ where
 
     let out_max_chars = a_max.max(b_max).max(max_out_len);
     let out_dtype = DType::str_(out_max_chars);
-    let mut out = RumpyArray::zeros(a.shape().to_vec(), out_dtype);
+    let mut out = RumpyArray::zeros(shape, out_dtype);
 
     for (i, result) in results.into_iter().enumerate() {
         unsafe { write_string(&mut out, i, &result) };
@@ -1787,18 +1782,19 @@ enum StrCmp { Eq, Ne, Lt, Le, Gt, Ge }
 
 /// Compare two string arrays element-wise with given comparison.
 fn compare_strings(a: &RumpyArray, b: &RumpyArray, cmp: StrCmp) -> Option<RumpyArray> {
-    if a.shape() != b.shape() {
+    if !matches!((a.dtype().kind(), b.dtype().kind()), (DTypeKind::Str(_), DTypeKind::Str(_))) {
         return None;
     }
+    let shape = broadcast_shapes(a.shape(), b.shape())?;
+    let (a, b) = (a.broadcast_to(&shape)?, b.broadcast_to(&shape)?);
 
-    let size = a.size();
-    let mut out = RumpyArray::zeros(a.shape().to_vec(), DType::bool());
+    let mut out = RumpyArray::zeros(shape, DType::bool());
     let buffer = Arc::get_mut(&mut out.buffer).expect("buffer must be unique");
     let ptr = buffer.as_mut_ptr();
 
-    for i in 0..size {
-        let sa = unsafe { read_string(a, i) };
-        let sb = unsafe { read_string(b, i) };
+    for (i, (a_offset, b_offset)) in a.iter_offsets().zip(b.iter_offsets()).enumerate() {
+        let sa = unsafe { read_string(&a, a_offset) };
+        let sb = unsafe { read_string(&b, b_offset) };
         let result = match cmp {
             StrCmp::Eq => sa == sb,
             StrCmp::Ne => sa != sb,
@@ -1868,10 +1864,9 @@ pub fn expandtabs(arr: &RumpyArray, tabsize: usize) -> Option<RumpyArray> {
 
 /// Join array elements with separator.
 pub fn join_with(arr: &RumpyArray, sep: &str) -> Option<String> {
-    let size = arr.size();
-    let mut strings = Vec::with_capacity(size);
-    for i in 0..size {
-        strings.push(unsafe { read_string(arr, i) });
+    let mut strings = Vec::with_capacity(arr.size());
+    for offset in arr.iter_offsets() {
+        strings.push(unsafe { read_string(arr, offset) });
     }
     Some(strings.join(sep))
 }
diff --git a/src/python/char.rs b/src/python/char.rs
index 3b492fb..16a4ebe 100644
--- a/src/python/char.rs
+++ b/src/python/char.rs
@@ -11,7 +11,7 @@ use super::pyarray::PyRumpyArray;
 pub fn char_add(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     char_ops::add(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("add requires string arrays"))
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("add requires string arrays that broadcast together"))
 }
 
 /// Repeat each string n times.
@@ -341,7 +341,7 @@ pub fn swapcase(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 pub fn char_equal(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     char_ops::equal(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("equal requires string arrays with same shape"))
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("equal requires string arrays that broadcast together"))
 }
 
 /// Compare two string arrays element-wise for inequality.
@@ -350,7 +350,7 @@ pub fn char_equal(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray
 pub fn char_not_equal(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     char_ops::not_equal(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("not_equal requires string arrays with same shape"))
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("not_equal requires string arrays that broadcast together"))
 }
 
 /// Compare two string arrays element-wise (less than).
@@ -359,7 +359,7 @@ pub fn char_not_equal(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyA
 pub fn char_less(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     char_ops::less(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("less requires string arrays with same shape"))
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("less requires string arrays that broadcast together"))
 }
 
 /// Compare two string arrays element-wise (less than or equal).
@@ -368,7 +368,7 @@ pub fn char_less(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray>
 pub fn char_less_equal(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     char_ops::less_equal(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("less_equal requires string arrays with same shape"))
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("less_equal requires string arrays that broadcast together"))
 }
 
 /// Compare two string arrays element-wise (greater than).
@@ -377,7 +377,7 @@ pub fn char_less_equal(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpy
 pub fn char_greater(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     char_ops::greater(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("greater requires string arrays with same shape"))
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("greater requires string arrays that broadcast together"))
 }
 
 /// Compare two string arrays element-wise (greater than or equal).
@@ -386,7 +386,7 @@ pub fn char_greater(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArr
 pub fn char_greater_equal(x1: &PyRumpyArray, x2: &PyRumpyArray) -> PyResult<PyRumpyArray> {
     char_ops::greater_equal(&x1.inner, &x2.inner)
         .map(PyRumpyArray::new)
-        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("greater_equal requires string arrays with same shape"))
+        .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("greater_equal requires string arrays that broadcast together"))
 }
 
 /// Expand tabs to spaces.
-- 
2.43.0


From 6f2c767797d0523905c88c48f821d95e1114f974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:20 +0000
Subject: [PATCH 48/69] fix: string searches honour start and end, strip
 honours its characters

---
 src/ops/char.rs    | 55 ++++++++++++++++++++++++++++++++++++++++++++++
 src/python/char.rs | 53 ++++++++++++++++++++++----------------------
 2 files changed, 81 insertions(+), 27 deletions(-)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index f7ef074..bb51a1b 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -518,10 +518,65 @@ pub fn rstrip(arr: &RumpyArray) -> Option<RumpyArray> {
     strip_fast(arr, 2)
 }
 
+/// Strip the given characters instead of whitespace.
+/// mode: 0 = both ends, 1 = leading, 2 = trailing
+pub fn strip_chars(arr: &RumpyArray, chars: &str, mode: u8) -> Option<RumpyArray> {
+    let strip = |c: char| chars.contains(c);
+    apply_unary_string_op(arr, |s| {
+        let s = if mode == 2 { s } else { s.trim_start_matches(strip) };
+        if mode == 1 { s } else { s.trim_end_matches(strip) }.to_string()
+    })
+}
+
 // ============================================================================
 // Tier 2 - Search/Replace Operations
 // ============================================================================
 
+/// Apply a search to the slice [start:end] of each string (Python slice rules).
+/// `op` returns positions (`positions` = true, -1 when absent), counts or flags;
+/// nothing is found in a slice whose start lies beyond its end or the string.
+pub fn search_slice<F>(arr: &RumpyArray, start: Option<isize>, end: Option<isize>, positions: bool, op: F) -> Option<RumpyArray>
+where
+    F: Fn(&RumpyArray) -> Option<RumpyArray>,
+{
+    if start.unwrap_or(0) == 0 && end.is_none() {
+        return op(arr);
+    }
+    if !matches!(arr.dtype().kind(), DTypeKind::Str(_)) {
+        return None;
+    }
+
+    let mut slices = RumpyArray::zeros(arr.shape().to_vec(), arr.dtype().clone());
+    let mut starts = Vec::with_capacity(arr.size());
+    for (i, offset) in arr.iter_offsets().enumerate() {
+        let chars: Vec<char> = unsafe { read_string(arr, offset) }.chars().collect();
+        let bound = |b: isize| if b < 0 { (b + chars.len() as isize).max(0) as usize } else { b as usize };
+        let lo = bound(start.unwrap_or(0));
+        let hi = end.map_or(chars.len(), bound).min(chars.len());
+        if lo <= hi {
+            let slice: String = chars[lo..hi].iter().collect();
+            unsafe { write_string(&mut slices, i, &slice) };
+        }
+        starts.push(if lo <= hi { Some(lo as i64) } else { None });
+    }
+
+    let mut out = op(&slices)?;
+    let flags = out.dtype().kind() == DTypeKind::Bool;
+    let dst = Arc::get_mut(out.buffer_mut()).expect("buffer must be unique").as_mut_ptr();
+    for (i, lo) in starts.into_iter().enumerate() {
+        unsafe {
+            let value = (dst as *mut i64).add(i);
+            match lo {
+                None if flags => *dst.add(i) = 0,
+                None => *value = if positions { -1 } else { 0 },
+                Some(lo) if positions && *value >= 0 => *value += lo,
+                Some(_) => {}
+            }
+        }
+    }
+    Some(out)
+}
+
 /// Find substring - optimized direct implementation.
 pub fn find(arr: &RumpyArray, sub: &str) -> Option<RumpyArray> {
     let max_chars = match arr.dtype().kind() {
diff --git a/src/python/char.rs b/src/python/char.rs
index 16a4ebe..c561db6 100644
--- a/src/python/char.rs
+++ b/src/python/char.rs
@@ -43,8 +43,10 @@ pub fn lower(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn strip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars; // TODO: Support custom chars
-    char_ops::strip(&a.inner)
+    match chars {
+        Some(chars) => char_ops::strip_chars(&a.inner, chars, 0),
+        None => char_ops::strip(&a.inner),
+    }
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("strip requires a string array"))
 }
@@ -53,8 +55,10 @@ pub fn strip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn lstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars;
-    char_ops::lstrip(&a.inner)
+    match chars {
+        Some(chars) => char_ops::strip_chars(&a.inner, chars, 1),
+        None => char_ops::lstrip(&a.inner),
+    }
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("lstrip requires a string array"))
 }
@@ -63,8 +67,10 @@ pub fn lstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 #[pyfunction]
 #[pyo3(signature = (a, chars=None))]
 pub fn rstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
-    let _ = chars;
-    char_ops::rstrip(&a.inner)
+    match chars {
+        Some(chars) => char_ops::strip_chars(&a.inner, chars, 2),
+        None => char_ops::rstrip(&a.inner),
+    }
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rstrip requires a string array"))
 }
@@ -72,9 +78,8 @@ pub fn rstrip(a: &PyRumpyArray, chars: Option<&str>) -> PyResult<PyRumpyArray> {
 /// Find the lowest index of substring in each string.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn find(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end); // TODO: Support start/end
-    char_ops::find(&a.inner, sub)
+pub fn find(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::search_slice(&a.inner, start, end, true, |s| char_ops::find(s, sub))
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("find requires a string array"))
 }
@@ -82,9 +87,8 @@ pub fn find(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize
 /// Find the highest index of substring in each string.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::rfind(&a.inner, sub)
+pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::search_slice(&a.inner, start, end, true, |s| char_ops::rfind(s, sub))
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rfind requires a string array"))
 }
@@ -92,9 +96,8 @@ pub fn rfind(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usiz
 /// Like find, but raises ValueError if substring is not found.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn index(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    let result = char_ops::index(&a.inner, sub)
+pub fn index(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    let result = char_ops::search_slice(&a.inner, start, end, true, |s| char_ops::index(s, sub))
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("index requires a string array"))?;
 
     // Check for -1 values directly from buffer (fast path)
@@ -113,9 +116,8 @@ pub fn index(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usiz
 /// Like rfind, but raises ValueError if substring is not found.
 #[pyfunction]
 #[pyo3(signature = (a, sub, start=None, end=None))]
-pub fn rindex(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    let result = char_ops::rindex(&a.inner, sub)
+pub fn rindex(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    let result = char_ops::search_slice(&a.inner, start, end, true, |s| char_ops::rindex(s, sub))
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rindex requires a string array"))?;
 
     let size = result.size();
@@ -166,9 +168,8 @@ pub fn replace(a: &PyRumpyArray, old: &str, new: &str, count: Option<usize>) ->
 /// Count occurrences of substring in each string.
 #[pyfunction]
 #[pyo3(name = "count", signature = (a, sub, start=None, end=None))]
-pub fn char_count(a: &PyRumpyArray, sub: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::count(&a.inner, sub)
+pub fn char_count(a: &PyRumpyArray, sub: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::search_slice(&a.inner, start, end, false, |s| char_ops::count(s, sub))
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("count requires a string array"))
 }
@@ -232,9 +233,8 @@ pub fn isspace(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
 /// Check if each string starts with the given prefix.
 #[pyfunction]
 #[pyo3(signature = (a, prefix, start=None, end=None))]
-pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::startswith(&a.inner, prefix)
+pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::search_slice(&a.inner, start, end, false, |s| char_ops::startswith(s, prefix))
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("startswith requires a string array"))
 }
@@ -242,9 +242,8 @@ pub fn startswith(a: &PyRumpyArray, prefix: &str, start: Option<usize>, end: Opt
 /// Check if each string ends with the given suffix.
 #[pyfunction]
 #[pyo3(signature = (a, suffix, start=None, end=None))]
-pub fn endswith(a: &PyRumpyArray, suffix: &str, start: Option<usize>, end: Option<usize>) -> PyResult<PyRumpyArray> {
-    let _ = (start, end);
-    char_ops::endswith(&a.inner, suffix)
+pub fn endswith(a: &PyRumpyArray, suffix: &str, start: Option<isize>, end: Option<isize>) -> PyResult<PyRumpyArray> {
+    char_ops::search_slice(&a.inner, start, end, false, |s| char_ops::endswith(s, suffix))
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("endswith requires a string array"))
 }
-- 
2.43.0


From be371a70ca1b0adf188562c04edccdb3a4c1a321 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:54 +0000
Subject: [PATCH 49/69] fix: centre pads like Python, replace of an empty
 string inserts, fill characters are checked

---
 src/ops/char.rs    |  9 +++++----
 src/python/char.rs | 17 ++++++++++++++---
 2 files changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index bb51a1b..86eae3f 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -242,7 +242,7 @@ fn cp_is_digit(cp: u32) -> bool {
 
 #[inline]
 fn cp_is_alnum(cp: u32) -> bool {
-    cp_is_alpha(cp) || cp_is_digit(cp)
+    cp_is_alpha(cp) || char::from_u32(cp).map_or(false, |c| c.is_numeric())
 }
 
 #[inline]
@@ -1127,9 +1127,9 @@ pub fn replace(arr: &RumpyArray, old: &str, new: &str, count: Option<usize>) ->
         return Some(RumpyArray::zeros(arr.shape().to_vec(), arr.dtype().clone()));
     }
 
-    // Empty old string: no replacements
+    // Empty old string: insert before each character and at the end
     if old_len == 0 {
-        return Some(arr.copy());
+        return apply_unary_string_op(arr, |s| s.replacen(old, new, max_count));
     }
 
     // First pass: compute max output length
@@ -1634,7 +1634,8 @@ pub fn center(arr: &RumpyArray, width: usize, fillchar: char) -> Option<RumpyArr
             s.to_string()
         } else {
             let total_pad = width - len;
-            let left_pad = total_pad / 2;
+            // An odd cell goes to the left only in a field of odd width
+            let left_pad = total_pad / 2 + (total_pad & width & 1);
             let right_pad = total_pad - left_pad;
             format!(
                 "{}{}{}",
diff --git a/src/python/char.rs b/src/python/char.rs
index c561db6..b1a2afc 100644
--- a/src/python/char.rs
+++ b/src/python/char.rs
@@ -272,11 +272,22 @@ pub fn istitle(a: &PyRumpyArray) -> PyResult<PyRumpyArray> {
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("istitle requires a string array"))
 }
 
+/// The fill character of the justification functions (a space by default).
+fn parse_fillchar(fillchar: Option<&str>) -> PyResult<char> {
+    let mut chars = fillchar.unwrap_or(" ").chars();
+    match (chars.next(), chars.next()) {
+        (Some(c), None) => Ok(c),
+        _ => Err(pyo3::exceptions::PyTypeError::new_err(
+            "The fill character must be exactly one character long"
+        )),
+    }
+}
+
 /// Center each string in a field of given width.
 #[pyfunction]
 #[pyo3(signature = (a, width, fillchar=None))]
 pub fn center(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult<PyRumpyArray> {
-    let fillchar = fillchar.and_then(|s| s.chars().next()).unwrap_or(' ');
+    let fillchar = parse_fillchar(fillchar)?;
     char_ops::center(&a.inner, width, fillchar)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("center requires a string array"))
@@ -286,7 +297,7 @@ pub fn center(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResul
 #[pyfunction]
 #[pyo3(signature = (a, width, fillchar=None))]
 pub fn ljust(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult<PyRumpyArray> {
-    let fillchar = fillchar.and_then(|s| s.chars().next()).unwrap_or(' ');
+    let fillchar = parse_fillchar(fillchar)?;
     char_ops::ljust(&a.inner, width, fillchar)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("ljust requires a string array"))
@@ -296,7 +307,7 @@ pub fn ljust(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult
 #[pyfunction]
 #[pyo3(signature = (a, width, fillchar=None))]
 pub fn rjust(a: &PyRumpyArray, width: usize, fillchar: Option<&str>) -> PyResult<PyRumpyArray> {
-    let fillchar = fillchar.and_then(|s| s.chars().next()).unwrap_or(' ');
+    let fillchar = parse_fillchar(fillchar)?;
     char_ops::rjust(&a.inner, width, fillchar)
         .map(PyRumpyArray::new)
         .ok_or_else(|| pyo3::exceptions::PyTypeError::new_err("rjust requires a string array"))
-- 
2.43.0


From 2fe11d0793f1146a02450914f074763b0eadabe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:45 +0000
Subject: [PATCH 50/69] fix: startswith reads past strings shorter than the
 prefix

---
 src/ops/char.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/ops/char.rs b/src/ops/char.rs
index 86eae3f..989186d 100644
--- a/src/ops/char.rs
+++ b/src/ops/char.rs
@@ -1484,8 +1484,8 @@ pub fn startswith(arr: &RumpyArray, prefix: &str) -> Option<RumpyArray> {
         for elem_idx in 0..size {
             let src_str = unsafe { src_base.add(elem_idx * max_chars) };
             // Check prefix directly without computing full length
-            let mut matches = true;
-            for i in 0..prefix_len {
+            let mut matches = prefix_len <= max_chars;
+            for i in 0..prefix_len.min(max_chars) {
                 let cp = unsafe { *src_str.add(i) };
                 if cp != prefix_cps[i] {
                     matches = false;
@@ -1498,8 +1498,8 @@ pub fn startswith(arr: &RumpyArray, prefix: &str) -> Option<RumpyArray> {
         let src_base = arr.data_ptr();
         for (elem_idx, src_offset) in arr.iter_offsets().enumerate() {
             let src_str = unsafe { src_base.offset(src_offset) as *const u32 };
-            let mut matches = true;
-            for i in 0..prefix_len {
+            let mut matches = prefix_len <= max_chars;
+            for i in 0..prefix_len.min(max_chars) {
                 let cp = unsafe { *src_str.add(i) };
                 if cp != prefix_cps[i] {
                     matches = false;
-- 
2.43.0


From 156f8fdb6cf3604bb45368a49e492afc85a44555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 51/69] fix: transpose, permute_dims, swapaxes and moveaxis
 reject bad axes instead of panicking or accepting them

---
 src/python/pyarray/mod.rs |  6 ++++--
 src/python/shape.rs       | 43 ++++++++++++++++++++++++++-------------
 2 files changed, 33 insertions(+), 16 deletions(-)

diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index b9bc84c..b819cb3 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -378,8 +378,10 @@ impl PyRumpyArray {
     }
 
     /// Swap two axes.
-    fn swapaxes(&self, axis1: usize, axis2: usize) -> Self {
-        Self::new(self.inner.swapaxes(axis1, axis2))
+    fn swapaxes(&self, axis1: usize, axis2: usize) -> PyResult<Self> {
+        check_axis(axis1, self.inner.ndim())?;
+        check_axis(axis2, self.inner.ndim())?;
+        Ok(Self::new(self.inner.swapaxes(axis1, axis2)))
     }
 
     /// Create a contiguous copy of the array.
diff --git a/src/python/shape.rs b/src/python/shape.rs
index 9cbaf15..4366825 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -4,7 +4,7 @@ use pyo3::prelude::*;
 use pyo3::types::PyList;
 
 use crate::array::{DType, RumpyArray};
-use super::{PyRumpyArray, creation, reductions::resolve_axis};
+use super::{PyRumpyArray, creation, reductions::{check_axis, resolve_axis}};
 
 /// Convert a Python object to RumpyArray (for concatenate, etc.)
 pub fn to_rumpy_array(obj: &Bound<'_, pyo3::PyAny>) -> PyResult<RumpyArray> {
@@ -99,20 +99,33 @@ pub fn flatten(a: &PyRumpyArray) -> PyRumpyArray {
     PyRumpyArray::new(a.inner.copy().reshape(vec![a.inner.size()]).unwrap())
 }
 
+/// Check that the axes exist and that none is given twice.
+fn check_distinct_axes(axes: &[usize], ndim: usize, repeated: &'static str) -> PyResult<()> {
+    for (i, &ax) in axes.iter().enumerate() {
+        check_axis(ax, ndim)?;
+        if axes[..i].contains(&ax) {
+            return Err(pyo3::exceptions::PyValueError::new_err(repeated));
+        }
+    }
+    Ok(())
+}
+
 /// Permute the dimensions of an array.
 #[pyfunction]
 #[pyo3(signature = (a, axes=None))]
-pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyRumpyArray {
+pub fn transpose(a: &PyRumpyArray, axes: Option<Vec<usize>>) -> PyResult<PyRumpyArray> {
     match axes {
-        Some(ax) => PyRumpyArray::new(a.inner.transpose_axes(&ax)),
-        None => PyRumpyArray::new(a.inner.transpose()),
+        Some(ax) => permute_dims(a, ax),
+        None => Ok(PyRumpyArray::new(a.inner.transpose())),
     }
 }
 
 /// Interchange two axes of an array.
 #[pyfunction]
-pub fn swapaxes(x: &PyRumpyArray, axis1: usize, axis2: usize) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.swapaxes(axis1, axis2))
+pub fn swapaxes(x: &PyRumpyArray, axis1: usize, axis2: usize) -> PyResult<PyRumpyArray> {
+    check_axis(axis1, x.inner.ndim())?;
+    check_axis(axis2, x.inner.ndim())?;
+    Ok(PyRumpyArray::new(x.inner.swapaxes(axis1, axis2)))
 }
 
 /// Move axes to new positions.
@@ -135,12 +148,10 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     let ndim = a.inner.ndim();
 
     // Normalize axes
-    let src: Vec<usize> = source.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
-    let dst: Vec<usize> = destination.iter()
-        .map(|&x| if x < 0 { (ndim as isize + x) as usize } else { x as usize })
-        .collect();
+    let src: Vec<usize> = source.iter().map(|&x| resolve_axis(x, ndim)).collect();
+    let dst: Vec<usize> = destination.iter().map(|&x| resolve_axis(x, ndim)).collect();
+    check_distinct_axes(&src, ndim, "repeated axis in `source` argument")?;
+    check_distinct_axes(&dst, ndim, "repeated axis in `destination` argument")?;
 
     if src.len() != dst.len() {
         return Err(pyo3::exceptions::PyValueError::new_err(
@@ -885,8 +896,12 @@ pub fn concat(arrays: &Bound<'_, PyList>, axis: usize) -> PyResult<PyRumpyArray>
 
 /// Permute the dimensions of an array (NumPy 2.0 alias for transpose).
 #[pyfunction]
-pub fn permute_dims(a: &PyRumpyArray, axes: Vec<usize>) -> PyRumpyArray {
-    PyRumpyArray::new(a.inner.transpose_axes(&axes))
+pub fn permute_dims(a: &PyRumpyArray, axes: Vec<usize>) -> PyResult<PyRumpyArray> {
+    if axes.len() != a.inner.ndim() {
+        return Err(pyo3::exceptions::PyValueError::new_err("axes don't match array"));
+    }
+    check_distinct_axes(&axes, a.inner.ndim(), "repeated axis in transpose")?;
+    Ok(PyRumpyArray::new(a.inner.transpose_axes(&axes)))
 }
 
 /// Transpose the last two axes of an array.
-- 
2.43.0


From 0848916a87706877558b16d3eef38f57e247c749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 52/69] fix: moveaxis with several axes puts each at its
 destination whatever their order

---
 src/python/shape.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/python/shape.rs b/src/python/shape.rs
index 4366825..fd9bc50 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -163,9 +163,12 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
     // Remove source axes and insert at destination positions
     let mut order: Vec<usize> = (0..ndim).filter(|x| !src.contains(x)).collect();
 
-    // Insert source axes at destination positions
-    for (&s, &d) in src.iter().zip(dst.iter()) {
-        order.insert(d.min(order.len()), s);
+    // Insert source axes at destination positions, lowest position first so
+    // that a later insertion does not displace an earlier one
+    let mut moves: Vec<(usize, usize)> = dst.iter().copied().zip(src.iter().copied()).collect();
+    moves.sort_unstable();
+    for (d, s) in moves {
+        order.insert(d, s);
     }
 
     Ok(PyRumpyArray::new(a.inner.transpose_axes(&order)))
-- 
2.43.0


From 58bd66ef3a1b482147e5e0650b9928e19ebdfc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 53/69] fix: rollaxis rejects a start position outside the
 array

---
 src/python/shape.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/python/shape.rs b/src/python/shape.rs
index fd9bc50..f19abb7 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -180,15 +180,14 @@ pub fn moveaxis(a: &PyRumpyArray, source: &Bound<'_, pyo3::PyAny>, destination:
 pub fn rollaxis(a: &PyRumpyArray, axis: isize, start: isize) -> PyResult<PyRumpyArray> {
     let ndim = a.inner.ndim();
     let axis = resolve_axis(axis, ndim);
-    let start = if start < 0 {
-        (ndim as isize + start) as usize
-    } else {
-        (start as usize).min(ndim)
-    };
+    let start = resolve_axis(start, ndim);
 
     if axis >= ndim {
         return Err(pyo3::exceptions::PyValueError::new_err("axis out of bounds"));
     }
+    if start > ndim {
+        return Err(pyo3::exceptions::PyValueError::new_err("start out of bounds"));
+    }
 
     // Build permutation: move axis to start position
     let mut order: Vec<usize> = (0..ndim).collect();
-- 
2.43.0


From 65a126f5cf82e458999557124db26607fa6f7649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 54/69] fix: diagonal covers the remaining axes of an N-D array
 and rejects arrays below 2-D

---
 src/ops/mod.rs            | 10 +++++++---
 src/python/pyarray/mod.rs | 11 +++++++----
 src/python/shape.rs       |  7 +++++--
 3 files changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index 640b941..a654667 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -160,7 +160,8 @@ impl RumpyArray {
 
     // Math ufuncs are in array_methods/unary.rs
 
-    /// Extract diagonal from a 2D array. Returns a view.
+    /// Extract the diagonal of the first two axes. Returns a view whose last
+    /// axis runs along the diagonal, after any remaining axes.
     pub fn diagonal(&self) -> RumpyArray {
         assert!(self.ndim() >= 2, "diagonal requires at least 2D array");
         let shape = self.shape();
@@ -170,8 +171,11 @@ impl RumpyArray {
         // Diagonal stride = row_stride + col_stride (step diagonally)
         let diag_stride = strides[0] + strides[1];
 
-        // Return a 1D view with the diagonal stride
-        self.view_with(0, vec![n], vec![diag_stride])
+        let mut diag_shape = shape[2..].to_vec();
+        let mut diag_strides = strides[2..].to_vec();
+        diag_shape.push(n);
+        diag_strides.push(diag_stride);
+        self.view_with(0, diag_shape, diag_strides)
     }
 
     /// Return sum of diagonal elements (trace).
diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index b819cb3..d29dca0 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -368,13 +368,16 @@ impl PyRumpyArray {
     }
 
     /// Extract diagonal from 2D array.
-    fn diagonal(&self) -> Self {
-        Self::new(self.inner.diagonal())
+    fn diagonal(&self) -> PyResult<Self> {
+        crate::python::shape::diagonal(self)
     }
 
     /// Sum of diagonal elements.
-    fn trace(&self) -> f64 {
-        self.inner.trace()
+    fn trace(&self) -> PyResult<f64> {
+        if self.inner.ndim() != 2 {
+            return Err(pyo3::exceptions::PyValueError::new_err("trace requires 2D array"));
+        }
+        Ok(self.inner.trace())
     }
 
     /// Swap two axes.
diff --git a/src/python/shape.rs b/src/python/shape.rs
index f19abb7..1930dca 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -839,8 +839,11 @@ pub fn nonzero(arr: &PyRumpyArray) -> Vec<PyRumpyArray> {
 
 /// Extract diagonal.
 #[pyfunction]
-pub fn diagonal(x: &PyRumpyArray) -> PyRumpyArray {
-    PyRumpyArray::new(x.inner.diagonal())
+pub fn diagonal(x: &PyRumpyArray) -> PyResult<PyRumpyArray> {
+    if x.inner.ndim() < 2 {
+        return Err(pyo3::exceptions::PyValueError::new_err("diagonal requires an array of at least two dimensions"));
+    }
+    Ok(PyRumpyArray::new(x.inner.diagonal()))
 }
 
 // ============================================================================
-- 
2.43.0


From 107dab302b92a6ad47a7257df6ff7486a70033fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:05 +0000
Subject: [PATCH 55/69] fix: insert along an empty axis no longer divides by
 zero

---
 src/array/manipulation.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/array/manipulation.rs b/src/array/manipulation.rs
index 228c8b8..e3c65f4 100644
--- a/src/array/manipulation.rs
+++ b/src/array/manipulation.rs
@@ -1148,7 +1148,8 @@ pub fn insert(arr: &RumpyArray, index: isize, values: &RumpyArray, axis: Option<
 
             // Values need to be reshaped to match
             let mut val_shape = arr.shape().to_vec();
-            val_shape[axis] = values.size() / (arr.size() / axis_len).max(1);
+            let others: usize = val_shape.iter().enumerate().filter(|&(i, _)| i != axis).map(|(_, &n)| n).product();
+            val_shape[axis] = values.size() / others.max(1);
             let vals_reshaped = values.reshape(val_shape).unwrap_or_else(|| values.clone());
 
             concatenate(&[before, vals_reshaped, after], axis)
-- 
2.43.0


From 3307f2771967b4f428e4a2e3b9998731cbf876ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:27 +0000
Subject: [PATCH 56/69] fix: average accepts weights along the axis and rejects
 mismatched shapes instead of panicking

---
 src/python/reductions.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/python/reductions.rs b/src/python/reductions.rs
index 6b48d9e..ec1f4dd 100644
--- a/src/python/reductions.rs
+++ b/src/python/reductions.rs
@@ -562,6 +562,21 @@ pub fn average(
     axis: Option<isize>,
     weights: Option<&PyRumpyArray>,
 ) -> PyResult<pyarray::ReductionResult> {
+    // Weights go with the elements of x, or with the positions along the axis
+    let line = axis.map(|ax| resolve_axis(ax, x.inner.ndim()));
+    let mut reshaped = None;
+    if let Some(w) = weights.filter(|w| w.inner.shape() != x.inner.shape()) {
+        let ax = match line {
+            Some(ax) if ax < x.inner.ndim() && w.inner.shape() == [x.inner.shape()[ax]] => ax,
+            _ => return Err(pyo3::exceptions::PyValueError::new_err(
+                "shape of weights must be consistent with shape of x along the axis"
+            )),
+        };
+        let mut shape = vec![1; x.inner.ndim()];
+        shape[ax] = x.inner.shape()[ax];
+        reshaped = w.inner.copy().reshape(shape).and_then(|r| r.broadcast_to(x.inner.shape())).map(PyRumpyArray::new);
+    }
+    let weights = reshaped.as_ref().or(weights);
     match axis {
         None => {
             let weights_inner = weights.map(|w| &w.inner);
-- 
2.43.0


From f59cdeb066d57b27287426b6f8113b675d77cd8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:58:18 +0000
Subject: [PATCH 57/69] fix: comparing string arrays compares the strings

---
 src/ops/ufunc.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/ops/ufunc.rs b/src/ops/ufunc.rs
index dc1645c..a9824eb 100644
--- a/src/ops/ufunc.rs
+++ b/src/ops/ufunc.rs
@@ -479,6 +479,18 @@ pub fn map_compare_op(a: &RumpyArray, b: &RumpyArray, op: ComparisonOp) -> Optio
         ).ok();
     }
 
+    if matches!((a.dtype().kind(), b.dtype().kind()), (DTypeKind::Str(_), DTypeKind::Str(_))) {
+        use super::char;
+        return match op {
+            ComparisonOp::Eq => char::equal(a, b),
+            ComparisonOp::Ne => char::not_equal(a, b),
+            ComparisonOp::Lt => char::less(a, b),
+            ComparisonOp::Le => char::less_equal(a, b),
+            ComparisonOp::Gt => char::greater(a, b),
+            ComparisonOp::Ge => char::greater_equal(a, b),
+        };
+    }
+
     // Promote to common dtype for comparison (like binary ops)
     let common_dtype = promote_dtype(&a.dtype(), &b.dtype());
     if a.dtype().is_integer() && b.dtype().is_integer() && !common_dtype.is_integer() {
-- 
2.43.0


From 82ced503a47a35007ba45615da10ab6f814de357 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:15 +0000
Subject: [PATCH 58/69] fix: ufuncs and operators reject string operands
 instead of returning empty or zero arrays

---
 src/python/pyarray/mod.rs |  5 +++++
 src/python/ufuncs.rs      | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/python/pyarray/mod.rs b/src/python/pyarray/mod.rs
index d29dca0..e0718bc 100644
--- a/src/python/pyarray/mod.rs
+++ b/src/python/pyarray/mod.rs
@@ -15,6 +15,7 @@ use pyo3::types::{PyDict, PyEllipsis, PyList, PySlice, PyString, PyTuple};
 use crate::array::{promote_dtype, DType, RumpyArray};
 use crate::ops::{map_binary_op_inplace, BinaryOp, ComparisonOp};
 use super::dtype::normalize_dtype_string;
+use super::ufuncs::require_arithmetic;
 
 /// Minimum array size (in elements) for temporary elision optimization.
 /// Arrays smaller than this won't have their buffers reused in-place.
@@ -1197,9 +1198,11 @@ fn binary_op_dispatch_with_elision(
     use crate::array::broadcast_shapes;
     use crate::ops::BinaryOpError;
 
+    require_arithmetic(arr)?;
     // Try array first
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
         let other_inner = &other_arr.inner;
+        require_arithmetic(other_inner)?;
 
         // Compute result shape and dtype for elision check
         let result_shape = broadcast_shapes(arr.shape(), other_inner.shape())
@@ -1239,9 +1242,11 @@ fn binary_op_dispatch(
     other: &Bound<'_, PyAny>,
     op: BinaryOp,
 ) -> PyResult<PyRumpyArray> {
+    require_arithmetic(arr)?;
     // Try array first
     if let Ok(other_arr) = other.extract::<PyRef<'_, PyRumpyArray>>() {
         use crate::ops::BinaryOpError;
+        require_arithmetic(&other_arr.inner)?;
         arr.binary_op(&other_arr.inner, op)
             .map(PyRumpyArray::new)
             .map_err(|e| match e {
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index c983bc8..fd23720 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -24,6 +24,18 @@ impl<'py> IntoPyObject<'py> for UnaryResult {
     }
 }
 
+/// Arithmetic is not defined on strings.
+pub(crate) fn require_arithmetic(arr: &RumpyArray) -> PyResult<()> {
+    use crate::array::dtype::DTypeKind;
+
+    match arr.dtype().kind() {
+        DTypeKind::Str(_) | DTypeKind::Bytes(_) => Err(pyo3::exceptions::PyTypeError::new_err(
+            "ufunc not supported for this dtype",
+        )),
+        _ => Ok(()),
+    }
+}
+
 /// Apply a unary ufunc to either scalar or array input.
 fn apply_unary<F, G>(x: &Bound<'_, PyAny>, scalar_op: F, array_op: G) -> PyResult<UnaryResult>
 where
@@ -32,6 +44,7 @@ where
 {
     // Try array first
     if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
+        require_arithmetic(&arr.inner)?;
         return array_op(&arr.inner)
             .map(|a| UnaryResult::Array(PyRumpyArray::new(a)))
             .map_err(|_| pyo3::exceptions::PyTypeError::new_err("ufunc not supported for this dtype"));
@@ -370,6 +383,7 @@ pub fn nan_to_num(
 /// Extract an operand of a binary ufunc: an array or a number.
 fn binary_operand(x: &Bound<'_, PyAny>) -> PyResult<RumpyArray> {
     if let Ok(arr) = x.extract::<PyRef<'_, PyRumpyArray>>() {
+        require_arithmetic(&arr.inner)?;
         Ok(arr.inner.clone())
     } else if let Ok(scalar) = x.extract::<f64>() {
         Ok(RumpyArray::full(vec![], scalar, DType::float64()))
-- 
2.43.0


From 8bfddc96c808897f4d677f30fd2d7fa0cf22a4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:01:27 +0000
Subject: [PATCH 59/69] fix: reshape function rejects negative dimensions
 instead of panicking

---
 src/python/shape.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/python/shape.rs b/src/python/shape.rs
index 1930dca..242db6c 100644
--- a/src/python/shape.rs
+++ b/src/python/shape.rs
@@ -51,6 +51,11 @@ pub fn reshape(a: &PyRumpyArray, newshape: &Bound<'_, pyo3::PyAny>) -> PyResult<
 
     // Handle -1 in shape (infer dimension)
     let total = a.inner.size();
+    if newshape.iter().any(|&x| x < -1) {
+        return Err(pyo3::exceptions::PyValueError::new_err(
+            "negative dimensions not allowed (except -1)"
+        ));
+    }
     let neg_one_count = newshape.iter().filter(|&&x| x == -1).count();
     if neg_one_count > 1 {
         return Err(pyo3::exceptions::PyValueError::new_err(
-- 
2.43.0


From 4c6e98e779d10c65d8f06fae26516a4409a427e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 60/69] fix: can_cast agrees with the promotion lattice for int
 to float/complex and for equiv

---
 src/python/dtype.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 20be57d..6fd7688 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -344,7 +344,7 @@ pub fn can_cast(from_dtype: &Bound<'_, PyAny>, to_dtype: &Bound<'_, PyAny>, cast
 
     match casting {
         "no" => Ok(from_dt == to_dt),
-        "equiv" => Ok(from_dt == to_dt || (from_dt.itemsize() == to_dt.itemsize())),
+        "equiv" => Ok(from_dt == to_dt),  // Only native byte order exists
         "safe" => Ok(can_cast_safe(&from_dt, &to_dt)),
         "same_kind" => Ok(can_cast_same_kind(&from_dt, &to_dt)),
         "unsafe" => Ok(true),  // Anything can cast unsafely
@@ -407,7 +407,7 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
     if (is_signed(&fk) || is_unsigned(&fk)) && is_float(&tk) {
         let from_bits = int_bits(&fk);
         return match tk {
-            Float64 => from_bits <= 32,  // float64 can exactly represent int32
+            Float64 => true,  // NumPy counts int64 to float64 as safe
             Float32 => from_bits <= 16,  // float32 can exactly represent int16
             Float16 => from_bits <= 8,   // float16 can exactly represent small ints
             _ => false,
@@ -416,7 +416,8 @@ fn can_cast_safe(from: &DType, to: &DType) -> bool {
 
     // Integer to complex
     if (is_signed(&fk) || is_unsigned(&fk)) && is_complex(&tk) {
-        return true;  // Complex can hold any integer
+        // Judged by the real part: complex64 exactly represents int16
+        return matches!(tk, Complex128) || int_bits(&fk) <= 16;
     }
 
     // Signed int to larger signed int
-- 
2.43.0


From 1142f5f24cbcfd135b87bff065558d21b7e407b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 61/69] fix: can_cast same_kind follows the kind hierarchy
 instead of allowing signed to unsigned and refusing int to float

---
 src/python/dtype.rs | 31 +++++++++++++------------------
 1 file changed, 13 insertions(+), 18 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 6fd7688..e1aec17 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -449,26 +449,21 @@ fn can_cast_same_kind(from: &DType, to: &DType) -> bool {
     let fk = from.kind();
     let tk = to.kind();
 
-    let is_int = |k: &DTypeKind| matches!(k, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64);
-    let is_float = |k: &DTypeKind| matches!(k, Float16 | Float32 | Float64);
-    let is_complex = |k: &DTypeKind| matches!(k, Complex64 | Complex128);
-
-    // Int to int (any direction)
-    if is_int(&fk) && is_int(&tk) {
-        return true;
-    }
-
-    // Float to float (any direction)
-    if is_float(&fk) && is_float(&tk) {
-        return true;
-    }
+    // Kinds form the chain bool < unsigned < signed < float < complex;
+    // sizes do not matter, but a cast may not go down the chain.
+    let rank = |k: &DTypeKind| match k {
+        Bool => Some(0),
+        Uint8 | Uint16 | Uint32 | Uint64 => Some(1),
+        Int8 | Int16 | Int32 | Int64 => Some(2),
+        Float16 | Float32 | Float64 => Some(3),
+        Complex64 | Complex128 => Some(4),
+        _ => None,
+    };
 
-    // Complex to complex (any direction)
-    if is_complex(&fk) && is_complex(&tk) {
-        return true;
+    match (rank(&fk), rank(&tk)) {
+        (Some(from_rank), Some(to_rank)) => from_rank <= to_rank,
+        _ => false,
     }
-
-    false
 }
 
 /// Find common type for array operands (returns scalar type for computations).
-- 
2.43.0


From 594425bcefc12f65d7e8e3abdf28ebfc7cc5d032 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 62/69] fix: issubdtype and isdtype categories contain the
 dtypes they name

---
 src/python/dtype.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index e1aec17..902a2dc 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -561,13 +561,15 @@ fn check_dtype_category(dt: &DType, category: &str) -> bool {
     let kind = dt.kind();
 
     match category {
-        "integer" | "signedinteger" | "int_" => matches!(kind, Int8 | Int16 | Int32 | Int64),
+        "integer" => matches!(kind, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64),
+        "signedinteger" | "int_" => matches!(kind, Int8 | Int16 | Int32 | Int64),
         "unsignedinteger" | "uint" => matches!(kind, Uint8 | Uint16 | Uint32 | Uint64),
         "floating" | "float_" => matches!(kind, Float16 | Float32 | Float64),
         "complexfloating" | "complex_" => matches!(kind, Complex64 | Complex128),
+        "inexact" => matches!(kind, Float16 | Float32 | Float64 | Complex64 | Complex128),
         "number" => matches!(kind, Int8 | Int16 | Int32 | Int64 | Uint8 | Uint16 | Uint32 | Uint64 |
                                    Float16 | Float32 | Float64 | Complex64 | Complex128),
-        "bool_" | "bool8" => matches!(kind, Bool),
+        "bool_" | "bool8" | "bool" => matches!(kind, Bool),
         "generic" => true,  // Everything is a subtype of generic
         _ => false,
     }
@@ -605,7 +607,7 @@ fn check_isdtype_kind(dt: &DType, kind: &Bound<'_, PyAny>) -> PyResult<bool> {
             "bool" => matches!(dtype_kind, Bool),
             "signed integer" => matches!(dtype_kind, Int8 | Int16 | Int32 | Int64),
             "unsigned integer" => matches!(dtype_kind, Uint8 | Uint16 | Uint32 | Uint64),
-            "integral" => matches!(dtype_kind, Bool | Int8 | Int16 | Int32 | Int64 |
+            "integral" => matches!(dtype_kind, Int8 | Int16 | Int32 | Int64 |
                                               Uint8 | Uint16 | Uint32 | Uint64),
             "real floating" => matches!(dtype_kind, Float16 | Float32 | Float64),
             "complex floating" => matches!(dtype_kind, Complex64 | Complex128),
-- 
2.43.0


From ef4b683aa146ad6a685aaf646764479eba9aeeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:42 +0000
Subject: [PATCH 63/69] fix: common_type keeps the precision of complex with
 double and of half floats

---
 src/python/dtype.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 902a2dc..8f83136 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -487,11 +487,11 @@ pub fn common_type(arrays: &Bound<'_, PyTuple>) -> PyResult<PyObject> {
         match dtype.kind() {
             DTypeKind::Complex128 => {
                 has_complex = true;
-                max_float_size = max_float_size.max(16);
+                max_float_size = max_float_size.max(8);
             }
             DTypeKind::Complex64 => {
                 has_complex = true;
-                max_float_size = max_float_size.max(8);
+                max_float_size = max_float_size.max(4);
             }
             DTypeKind::Float64 => {
                 max_float_size = max_float_size.max(8);
@@ -511,13 +511,13 @@ pub fn common_type(arrays: &Bound<'_, PyTuple>) -> PyResult<PyObject> {
 
     // Return the appropriate numpy dtype type
     let type_name = if has_complex {
-        if max_float_size >= 16 { "complex128" } else { "complex64" }
+        if max_float_size >= 8 { "complex128" } else { "complex64" }
     } else if max_float_size >= 8 {
         "float64"
     } else if max_float_size >= 4 {
         "float32"
     } else {
-        "float64"  // Default to float64
+        "float16"
     };
 
     // Return the type object (like numpy does)
-- 
2.43.0


From 3a435e96f980b2b13235007d7d1eb230f1abd98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:44 +0000
Subject: [PATCH 64/69] fix: result_type does not depend on the order of its
 arguments

---
 src/python/dtype.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/python/dtype.rs b/src/python/dtype.rs
index 8f83136..e297bfe 100644
--- a/src/python/dtype.rs
+++ b/src/python/dtype.rs
@@ -277,10 +277,17 @@ pub fn result_type(args: &Bound<'_, PyTuple>) -> PyResult<String> {
         ));
     }
 
+    // Inexact dtypes first: they absorb integers one by one, so the order of
+    // the arguments does not matter.
+    let mut dtypes = args.iter().map(|arg| extract_dtype_from_operand(&arg)).collect::<PyResult<Vec<_>>>()?;
+    dtypes.sort_by_key(|dt| {
+        use DTypeKind::*;
+        !matches!(dt.kind(), Float16 | Float32 | Float64 | Complex64 | Complex128)
+    });
+
     let mut result_dtype: Option<DType> = None;
 
-    for arg in args.iter() {
-        let dtype = extract_dtype_from_operand(&arg)?;
+    for dtype in dtypes {
         result_dtype = Some(match result_dtype {
             None => dtype,
             Some(current) => crate::array::dtype::promote_dtype(&current, &dtype),
-- 
2.43.0


From 5cf3851d77cb471c9c226f1ddb069be74c876046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 65/69] fix: nextafter steps toward the target for negative
 numbers and from zero

---
 src/ops/kernels/arithmetic.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 569af40..6e722ca 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -238,7 +238,9 @@ macro_rules! impl_float_arithmetic {
             fn apply(a: $T, b: $T) -> $T {
                 if a == b { b }
                 else if a.is_nan() || b.is_nan() { <$T>::NAN }
-                else if a < b { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
+                else if a == 0.0 { <$T>::from_bits(1).copysign(b) }
+                // The bit pattern counts the magnitude: up when moving away from zero
+                else if (a < b) == (a > 0.0) { <$T>::from_bits(a.to_bits().wrapping_add(1)) }
                 else { <$T>::from_bits(a.to_bits().wrapping_sub(1)) }
             }
         }
@@ -431,7 +433,9 @@ impl BinaryKernel<f16> for Nextafter {
     fn apply(a: f16, b: f16) -> f16 {
         if a == b { b }
         else if a.is_nan() || b.is_nan() { f16::NAN }
-        else if a < b { f16::from_bits(a.to_bits().wrapping_add(1)) }
+        else if a == f16::ZERO { f16::from_bits(1 | (b.to_bits() & 0x8000)) }
+        // The bit pattern counts the magnitude: up when moving away from zero
+        else if (a < b) == (a > f16::ZERO) { f16::from_bits(a.to_bits().wrapping_add(1)) }
         else { f16::from_bits(a.to_bits().wrapping_sub(1)) }
     }
 }
-- 
2.43.0


From 796259d5e6acc9475bc45d26e0f46cba02e3c16d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 66/69] fix: spacing of a negative number is the distance to
 its neighbour of larger magnitude

---
 src/ops/special.rs | 22 ++++++----------------
 1 file changed, 6 insertions(+), 16 deletions(-)

diff --git a/src/ops/special.rs b/src/ops/special.rs
index d538bf6..67fd6e1 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -139,14 +139,9 @@ fn spacing_f64(arr: &RumpyArray) -> RumpyArray {
     let src_ptr = arr.data_ptr() as *const f64;
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f64::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000_0000_0000 {
-            f64::from_bits(1)
-        } else {
-            f64::from_bits(x.to_bits().wrapping_sub(1))
-        };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
+        // The neighbour of larger magnitude
+        let next = if x == 0.0 { f64::from_bits(1) } else { f64::from_bits(x.to_bits().wrapping_add(1)) };
+        unsafe { *result_ptr.add(i) = next - x };
     }
     result
 }
@@ -165,14 +160,9 @@ fn spacing_f32(arr: &RumpyArray) -> RumpyArray {
     let src_ptr = arr.data_ptr() as *const f32;
     for i in 0..size {
         let x = unsafe { *src_ptr.add(i) };
-        let next = if x >= 0.0 {
-            f32::from_bits(x.to_bits().wrapping_add(1))
-        } else if x.to_bits() == 0x8000_0000 {
-            f32::from_bits(1)
-        } else {
-            f32::from_bits(x.to_bits().wrapping_sub(1))
-        };
-        unsafe { *result_ptr.add(i) = (next - x).abs() };
+        // The neighbour of larger magnitude
+        let next = if x == 0.0 { f32::from_bits(1) } else { f32::from_bits(x.to_bits().wrapping_add(1)) };
+        unsafe { *result_ptr.add(i) = next - x };
     }
     result
 }
-- 
2.43.0


From 61390d854315afdd2a2bc0b8161b5adeab5bd662 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 67/69] fix: ldexp scales in steps, so extreme exponents do not
 overflow or vanish

---
 src/ops/special.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/ops/special.rs b/src/ops/special.rs
index 67fd6e1..6d1388d 100644
--- a/src/ops/special.rs
+++ b/src/ops/special.rs
@@ -349,6 +349,21 @@ pub fn ldexp(x: &RumpyArray, i: &RumpyArray) -> RumpyArray {
     }
 }
 
+/// x * 2^n in steps whose factor neither overflows nor underflows.
+/// At least 61 powers are left for the last step down, so only that one rounds.
+fn scale_by_power<T: Float>(x: T, n: i32) -> T {
+    let (mut x, mut n) = (x, n.clamp(-4000, 4000));
+    while n > 120 {
+        x = x * T::TWO.powi(60);
+        n -= 60;
+    }
+    while n < -120 {
+        x = x / T::TWO.powi(60);
+        n += 60;
+    }
+    x * T::TWO.powi(n)
+}
+
 fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyArray {
     let size = x.size();
     if size == 0 {
@@ -370,7 +385,7 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
         }
         DTypeKind::Int64 => {
             let ptr = i.data_ptr() as *const i64;
-            (0..size).map(|idx| unsafe { *ptr.add(idx) as i32 }).collect()
+            (0..size).map(|idx| unsafe { (*ptr.add(idx)).clamp(i32::MIN as i64, i32::MAX as i64) as i32 }).collect()
         }
         _ => {
             // Fallback: use to_vec
@@ -380,7 +395,7 @@ fn ldexp_typed<T: Float>(x: &RumpyArray, i: &RumpyArray, dtype: DType) -> RumpyA
 
     for (idx, &iv) in i_vals.iter().enumerate() {
         let xv = unsafe { *x_ptr.add(idx) };
-        let y = xv * T::TWO.powi(iv);
+        let y = scale_by_power(xv, iv);
         unsafe { *result_ptr.add(idx) = y };
     }
     result
-- 
2.43.0


From f51bbe90cb27ad92e03c4732e7f251e4221152f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:17 +0000
Subject: [PATCH 68/69] fix: logaddexp and logaddexp2 propagate NaN next to
 infinity

---
 src/ops/kernels/arithmetic.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ops/kernels/arithmetic.rs b/src/ops/kernels/arithmetic.rs
index 6e722ca..7453399 100644
--- a/src/ops/kernels/arithmetic.rs
+++ b/src/ops/kernels/arithmetic.rs
@@ -222,6 +222,7 @@ macro_rules! impl_float_arithmetic {
         impl BinaryKernel<$T> for Logaddexp {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
+                if a.is_nan() || b.is_nan() { return <$T>::NAN; }
                 let max = a.max(b);
                 if max.is_infinite() { max } else { max + ((-((a - b).abs())).exp()).ln_1p() }
             }
@@ -229,6 +230,7 @@ macro_rules! impl_float_arithmetic {
         impl BinaryKernel<$T> for Logaddexp2 {
             #[inline(always)]
             fn apply(a: $T, b: $T) -> $T {
+                if a.is_nan() || b.is_nan() { return <$T>::NAN; }
                 let max = a.max(b);
                 if max.is_infinite() { max } else { max + (2.0 as $T).powf(-(a - b).abs()).ln_1p() / (2.0 as $T).ln() }
             }
@@ -415,6 +417,7 @@ impl BinaryKernel<f16> for Logaddexp {
     fn apply(a: f16, b: f16) -> f16 {
         let af = a.to_f32();
         let bf = b.to_f32();
+        if af.is_nan() || bf.is_nan() { return f16::NAN; }
         let max = af.max(bf);
         if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + ((-((af - bf).abs())).exp()).ln_1p()) }
     }
@@ -424,6 +427,7 @@ impl BinaryKernel<f16> for Logaddexp2 {
     fn apply(a: f16, b: f16) -> f16 {
         let af = a.to_f32();
         let bf = b.to_f32();
+        if af.is_nan() || bf.is_nan() { return f16::NAN; }
         let max = af.max(bf);
         if max.is_infinite() { f16::from_f32(max) } else { f16::from_f32(max + 2.0f32.powf(-(af - bf).abs()).ln_1p() / 2.0f32.ln()) }
     }
-- 
2.43.0


From 0a1a0c6e40893e1d1f9c381cfb69d82735eb69ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:39:07 +0000
Subject: [PATCH 69/69] fix: rint and round take halves to the even neighbour

---
 src/array/dtype/complex128.rs | 2 +-
 src/array/dtype/complex64.rs  | 2 +-
 src/array/dtype/float16.rs    | 2 +-
 src/array/dtype/macros.rs     | 2 +-
 src/ops/dispatch.rs           | 4 ++--
 src/ops/kernels/math.rs       | 6 +++---
 src/ops/mod.rs                | 2 +-
 src/python/ufuncs.rs          | 2 +-
 8 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/array/dtype/complex128.rs b/src/array/dtype/complex128.rs
index eb9d9b9..9a2674b 100644
--- a/src/array/dtype/complex128.rs
+++ b/src/array/dtype/complex128.rs
@@ -235,7 +235,7 @@ impl DTypeOps for Complex128Ops {
                 (mag * arg.cos(), mag * arg.sin())
             }
             UnaryOp::Trunc => (r.trunc(), i.trunc()),
-            UnaryOp::Rint => (r.round(), i.round()),
+            UnaryOp::Rint => (r.round_ties_even(), i.round_ties_even()),
             UnaryOp::Arcsinh => {
                 // arcsinh(z) = log(z + sqrt(z^2 + 1))
                 let z2_plus_1 = (r * r - i * i + 1.0, 2.0 * r * i);
diff --git a/src/array/dtype/complex64.rs b/src/array/dtype/complex64.rs
index 3b11d0f..c6a5faf 100644
--- a/src/array/dtype/complex64.rs
+++ b/src/array/dtype/complex64.rs
@@ -232,7 +232,7 @@ impl DTypeOps for Complex64Ops {
                 (mag * arg.cos(), mag * arg.sin())
             }
             UnaryOp::Trunc => (r.trunc(), i.trunc()),
-            UnaryOp::Rint => (r.round(), i.round()),
+            UnaryOp::Rint => (r.round_ties_even(), i.round_ties_even()),
             UnaryOp::Arcsinh => {
                 // arcsinh(z) = log(z + sqrt(z^2 + 1))
                 let z2_plus_1 = (r * r - i * i + 1.0, 2.0 * r * i);
diff --git a/src/array/dtype/float16.rs b/src/array/dtype/float16.rs
index 59581e3..72ddbf1 100644
--- a/src/array/dtype/float16.rs
+++ b/src/array/dtype/float16.rs
@@ -74,7 +74,7 @@ impl DTypeOps for Float16Ops {
             UnaryOp::Log1p => v.ln_1p(),
             UnaryOp::Cbrt => v.cbrt(),
             UnaryOp::Trunc => v.trunc(),
-            UnaryOp::Rint => v.round(),
+            UnaryOp::Rint => v.round_ties_even(),
             UnaryOp::Arcsinh => v.asinh(),
             UnaryOp::Arccosh => v.acosh(),
             UnaryOp::Arctanh => v.atanh(),
diff --git a/src/array/dtype/macros.rs b/src/array/dtype/macros.rs
index d76b032..f5a3607 100644
--- a/src/array/dtype/macros.rs
+++ b/src/array/dtype/macros.rs
@@ -76,7 +76,7 @@ macro_rules! impl_float_dtype {
                     UnaryOp::Log1p => v.ln_1p(),
                     UnaryOp::Cbrt => v.cbrt(),
                     UnaryOp::Trunc => v.trunc(),
-                    UnaryOp::Rint => v.round(),
+                    UnaryOp::Rint => v.round_ties_even(),
                     UnaryOp::Arcsinh => v.asinh(),
                     UnaryOp::Arccosh => v.acosh(),
                     UnaryOp::Arctanh => v.atanh(),
diff --git a/src/ops/dispatch.rs b/src/ops/dispatch.rs
index 71cbf39..95234e5 100644
--- a/src/ops/dispatch.rs
+++ b/src/ops/dispatch.rs
@@ -1492,13 +1492,13 @@ macro_rules! impl_round_float {
                 let src_slice = unsafe { std::slice::from_raw_parts(arr.data_ptr() as *const $T, size) };
                 let out_slice = unsafe { std::slice::from_raw_parts_mut(result_ptr, size) };
                 for i in 0..size {
-                    out_slice[i] = (src_slice[i] * scale).round() / scale;
+                    out_slice[i] = (src_slice[i] * scale).round_ties_even() / scale;
                 }
             } else {
                 let itemsize = std::mem::size_of::<$T>() as isize;
                 for (i, offset) in arr.iter_offsets().enumerate() {
                     let v = unsafe { *(arr.data_ptr() as *const $T).byte_offset(offset) };
-                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = (v * scale).round() / scale; }
+                    unsafe { *result_ptr.byte_offset(i as isize * itemsize) = (v * scale).round_ties_even() / scale; }
                 }
             }
 
diff --git a/src/ops/kernels/math.rs b/src/ops/kernels/math.rs
index 70f6c9b..cfe82f9 100644
--- a/src/ops/kernels/math.rs
+++ b/src/ops/kernels/math.rs
@@ -230,7 +230,7 @@ macro_rules! impl_float_math {
         }
         impl UnaryKernel<$T> for Rint {
             #[inline(always)]
-            fn apply(v: $T) -> $T { v.round() }
+            fn apply(v: $T) -> $T { v.round_ties_even() }
         }
         impl UnaryKernel<$T> for Arcsinh {
             #[inline(always)]
@@ -369,7 +369,7 @@ impl UnaryKernel<f16> for Trunc {
 }
 impl UnaryKernel<f16> for Rint {
     #[inline(always)]
-    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round()) }
+    fn apply(v: f16) -> f16 { f16::from_f32(v.to_f32().round_ties_even()) }
 }
 impl UnaryKernel<f16> for Arcsinh {
     #[inline(always)]
@@ -649,7 +649,7 @@ macro_rules! impl_complex_math {
         impl UnaryKernel<Complex<$F>> for Rint {
             #[inline(always)]
             fn apply(v: Complex<$F>) -> Complex<$F> {
-                Complex::new(v.re.round(), v.im.round())
+                Complex::new(v.re.round_ties_even(), v.im.round_ties_even())
             }
         }
         impl UnaryKernel<Complex<$F>> for Arcsinh {
diff --git a/src/ops/mod.rs b/src/ops/mod.rs
index a654667..4e7fb12 100644
--- a/src/ops/mod.rs
+++ b/src/ops/mod.rs
@@ -268,7 +268,7 @@ impl RumpyArray {
 
         for (i, offset) in self.iter_offsets().enumerate() {
             let val = unsafe { ops.read_f64(src_ptr, offset) }.unwrap_or(0.0);
-            let rounded = (val * scale).round() / scale;
+            let rounded = (val * scale).round_ties_even() / scale;
             unsafe { ops.write_f64(result_ptr, i, rounded); }
         }
 
diff --git a/src/python/ufuncs.rs b/src/python/ufuncs.rs
index fd23720..9cf6494 100644
--- a/src/python/ufuncs.rs
+++ b/src/python/ufuncs.rs
@@ -341,7 +341,7 @@ pub fn fix(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
 
 #[pyfunction]
 pub fn rint(x: &Bound<'_, PyAny>) -> PyResult<UnaryResult> {
-    apply_unary(x, |v| v.round(), |a| a.rint())
+    apply_unary(x, |v| v.round_ties_even(), |a| a.rint())
 }
 
 #[pyfunction]
-- 
2.43.0

