From efd228e1dfedbe67480321dcc4cb9650371297b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 01/67] fix: negative-step slice starting before the first
 element selects nothing

---
 rstsr-common/src/layout/indexer.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/indexer.rs b/rstsr-common/src/layout/indexer.rs
index fdb4ef9..b0a2c85 100644
--- a/rstsr-common/src/layout/indexer.rs
+++ b/rstsr-common/src/layout/indexer.rs
@@ -176,13 +176,14 @@ where
 
             // handle negative slice
             if start < 0 {
-                start = (len_prev + start).max(0);
+                // clipped at -1 (before the first element), then selects nothing
+                start = (len_prev + start).max(-1);
             }
             if stop < -1 {
                 stop = (len_prev + stop).max(-1);
             }
 
-            if stop > len_prev - 1 || stop > start {
+            if stop > len_prev - 1 || stop > start || start < 0 {
                 // zero size slice caused by inproper start and stop
                 start = 0;
                 stop = 0;
-- 
2.43.0


From 0743ff73d46f4826cb3a203ae05085f28c41b0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 02/67] fix: bound non-negative diagonal offsets by the number
 of columns

---
 rstsr-common/src/layout/layoutbase.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 9f82be2..1723f74 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -348,13 +348,14 @@ where
         // For a negative offset (sub-diagonal) the element is A[i + |k|, i], valid
         // while i + |k| < d1 (rows), i.e. |k| < d1, i.e. offset in (-d1, 0). Use
         // (-d1 + 1..0) so a non-square matrix with more rows than cols reaches its
-        // lower sub-diagonals (square matrices are unaffected, d1 == d2).
+        // lower sub-diagonals (square matrices are unaffected, d1 == d2). For a
+        // non-negative offset the element is A[i, i + k], valid while k < d2 (cols).
         let (offset_diag, d_diag) = if (-d1 + 1..0).contains(&offset) {
             let offset = -offset;
             let offset_diag = (self.offset() as isize + t1 * offset) as usize;
             let d_diag = (d1 - offset).min(d2) as usize;
             (offset_diag, d_diag)
-        } else if (0..d1).contains(&offset) {
+        } else if (0..d2).contains(&offset) {
             let offset_diag = (self.offset() as isize + t2 * offset) as usize;
             let d_diag = (d2 - offset).min(d1) as usize;
             (offset_diag, d_diag)
-- 
2.43.0


From ab49ccdd529c2f5553df38333e97d4fc38335fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:51 +0000
Subject: [PATCH 03/67] fix: an axis of one element with stride zero is not
 broadcasted

---
 rstsr-common/src/layout/broadcast.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/broadcast.rs b/rstsr-common/src/layout/broadcast.rs
index c348410..7e01240 100644
--- a/rstsr-common/src/layout/broadcast.rs
+++ b/rstsr-common/src/layout/broadcast.rs
@@ -267,9 +267,12 @@ where
 
     /// Check whether current layout has been broadcasted.
     ///
-    /// This check is done by checking whether any stride of axis is zero.
+    /// This check is done by checking whether any stride of axis is zero, while that axis has more
+    /// than one element (axes of one element, and layouts without elements, repeat nothing).
     pub fn is_broadcasted(&self) -> bool {
-        self.stride().as_ref().contains(&0)
+        let shape = self.shape().as_ref();
+        let stride = self.stride().as_ref();
+        self.size() > 0 && shape.iter().zip(stride).any(|(&n, &t)| n > 1 && t == 0)
     }
 }
 
-- 
2.43.0


From 3bb72fcdfb239b57edfa63e6c4ff39ff0f4661f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 04/67] fix: signbit reports the sign bit instead of its
 complement

---
 rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs | 2 +-
 rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
index 5bf2e0d..255d365 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
index 5712062..3241689 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_common.rs
@@ -94,7 +94,7 @@ where
 
 #[duplicate_item(
      OpAPI           NumTrait       func                         ;
-    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_positive()); } ];
+    [OpSignBitAPI ] [Signed      ] [|a, b| { a.write(b.is_negative()); } ];
     [OpIsFiniteAPI] [ComplexFloat] [|a, b| { a.write(b.is_finite()  ); } ];
     [OpIsInfAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_infinite()); } ];
     [OpIsNanAPI   ] [ComplexFloat] [|a, b| { a.write(b.is_nan()     ); } ];
-- 
2.43.0


From 2c09ee8dadd7400be47e218fd2215c5f62804080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:11 +0000
Subject: [PATCH 05/67] fix: into_owned and into_shared never keep a broadcast
 layout

---
 rstsr-core/src/tensor/ownership_conversion.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/ownership_conversion.rs b/rstsr-core/src/tensor/ownership_conversion.rs
index b8c47e4..50d0782 100644
--- a/rstsr-core/src/tensor/ownership_conversion.rs
+++ b/rstsr-core/src/tensor/ownership_conversion.rs
@@ -95,7 +95,8 @@ where
 {
     pub fn into_owned(self) -> Tensor<T, B, D> {
         let (idx_min, idx_max) = self.layout().bounds_index().rstsr_unwrap();
-        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() {
+        let dense = idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size();
+        if dense && !self.layout().is_broadcasted() {
             return self.into_owned_keep_layout();
         } else {
             return asarray((&self, TensorIterOrder::K));
@@ -104,7 +105,8 @@ where
 
     pub fn into_shared(self) -> TensorArc<T, B, D> {
         let (idx_min, idx_max) = self.layout().bounds_index().rstsr_unwrap();
-        if idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size() {
+        let dense = idx_min == 0 && idx_max == self.storage().len() && idx_max == self.layout().size();
+        if dense && !self.layout().is_broadcasted() {
             return self.into_shared_keep_layout();
         } else {
             return asarray((&self, TensorIterOrder::K)).into_shared();
-- 
2.43.0


From 6646a3107a7e395b2fe1f511c191096662957284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 06/67] fix: reductions over axes of broadcast and empty arrays

The multiplicity of broadcast reduced axes was looked up in the shape of the
remaining axes, kept broadcast axes broke the contiguity of the output and
misplaced results by the input's offset, and empty arrays read out of bounds.
---
 rstsr-native-impl/src/cpu_rayon/reduction.rs  | 18 ++++++++-------
 rstsr-native-impl/src/cpu_serial/reduction.rs | 23 ++++++++++++-------
 2 files changed, 25 insertions(+), 16 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index 3182a57..fb38ec1 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -149,17 +149,19 @@ where
     // summed axes are used together with remaining axes, where offset of layout may double-counted.
     let offset = la.offset();
 
-    // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
-    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
-
     // extract contiguous part and its corresponding dimensions
     // returns: remaining layout, remaining axes loc, contiguous size, contiguous axes loc
     let (_as1, as0, asc, asd) = get_axes_composition(&ls);
-    let (_am1, am0, amc, amd) = get_axes_composition(&lm);
+    let (am1, am0, amc, amd) = get_axes_composition(&lm);
+
+    // create output layout: contiguous part of input must also be contiguous in output, so the broadcast
+    // axes come after the contiguous and discontiguous parts
+    let axes_o = amc.iter().chain(&amd).chain(&am0).chain(&am1).map(|&i| i as isize).collect_vec();
+    let lo = lm.transpose(&axes_o)?.shape().f().transpose(&reversed_permute(&axes_o))?;
+    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -290,10 +292,10 @@ where
 
             it_o0.for_each(|idx_o0| {
                 it_ocd.clone().for_each(|idx_ocd| {
-                    let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                    let idx_o0 = idx_o0 + idx_ocd; // offset of output layout is zero
 
                     // Safety: the c/d part without broadcast should have been initialized by reduced value
-                    let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                    let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                     out[idx_o0].write(val);
                 });
             });
diff --git a/rstsr-native-impl/src/cpu_serial/reduction.rs b/rstsr-native-impl/src/cpu_serial/reduction.rs
index 3c5b6ee..dc5e932 100644
--- a/rstsr-native-impl/src/cpu_serial/reduction.rs
+++ b/rstsr-native-impl/src/cpu_serial/reduction.rs
@@ -213,17 +213,24 @@ where
     // summed axes are used together with remaining axes, where offset of layout may double-counted.
     let offset = la.offset();
 
-    // create output layout
-    let lo = layout_for_array_copy(&lm, TensorIterOrder::K)?;
-    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
-
     // extract contiguous part and its corresponding dimensions
     // returns: remaining layout, remaining axes loc, contiguous size, contiguous axes loc
     let (_as1, as0, asc, asd) = get_axes_composition(&ls);
-    let (_am1, am0, amc, amd) = get_axes_composition(&lm);
+    let (am1, am0, amc, amd) = get_axes_composition(&lm);
+
+    // create output layout: contiguous part of input must also be contiguous in output, so the broadcast
+    // axes come after the contiguous and discontiguous parts
+    let axes_o = amc.iter().chain(&amd).chain(&am0).chain(&am1).map(|&i| i as isize).collect_vec();
+    let lo = lm.transpose(&axes_o)?.shape().f().transpose(&reversed_permute(&axes_o))?;
+    // empty input: nothing to be reduced, output (if any) is the initial value
+    if la.size() == 0 {
+        let out = (0..lo.size()).map(|_| f_out(init())).collect_vec();
+        return Ok((out, lo));
+    }
+    let mut out: Vec<MaybeUninit<TO>> = unsafe { uninitialized_vec(lo.size())? };
 
     // get some specific sizes of different parts
-    let size_s0 = as0.iter().map(|&i| lm.shape()[i]).product::<usize>();
+    let size_s0 = as0.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_sc = asc.iter().map(|&i| ls.shape()[i]).product::<usize>();
     let size_m0 = am0.iter().map(|&i| lm.shape()[i]).product::<usize>();
     let size_mc = amc.iter().map(|&i| lm.shape()[i]).product::<usize>();
@@ -339,10 +346,10 @@ where
 
         it_o0.for_each(|idx_o0| {
             it_ocd.clone().for_each(|idx_ocd| {
-                let idx_o0 = idx_o0 + idx_ocd - offset; // double-counted offset
+                let idx_o0 = idx_o0 + idx_ocd; // offset of output layout is zero
 
                 // Safety: the c/d part without broadcast should have been initialized by reduced value
-                let val = unsafe { out[idx_ocd].assume_init_read().clone() };
+                let val = unsafe { out[idx_ocd].assume_init_ref().clone() };
                 out[idx_o0].write(val);
             });
         });
-- 
2.43.0


From 7a13993f5d4ce9a821ad583c86012937488e566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:08 +0000
Subject: [PATCH 07/67] fix: minimum and maximum of floats start from the
 infinities

Reducing elements that are all infinite returned the largest finite number.
---
 rstsr-dtype-traits/src/ext_real.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/rstsr-dtype-traits/src/ext_real.rs b/rstsr-dtype-traits/src/ext_real.rs
index 6cb9f8e..919deec 100644
--- a/rstsr-dtype-traits/src/ext_real.rs
+++ b/rstsr-dtype-traits/src/ext_real.rs
@@ -14,7 +14,7 @@ pub trait ExtReal: Clone {
     /// std library of rust).
     fn ext_min(self, other: Self) -> Self;
 
-    /// The minimum value that can be represented by this type.
+    /// The minimum value that can be represented by this type (negative infinity for floats).
     fn ext_min_value() -> Self;
 
     /// Returns the maximum of two numbers.
@@ -25,7 +25,7 @@ pub trait ExtReal: Clone {
     /// std library of rust).
     fn ext_max(self, other: Self) -> Self;
 
-    /// The maximum value that can be represented by this type.
+    /// The maximum value that can be represented by this type (positive infinity for floats).
     fn ext_max_value() -> Self;
 }
 
@@ -76,13 +76,13 @@ impl ExtReal for T {
         T::min(self, other)
     }
     fn ext_min_value() -> Self {
-        Self::MIN
+        Self::NEG_INFINITY
     }
     fn ext_max(self, other: Self) -> Self {
         T::max(self, other)
     }
     fn ext_max_value() -> Self {
-        Self::MAX
+        Self::INFINITY
     }
 }
 
@@ -96,12 +96,12 @@ impl ExtReal for T {
         T::min(self, other)
     }
     fn ext_min_value() -> Self {
-        Self::MIN
+        Self::NEG_INFINITY
     }
     fn ext_max(self, other: Self) -> Self {
         T::max(self, other)
     }
     fn ext_max_value() -> Self {
-        Self::MAX
+        Self::INFINITY
     }
 }
-- 
2.43.0


From d07d5d4f13ec271ed45db377c7dce4ad8e514b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:52:35 +0000
Subject: [PATCH 08/67] fix: variance is never negative and standard deviation
 never NaN by rounding

Rounding in mean of squares minus squared mean gave slightly negative
variances, hence NaN standard deviations, for (nearly) constant elements.
---
 rstsr-core/src/device_cpu_serial/reduction.rs | 30 ++++++++++++++++---
 .../src/feature_rayon/auto_impl/reduction.rs  | 30 ++++++++++++++++---
 2 files changed, 52 insertions(+), 8 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/reduction.rs b/rstsr-core/src/device_cpu_serial/reduction.rs
index 675d456..af2da95 100644
--- a/rstsr-core/src/device_cpu_serial/reduction.rs
+++ b/rstsr-core/src/device_cpu_serial/reduction.rs
@@ -201,7 +201,13 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var
+            }
         };
 
         let result = reduce_all_cpu_serial(a, la, f_init, f, f_sum, f_out)?;
@@ -224,7 +230,13 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var
+            }
         };
 
         let (out, layout_out) = reduce_axes_cpu_serial(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out)?;
@@ -252,7 +264,12 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var.sqrt()
+            }
         };
 
         let result = reduce_all_cpu_serial(a, la, f_init, f, f_sum, f_out)?;
@@ -276,7 +293,12 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var.sqrt()
+            }
         };
 
         let (out, layout_out) = reduce_axes_cpu_serial(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out)?;
diff --git a/rstsr-core/src/feature_rayon/auto_impl/reduction.rs b/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
index 793fcd2..dc94fe7 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/reduction.rs
@@ -224,7 +224,13 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var
+            }
         };
 
         let result = reduce_all_cpu_rayon(a, la, f_init, f, f_sum, f_out, pool)?;
@@ -249,7 +255,13 @@ where
             let size_1 = T::from_usize(size).unwrap();
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
-            acc_2 / size_2 - (mean * mean.conj()).re()
+            let var = acc_2 / size_2 - (mean * mean.conj()).re();
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var
+            }
         };
 
         let (out, layout_out) = reduce_axes_cpu_rayon(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out, pool)?;
@@ -279,7 +291,12 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var.sqrt()
+            }
         };
 
         let result = reduce_all_cpu_rayon(a, la, f_init, f, f_sum, f_out, pool)?;
@@ -305,7 +322,12 @@ where
             let size_2 = T::Real::from_usize(size).unwrap();
             let mean = acc_1 / size_1;
             let var = acc_2 / size_2 - (mean * mean.conj()).re();
-            var.sqrt()
+            // rounding error may give a slightly negative value
+            if var < T::Real::zero() {
+                T::Real::zero()
+            } else {
+                var.sqrt()
+            }
         };
 
         let (out, layout_out) = reduce_axes_cpu_rayon(a, &la.to_dim()?, axes, f_init, f, f_sum, f_out, pool)?;
-- 
2.43.0


From c0244af225aae9a6e73352e5c8c3976724c328a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:57:19 +0000
Subject: [PATCH 09/67] fix: multi-axis arg-reductions on the pool keep the
 order of the listed axes

Above the parallel threshold the reduced axes were reordered by stride, so the
reported position (flat or multi-index) did not refer to the requested axes.
---
 rstsr-native-impl/src/cpu_rayon/reduction.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/reduction.rs b/rstsr-native-impl/src/cpu_rayon/reduction.rs
index fb38ec1..8e43d42 100644
--- a/rstsr-native-impl/src/cpu_rayon/reduction.rs
+++ b/rstsr-native-impl/src/cpu_rayon/reduction.rs
@@ -533,7 +533,6 @@ where
 
     // split the layout into axes (to be summed) and the rest
     let (layout_axes, layout_rest) = la.dim_split_axes(axes)?;
-    let layout_axes = translate_to_col_major_unary(&layout_axes, TensorIterOrder::default())?;
 
     // generate layout for result (from layout_rest)
     let layout_out = layout_for_array_copy(&layout_rest, TensorIterOrder::default())?;
@@ -570,9 +569,9 @@ where
     };
     let out = unsafe { transmute::<Vec<MaybeUninit<IxD>>, Vec<IxD>>(out) };
     // returns (indices, layout_axes, layout_out): each index in `out` is an
-    // unraveled position within `layout_axes` (the reduced-axes space, possibly
-    // greedy-reordered by `translate_to_col_major_unary`), *not* within
-    // `layout_out`. Callers that ravel the indices must use `layout_axes.shape()`.
+    // unraveled position within `layout_axes` (the reduced-axes space), *not*
+    // within `layout_out`. Callers that ravel the indices must use
+    // `layout_axes.shape()`.
     Ok((out, layout_axes, layout_out))
 }
 
-- 
2.43.0


From de36c519f015905b3649b498d867bd228f39b031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 10/67] fix: naive matmul ignores uninitialised output and
 writes inner dot at its offset

---
 .../src/device_cpu_serial/linalg/matmul.rs    |  3 +-
 rstsr-core/src/tensor/linalg/matmul.rs        |  8 ++++-
 .../src/cpu_rayon/matmul_naive.rs             |  5 +--
 .../src/cpu_serial/matmul_naive.rs            | 33 +++++++++++++------
 4 files changed, 35 insertions(+), 14 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
index 40e4e0a..fa187d3 100644
--- a/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
+++ b/rstsr-core/src/device_cpu_serial/linalg/matmul.rs
@@ -3,6 +3,7 @@
 //! **This implementation is not optimized!**
 
 use core::ops::{Add, Mul};
+use num::Zero;
 
 use crate::prelude_dev::*;
 
@@ -16,7 +17,7 @@ where
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
     TB: Mul<TA, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
     Self: DeviceAPI<TA, Raw = Vec<TA>> + DeviceAPI<TB, Raw = Vec<TB>> + DeviceAPI<TC, Raw = Vec<TC>>,
 {
     fn matmul(
diff --git a/rstsr-core/src/tensor/linalg/matmul.rs b/rstsr-core/src/tensor/linalg/matmul.rs
index 795ad7a..4a0196c 100644
--- a/rstsr-core/src/tensor/linalg/matmul.rs
+++ b/rstsr-core/src/tensor/linalg/matmul.rs
@@ -91,7 +91,13 @@ where
     let default_order = a.device().default_order();
     let cfg = LayoutMatMulConfig::<DA, DB>::layout_matmul(a.layout(), b.layout(), default_order)?;
     let lc = cfg.lc;
-    let mut c: Tensor<TC, B, _> = unsafe { empty((lc, a.device())) }.into_dim_f()?;
+    // elements that have destructors are overwritten by the kernels, so they must be initialized
+    let mut c: Tensor<TC, B, _> = if core::mem::needs_drop::<TC>() {
+        let data = (0..lc.size()).map(|_| TC::zero()).collect();
+        Tensor::new_f(a.device().outof_cpu_vec(data)?, lc)?
+    } else {
+        unsafe { empty((lc, a.device())) }.into_dim_f()?
+    };
     op_mutc_refa_refb_matmul(&mut c, &a, &b, alpha, TC::zero())?;
     return Ok(c);
 }
diff --git a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
index 828661a..68291dd 100644
--- a/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_rayon/matmul_naive.rs
@@ -4,6 +4,7 @@
 //! This implementation should not be efficient. It is just for non-blas
 //! compatible types, or as reference implementation.
 
+use crate::cpu_serial::matmul_naive::scale_output;
 use crate::prelude_dev::*;
 use core::ops::{Add, Mul};
 use num::Zero;
@@ -39,7 +40,7 @@ where
         (0..n).into_par_iter().for_each(|j| {
             (0..m).into_par_iter().for_each(|i| unsafe {
                 let ptr_c = c.as_ptr().offset(lc.index_uncheck(&[i, j])) as *mut TC;
-                *ptr_c = (*ptr_c).clone() * beta.clone()
+                *ptr_c = scale_output(&beta, &*ptr_c)
                     + (0..k).fold(TC::zero(), |acc, p| {
                         let val_a = a[la.index_uncheck(&[i, p]) as usize].clone();
                         let val_b = b[lb.index_uncheck(&[p, j]) as usize].clone();
@@ -88,6 +89,6 @@ where
             .unwrap_or(TC::zero())
     };
     let c_innerdot = pool.map_or_else(task, |pool| pool.install(task));
-    *c = c_innerdot * alpha + c.clone() * beta;
+    *c = c_innerdot * alpha + scale_output(&beta, c);
     Ok(())
 }
diff --git a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
index 95e805c..ef3ed49 100644
--- a/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
+++ b/rstsr-native-impl/src/cpu_serial/matmul_naive.rs
@@ -4,6 +4,19 @@
 
 use crate::prelude_dev::*;
 use core::ops::{Add, Mul};
+use num::Zero;
+
+/// `beta * c`, where former contents of `c` (may be NaN or Inf) are ignored if `beta` is zero.
+pub(crate) fn scale_output<TC>(beta: &TC, c: &TC) -> TC
+where
+    TC: Clone + Mul<TC, Output = TC> + Zero,
+{
+    if beta.is_zero() {
+        TC::zero()
+    } else {
+        beta.clone() * c.clone()
+    }
+}
 
 #[allow(clippy::too_many_arguments)]
 pub fn matmul_naive_cpu_serial<TA, TB, TC, DA, DB, DC>(
@@ -24,7 +37,7 @@ where
     DB: DimAPI,
     DC: DimAPI,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // NOTE: this only works for row-major layout
     // for column-major layout, we need to transpose the input:
@@ -90,7 +103,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -106,7 +119,7 @@ where
         for i_m in 0..m {
             for i_n in 0..n {
                 let idx_c = lc.index_uncheck(&[i_m, i_n]) as usize;
-                c[idx_c] = beta.clone() * c[idx_c].clone();
+                c[idx_c] = scale_output(&beta, &c[idx_c]);
             }
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_m, i_k]) as usize;
@@ -137,7 +150,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -151,7 +164,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = scale_output(&beta, &c[idx_c]);
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_n, i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k]) as usize;
@@ -178,7 +191,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sc = lc.shape();
@@ -192,7 +205,7 @@ where
     unsafe {
         for i_n in 0..n {
             let idx_c = lc.index_uncheck(&[i_n]) as usize;
-            c[idx_c] = beta.clone() * c[idx_c].clone();
+            c[idx_c] = scale_output(&beta, &c[idx_c]);
             for i_k in 0..k {
                 let idx_a = la.index_uncheck(&[i_k]) as usize;
                 let idx_b = lb.index_uncheck(&[i_k, i_n]) as usize;
@@ -219,7 +232,7 @@ where
     TB: Clone,
     TC: Clone,
     TA: Mul<TB, Output = TC>,
-    TC: Mul<TC, Output = TC> + Add<TC, Output = TC>,
+    TC: Mul<TC, Output = TC> + Add<TC, Output = TC> + Zero,
 {
     // shape check
     let sa = la.shape();
@@ -230,13 +243,13 @@ where
     // naive iteration
     unsafe {
         let idx_c = lc.index_uncheck(&[]) as usize;
-        let mut sum = beta * c[idx_c].clone();
+        let mut sum = scale_output(&beta, &c[idx_c]);
         for i in 0..n {
             let idx_a = la.index_uncheck(&[i]) as usize;
             let idx_b = lb.index_uncheck(&[i]) as usize;
             sum = sum + alpha.clone() * (a[idx_a].clone() * b[idx_b].clone());
         }
-        c[0] = sum;
+        c[idx_c] = sum;
     }
     Ok(())
 }
-- 
2.43.0


From 55beb3dd6d66d79216b5d109c35f09437d116890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:07 +0000
Subject: [PATCH 11/67] fix: stacks of matrices with different numbers of batch
 axes broadcast in matmul

---
 rstsr-common/src/layout/matmul.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/matmul.rs b/rstsr-common/src/layout/matmul.rs
index 9731e12..bc8e2a1 100644
--- a/rstsr-common/src/layout/matmul.rs
+++ b/rstsr-common/src/layout/matmul.rs
@@ -397,8 +397,8 @@ pub fn layout_matmul_dyn_row_major_with_lc(
         },
         (3.., 3..) => {
             // rule 7: | `..., M, K` | `..., K, N` | `..., M, N` |
-            rstsr_assert_eq!(na, nc, InvalidLayout)?;
-            rstsr_assert_eq!(nb, nc, InvalidLayout)?;
+            // batch dims of A and B may differ in number, since they broadcast
+            rstsr_assert_eq!(na.max(nb), nc, InvalidLayout)?;
             let (la_r, la_m) = la.dim_split_at(-2)?;
             let (lb_r, lb_m) = lb.dim_split_at(-2)?;
             let (lc_r, lc_m) = lc.dim_split_at(-2)?;
-- 
2.43.0


From 03f95ae600cd3a195cbdc794668094dff9becbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 12/67] fix: vecdot over empty axes or with empty result does
 not slice out of range

---
 rstsr-native-impl/src/cpu_rayon/vecdot.rs  | 7 ++++++-
 rstsr-native-impl/src/cpu_serial/vecdot.rs | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/vecdot.rs b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
index b158a00..ffc4b3b 100644
--- a/rstsr-native-impl/src/cpu_rayon/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_rayon/vecdot.rs
@@ -48,6 +48,11 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // nothing to compute
+    if lc.size() == 0 {
+        return Ok(());
+    }
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
@@ -60,7 +65,7 @@ where
             break;
         }
     }
-    let flag_contig_s = !asc.is_empty();
+    let flag_contig_s = !asc.is_empty() && las.size() != 0;
     // - flag_contig_m: remaining part have contiguous memory access pattern
     let mut amc = vec![]; // [a]xes re[m]aining [c]ontig
     let (_, _, amc_a, _) = get_axes_composition(&lam);
diff --git a/rstsr-native-impl/src/cpu_serial/vecdot.rs b/rstsr-native-impl/src/cpu_serial/vecdot.rs
index c5b8a34..2facbbd 100644
--- a/rstsr-native-impl/src/cpu_serial/vecdot.rs
+++ b/rstsr-native-impl/src/cpu_serial/vecdot.rs
@@ -40,6 +40,11 @@ where
     let (lc_b, lbm) = broadcast_layout_to_first(&lc_b, &lbm, order)?;
     rstsr_assert_eq!(lc_b, lc, InvalidLayout, "layout of c seems not broadcasted from a or b after axis sum")?;
 
+    // nothing to compute
+    if lc.size() == 0 {
+        return Ok(());
+    }
+
     // accelarate flags generation
     // - flag_contig_s: summed part have contiguous memory access pattern
     let mut asc = vec![]; // [a]xes [s]ummed [c]ontig
@@ -52,7 +57,7 @@ where
             break;
         }
     }
-    let flag_contig_s = !asc.is_empty();
+    let flag_contig_s = !asc.is_empty() && las.size() != 0;
     // - flag_contig_m: remaining part have contiguous memory access pattern
     let mut amc = vec![]; // [a]xes re[m]aining [c]ontig
     let (_, _, amc_a, _) = get_axes_composition(&lam);
-- 
2.43.0


From ddef563b4a1901aa2144f32e397b690a9b72ec2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:09 +0000
Subject: [PATCH 13/67] fix: BLAS matmul keeps beta for strided outputs and
 empty contraction

---
 crates-device/rstsr-aocl/src/matmul_impl.rs     | 10 +++++++---
 crates-device/rstsr-blis/src/matmul_impl.rs     | 10 +++++++---
 crates-device/rstsr-kml/src/matmul_impl.rs      | 10 +++++++---
 crates-device/rstsr-mkl/src/matmul_impl.rs      | 10 +++++++---
 crates-device/rstsr-openblas/src/matmul_impl.rs | 10 +++++++---
 5 files changed, 35 insertions(+), 15 deletions(-)

diff --git a/crates-device/rstsr-aocl/src/matmul_impl.rs b/crates-device/rstsr-aocl/src/matmul_impl.rs
index aaeae1b..bc0f1ae 100644
--- a/crates-device/rstsr-aocl/src/matmul_impl.rs
+++ b/crates-device/rstsr-aocl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * c remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        let c = unsafe { core::slice::from_raw_parts_mut(c.as_mut_ptr() as *mut MaybeUninit<ty>, c.len()) };
+        return op_muta_numb_func_cpu_rayon(c, lc, beta, &mut |vc, vb| unsafe { *vc.assume_init_mut() *= *vb }, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-blis/src/matmul_impl.rs b/crates-device/rstsr-blis/src/matmul_impl.rs
index aaeae1b..bc0f1ae 100644
--- a/crates-device/rstsr-blis/src/matmul_impl.rs
+++ b/crates-device/rstsr-blis/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * c remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        let c = unsafe { core::slice::from_raw_parts_mut(c.as_mut_ptr() as *mut MaybeUninit<ty>, c.len()) };
+        return op_muta_numb_func_cpu_rayon(c, lc, beta, &mut |vc, vb| unsafe { *vc.assume_init_mut() *= *vb }, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-kml/src/matmul_impl.rs b/crates-device/rstsr-kml/src/matmul_impl.rs
index aaeae1b..bc0f1ae 100644
--- a/crates-device/rstsr-kml/src/matmul_impl.rs
+++ b/crates-device/rstsr-kml/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * c remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        let c = unsafe { core::slice::from_raw_parts_mut(c.as_mut_ptr() as *mut MaybeUninit<ty>, c.len()) };
+        return op_muta_numb_func_cpu_rayon(c, lc, beta, &mut |vc, vb| unsafe { *vc.assume_init_mut() *= *vb }, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-mkl/src/matmul_impl.rs b/crates-device/rstsr-mkl/src/matmul_impl.rs
index aaeae1b..bc0f1ae 100644
--- a/crates-device/rstsr-mkl/src/matmul_impl.rs
+++ b/crates-device/rstsr-mkl/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * c remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        let c = unsafe { core::slice::from_raw_parts_mut(c.as_mut_ptr() as *mut MaybeUninit<ty>, c.len()) };
+        return op_muta_numb_func_cpu_rayon(c, lc, beta, &mut |vc, vb| unsafe { *vc.assume_init_mut() *= *vb }, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
diff --git a/crates-device/rstsr-openblas/src/matmul_impl.rs b/crates-device/rstsr-openblas/src/matmul_impl.rs
index 211def8..10cee66 100644
--- a/crates-device/rstsr-openblas/src/matmul_impl.rs
+++ b/crates-device/rstsr-openblas/src/matmul_impl.rs
@@ -56,7 +56,7 @@ pub fn fn_name(
             } else {
                 assign_cpu_rayon(&mut c_new, &lc_new, c, lc, pool)?;
             }
-            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, <ty>::ZERO, pool)?;
+            fn_name(&mut c_new, &lc_new, a, la, b, lb, alpha, beta, pool)?;
             assign_cpu_rayon(c, lc, &c_new, &lc_new, pool)?;
             return Ok(());
         }
@@ -76,8 +76,12 @@ pub fn fn_name(
 
     // handle the special case that k is zero-dimensional
     if k == 0 {
-        // if k is zero, the result is a zero matrix
-        return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        // if k is zero, the product is a zero matrix, and only beta * c remains
+        if beta == <ty>::ZERO {
+            return fill_cpu_rayon(c, lc, <ty>::ZERO, pool);
+        }
+        let c = unsafe { core::slice::from_raw_parts_mut(c.as_mut_ptr() as *mut MaybeUninit<ty>, c.len()) };
+        return op_muta_numb_func_cpu_rayon(c, lc, beta, &mut |vc, vb| unsafe { *vc.assume_init_mut() *= *vb }, pool);
     }
 
     // handle the special case that n/m is zero-dimensional
-- 
2.43.0


From d10084cc2ca029a639c5886a440f928c90a59cea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 14/67] fix: triu of a matrix with more rows than columns stays
 inside the rows

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index ec46cfe..10c41f0 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -573,9 +573,9 @@ pub fn triu_ix2_cpu_serial<T>(raw: &mut [T], layout: &Layout<Ix2>, k: isize) ->
 where
     T: Num + Clone,
 {
-    let [nrow, _] = *layout.shape();
+    let [nrow, ncol] = *layout.shape();
     for i in 0..nrow {
-        let j_end = (i as isize + k).max(0) as usize;
+        let j_end = ((i as isize + k).max(0) as usize).min(ncol);
         for j in 0..j_end {
             unsafe {
                 raw[layout.index_uncheck(&[i, j]) as usize] = T::zero();
-- 
2.43.0


From 032fa744b830628cfa051de46c9ba6b2c0b15ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:02 +0000
Subject: [PATCH 15/67] fix: assigning an empty array with a large offset does
 not slice out of range

---
 rstsr-native-impl/src/cpu_serial/assignment.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/assignment.rs b/rstsr-native-impl/src/cpu_serial/assignment.rs
index a6f7e22..2c92dce 100644
--- a/rstsr-native-impl/src/cpu_serial/assignment.rs
+++ b/rstsr-native-impl/src/cpu_serial/assignment.rs
@@ -36,6 +36,10 @@ where
     DC: DimAPI,
     DA: DimAPI,
 {
+    // nothing to assign (the offset of an empty layout may lie outside the data)
+    if lc.size() == 0 && la.size() == 0 {
+        return Ok(());
+    }
     let contig = match order {
         RowMajor => lc.c_contig() && la.c_contig(),
         ColMajor => lc.f_contig() && la.f_contig(),
-- 
2.43.0


From cdfb85b5c0cacf083d87a2b61ae1318f0318694b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:47 +0000
Subject: [PATCH 16/67] fix: BLAS thread count is restored when the operation
 panics

---
 crates-device/rstsr-aocl/src/threading.rs     | 14 ++++++++++----
 crates-device/rstsr-blis/src/threading.rs     | 14 ++++++++++----
 crates-device/rstsr-kml/src/threading.rs      | 14 ++++++++++----
 crates-device/rstsr-mkl/src/threading.rs      | 14 ++++++++++----
 crates-device/rstsr-openblas/src/threading.rs | 14 ++++++++++----
 5 files changed, 50 insertions(+), 20 deletions(-)

diff --git a/crates-device/rstsr-aocl/src/threading.rs b/crates-device/rstsr-aocl/src/threading.rs
index 32bf5da..0e415a4 100644
--- a/crates-device/rstsr-aocl/src/threading.rs
+++ b/crates-device/rstsr-aocl/src/threading.rs
@@ -35,11 +35,17 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
+    // restore the number of threads also when `f` panics
+    struct Restore(usize);
+    impl Drop for Restore {
+        fn drop(&mut self) {
+            set_num_threads(self.0);
+        }
+    }
+
+    let _restore = Restore(get_num_threads());
     set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    f()
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-blis/src/threading.rs b/crates-device/rstsr-blis/src/threading.rs
index f17e9bb..011c9ed 100644
--- a/crates-device/rstsr-blis/src/threading.rs
+++ b/crates-device/rstsr-blis/src/threading.rs
@@ -35,11 +35,17 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
+    // restore the number of threads also when `f` panics
+    struct Restore(usize);
+    impl Drop for Restore {
+        fn drop(&mut self) {
+            set_num_threads(self.0);
+        }
+    }
+
+    let _restore = Restore(get_num_threads());
     set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    f()
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-kml/src/threading.rs b/crates-device/rstsr-kml/src/threading.rs
index a3827d9..2c6c5ef 100644
--- a/crates-device/rstsr-kml/src/threading.rs
+++ b/crates-device/rstsr-kml/src/threading.rs
@@ -52,11 +52,17 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
+    // restore the number of threads also when `f` panics
+    struct Restore(usize);
+    impl Drop for Restore {
+        fn drop(&mut self) {
+            set_num_threads(self.0);
+        }
+    }
+
+    let _restore = Restore(get_num_threads());
     set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    f()
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-mkl/src/threading.rs b/crates-device/rstsr-mkl/src/threading.rs
index 8d38856..4d04911 100644
--- a/crates-device/rstsr-mkl/src/threading.rs
+++ b/crates-device/rstsr-mkl/src/threading.rs
@@ -35,11 +35,17 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
+    // restore the number of threads also when `f` panics
+    struct Restore(usize);
+    impl Drop for Restore {
+        fn drop(&mut self) {
+            set_num_threads(self.0);
+        }
+    }
+
+    let _restore = Restore(get_num_threads());
     set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    f()
 }
 
 /* #endregion */
diff --git a/crates-device/rstsr-openblas/src/threading.rs b/crates-device/rstsr-openblas/src/threading.rs
index f6a606a..1efeda7 100644
--- a/crates-device/rstsr-openblas/src/threading.rs
+++ b/crates-device/rstsr-openblas/src/threading.rs
@@ -114,11 +114,17 @@ pub fn with_num_threads<F, R>(nthreads: usize, f: F) -> R
 where
     F: FnOnce() -> R,
 {
-    let n = get_num_threads();
+    // restore the number of threads also when `f` panics
+    struct Restore(usize);
+    impl Drop for Restore {
+        fn drop(&mut self) {
+            set_num_threads(self.0);
+        }
+    }
+
+    let _restore = Restore(get_num_threads());
     set_num_threads(nthreads);
-    let r = f();
-    set_num_threads(n);
-    return r;
+    f()
 }
 
 /* #endregion */
-- 
2.43.0


From fbbb28bc3a9efda343755951489de30a1e959f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 17/67] fix: indexed iterators report the true index from the
 back

---
 rstsr-common/src/layout/iterator.rs    |  7 ++++---
 rstsr-core/src/tensor/iterator_axes.rs | 22 ++++++++++------------
 rstsr-core/src/tensor/iterator_elem.rs | 16 ++++++++--------
 3 files changed, 22 insertions(+), 23 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 1329ac6..77aff0e 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -801,11 +801,12 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start.clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start.clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end.clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end.clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, offset))
+        Some((index, offset))
     }
 }
 
diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index abe8825..2c41778 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -355,14 +355,13 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.axes_iter.next_back()?;
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            (index, unsafe { transmute(self.view.view()) })
-        })
+        self.update_offset(offset);
+        Some((index, unsafe { transmute(self.view.view()) }))
     }
 }
 
@@ -533,14 +532,13 @@ where
     B: DeviceAPI<T>,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.axes_iter.next_back()?;
         let index = match &self.axes_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.axes_iter.next_back().map(|offset| {
-            self.update_offset(offset);
-            unsafe { transmute((index, self.view.view_mut())) }
-        })
+        self.update_offset(offset);
+        Some((index, unsafe { transmute(self.view.view_mut()) }))
     }
 }
 
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index c8703fb..704fad8 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -209,11 +209,12 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter.next_back().map(|offset| (index, &self.view[offset]))
+        Some((index, &self.view[offset]))
     }
 }
 
@@ -309,13 +310,12 @@ where
     D: DimDevAPI,
 {
     fn next_back(&mut self) -> Option<Self::Item> {
+        let offset = self.layout_iter.next_back()?;
         let index = match &self.layout_iter {
-            IterLayout::ColMajor(iter_inner) => iter_inner.index_start().clone(),
-            IterLayout::RowMajor(iter_inner) => iter_inner.index_start().clone(),
+            IterLayout::ColMajor(iter_inner) => iter_inner.index_end().clone(),
+            IterLayout::RowMajor(iter_inner) => iter_inner.index_end().clone(),
         };
-        self.layout_iter
-            .next_back()
-            .map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
+        Some((index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
     }
 }
 
-- 
2.43.0


From 72c800f11b63a2ca3ef2348ed030bfc3f5b13911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 18/67] fix: splitting the iterator of an empty layout does not
 divide by zero

---
 rstsr-common/src/layout/iterator.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 77aff0e..1197b9a 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -90,7 +90,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_f(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_f(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
@@ -413,7 +416,10 @@ where
         let Self { layout, index_start, iter_start, offset_start, index_end, iter_end, offset_end } = self.clone();
         let shape = layout.shape();
         let iter_ins = iter_start + index;
-        let index_ins = unsafe { shape.unravel_index_c(iter_ins) };
+        let index_ins = match layout.size() {
+            0 => index_start.clone(),
+            _ => unsafe { shape.unravel_index_c(iter_ins) },
+        };
         let offset_ins = unsafe { layout.index_uncheck(index_ins.as_ref()) };
         let split_lhs = Self {
             layout: layout.clone(),
-- 
2.43.0


From 391eedf73bb6587b4c3db4021a83120c500c58f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:52 +0000
Subject: [PATCH 19/67] fix: axes iterators check that all axes are in range
 and distinct

---
 rstsr-core/src/tensor/iterator_axes.rs | 84 ++++----------------------
 1 file changed, 12 insertions(+), 72 deletions(-)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 2c41778..8bd7532 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -81,24 +81,9 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
-        // convert axis to negative indexes and sort
-        let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        // normalize axes, and check that they are in range and distinct
+        let ndim = self.ndim() as isize;
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
@@ -236,24 +221,9 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
-        // convert axis to negative indexes and sort
-        let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        // normalize axes, and check that they are in range and distinct
+        let ndim = self.ndim() as isize;
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
@@ -408,24 +378,9 @@ where
             C | F => (),
             _ => rstsr_invalid!(order, "This function only accepts TensorIterOrder::C|F.",)?,
         };
-        // convert axis to negative indexes and sort
-        let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        // normalize axes, and check that they are in range and distinct
+        let ndim = self.ndim() as isize;
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
@@ -579,24 +534,9 @@ where
     where
         I: TryInto<AxesIndex<isize>, Error: Into<Error>>,
     {
-        // convert axis to negative indexes and sort
-        let ndim: isize = TryInto::<isize>::try_into(self.ndim())?;
-        let axes: Vec<isize> = axes
-            .try_into()
-            .map_err(Into::into)?
-            .as_ref()
-            .iter()
-            .map(|&v| if v >= 0 { v } else { v + ndim })
-            .collect::<Vec<isize>>();
-        let mut axes_check = axes.clone();
-        axes_check.sort();
-        // check no two axis are the same, and no negative index too small
-        if axes.first().is_some_and(|&v| v < 0) {
-            return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
-        }
-        for i in 0..axes_check.len() - 1 {
-            rstsr_assert!(axes_check[i] != axes_check[i + 1], InvalidValue, "Same axes is not allowed here.")?;
-        }
+        // normalize axes, and check that they are in range and distinct
+        let ndim = self.ndim() as isize;
+        let axes = normalize_axes_index(axes.try_into().map_err(Into::into)?, self.ndim(), false, false)?;
 
         // get full layout
         let layout = self.layout().to_dim::<IxD>()?;
-- 
2.43.0


From de2c21542fd0b404e5edb008ec1c6c979965237f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 20/67] fix: iterators report an exact size_hint

---
 rstsr-common/src/layout/iterator.rs    | 20 ++++++++++++++++++++
 rstsr-core/src/tensor/iterator_axes.rs | 20 ++++++++++++++++++++
 rstsr-core/src/tensor/iterator_elem.rs | 20 ++++++++++++++++++++
 3 files changed, 60 insertions(+)

diff --git a/rstsr-common/src/layout/iterator.rs b/rstsr-common/src/layout/iterator.rs
index 1197b9a..8f02232 100644
--- a/rstsr-common/src/layout/iterator.rs
+++ b/rstsr-common/src/layout/iterator.rs
@@ -298,6 +298,11 @@ where
         self.next_iter_index();
         return Some(offset.try_into().unwrap());
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<D> DoubleEndedIterator for IterLayoutColMajor<D>
@@ -624,6 +629,11 @@ where
         self.next_iter_index();
         return Some(offset.try_into().unwrap());
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<D> DoubleEndedIterator for IterLayoutRowMajor<D>
@@ -718,6 +728,11 @@ where
             Self::ColMajor(iter) => iter.next(),
         }
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<D> DoubleEndedIterator for IterLayout<D>
@@ -800,6 +815,11 @@ where
         };
         self.layout_iter.next().map(|offset| (index, offset))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<D> DoubleEndedIterator for IndexedIterLayout<D>
diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 8bd7532..22a0b34 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -34,6 +34,11 @@ where
             unsafe { transmute(self.view.view()) }
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IterAxesView<'_, T, B>
@@ -174,6 +179,11 @@ where
             unsafe { transmute(self.view.view_mut()) }
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IterAxesMut<'_, T, B>
@@ -318,6 +328,11 @@ where
             (index, unsafe { transmute(self.view.view()) })
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IndexedIterAxesView<'_, T, B>
@@ -480,6 +495,11 @@ where
             unsafe { transmute((index, self.view.view_mut())) }
         })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, B> DoubleEndedIterator for IndexedIterAxesMut<'_, T, B>
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index 704fad8..7a6b5f0 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -20,6 +20,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.layout_iter.next().map(|offset| &self.view[offset])
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IterVecView<'_, T, D>
@@ -107,6 +112,11 @@ where
     fn next(&mut self) -> Option<Self::Item> {
         self.layout_iter.next().map(|offset| unsafe { transmute(&mut self.view[offset]) })
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IterVecMut<'_, T, D>
@@ -202,6 +212,11 @@ where
         };
         self.layout_iter.next().map(|offset| (index, &self.view[offset]))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IndexedIterVecView<'_, T, D>
@@ -303,6 +318,11 @@ where
         };
         self.layout_iter.next().map(|offset| (index, unsafe { transmute::<&mut T, &mut T>(&mut self.view[offset]) }))
     }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<T, D> DoubleEndedIterator for IndexedIterVecMut<'_, T, D>
-- 
2.43.0


From beb15cc03941e215f7b96b2575044352eb2421f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:45 +0000
Subject: [PATCH 21/67] fix: index_select with no indices works on axes of
 length zero

---
 rstsr-native-impl/src/cpu_rayon/adv_indexing.rs  | 2 +-
 rstsr-native-impl/src/cpu_serial/adv_indexing.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
index 117084d..6df4237 100644
--- a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
@@ -24,7 +24,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
diff --git a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
index b0dd57d..526fb4c 100644
--- a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
@@ -29,7 +29,7 @@ where
     rstsr_assert_eq!(ndim, la.ndim(), InvalidLayout, "Input and output ndim should same.")?;
     rstsr_check_axis!(axis as isize, ndim)?;
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
-    rstsr_pattern!(*indices.iter().max().unwrap_or(&0), 0..la.shape()[axis], IndexError, "Index out of range.")?;
+    rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
-- 
2.43.0


From 86cfd94edc432bc5bc9a25060e42ee8368c1643d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 22/67] fix: bool_select refuses masks whose length is not the
 axis length

---
 rstsr-core/src/tensor/adv_indexing.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/rstsr-core/src/tensor/adv_indexing.rs b/rstsr-core/src/tensor/adv_indexing.rs
index 1b7f13a..2ad1831 100644
--- a/rstsr-core/src/tensor/adv_indexing.rs
+++ b/rstsr-core/src/tensor/adv_indexing.rs
@@ -150,11 +150,13 @@ where
     B: DeviceAPI<T> + DeviceIndexSelectAPI<T, D> + DeviceCreationAnyAPI<T>,
     I: TryInto<AxesIndex<bool>, Error: Into<Error>>,
 {
+    // mask must cover the indexed axis exactly
+    let mask = mask.try_into().map_err(Into::into)?;
+    let mask = mask.as_ref();
+    let n = tensor.shape()[rstsr_check_axis!(axis, tensor.ndim())?];
+    rstsr_assert_eq!(mask.len(), n, IndexError, "Mask length must match the axis length in bool_select.")?;
     // transform bool to index
     let indices = mask
-        .try_into()
-        .map_err(Into::into)?
-        .as_ref()
         .iter()
         .enumerate()
         .filter_map(|(i, &m)| m.then_some(i))
-- 
2.43.0


From 3f3975f931ad1f013b9a45f6bf03733979cd818a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 23/67] fix: diag and concat do not drop uninitialised elements

---
 rstsr-core/src/tensor/creation_from_tensor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/creation_from_tensor.rs b/rstsr-core/src/tensor/creation_from_tensor.rs
index 1f98fc5..ee4ac84 100644
--- a/rstsr-core/src/tensor/creation_from_tensor.rs
+++ b/rstsr-core/src/tensor/creation_from_tensor.rs
@@ -69,7 +69,7 @@ where
             let layout_diag = layout.diagonal(Some(offset), Some(0), Some(1))?;
             let size = layout_diag.size();
             let device = tensor.device();
-            let mut result = unsafe { empty_f(([size], device))? };
+            let mut result = full_f(([size], T::default(), device))?;
             let layout_result = result.layout().to_dim()?;
             device.assign(result.raw_mut(), &layout_result, tensor.raw(), &layout_diag)?;
             return Ok(result);
@@ -370,7 +370,7 @@ where
         let new_shape = shape_other;
 
         // create the result tensor
-        let mut result = unsafe { empty_f((new_shape, &device))? };
+        let mut result = full_f((new_shape, T::default(), &device))?;
 
         // assign each tensor to the result tensor
         let mut offset = 0;
-- 
2.43.0


From 98f80fd17fd8206bbdf0a234b454772d8bd5baed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 24/67] fix: full allocates the whole range spanned by the
 given layout

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index d14de47..74396fd 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -543,7 +543,7 @@ where
 
     fn full_f(self) -> Result<Self::Out> {
         let (layout, fill, device) = self;
-        let idx_max = layout.size();
+        let (_, idx_max) = layout.bounds_index()?;
         let storage = device.full_impl(idx_max, fill)?;
         unsafe { Ok(Tensor::new_unchecked(storage, layout.into_dim()?)) }
     }
-- 
2.43.0


From a66051592c199ac7ae4c84ee383c355cc26d74d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 25/67] fix: eye in column-major order has n_rows rows and
 n_cols columns

---
 rstsr-core/src/tensor/creation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/creation.rs b/rstsr-core/src/tensor/creation.rs
index 74396fd..c9834ff 100644
--- a/rstsr-core/src/tensor/creation.rs
+++ b/rstsr-core/src/tensor/creation.rs
@@ -417,7 +417,7 @@ where
         let (n_rows, n_cols, k, order, device) = self;
         let layout = match order {
             RowMajor => [n_rows, n_cols].c(),
-            ColMajor => [n_cols, n_rows].f(),
+            ColMajor => [n_rows, n_cols].f(),
         };
         let mut storage = device.zeros_impl(layout.size())?;
         let layout_diag = layout.diagonal(Some(k), Some(0), Some(1))?;
-- 
2.43.0


From fbfb220b38114120df4fcc4524d10aa3be89307c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:59 +0000
Subject: [PATCH 26/67] fix: linspace on the serial device does not accumulate
 rounding errors

---
 rstsr-core/src/device_cpu_serial/creation.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/creation.rs b/rstsr-core/src/device_cpu_serial/creation.rs
index df26666..a5acf25 100644
--- a/rstsr-core/src/device_cpu_serial/creation.rs
+++ b/rstsr-core/src/device_cpu_serial/creation.rs
@@ -99,16 +99,12 @@ where
             return Ok(Storage::new(vec![start].into(), self.clone()));
         }
 
-        let mut raw = Vec::with_capacity(n);
         let step = match endpoint {
             true => (end - start) / T::from(n - 1).unwrap(),
             false => (end - start) / T::from(n).unwrap(),
         };
-        let mut v = start;
-        for _ in 0..n {
-            raw.push(v);
-            v = v + step;
-        }
+        // do not accumulate `step`, otherwise the rounding error grows with `n`
+        let raw = (0..n).map(|i| start + T::from(i).unwrap() * step).collect::<Vec<T>>();
         Ok(Storage::new(raw.into(), self.clone()))
     }
 }
-- 
2.43.0


From 5575120d9342f6367cb9cbb933aade299a160741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:35:37 +0000
Subject: [PATCH 27/67] fix: arange follows the sign and size of step for every
 number type

---
 rstsr-native-impl/src/cpu_rayon/creation.rs  | 30 +++++------
 rstsr-native-impl/src/cpu_serial/creation.rs | 56 +++++++++++++-------
 2 files changed, 49 insertions(+), 37 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_rayon/creation.rs b/rstsr-native-impl/src/cpu_rayon/creation.rs
index 159e7d6..5780e90 100644
--- a/rstsr-native-impl/src/cpu_rayon/creation.rs
+++ b/rstsr-native-impl/src/cpu_rayon/creation.rs
@@ -14,24 +14,15 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
-    // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
+    // Computation is performed in i128, which represents every value of the primitive integers as well
+    // as differences between them, so nothing overflows here.
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = arange_len_int(start_, end_, step_)?;
 
-    // The unwrap here is probably safe, since start/end/nstep are all checked.
+    // The unwrap here is safe, since all values are between start and end.
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
     // decided unwrap here.
-    let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
-
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
-    let last_val = result.last().cloned();
-    if (step_ > 0 && last_val.as_ref().is_some_and(|x| *x >= end))
-        || (step_ < 0 && last_val.as_ref().is_some_and(|x| *x <= end))
-    {
-        result.pop();
-    }
-    Some(result)
+    Some((0..n).into_par_iter().map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect())
 }
 
 /// NOTE: this implementation does not involve a thread pool.
@@ -40,7 +31,12 @@ where
     T: PartialOrd + Clone + Add<Output = T> + ToPrimitive + FromPrimitive + Send + Sync,
 {
     let (start_, end_, step_) = (start.to_f64()?, end.to_f64()?, step.to_f64()?);
-    let n = ((end_ - start_) / step_).ceil().to_usize()?;
+    let n = ((end_ - start_) / step_).ceil();
+    if n.is_nan() || n <= 0.0 {
+        // step leads away from end (or not a number)
+        return Some(vec![]);
+    }
+    let n = n as usize;
     let mut result: Vec<T> = (0..n).into_par_iter().map(|i| T::from_f64(start_ + i as f64 * step_).unwrap()).collect();
 
     // the interval may be open on the right, so we need to pop the last element if it's out of range.
@@ -96,7 +92,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
diff --git a/rstsr-native-impl/src/cpu_serial/creation.rs b/rstsr-native-impl/src/cpu_serial/creation.rs
index 1663436..b762eff 100644
--- a/rstsr-native-impl/src/cpu_serial/creation.rs
+++ b/rstsr-native-impl/src/cpu_serial/creation.rs
@@ -10,14 +10,34 @@ where
 {
     // This is serial implementation and low performance
     let mut result = Vec::new();
+    let ascending = start < end;
+    if !(ascending || start > end) {
+        return result;
+    }
     let mut current = start;
-    while current < end {
-        result.push(current.clone());
-        current = current + step.clone();
+    while (ascending && current < end) || (!ascending && current > end) {
+        let next = current.clone() + step.clone();
+        if result.is_empty() && ((ascending && next < current) || (!ascending && next > current)) {
+            // step leads away from end
+            return result;
+        }
+        assert!(next != current, "arange: step is too small to be represented");
+        result.push(current);
+        current = next;
     }
     result
 }
 
+/// Number of elements of the half-open interval `[start, end)` with `step`.
+pub(crate) fn arange_len_int(start: i128, end: i128, step: i128) -> Option<usize> {
+    let dist = if step > 0 { end - start } else { start - end };
+    let step = step.unsigned_abs();
+    if dist <= 0 {
+        return Some(0);
+    }
+    (dist as u128).checked_sub(1)?.checked_div(step)?.to_usize()?.checked_add(1)
+}
+
 pub fn arange_by_primitive_isize_cpu_serial<T>(start: T, end: T, step: T) -> Option<Vec<T>>
 where
     T: PartialOrd + Clone + Add<Output = T> + ToPrimitive + FromPrimitive,
@@ -26,24 +46,15 @@ where
     // However, it only works for types that from/to primitives implemented.
     // Also, it only works for integer types because of the precision issue.
 
-    // We just try to convert to isize. We believe it's really rare case that usize is used in arange;
-    // and anyway, fallback is always available with efficiency loss.
-    let (start_, end_, step_) = (start.to_isize()?, end.to_isize()?, step.to_isize()?);
-    let n = ((end_ - start_) as f64 / step_ as f64).ceil().to_isize()?;
+    // Computation is performed in i128, which represents every value of the primitive integers as well
+    // as differences between them, so nothing overflows here.
+    let (start_, end_, step_) = (start.to_i128()?, end.to_i128()?, step.to_i128()?);
+    let n = arange_len_int(start_, end_, step_)?;
 
-    // The unwrap here is probably safe, since start/end/nstep are all checked.
+    // The unwrap here is safe, since all values are between start and end.
     // `Some(map(option.unwrap).collect())` is much faster than `map(option).collect()` in this case, so
     // decided unwrap here.
-    let mut result: Vec<T> = (0..n).map(|i| T::from_isize(start_ + i * step_).unwrap()).collect();
-
-    // the interval may be open on the right, so we need to pop the last element if it's out of range.
-    let last_val = result.last().cloned();
-    if (step_ > 0 && last_val.as_ref().is_some_and(|x| *x >= end))
-        || (step_ < 0 && last_val.as_ref().is_some_and(|x| *x <= end))
-    {
-        result.pop();
-    }
-    Some(result)
+    Some((0..n).map(|i| T::from_i128(start_ + i as i128 * step_).unwrap()).collect())
 }
 
 pub fn arange_by_primitive_f64_cpu_serial<T>(start: T, end: T, step: T) -> Option<Vec<T>>
@@ -51,7 +62,12 @@ where
     T: PartialOrd + Clone + Add<Output = T> + ToPrimitive + FromPrimitive,
 {
     let (start_, end_, step_) = (start.to_f64()?, end.to_f64()?, step.to_f64()?);
-    let n = ((end_ - start_) / step_).ceil().to_usize()?;
+    let n = ((end_ - start_) / step_).ceil();
+    if n.is_nan() || n <= 0.0 {
+        // step leads away from end (or not a number)
+        return Some(vec![]);
+    }
+    let n = n as usize;
     let mut result: Vec<T> = (0..n).map(|i| T::from_f64(start_ + i as f64 * step_).unwrap()).collect();
 
     // the interval may be open on the right, so we need to pop the last element if it's out of range.
@@ -101,7 +117,7 @@ where
 
     // 3. execute accelerated implementation if possible
     expand_accelerated!(false, f64, f32).unwrap_or_else(|| {
-        expand_accelerated!(true, usize, isize, i32, i64, u32, u64)
+        expand_accelerated!(true, usize, isize, i8, i16, i32, i64, u8, u16, u32, u64)
             .unwrap_or_else(|| arange_by_partial_ord_cpu_serial(start, end, step))
     })
 }
-- 
2.43.0


From 7a690f326a4231f2ef894ce3f271011df229669a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 28/67] fix: squeeze checks every axis against the lower bound

---
 rstsr-core/src/tensor/manipulation/squeeze.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/squeeze.rs b/rstsr-core/src/tensor/manipulation/squeeze.rs
index 52478fb..5edfe74 100644
--- a/rstsr-core/src/tensor/manipulation/squeeze.rs
+++ b/rstsr-core/src/tensor/manipulation/squeeze.rs
@@ -29,7 +29,7 @@ where
         _ => {
             let mut axes: Vec<isize> = axes.as_ref().iter().map(|&v| if v >= 0 { v } else { v + ndim }).collect();
             axes.sort_by(|a, b| b.cmp(a));
-            if axes.first().is_some_and(|&v| v < 0) {
+            if axes.last().is_some_and(|&v| v < 0) {
                 return Err(rstsr_error!(InvalidValue, "Some negative index is too small."));
             }
             // check no two axis are the same
-- 
2.43.0


From 3467468165ad21c75ec550c349e2f36ac81a5f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 29/67] fix: diagonal refuses axis1 equal to axis2

---
 rstsr-common/src/layout/layoutbase.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 1723f74..0d330ac 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -336,6 +336,7 @@ where
         let axis2 = axis2.unwrap_or(1);
         let axis1 = rstsr_check_axis!(axis1, self.ndim())?;
         let axis2 = rstsr_check_axis!(axis2, self.ndim())?;
+        rstsr_assert!(axis1 != axis2, InvalidValue, "axis1 and axis2 of diagonal should not be the same.")?;
 
         // shape and strides of last two dimensions
         let d1 = self.shape()[axis1] as isize;
-- 
2.43.0


From c267f390edd561f3e0f67bd6f51de04c2a28708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 30/67] fix: reshape with copy checks the number of elements

---
 rstsr-core/src/tensor/manipulation/reshape.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/reshape.rs b/rstsr-core/src/tensor/manipulation/reshape.rs
index bb09a10..10351ba 100644
--- a/rstsr-core/src/tensor/manipulation/reshape.rs
+++ b/rstsr-core/src/tensor/manipulation/reshape.rs
@@ -125,9 +125,12 @@ where
     let ReshapeArgs { order, copy } = args.into();
     let order = order.unwrap_or(tensor.device().default_order());
 
+    // this also checks that the number of elements is not changed
+    let layout_new = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)?;
+
     // rust 2021 does not allow chain if let
     if copy.is_none() || copy == Some(false) {
-        if let Some(layout_new) = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)? {
+        if let Some(layout_new) = layout_new {
             // shape does not need to be changed
             let (storage, _) = tensor.into_raw_parts();
             let layout = layout_new.into_dim::<IxD>()?;
-- 
2.43.0


From 7a134eb2b1355719ccbafdb5e8cb668b73e4ae3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:57:14 +0000
Subject: [PATCH 31/67] fix: reshape with -1 refuses zero or overflowing shapes
 instead of panicking

---
 rstsr-common/src/layout/reshape.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rstsr-common/src/layout/reshape.rs b/rstsr-common/src/layout/reshape.rs
index 525ac4f..c48b225 100644
--- a/rstsr-common/src/layout/reshape.rs
+++ b/rstsr-common/src/layout/reshape.rs
@@ -138,9 +138,11 @@ pub fn reshape_substitute_negatives(shape_out: &[isize], size_in: usize) -> Resu
     // substitute negative index
     if let Some(idx_neg1) = idx_neg1 {
         let size_in = size_in as isize;
-        let size_neg = shape.iter().fold(1, |acc, &v| if v == -1 { acc } else { acc * v });
+        let size_neg =
+            shape.iter().filter(|&&v| v != -1).try_fold(1isize, |acc, &v| acc.checked_mul(v)).unwrap_or_default();
+        // `size_neg` is zero if some axis is of length zero, or if the product overflows
         rstsr_assert!(
-            size_in % size_neg == 0,
+            size_neg != 0 && size_in % size_neg == 0,
             InvalidValue,
             "Shape '-1' in {:?} could not be determined to original tensor size {:?}",
             shape,
-- 
2.43.0


From 453cb0c42e7568158af2d63006bc05702c5127c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 32/67] fix: layouts whose index bounds overflow are refused

---
 rstsr-common/src/layout/layoutbase.rs | 41 ++++++++++++++++++---------
 1 file changed, 28 insertions(+), 13 deletions(-)

diff --git a/rstsr-common/src/layout/layoutbase.rs b/rstsr-common/src/layout/layoutbase.rs
index 0d330ac..99fea19 100644
--- a/rstsr-common/src/layout/layoutbase.rs
+++ b/rstsr-common/src/layout/layoutbase.rs
@@ -244,19 +244,31 @@ where
             return Ok((offset, offset + 1));
         }
 
-        let mut min = offset as isize;
-        let mut max = offset as isize;
+        if shape.contains(&0) {
+            return Ok((offset, offset));
+        }
 
-        for i in 0..n {
-            if shape[i] == 0 {
-                return Ok((offset, offset));
-            }
-            if stride[i] > 0 {
-                max += stride[i] * (shape[i] as isize - 1);
-            } else {
-                min += stride[i] * (shape[i] as isize - 1);
+        // evaluate bounds; any bound that exceeds isize can not be located in memory
+        let bounds = || -> Option<(isize, isize)> {
+            let mut min = isize::try_from(offset).ok()?;
+            let mut max = min;
+            for i in 0..n {
+                let span = isize::try_from(shape[i] - 1).ok()?.checked_mul(stride[i])?;
+                if span > 0 {
+                    max = max.checked_add(span)?;
+                } else {
+                    min = min.checked_add(span)?;
+                }
             }
-        }
+            Some((min, max))
+        };
+        let (min, max) = match bounds() {
+            Some(bounds) => bounds,
+            None => rstsr_raise!(
+                ValueOutOfRange,
+                "Index bounds of layout (shape {shape:?}, stride {stride:?}, offset {offset}) overflow."
+            )?,
+        };
         rstsr_pattern!(min, 0.., ValueOutOfRange)?;
         return Ok((min as usize, max as usize + 1));
     }
@@ -300,7 +312,7 @@ where
         let stride_sorted = indices.iter().map(|&k| stride[k].unsigned_abs()).collect::<Vec<_>>();
 
         // elem_cum: cumulative number count of elements in tensor for small strides
-        let mut elem_cum = 0;
+        let mut elem_cum: usize = 0;
         for i in 0..indices.len() {
             // if stride is zero, then skip check for this axis
             if stride_sorted[i] == 0 && skip_zero {
@@ -314,7 +326,10 @@ where
                 "Either stride be zero, or stride too small that elements in tensor can be overlapped."
             )?;
 
-            elem_cum += (shape_sorted[i] - 1) * stride_sorted[i];
+            elem_cum = match (shape_sorted[i] - 1).checked_mul(stride_sorted[i]).and_then(|v| v.checked_add(elem_cum)) {
+                Some(elem_cum) => elem_cum,
+                None => rstsr_raise!(InvalidLayout, "Range of elements in tensor overflows.")?,
+            };
         }
         return Ok(());
     }
-- 
2.43.0


From effcde01d78735b36732882c58c4d1e2b99d0ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 33/67] fix: assign refuses sources of larger shape than the
 target

---
 rstsr-core/src/tensor/assignment.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rstsr-core/src/tensor/assignment.rs b/rstsr-core/src/tensor/assignment.rs
index ec1ddd1..05bfea9 100644
--- a/rstsr-core/src/tensor/assignment.rs
+++ b/rstsr-core/src/tensor/assignment.rs
@@ -44,6 +44,7 @@ where
         let lb = b.layout().to_dim::<IxD>()?;
         let default_order = a.device().default_order();
         let (la_b, lb_b) = broadcast_layout_to_first(&la, &lb, default_order)?;
+        rstsr_assert_eq!(la_b, la, InvalidLayout, "cannot assign a tensor to another tensor of smaller shape")?;
         let la_b = la_b.into_dim::<DA>()?;
         let lb_b = lb_b.into_dim::<DA>()?;
         // assign
-- 
2.43.0


From 88767578dc8c122088e1011e0d2655ef576b5660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 34/67] fix: operations that write through a broadcasted tensor
 more than once refuse it

---
 rstsr-core/src/tensor/iterator_axes.rs                  | 4 ++++
 rstsr-core/src/tensor/iterator_elem.rs                  | 4 ++++
 rstsr-core/src/tensor/linalg/matmul.rs                  | 1 +
 rstsr-core/src/tensor/linalg/vecdot.rs                  | 1 +
 rstsr-core/src/tensor/operators/op_binary_arithmetic.rs | 1 +
 rstsr-core/src/tensor/operators/op_binary_assign.rs     | 1 +
 rstsr-core/src/tensor/operators/op_with_func.rs         | 2 ++
 7 files changed, 14 insertions(+)

diff --git a/rstsr-core/src/tensor/iterator_axes.rs b/rstsr-core/src/tensor/iterator_axes.rs
index 22a0b34..1ea5f91 100644
--- a/rstsr-core/src/tensor/iterator_axes.rs
+++ b/rstsr-core/src/tensor/iterator_axes.rs
@@ -249,6 +249,8 @@ where
             stride_axes.push(stride_full[idx as usize]);
         }
         let layout_axes = unsafe { Layout::new_unchecked(shape_axes, stride_axes, offset) };
+        // mutable views must not alias
+        rstsr_assert!(!layout_axes.is_broadcasted(), InvalidLayout, "cannot iterate broadcasted axes mutably")?;
 
         // get layout for inner view
         let mut shape_inner = vec![];
@@ -572,6 +574,8 @@ where
             stride_axes.push(stride_full[idx as usize]);
         }
         let layout_axes = unsafe { Layout::new_unchecked(shape_axes, stride_axes, offset) };
+        // mutable views must not alias
+        rstsr_assert!(!layout_axes.is_broadcasted(), InvalidLayout, "cannot iterate broadcasted axes mutably")?;
 
         // get layout for inner view
         let mut shape_inner = vec![];
diff --git a/rstsr-core/src/tensor/iterator_elem.rs b/rstsr-core/src/tensor/iterator_elem.rs
index 7a6b5f0..ebd2355 100644
--- a/rstsr-core/src/tensor/iterator_elem.rs
+++ b/rstsr-core/src/tensor/iterator_elem.rs
@@ -163,6 +163,8 @@ where
     B: DeviceAPI<T, Raw = Vec<T>> + 'a,
 {
     pub fn iter_mut_with_order_f(&'a mut self, order: TensorIterOrder) -> Result<IterVecMut<'a, T, D>> {
+        // mutable references must not alias
+        rstsr_assert!(!self.layout().is_broadcasted(), InvalidLayout, "cannot iterate broadcasted tensor mutably")?;
         let layout_iter = IterLayout::new(self.layout(), order)?;
         let raw = self.raw_mut().as_mut();
         let iter = IterVecMut { layout_iter, view: raw };
@@ -373,6 +375,8 @@ where
 {
     pub fn indexed_iter_mut_with_order_f(&'a mut self, order: TensorIterOrder) -> Result<IndexedIterVecMut<'a, T, D>> {
         use TensorIterOrder::*;
+        // mutable references must not alias
+        rstsr_assert!(!self.layout().is_broadcasted(), InvalidLayout, "cannot iterate broadcasted tensor mutably")?;
         // this function only accepts c/f iter order currently
         match order {
             C | F => (),
diff --git a/rstsr-core/src/tensor/linalg/matmul.rs b/rstsr-core/src/tensor/linalg/matmul.rs
index 4a0196c..ac863e5 100644
--- a/rstsr-core/src/tensor/linalg/matmul.rs
+++ b/rstsr-core/src/tensor/linalg/matmul.rs
@@ -64,6 +64,7 @@ where
     let la = a.layout();
     let lb = b.layout();
     let lc = c.layout().clone();
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     let sa = a.raw();
     let sb = b.raw();
     let sc = c.raw_mut();
diff --git a/rstsr-core/src/tensor/linalg/vecdot.rs b/rstsr-core/src/tensor/linalg/vecdot.rs
index c73952f..1212758 100644
--- a/rstsr-core/src/tensor/linalg/vecdot.rs
+++ b/rstsr-core/src/tensor/linalg/vecdot.rs
@@ -322,6 +322,7 @@ where
     rstsr_assert_eq!(shape_c_expect, shape_c.as_ref(), InvalidLayout, "incompatible shapes in vecdot")?;
 
     let c_layout = c.layout().clone();
+    rstsr_assert!(!c_layout.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     let c_raw_mut = unsafe {
         transmute::<&mut <B as DeviceRawAPI<TC>>::Raw, &mut <B as DeviceRawAPI<MaybeUninit<TC>>>::Raw>(c.raw_mut())
     };
diff --git a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
index 8198810..443bbc5 100644
--- a/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_arithmetic.rs
@@ -603,6 +603,7 @@ where
     let lc = c.layout();
     let la = a.layout();
     let lb = b.layout();
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     let default_order = c.device().default_order();
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
diff --git a/rstsr-core/src/tensor/operators/op_binary_assign.rs b/rstsr-core/src/tensor/operators/op_binary_assign.rs
index 1b2af88..0fed5fb 100644
--- a/rstsr-core/src/tensor/operators/op_binary_assign.rs
+++ b/rstsr-core/src/tensor/operators/op_binary_assign.rs
@@ -122,6 +122,7 @@ mod impl_binary_assign {
             rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
             let la = a.layout();
             let lb = b.layout();
+            rstsr_assert!(!la.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
             let default_order = a.device().default_order();
             // check layout broadcast
             let (la_b, lb_b) = broadcast_layout_to_first(&la.to_dim::<IxD>()?, &lb.to_dim::<IxD>()?, default_order)?;
diff --git a/rstsr-core/src/tensor/operators/op_with_func.rs b/rstsr-core/src/tensor/operators/op_with_func.rs
index 2555caf..aa7768a 100644
--- a/rstsr-core/src/tensor/operators/op_with_func.rs
+++ b/rstsr-core/src/tensor/operators/op_with_func.rs
@@ -27,6 +27,7 @@ where
     let lc = c.layout();
     let la = a.layout();
     let lb = b.layout();
+    rstsr_assert!(!lc.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     let default_order = c.device().default_order();
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
@@ -102,6 +103,7 @@ where
     rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
     let la = a.layout();
     let lb = b.layout();
+    rstsr_assert!(!la.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
     let default_order = a.device().default_order();
     // all layouts should be broadcastable to lc
     // we can first generate broadcasted shape, then check this
-- 
2.43.0


From 8e1c92596d9125ece99801e647abdf2456f0fe22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 35/67] fix: usize indices larger than isize::MAX are not taken
 as negative indices

---
 rstsr-core/src/tensor/indexing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rstsr-core/src/tensor/indexing.rs b/rstsr-core/src/tensor/indexing.rs
index 90a4ddd..6e5973f 100644
--- a/rstsr-core/src/tensor/indexing.rs
+++ b/rstsr-core/src/tensor/indexing.rs
@@ -385,7 +385,8 @@ where
 
     #[inline]
     fn index(&self, index: I) -> &Self::Output {
-        let index = index.as_ref().iter().map(|&v| v as isize).collect::<Vec<_>>();
+        let index =
+            index.as_ref().iter().map(|&v| isize::try_from(v).expect("index out of bounds")).collect::<Vec<_>>();
         let i = self.layout().index(index.as_ref());
         let raw = self.raw();
         raw.index(i)
@@ -406,7 +407,8 @@ where
 {
     #[inline]
     fn index_mut(&mut self, index: I) -> &mut Self::Output {
-        let index = index.as_ref().iter().map(|&v| v as isize).collect::<Vec<_>>();
+        let index =
+            index.as_ref().iter().map(|&v| isize::try_from(v).expect("index out of bounds")).collect::<Vec<_>>();
         let i = self.layout().index(index.as_ref());
         let raw = self.raw_mut();
         raw.index_mut(i)
-- 
2.43.0


From a66241d3ae12e2edde112ad52529fdd6d3c18969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 36/67] fix: into_pack_array refuses strides that are not
 multiples of the array length

---
 rstsr-core/src/tensor/pack_array.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/pack_array.rs b/rstsr-core/src/tensor/pack_array.rs
index ba3daa1..b7a8da6 100644
--- a/rstsr-core/src/tensor/pack_array.rs
+++ b/rstsr-core/src/tensor/pack_array.rs
@@ -136,8 +136,16 @@ where
         // dimension check
         let axis = rstsr_check_axis!(axis, self.ndim())?;
         rstsr_assert_eq!(self.layout().stride()[axis], 1, InvalidLayout, "The axis must be contiguous")?;
-        rstsr_assert_eq!(self.layout().shape()[axis], N, InvalidLayout, "The axis length must be a exactly {N}")?;
+        rstsr_assert_eq!(self.layout().shape()[axis], N, InvalidLayout, "The axis length must be exactly {N}")?;
+        rstsr_assert!(N > 0, InvalidValue, "The length of array must not be zero")?;
         rstsr_assert!(self.layout().offset() % N == 0, InvalidLayout, "The offset must be a multiple of {N}")?;
+        for i in (0..self.ndim()).filter(|&i| i != axis && self.layout().shape()[i] > 1) {
+            rstsr_assert!(
+                self.layout().stride()[i] % N as isize == 0,
+                InvalidLayout,
+                "The strides of other axes must be multiples of {N}"
+            )?;
+        }
 
         let (storage, layout) = self.into_raw_parts();
         let (data, device) = storage.into_raw_parts();
-- 
2.43.0


From b0d73a55c706fe29607849d2a6f38575cb04bc19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:01 +0000
Subject: [PATCH 37/67] fix: packing vectors into arrays keeps the capacity of
 the allocation

---
 rstsr-common/src/pack_array.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rstsr-common/src/pack_array.rs b/rstsr-common/src/pack_array.rs
index b2a47ab..4c75d22 100644
--- a/rstsr-common/src/pack_array.rs
+++ b/rstsr-common/src/pack_array.rs
@@ -36,12 +36,17 @@ impl<T> PackArrayAPI<T> for Vec<T> {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N > 0 && len % N == 0,
             InvalidValue,
             "Length of Vec<T> {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
-        let vec = ManuallyDrop::new(self);
-        let arr = unsafe { Vec::from_raw_parts(vec.as_ptr() as *mut [T; N], len / N, len / N) };
+        // capacity must also be a multiple of N, so that the allocation is released with its own layout
+        let vec = match self.capacity() % N {
+            0 => self,
+            _ => self.into_boxed_slice().into_vec(),
+        };
+        let mut vec = ManuallyDrop::new(vec);
+        let arr = unsafe { Vec::from_raw_parts(vec.as_mut_ptr() as *mut [T; N], len / N, vec.capacity() / N) };
         Ok(arr)
     }
 }
@@ -51,8 +56,8 @@ impl<T, const N: usize> UnpackArrayAPI for Vec<[T; N]> {
 
     fn unpack_array(self) -> Self::Output {
         let len = self.len();
-        let arr = ManuallyDrop::new(self);
-        unsafe { Vec::from_raw_parts(arr.as_ptr() as *mut T, len * N, len * N) }
+        let mut arr = ManuallyDrop::new(self);
+        unsafe { Vec::from_raw_parts(arr.as_mut_ptr() as *mut T, len * N, arr.capacity().saturating_mul(N)) }
     }
 }
 
@@ -69,7 +74,7 @@ impl<T> PackArrayAPI<T> for &[T] {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N > 0 && len % N == 0,
             InvalidValue,
             "Length of &[T] {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
@@ -100,7 +105,7 @@ impl<T> PackArrayAPI<T> for &mut [T] {
     fn pack_array_f<const N: usize>(self) -> Result<<Self as PackableArrayAPI<T, N>>::ArrayVec> {
         let len = self.len();
         rstsr_assert!(
-            len % N == 0,
+            N > 0 && len % N == 0,
             InvalidValue,
             "Length of &[T] {len} must be a multiple to cast into Vec<[T; {N}]>"
         )?;
-- 
2.43.0


From d68991c3d0d27683842df6f5f5524651d58ea4ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:00:31 +0000
Subject: [PATCH 38/67] fix: functions that need axes or shapes refuse None
 instead of panicking

---
 rstsr-common/src/axis_index.rs                         | 10 ++++++++++
 rstsr-core/src/tensor/adv_indexing.rs                  |  2 +-
 rstsr-core/src/tensor/indexing.rs                      |  2 +-
 rstsr-core/src/tensor/manipulation/expand_dims.rs      |  2 +-
 .../src/tensor/manipulation/into_compatible_shape.rs   |  2 +-
 rstsr-core/src/tensor/manipulation/reshape.rs          |  4 ++--
 6 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/rstsr-common/src/axis_index.rs b/rstsr-common/src/axis_index.rs
index 9a80206..8da94ca 100644
--- a/rstsr-common/src/axis_index.rs
+++ b/rstsr-common/src/axis_index.rs
@@ -18,6 +18,16 @@ impl<T> AsRef<[T]> for AxesIndex<T> {
     }
 }
 
+impl<T> AxesIndex<T> {
+    /// Get the slice of axes, or raise error if no axes are given.
+    pub fn as_slice_f(&self) -> Result<&[T]> {
+        match self {
+            AxesIndex::None => rstsr_raise!(InvalidValue, "Argument cannot be None for this operation.")?,
+            _ => Ok(self.as_ref()),
+        }
+    }
+}
+
 /* #region AxesIndex self-type from */
 
 impl<T> From<T> for AxesIndex<T> {
diff --git a/rstsr-core/src/tensor/adv_indexing.rs b/rstsr-core/src/tensor/adv_indexing.rs
index 2ad1831..8a719f4 100644
--- a/rstsr-core/src/tensor/adv_indexing.rs
+++ b/rstsr-core/src/tensor/adv_indexing.rs
@@ -24,7 +24,7 @@ where
     let nshape: usize = tensor_layout.shape()[axis];
     let indices = indices.try_into().map_err(Into::into)?;
     let indices = indices
-        .as_ref()
+        .as_slice_f()?
         .iter()
         .map(|&i| -> Result<usize> {
             let i = if i < 0 { nshape as isize + i } else { i };
diff --git a/rstsr-core/src/tensor/indexing.rs b/rstsr-core/src/tensor/indexing.rs
index 6e5973f..695325b 100644
--- a/rstsr-core/src/tensor/indexing.rs
+++ b/rstsr-core/src/tensor/indexing.rs
@@ -13,7 +13,7 @@ where
 {
     let (data, layout) = tensor.into_raw_parts();
     let index = index.try_into().map_err(Into::into)?;
-    let layout = layout.dim_slice(index.as_ref())?;
+    let layout = layout.dim_slice(index.as_slice_f()?)?;
     return unsafe { Ok(TensorBase::new_unchecked(data, layout)) };
 }
 
diff --git a/rstsr-core/src/tensor/manipulation/expand_dims.rs b/rstsr-core/src/tensor/manipulation/expand_dims.rs
index f847062..1813687 100644
--- a/rstsr-core/src/tensor/manipulation/expand_dims.rs
+++ b/rstsr-core/src/tensor/manipulation/expand_dims.rs
@@ -16,7 +16,7 @@ where
     let (storage, layout) = tensor.into_raw_parts();
     let mut layout = layout.into_dim::<IxD>()?;
     let axes = axes.try_into().map_err(Into::into)?;
-    let len_axes = axes.as_ref().len();
+    let len_axes = axes.as_slice_f()?.len();
     let axes = normalize_axes_index(axes, ndim + len_axes, false, true)?;
     for axis in axes {
         layout = layout.dim_insert(axis)?;
diff --git a/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs b/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
index c4370fe..3bd25c5 100644
--- a/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
+++ b/rstsr-core/src/tensor/manipulation/into_compatible_shape.rs
@@ -15,7 +15,7 @@ where
     B: DeviceAPI<T>,
     D: DimAPI,
 {
-    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_ref(), tensor.size())?;
+    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_slice_f()?, tensor.size())?;
     let order = order.into().unwrap_or(tensor.device().default_order());
     if let Some(layout_new) = layout_reshapeable(&tensor.layout().to_dim()?, &shape_new, order)? {
         let (storage, _) = tensor.into_raw_parts();
diff --git a/rstsr-core/src/tensor/manipulation/reshape.rs b/rstsr-core/src/tensor/manipulation/reshape.rs
index 10351ba..8f4746b 100644
--- a/rstsr-core/src/tensor/manipulation/reshape.rs
+++ b/rstsr-core/src/tensor/manipulation/reshape.rs
@@ -78,7 +78,7 @@ where
     D: DimAPI,
     B: DeviceAPI<T>,
 {
-    let shape = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_ref(), tensor.size())?;
+    let shape = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_slice_f()?, tensor.size())?;
     let order = order.unwrap_or_else(|| tensor.device().default_order());
     layout_reshapeable(&tensor.layout().to_dim()?, &shape, order)
 }
@@ -121,7 +121,7 @@ where
     B: DeviceAPI<T> + DeviceRawAPI<MaybeUninit<T>> + DeviceCreationAnyAPI<T> + OpAssignArbitaryAPI<T, IxD, D>,
 {
     // own shape, this is cheap operation
-    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_ref(), tensor.size())?;
+    let shape_new = reshape_substitute_negatives(shape.try_into().map_err(Into::into)?.as_slice_f()?, tensor.size())?;
     let ReshapeArgs { order, copy } = args.into();
     let order = order.unwrap_or(tensor.device().default_order());
 
-- 
2.43.0


From e1a2ee21f1a81bb347e0ccd522823b3dae1c9e92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:57 +0000
Subject: [PATCH 39/67] fix: aligned allocation handles size overflow,
 zero-sized and over-aligned types

---
 rstsr-common/src/alloc_vec.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/rstsr-common/src/alloc_vec.rs b/rstsr-common/src/alloc_vec.rs
index e6785a2..1abc9c6 100644
--- a/rstsr-common/src/alloc_vec.rs
+++ b/rstsr-common/src/alloc_vec.rs
@@ -84,11 +84,12 @@ pub fn aligned_alloc(numbytes: usize, alignment: usize) -> Result<Option<NonNull
 pub unsafe fn aligned_uninitialized_vec<T, const N: usize>(size: usize, alignment: usize) -> Result<Vec<T>> {
     if size == 0 {
         return Ok(vec![]);
-    } else if size < N {
+    } else if size < N || core::mem::size_of::<T>() == 0 {
         return unaligned_uninitialized_vec(size);
     } else {
-        let sizeof = core::mem::size_of::<T>();
-        let pointer = aligned_alloc(size * sizeof, alignment)?;
+        // also checks that number of bytes does not overflow
+        let layout = alloc::alloc::Layout::array::<T>(size)?;
+        let pointer = aligned_alloc(layout.size(), alignment.max(layout.align()))?;
         if let Some(pointer) = pointer {
             let mut v = Vec::from_raw_parts(pointer.as_ptr() as *mut T, size, size);
             unsafe { v.set_len(size) };
-- 
2.43.0


From 77dbaa6b5fa2879a4f92eac7c9eb30477c5a9404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:55 +0000
Subject: [PATCH 40/67] fix: to_layout initializes the elements in gaps of the
 new layout

---
 rstsr-core/src/tensor/manipulation/to_layout.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/tensor/manipulation/to_layout.rs b/rstsr-core/src/tensor/manipulation/to_layout.rs
index f52904f..da06a80 100644
--- a/rstsr-core/src/tensor/manipulation/to_layout.rs
+++ b/rstsr-core/src/tensor/manipulation/to_layout.rs
@@ -25,12 +25,26 @@ where
         return Ok(tensor.into_cow());
     } else {
         // layout changed, or not c and f contiguous with same layout
+        rstsr_assert!(!layout.is_broadcasted(), InvalidLayout, "cannot write to broadcasted tensor")?;
         // clone data by assign
         let (storage_old, layout_old) = tensor.into_raw_parts();
         let device = storage_old.device();
         let (_, idx_max) = layout.bounds_index()?;
-        let mut storage_new = device.uninit_impl(idx_max)?;
+        let mut storage_new = device.uninit_impl(if layout.size() == 0 { 0 } else { idx_max })?;
         device.assign_arbitary_uninit(storage_new.raw_mut(), &layout, storage_old.raw(), &layout_old)?;
+        if idx_max > layout.size() && layout.size() > 0 {
+            // layout leaves gaps in storage, which must also be initialized (by the first element)
+            let mut is_gap = vec![true; idx_max];
+            IterLayout::new(&layout, TensorIterOrder::K)?.for_each(|idx| is_gap[idx] = false);
+            let (mut shape_gap, mut shape_src) = (layout.shape().clone(), layout_old.shape().clone());
+            (0..layout.ndim()).for_each(|i| shape_gap[i] = 1);
+            (0..layout_old.ndim()).for_each(|i| shape_src[i] = 1);
+            let layout_src = Layout::new(shape_src, layout_old.stride().clone(), layout_old.offset())?;
+            for (idx, _) in is_gap.iter().enumerate().filter(|(_, &gap)| gap) {
+                let layout_gap = Layout::new(shape_gap.clone(), layout.stride().clone(), idx)?;
+                device.assign_arbitary_uninit(storage_new.raw_mut(), &layout_gap, storage_old.raw(), &layout_src)?;
+            }
+        }
         let storage_new = unsafe { B::assume_init_impl(storage_new)? };
         let tensor = unsafe { TensorBase::new_unchecked(storage_new, layout) };
         return Ok(tensor.into_cow());
-- 
2.43.0


From 2e75cd9ab5fc3ca9a4bb41802f04d47cd413146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:23 +0000
Subject: [PATCH 41/67] fix: unpack_tri without symmetry initializes the other
 triangle by zero

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index 10c41f0..7808221 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -210,6 +210,10 @@ pub fn inner_unpack_tril_c_contig<T>(
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
                 }
+                // the other triangle is zero
+                for j in (i + 1)..n {
+                    a[i * n + j].write(T::zero());
+                }
             }
         },
     }
@@ -290,6 +294,11 @@ pub fn inner_unpack_tril_general<T>(
                     a[loc_a_ij].write(b[loc_b]);
                     idx_b += 1;
                 }
+                // the other triangle is zero
+                for j in (i + 1)..n {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
             }
         },
     }
@@ -356,6 +365,10 @@ pub fn inner_unpack_triu_c_contig<T>(
                     a[i * n + j].write(b[idx_b]);
                     idx_b += 1;
                 }
+                // the other triangle is zero
+                for j in 0..i {
+                    a[i * n + j].write(T::zero());
+                }
             }
         },
     }
@@ -436,6 +449,11 @@ pub fn inner_unpack_triu_general<T>(
                     a[loc_a_ij].write(b[loc_b]);
                     idx_b += 1;
                 }
+                // the other triangle is zero
+                for j in 0..i {
+                    let loc_a_ij = unsafe { la.index_uncheck(&[i, j]) } as usize;
+                    a[loc_a_ij].write(T::zero());
+                }
             }
         },
     }
-- 
2.43.0


From 972dd422ade1b3110991ac407ad18739f8c5a4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:31 +0000
Subject: [PATCH 42/67] fix: shared storage held elsewhere is cloned instead of
 panicking when made owned

---
 rstsr-core/src/storage/data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-core/src/storage/data.rs b/rstsr-core/src/storage/data.rs
index c68650e..0a6a394 100644
--- a/rstsr-core/src/storage/data.rs
+++ b/rstsr-core/src/storage/data.rs
@@ -348,7 +348,8 @@ where
 {
     #[inline]
     fn into_owned(self) -> DataOwned<Self::Data> {
-        DataOwned::from(Arc::try_unwrap(self.raw).ok().unwrap())
+        // data is cloned if other holders still share it
+        DataOwned::from(Arc::try_unwrap(self.raw).unwrap_or_else(|raw| C::clone(&raw)))
     }
 
     #[inline]
-- 
2.43.0


From f991283afa70cd8aa6e27d1f2c12f6b0f6f964d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:31 +0000
Subject: [PATCH 43/67] fix: elements consumed by an operator that panics are
 not dropped twice

---
 .../operators/op_binary_arithmetic.rs         | 28 +++++++++++--------
 .../auto_impl/op_binary_arithmetic.rs         | 28 +++++++++++--------
 2 files changed, 34 insertions(+), 22 deletions(-)

diff --git a/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs b/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
index e6aec47..99969ea 100644
--- a/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
+++ b/rstsr-core/src/device_cpu_serial/operators/op_binary_arithmetic.rs
@@ -1,5 +1,16 @@
 use crate::prelude_dev::*;
-use core::mem::transmute;
+use core::mem::{transmute, ManuallyDrop};
+
+/// Applies a function that moves elements out of a vector and writes them back.
+///
+/// If the function panics, elements that have been moved out must not be dropped again together
+/// with the vector, so that the elements are leaked in this case.
+fn leak_on_panic<T>(a: &mut Vec<T>, f: impl FnOnce(&mut Vec<MaybeUninit<T>>) -> Result<()>) -> Result<()> {
+    let mut v = ManuallyDrop::new(core::mem::take(a));
+    let result = f(unsafe { transmute::<&mut Vec<T>, &mut Vec<MaybeUninit<T>>>(&mut v) });
+    *a = ManuallyDrop::into_inner(v);
+    result
+}
 
 #[duplicate_item(
      OpAPI               Op             func                    ;
@@ -51,13 +62,11 @@ where
     D: DimAPI,
 {
     fn op_muta_refb(&self, a: &mut Vec<TA>, la: &Layout<D>, b: &Vec<TB>, lb: &Layout<D>) -> Result<()> {
-        let a = unsafe { transmute::<&mut Vec<TA>, &mut Vec<MaybeUninit<TA>>>(a) };
-        self.op_muta_refb_func(a, la, b, lb, &mut func)
+        leak_on_panic(a, |a| self.op_muta_refb_func(a, la, b, lb, &mut func))
     }
 
     fn op_muta_numb(&self, a: &mut Vec<TA>, la: &Layout<D>, b: TB) -> Result<()> {
-        let a = unsafe { transmute::<&mut Vec<TA>, &mut Vec<MaybeUninit<TA>>>(a) };
-        self.op_muta_numb_func(a, la, b, &mut func)
+        leak_on_panic(a, |a| self.op_muta_numb_func(a, la, b, &mut func))
     }
 }
 
@@ -81,13 +90,11 @@ where
     D: DimAPI,
 {
     fn op_muta_refb(&self, b: &mut Vec<TB>, lb: &Layout<D>, a: &Vec<TA>, la: &Layout<D>) -> Result<()> {
-        let b = unsafe { transmute::<&mut Vec<TB>, &mut Vec<MaybeUninit<TB>>>(b) };
-        self.op_muta_refb_func(b, lb, a, la, &mut func)
+        leak_on_panic(b, |b| self.op_muta_refb_func(b, lb, a, la, &mut func))
     }
 
     fn op_muta_numb(&self, b: &mut Vec<TB>, lb: &Layout<D>, a: TA) -> Result<()> {
-        let b = unsafe { transmute::<&mut Vec<TB>, &mut Vec<MaybeUninit<TB>>>(b) };
-        self.op_muta_numb_func(b, lb, a, &mut func)
+        leak_on_panic(b, |b| self.op_muta_numb_func(b, lb, a, &mut func))
     }
 }
 
@@ -107,7 +114,6 @@ where
     }
 
     fn op_muta(&self, a: &mut Vec<TA>, la: &Layout<D>) -> Result<()> {
-        let a = unsafe { transmute::<&mut Vec<TA>, &mut Vec<MaybeUninit<TA>>>(a) };
-        self.op_muta_func(a, la, &mut func_inplace)
+        leak_on_panic(a, |a| self.op_muta_func(a, la, &mut func_inplace))
     }
 }
diff --git a/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs b/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
index 7ecee34..78366f6 100644
--- a/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
+++ b/rstsr-core/src/feature_rayon/auto_impl/op_binary_arithmetic.rs
@@ -1,5 +1,16 @@
 use crate::prelude_dev::*;
-use core::mem::transmute;
+use core::mem::{transmute, ManuallyDrop};
+
+/// Applies a function that moves elements out of a vector and writes them back.
+///
+/// If the function panics, elements that have been moved out must not be dropped again together
+/// with the vector, so that the elements are leaked in this case.
+fn leak_on_panic<T>(a: &mut Vec<T>, f: impl FnOnce(&mut Vec<MaybeUninit<T>>) -> Result<()>) -> Result<()> {
+    let mut v = ManuallyDrop::new(core::mem::take(a));
+    let result = f(unsafe { transmute::<&mut Vec<T>, &mut Vec<MaybeUninit<T>>>(&mut v) });
+    *a = ManuallyDrop::into_inner(v);
+    result
+}
 
 #[duplicate_item(
      OpAPI               Op             func                    ;
@@ -51,13 +62,11 @@ where
     D: DimAPI,
 {
     fn op_muta_refb(&self, a: &mut Vec<TA>, la: &Layout<D>, b: &Vec<TB>, lb: &Layout<D>) -> Result<()> {
-        let a = unsafe { transmute::<&mut Vec<TA>, &mut Vec<MaybeUninit<TA>>>(a) };
-        self.op_muta_refb_func(a, la, b, lb, &mut func)
+        leak_on_panic(a, |a| self.op_muta_refb_func(a, la, b, lb, &mut func))
     }
 
     fn op_muta_numb(&self, a: &mut Vec<TA>, la: &Layout<D>, b: TB) -> Result<()> {
-        let a = unsafe { transmute::<&mut Vec<TA>, &mut Vec<MaybeUninit<TA>>>(a) };
-        self.op_muta_numb_func(a, la, b, &mut func)
+        leak_on_panic(a, |a| self.op_muta_numb_func(a, la, b, &mut func))
     }
 }
 
@@ -81,13 +90,11 @@ where
     D: DimAPI,
 {
     fn op_muta_refb(&self, b: &mut Vec<TB>, lb: &Layout<D>, a: &Vec<TA>, la: &Layout<D>) -> Result<()> {
-        let b = unsafe { transmute::<&mut Vec<TB>, &mut Vec<MaybeUninit<TB>>>(b) };
-        self.op_muta_refb_func(b, lb, a, la, &mut func)
+        leak_on_panic(b, |b| self.op_muta_refb_func(b, lb, a, la, &mut func))
     }
 
     fn op_muta_numb(&self, b: &mut Vec<TB>, lb: &Layout<D>, a: TA) -> Result<()> {
-        let b = unsafe { transmute::<&mut Vec<TB>, &mut Vec<MaybeUninit<TB>>>(b) };
-        self.op_muta_numb_func(b, lb, a, &mut func)
+        leak_on_panic(b, |b| self.op_muta_numb_func(b, lb, a, &mut func))
     }
 }
 
@@ -107,7 +114,6 @@ where
     }
 
     fn op_muta(&self, a: &mut Vec<TA>, la: &Layout<D>) -> Result<()> {
-        let a = unsafe { transmute::<&mut Vec<TA>, &mut Vec<MaybeUninit<TA>>>(a) };
-        self.op_muta_func(a, la, &mut func_inplace)
+        leak_on_panic(a, |a| self.op_muta_func(a, la, &mut func_inplace))
     }
 }
-- 
2.43.0


From 31ff288cdd43a1290bb45260a8d58af418d4e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:16 +0000
Subject: [PATCH 44/67] fix: index_select without result elements does not look
 at the strides

---
 rstsr-native-impl/src/cpu_rayon/adv_indexing.rs  | 5 +++++
 rstsr-native-impl/src/cpu_serial/adv_indexing.rs | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
index 6df4237..d1d931b 100644
--- a/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_rayon/adv_indexing.rs
@@ -26,6 +26,11 @@ where
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
     rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
+    // nothing to be selected; strides of a layout without elements can be arbitrary
+    if lc.size() == 0 {
+        return Ok(());
+    }
+
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
     let size_indices = indices.len();
diff --git a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
index 526fb4c..0a5494e 100644
--- a/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
+++ b/rstsr-native-impl/src/cpu_serial/adv_indexing.rs
@@ -31,6 +31,11 @@ where
     rstsr_assert_eq!(lc.shape()[axis], indices.len(), InvalidLayout, "Invalid index length.")?;
     rstsr_assert!(indices.iter().all(|&i| i < la.shape()[axis]), IndexError, "Index out of range.")?;
 
+    // nothing to be selected; strides of a layout without elements can be arbitrary
+    if lc.size() == 0 {
+        return Ok(());
+    }
+
     // determine how iteration should be performed
     let axis_contig_c = lc.stride()[axis] == 1;
     let size_indices = indices.len();
-- 
2.43.0


From ea94a0af25f2f38aeb5144df0eac17a6e82c93bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:36 +0000
Subject: [PATCH 45/67] fix: svd with faer returns the adjoint of the right
 singular vectors for complex matrices

---
 rstsr-linalg-traits/src/faer_impl/svd.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/svd.rs b/rstsr-linalg-traits/src/faer_impl/svd.rs
index b5869b5..b695aae 100644
--- a/rstsr-linalg-traits/src/faer_impl/svd.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svd.rs
@@ -36,7 +36,7 @@ where
     let result = SVDResult {
         u: u.into_contig(device.default_order()),
         s: s.mapv(|v| T::real_part_impl(&v)).into_contig(device.default_order()),
-        vt: v.into_reverse_axes().into_contig(device.default_order()),
+        vt: v.into_reverse_axes().mapv(|v| T::conj_impl(&v)).into_contig(device.default_order()),
     };
 
     // restore parallel mode
-- 
2.43.0


From 0fbb09f119fd0ad923f221648f87e02a1cceea44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 46/67] fix: blas3 builders respect offset, leading dimension,
 triangle and order of their operands

---
 rstsr-blas-traits/src/blas3/gemm.rs   | 13 +++++++------
 rstsr-blas-traits/src/blas3/syhemm.rs | 25 ++++++++++---------------
 rstsr-blas-traits/src/blas3/trsm.rs   | 11 ++++++-----
 rstsr-core/src/tensor/tensor2_impl.rs |  8 ++++----
 4 files changed, 27 insertions(+), 30 deletions(-)

diff --git a/rstsr-blas-traits/src/blas3/gemm.rs b/rstsr-blas-traits/src/blas3/gemm.rs
index 7f8101e..40c23ca 100644
--- a/rstsr-blas-traits/src/blas3/gemm.rs
+++ b/rstsr-blas-traits/src/blas3/gemm.rs
@@ -55,8 +55,8 @@ where
         // determine preferred layout
         let order_c = c.as_ref().map(|c| (c.c_prefer(), c.f_prefer()));
         let order = order.map(|order| match order {
-            ColMajor => (true, false),
-            RowMajor => (false, true),
+            ColMajor => (false, true),
+            RowMajor => (true, false),
         });
 
         let default_order = a.device().default_order();
@@ -134,12 +134,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_gemm(ColMajor, transa, transb, m, n, k, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/syhemm.rs b/rstsr-blas-traits/src/blas3/syhemm.rs
index 5487f7c..0047255 100644
--- a/rstsr-blas-traits/src/blas3/syhemm.rs
+++ b/rstsr-blas-traits/src/blas3/syhemm.rs
@@ -56,25 +56,19 @@ where
         // determine preferred layout
         let order_c = c.as_ref().map(|c| (c.c_prefer(), c.f_prefer()));
         let order = order.map(|order| match order {
-            ColMajor => (true, false),
-            RowMajor => (false, true),
+            ColMajor => (false, true),
+            RowMajor => (true, false),
         });
 
         let default_order = a.device().default_order();
         let order = get_output_order(&[order, order_c], &[], default_order);
         if order == ColMajor {
-            let (uplo, a_cow) = match (HERMI, a.f_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(ColMajor)?),
-                _ => (uplo, a.to_contig_f(ColMajor)?),
-            };
+            let a_cow = a.to_contig_f(ColMajor)?;
             let b_cow = b.to_contig_f(ColMajor)?;
             let obj = SYHEMM_ { a: a_cow.view(), b: b_cow.view(), c, alpha, beta, side, uplo, order: Some(ColMajor) };
             obj.internal_run()
         } else {
-            let (uplo, a_cow) = match (HERMI, a.c_prefer()) {
-                (false, false) => (uplo.flip(), a.to_contig_f(RowMajor)?),
-                _ => (uplo, a.to_contig_f(RowMajor)?),
-            };
+            let a_cow = a.to_contig_f(RowMajor)?;
             let b_cow = b.to_contig_f(RowMajor)?;
             let obj = SYHEMM_ {
                 a: a_cow.t(),
@@ -103,7 +97,7 @@ where
 
         // initialize intent(hide)
         let m = b.nrow();
-        let n = a.ncol();
+        let n = b.ncol();
         let lda = a.ld_col().unwrap();
         let ldb = b.ld_col().unwrap();
 
@@ -128,12 +122,13 @@ where
         };
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.raw().as_ptr();
-        let ptr_c = c.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ptr_b = b.as_ptr();
+        let ldc = c.view().ld_col().unwrap();
+        let ptr_c = c.view_mut().as_mut_ptr();
 
         unsafe {
-            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, m);
+            B::driver_syhemm(ColMajor, side, uplo, m, n, alpha, ptr_a, lda, ptr_b, ldb, beta, ptr_c, ldc);
         }
 
         Ok(c.clone_to_mut())
diff --git a/rstsr-blas-traits/src/blas3/trsm.rs b/rstsr-blas-traits/src/blas3/trsm.rs
index 63acc13..f9102ca 100644
--- a/rstsr-blas-traits/src/blas3/trsm.rs
+++ b/rstsr-blas-traits/src/blas3/trsm.rs
@@ -60,8 +60,8 @@ where
         // determine preferred layout
         let order_b = (b.c_prefer(), b.f_prefer());
         let order = order.map(|order| match order {
-            ColMajor => (true, false),
-            RowMajor => (false, true),
+            ColMajor => (false, true),
+            RowMajor => (true, false),
         });
 
         let default_order = b.device().default_order();
@@ -123,10 +123,11 @@ where
         let mut b = overwritable_convert_with_order(b, ColMajor)?;
 
         // perform blas
-        let ptr_a = a.raw().as_ptr();
-        let ptr_b = b.view_mut().raw_mut().as_mut_ptr();
+        let ptr_a = a.as_ptr();
+        let ldb = b.view().ld_col().unwrap();
+        let ptr_b = b.view_mut().as_mut_ptr();
 
-        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, m) };
+        unsafe { B::driver_trsm(ColMajor, side, uplo, transa, diag, m, n, alpha, ptr_a, lda, ptr_b, ldb) };
 
         Ok(b.clone_to_mut())
     }
diff --git a/rstsr-core/src/tensor/tensor2_impl.rs b/rstsr-core/src/tensor/tensor2_impl.rs
index 2ab80ac..5fc85dd 100644
--- a/rstsr-core/src/tensor/tensor2_impl.rs
+++ b/rstsr-core/src/tensor/tensor2_impl.rs
@@ -16,9 +16,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.c_prefer() {
             // leading dimension is only defined if not c-prefer
             return None;
-        } else if self.shape()[0] == 1 {
+        } else if self.shape()[0] <= 1 || self.shape()[1] == 0 {
             // col-vector, leading dimension must be larger than dimension of col
-            return Some(self.shape()[1]);
+            return Some(self.shape()[1].max(1));
         } else {
             // usual definition that leading dimension is stride of row
             return Some(self.stride()[0] as usize);
@@ -33,9 +33,9 @@ impl<S> TensorBase<S, Ix2> {
         if !self.f_prefer() {
             // leading dimension is only defined if not f-prefer
             return None;
-        } else if self.shape()[1] == 1 {
+        } else if self.shape()[1] <= 1 || self.shape()[0] == 0 {
             // row-vector, leading dimension must be larger than dimension of row
-            return Some(self.shape()[0]);
+            return Some(self.shape()[0].max(1));
         } else {
             // usual definition that leading dimension is stride of col
             return Some(self.stride()[1] as usize);
-- 
2.43.0


From b15a586b9cc3cbb8ad313439efb767930327bdde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 47/67] fix: workspace of lapack drivers for complex and for
 empty matrices

---
 .../driver_impl/lapack/eigh/syev.rs           |  8 +++---
 .../driver_impl/lapack/eigh/syevd.rs          | 14 +++++-----
 .../driver_impl/lapack/eigh/sygv.rs           |  8 +++---
 .../driver_impl/lapack/eigh/sygvd.rs          | 14 +++++-----
 .../driver_impl/lapack/solve/getri.rs         |  4 +--
 .../driver_impl/lapack/solve/sysv.rs          | 14 +++++-----
 .../driver_impl/lapack/svd/gesdd.rs           | 26 +++++++++----------
 7 files changed, 44 insertions(+), 44 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
index 4d40cf5..e7ae413 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syev.rs
@@ -32,7 +32,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -107,7 +107,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         use lapack_ffi::lapack::func_;
 
         // Allocate memory for working array(s)
-        let rwork_len = (3 * n - 2).max(1);
+        let rwork_len = (3 * n).saturating_sub(2).max(1);
         let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec(rwork_len) {
             Ok(rwork) => rwork,
             Err(_) => return -1010,
@@ -116,7 +116,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &(jobz as _),
             &uplo.into(),
@@ -132,7 +132,7 @@ impl SYEVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
index 8801f88..7e85e9a 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/syevd.rs
@@ -46,8 +46,8 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
-        let liwork = iwork_query as usize;
+        let lwork = (work_query as usize).max(1);
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -134,8 +134,8 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         let mut iwork_query = 0;
         func_(
             &(jobz as _),
@@ -155,9 +155,9 @@ impl SYEVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
-        let lrwork = rwork_query as usize;
-        let liwork = iwork_query as usize;
+        let lwork = (work_query.re as usize).max(1);
+        let lrwork = (rwork_query as usize).max(1);
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
index c565098..561d553 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygv.rs
@@ -48,7 +48,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -142,7 +142,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         use lapack_ffi::lapack::func_;
 
         // Allocate memory for working array(s)
-        let rwork_len = (3 * n - 2).max(1);
+        let rwork_len = (3 * n).saturating_sub(2).max(1);
         let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec(rwork_len) {
             Ok(rwork) => rwork,
             Err(_) => return -1010,
@@ -151,7 +151,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &itype,
             &(jobz as _),
@@ -170,7 +170,7 @@ impl SYGVDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
index c33b793..230d66d 100644
--- a/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/eigh/sygvd.rs
@@ -52,8 +52,8 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
-        let liwork = iwork_query as usize;
+        let lwork = (work_query as usize).max(1);
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -159,8 +159,8 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork = -1;
         let liwork = -1;
-        let mut work_query = 0.0;
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         let mut iwork_query = 0;
         func_(
             &itype,
@@ -183,9 +183,9 @@ impl SYGVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
-        let lrwork = rwork_query as usize;
-        let liwork = iwork_query as usize;
+        let lwork = (work_query.re as usize).max(1);
+        let lrwork = (rwork_query as usize).max(1);
+        let liwork = (iwork_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs b/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs
index a854e66..02f7ef6 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/getri.rs
@@ -24,7 +24,7 @@ impl GETRIDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -78,7 +78,7 @@ impl GETRIDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query.re as usize;
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
index 5092db4..01a304a 100644
--- a/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/solve/sysv.rs
@@ -35,10 +35,10 @@ impl<const HERMI: bool> SYSVDriverAPI<T, HERMI> for DeviceBLAS {
             &(n as _),
             &(nrhs as _),
             a,
-            &(n as _),
+            &(n.max(1) as _),
             ipiv,
             b,
-            &(n as _),
+            &(n.max(1) as _),
             &mut work_query,
             &lwork,
             &mut info,
@@ -46,7 +46,7 @@ impl<const HERMI: bool> SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -141,16 +141,16 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         // Query optimal working array(s) size
         let mut info = 0;
         let lwork = -1;
-        let mut work_query = 0.0;
+        let mut work_query: T = num::zero();
         func_(
             &uplo.into(),
             &(n as _),
             &(nrhs as _),
             a as *mut _,
-            &(n as _),
+            &(n.max(1) as _),
             ipiv,
             b as *mut _,
-            &(n as _),
+            &(n.max(1) as _),
             &mut work_query as *mut _ as *mut _,
             &lwork,
             &mut info,
@@ -158,7 +158,7 @@ impl SYSVDriverAPI<T, HERMI> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for work arrays
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
index 4c7d66e..8a9f744 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesdd.rs
@@ -30,7 +30,7 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         use lapack_ffi::lapack::func_;
 
         // Allocate memory for temporary array(s)
-        let liwork = 8 * m.min(n);
+        let liwork = (8 * m.min(n)).max(1);
         let mut iwork: Vec<blas_int> = match uninitialized_vec(liwork) {
             Ok(iwork) => iwork,
             Err(_) => return -1010,
@@ -45,12 +45,12 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a,
-            &(m.max(n) as _),
+            &(m.max(n).max(1) as _),
             s,
             u,
-            &(m.max(n) as _),
+            &(m.max(n).max(1) as _),
             vt,
-            &(m.max(n) as _),
+            &(m.max(n).max(1) as _),
             &mut work_query,
             &lwork,
             iwork.as_mut_ptr(),
@@ -59,7 +59,7 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -200,7 +200,7 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         use lapack_ffi::lapack::func_;
 
         // Allocate memory for temporary array(s)
-        let liwork = 8 * m.min(n);
+        let liwork = (8 * m.min(n)).max(1);
         let mut iwork: Vec<blas_int> = match uninitialized_vec(liwork) {
             Ok(iwork) => iwork,
             Err(_) => return -1010,
@@ -211,19 +211,19 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         let lwork = -1;
         let lrwork =
             if jobz == 'N' { 7 * m.min(n) } else { m.min(n) * (5 * m.min(n) + 7).max(2 * m.max(n) + 2 * m.min(n) + 1) };
-        let mut work_query = Complex::new(0.0, 0.0);
-        let mut rwork_query = 0.0;
+        let mut work_query: T = num::zero();
+        let mut rwork_query: <T as ComplexFloat>::Real = 0.0;
         func_(
             &(jobz as _),
             &(m as _),
             &(n as _),
             a as *mut _,
-            &(m.max(n) as _),
+            &(m.max(n).max(1) as _),
             s as *mut _,
             u as *mut _,
-            &(m.max(n) as _),
+            &(m.max(n).max(1) as _),
             vt as *mut _,
-            &(m.max(n) as _),
+            &(m.max(n).max(1) as _),
             &mut work_query as *mut _ as *mut _,
             &lwork,
             &mut rwork_query as *mut _ as *mut _,
@@ -233,14 +233,14 @@ impl GESDDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query.re as usize;
+        let lwork = (work_query.re as usize).max(1);
 
         // Allocate memory for temporary array(s)
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
             Ok(work) => work,
             Err(_) => return -1010,
         };
-        let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec(lrwork) {
+        let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec(lrwork.max(1)) {
             Ok(rwork) => rwork,
             Err(_) => return -1010,
         };
-- 
2.43.0


From 4ba609d3c4f4d6093ffea744c4ec561324f18d06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 48/67] fix: gesvd with row-major matrices, singular vectors of
 empty matrices

---
 .../driver_impl/lapack/svd/gesvd.rs           | 34 +++++++++----------
 rstsr-blas-traits/src/lapack_svd/gesdd.rs     | 12 +++++--
 rstsr-blas-traits/src/lapack_svd/gesvd.rs     | 14 ++++++--
 3 files changed, 38 insertions(+), 22 deletions(-)

diff --git a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
index c727412..f60af86 100644
--- a/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
+++ b/rstsr-blas-traits/driver_impl/lapack/svd/gesvd.rs
@@ -41,12 +41,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a,
-            &(lda as _),
+            &(m.max(n).max(1) as _),
             s,
             u,
-            &(ldu as _),
+            &(m.max(n).max(1) as _),
             vt,
-            &(ldvt as _),
+            &(m.max(n).max(1) as _),
             &mut work_query,
             &lwork,
             &mut info,
@@ -54,7 +54,7 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query as usize;
+        let lwork = (work_query as usize).max(1);
 
         // Allocate memory for work array
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -153,26 +153,26 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
         // Backup superb data
         let min_mn = m.min(n);
-        for i in 0..min_mn - 1 {
+        for i in 0..min_mn.saturating_sub(1) {
             superb.add(i).write(work[i + 1]);
         }
 
@@ -205,7 +205,7 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
 
         // Allocate rwork
         let min_mn = m.min(n);
-        let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec(5 * min_mn) {
+        let mut rwork: Vec<<T as ComplexFloat>::Real> = match uninitialized_vec((5 * min_mn).max(1)) {
             Ok(rwork) => rwork,
             Err(_) => return -1010,
         };
@@ -220,12 +220,12 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             &(m as _),
             &(n as _),
             a as *mut _,
-            &(lda as _),
+            &(m.max(n).max(1) as _),
             s as *mut _,
             u as *mut _,
-            &(ldu as _),
+            &(m.max(n).max(1) as _),
             vt as *mut _,
-            &(ldvt as _),
+            &(m.max(n).max(1) as _),
             &mut work_query as *mut _ as *mut _,
             &lwork,
             rwork.as_mut_ptr() as *mut _,
@@ -234,7 +234,7 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
         if info != 0 {
             return info;
         }
-        let lwork = work_query.re() as usize;
+        let lwork = (work_query.re() as usize).max(1);
 
         // Allocate memory for work array
         let mut work: Vec<T> = match uninitialized_vec(lwork) {
@@ -335,26 +335,26 @@ impl GESVDDriverAPI<T> for DeviceBLAS {
             }
 
             // Transpose output matrices
-            orderchange_out_r2c_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
+            orderchange_out_c2r_ix2_cpu_serial(a_slice, &la, &a_t, &la_t).unwrap();
 
             if jobu == 'A' || jobu == 'S' {
                 let u_slice = from_raw_parts_mut(u, nrows_u * ldu);
                 let lu = Layout::new_unchecked([nrows_u, ncols_u], [ldu as isize, 1], 0);
                 let lu_t = Layout::new_unchecked([nrows_u, ncols_u], [1, ldu_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(u_slice, &lu, &u_t, &lu_t).unwrap();
             }
 
             if jobvt == 'A' || jobvt == 'S' {
                 let vt_slice = from_raw_parts_mut(vt, nrows_vt * ldvt);
                 let lvt = Layout::new_unchecked([nrows_vt, n], [ldvt as isize, 1], 0);
                 let lvt_t = Layout::new_unchecked([nrows_vt, n], [1, ldvt_t as isize], 0);
-                orderchange_out_r2c_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
+                orderchange_out_c2r_ix2_cpu_serial(vt_slice, &lvt, &vt_t, &lvt_t).unwrap();
             }
         }
 
         // Backup superb data
         #[allow(clippy::needless_range_loop)]
-        for i in 0..min_mn - 1 {
+        for i in 0..min_mn.saturating_sub(1) {
             superb.add(i).write(rwork[i]);
         }
 
diff --git a/rstsr-blas-traits/src/lapack_svd/gesdd.rs b/rstsr-blas-traits/src/lapack_svd/gesdd.rs
index e097be2..0489d93 100644
--- a/rstsr-blas-traits/src/lapack_svd/gesdd.rs
+++ b/rstsr-blas-traits/src/lapack_svd/gesdd.rs
@@ -71,8 +71,8 @@ where
             _ => unreachable!(),
         };
 
-        let mut u = unsafe { empty_f(([u0, u1], order, &device))?.into_dim::<Ix2>() };
-        let mut vt = unsafe { empty_f(([vt0, vt1], order, &device))?.into_dim::<Ix2>() };
+        let mut u: Tensor<T, B, Ix2> = unsafe { empty_f(([u0, u1], order, &device))?.into_dim::<Ix2>() };
+        let mut vt: Tensor<T, B, Ix2> = unsafe { empty_f(([vt0, vt1], order, &device))?.into_dim::<Ix2>() };
         let mut s = unsafe { empty_f(([minmn], &device))?.into_dim::<Ix1>() };
 
         let ldu = u.view().ld(order).unwrap();
@@ -99,6 +99,14 @@ where
             rstsr_errcode!(info, "Lapack GESDD")?;
         }
 
+        if minmn == 0 {
+            // lapack does not touch the singular vectors of a matrix without elements
+            u.raw_mut().fill(T::zero());
+            vt.raw_mut().fill(T::zero());
+            (0..u0.min(u1)).for_each(|i| u.raw_mut()[i * (u0 + 1)] = T::one());
+            (0..vt0.min(vt1)).for_each(|i| vt.raw_mut()[i * (vt0 + 1)] = T::one());
+        }
+
         match compute_uv {
             false => Ok((s, None, None)),
             true => Ok((s, Some(u), Some(vt))),
diff --git a/rstsr-blas-traits/src/lapack_svd/gesvd.rs b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
index 1a2ffa8..52b9921 100644
--- a/rstsr-blas-traits/src/lapack_svd/gesvd.rs
+++ b/rstsr-blas-traits/src/lapack_svd/gesvd.rs
@@ -74,10 +74,10 @@ where
             _ => unreachable!(),
         };
 
-        let mut u = unsafe { empty_f(([u0, u1], order, &device))?.into_dim::<Ix2>() };
-        let mut vt = unsafe { empty_f(([vt0, vt1], order, &device))?.into_dim::<Ix2>() };
+        let mut u: Tensor<T, B, Ix2> = unsafe { empty_f(([u0, u1], order, &device))?.into_dim::<Ix2>() };
+        let mut vt: Tensor<T, B, Ix2> = unsafe { empty_f(([vt0, vt1], order, &device))?.into_dim::<Ix2>() };
         let mut s = unsafe { empty_f(([minmn], &device))?.into_dim::<Ix1>() };
-        let mut superb = unsafe { empty_f(([minmn - 1], &device))?.into_dim::<Ix1>() };
+        let mut superb = unsafe { empty_f(([minmn.saturating_sub(1)], &device))?.into_dim::<Ix1>() };
 
         let ldu = u.view().ld(order).unwrap();
         let ldvt = vt.view().ld(order).unwrap();
@@ -105,6 +105,14 @@ where
             rstsr_errcode!(info, "Lapack GESVD")?;
         }
 
+        if minmn == 0 {
+            // lapack does not touch the singular vectors of a matrix without elements
+            u.raw_mut().fill(T::zero());
+            vt.raw_mut().fill(T::zero());
+            (0..u0.min(u1)).for_each(|i| u.raw_mut()[i * (u0 + 1)] = T::one());
+            (0..vt0.min(vt1)).for_each(|i| vt.raw_mut()[i * (vt0 + 1)] = T::one());
+        }
+
         match compute_uv {
             false => Ok((s, None, None, superb)),
             true => Ok((s, Some(u), Some(vt), superb)),
-- 
2.43.0


From d4d90eaa572147e2e875aa7b88b7c300e9d82581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:27 +0000
Subject: [PATCH 49/67] fix: determinant of singular matrix is zero with blas
 devices

---
 rstsr-blas-traits/src/lapack_solve/getrf.rs | 2 +-
 rstsr-linalg-traits/src/ref_impl_blas.rs    | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/rstsr-blas-traits/src/lapack_solve/getrf.rs b/rstsr-blas-traits/src/lapack_solve/getrf.rs
index e4afa56..4377bf3 100644
--- a/rstsr-blas-traits/src/lapack_solve/getrf.rs
+++ b/rstsr-blas-traits/src/lapack_solve/getrf.rs
@@ -37,7 +37,7 @@ where
 
         let [m, n] = *a.view().shape();
         let lda = a.view().ld(order).unwrap();
-        let mut ipiv = unsafe { empty_f(([n].c(), &device))?.into_dim::<Ix1>() };
+        let mut ipiv = unsafe { empty_f(([m.min(n)].c(), &device))?.into_dim::<Ix1>() };
         let ptr_a = a.view_mut().as_mut_ptr();
         let ptr_ipiv = ipiv.as_mut_ptr();
 
diff --git a/rstsr-linalg-traits/src/ref_impl_blas.rs b/rstsr-linalg-traits/src/ref_impl_blas.rs
index 711e8fa..73afb38 100644
--- a/rstsr-linalg-traits/src/ref_impl_blas.rs
+++ b/rstsr-linalg-traits/src/ref_impl_blas.rs
@@ -228,10 +228,17 @@ where
     T: BlasFloat,
     B: LapackDriverAPI<T>,
 {
+    rstsr_assert_eq!(a.shape()[0], a.shape()[1], InvalidLayout, "Determinant requires a square matrix.")?;
     let device = a.device().clone();
     let nthreads = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
     let task = || {
-        let (a, piv) = GETRF::default().a(a).build()?.run()?;
+        let (a, piv) = match GETRF::default().a(a).build()?.run() {
+            // positive code of getrf means the factor U is exactly singular
+            Err(Error { inner: RSTSRError::ErrorCode(code, _), .. }) if code > 0 => {
+                return Ok((T::zero(), T::Real::zero().ln()));
+            },
+            result => result?,
+        };
         // pivot indices that may cause sign change
         let mut change_sign = 0;
         let m = piv.shape()[0];
-- 
2.43.0


From bd7c623b8f03f888046b88ed15566b5c73c98367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:03:03 +0000
Subject: [PATCH 50/67] fix: getri checks the pivots it is given

---
 rstsr-blas-traits/src/lapack_solve/getri.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/rstsr-blas-traits/src/lapack_solve/getri.rs b/rstsr-blas-traits/src/lapack_solve/getri.rs
index fff0f09..ff1bb74 100644
--- a/rstsr-blas-traits/src/lapack_solve/getri.rs
+++ b/rstsr-blas-traits/src/lapack_solve/getri.rs
@@ -27,15 +27,20 @@ where
 
         let mut a = overwritable_convert(a)?;
         let order = if a.f_prefer() && !a.c_prefer() { ColMajor } else { RowMajor };
+
+        // perform check
+        let n = a.view().nrow();
+        rstsr_assert_eq!(n, a.view().ncol(), InvalidLayout, "Lapack GETRI: A must be square")?;
+        rstsr_assert_eq!(ipiv.size(), n, InvalidLayout, "Lapack GETRI: size of ipiv must be that of A")?;
+        for &p in ipiv.iter() {
+            rstsr_assert!((0..n as blas_int).contains(&p), InvalidValue, "Lapack GETRI: ipiv exceeds the rows of A")?;
+        }
+
         let mut ipiv = ipiv.into_contig_f(ColMajor)?;
 
         // rust is 0-indexed
         ipiv += 1;
 
-        // perform check
-        rstsr_assert_eq!(a.view().nrow(), a.view().ncol(), InvalidLayout, "Lapack GETRI: A must be square")?;
-
-        let n = a.view().nrow();
         let lda = a.view().ld(order).unwrap();
         let ptr_a = a.view_mut().as_mut_ptr();
         let ptr_ipiv = ipiv.as_mut_ptr();
-- 
2.43.0


From 742fff3e3ac55242adf8a7003d210432564cabe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:21:58 +0000
Subject: [PATCH 51/67] fix: diagonal of unpacked anti-hermitian matrix is
 imaginary instead of zero

---
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index 7808221..c821a63 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -149,6 +149,15 @@ where
 
 /* #region unpack tri */
 
+/// Diagonal of an anti-hermitian matrix is imaginary (zero for real types).
+#[inline]
+fn anti_hermitian_diag<T>(x: T) -> T
+where
+    T: ComplexFloat,
+{
+    x - T::from(x.re()).unwrap()
+}
+
 #[inline]
 pub fn inner_unpack_tril_c_contig<T>(
     a: &mut [MaybeUninit<T>],
@@ -200,7 +209,7 @@ pub fn inner_unpack_tril_c_contig<T>(
                     a[j * n + i].write(-b[idx_b].conj());
                     idx_b += 1;
                 }
-                a[i * n + i].write(T::zero());
+                a[i * n + i].write(anti_hermitian_diag(b[idx_b]));
                 idx_b += 1;
             }
         },
@@ -282,7 +291,8 @@ pub fn inner_unpack_tril_general<T>(
                     idx_b += 1;
                 }
                 let loc_a_ii = unsafe { la.index_uncheck(&[i, i]) } as usize;
-                a[loc_a_ii].write(T::zero());
+                let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
+                a[loc_a_ii].write(anti_hermitian_diag(b[loc_b]));
                 idx_b += 1;
             }
         },
@@ -350,7 +360,7 @@ pub fn inner_unpack_triu_c_contig<T>(
         },
         FlagSymm::Ah => {
             for i in 0..n {
-                a[i * n + i].write(T::zero());
+                a[i * n + i].write(anti_hermitian_diag(b[idx_b]));
                 idx_b += 1;
                 for j in (i + 1)..n {
                     a[i * n + j].write(b[idx_b]);
@@ -429,7 +439,8 @@ pub fn inner_unpack_triu_general<T>(
         FlagSymm::Ah => {
             for i in 0..n {
                 let loc_a_ii = unsafe { la.index_uncheck(&[i, i]) } as usize;
-                a[loc_a_ii].write(T::zero());
+                let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
+                a[loc_a_ii].write(anti_hermitian_diag(b[loc_b]));
                 idx_b += 1;
                 for j in (i + 1)..n {
                     let loc_b = unsafe { lb.index_uncheck(&[idx_b]) } as usize;
-- 
2.43.0


From 2bd699854d197e7e6de7a6cbfdbd6d33366762ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:34 +0000
Subject: [PATCH 52/67] fix: packing and unpacking triangles of no elements
 does not touch memory

---
 rstsr-native-impl/src/cpu_rayon/op_tri.rs  | 6 ++++++
 rstsr-native-impl/src/cpu_serial/op_tri.rs | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/rstsr-native-impl/src/cpu_rayon/op_tri.rs b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
index bb8d8ac..e74bc13 100644
--- a/rstsr-native-impl/src/cpu_rayon/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_rayon/op_tri.rs
@@ -38,6 +38,9 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -139,6 +142,9 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
diff --git a/rstsr-native-impl/src/cpu_serial/op_tri.rs b/rstsr-native-impl/src/cpu_serial/op_tri.rs
index c821a63..f38b9c6 100644
--- a/rstsr-native-impl/src/cpu_serial/op_tri.rs
+++ b/rstsr-native-impl/src/cpu_serial/op_tri.rs
@@ -100,6 +100,9 @@ where
 
     // inner dimensions handling
     let n = lb_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
@@ -501,6 +504,9 @@ where
 
     // inner dimensions handling
     let n = la_inner.shape()[0];
+    if n == 0 {
+        return Ok(());
+    }
 
     // contiguous flags
     let c_contig = la_inner.c_contig() && lb_inner.c_contig();
-- 
2.43.0


From 2bfa145fe5fa9c5fc16e7b0568bcca561588d17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:03 +0000
Subject: [PATCH 53/67] fix: promotion and cast of i8 to i16 is implemented
 (was swallowed by a comment)

---
 rstsr-dtype-traits/src/promotion.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rstsr-dtype-traits/src/promotion.rs b/rstsr-dtype-traits/src/promotion.rs
index 5705bbf..9472f87 100644
--- a/rstsr-dtype-traits/src/promotion.rs
+++ b/rstsr-dtype-traits/src/promotion.rs
@@ -228,7 +228,8 @@ macro_rules! impl_promotion_asable {
     };
 }
 
-// internal typeimpl_promotion_asable!(i8, i16, false, true, i16);
+// internal type
+impl_promotion_asable!(i8, i16, false, true, i16);
 impl_promotion_asable!(i8, i32, false, true, i32);
 impl_promotion_asable!(i8, i64, false, true, i64);
 impl_promotion_asable!(i8, u8, false, false, i16);
-- 
2.43.0


From 05f3a0402c74d6e490c612ff48cd3e64cd104060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:59 +0000
Subject: [PATCH 54/67] fix: distances between points without coordinates do
 not divide by zero

---
 rstsr-sci-traits/src/distance/native_impl.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index 551ccaf..f34722e 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -34,9 +34,9 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -105,9 +105,9 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
@@ -192,9 +192,9 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
 
     macro_rules! perform_batch_calc {
         ($STRIDED: ident, $ORDER: ident) => {
@@ -276,9 +276,9 @@ where
 
     // calculate batch size based on cache size
     let size_t = std::mem::size_of::<T>();
-    let batch_size = (CACHE_SIZE / (size_t * k) / 2).clamp(8, 64);
+    let batch_size = (CACHE_SIZE / (size_t * k).max(1) / 2).clamp(8, 64);
 
-    let strided = stride_a[1] != 1 || stride_b[1] != 1;
+    let strided = k == 0 || stride_a[1] != 1 || stride_b[1] != 1;
     let weights_sum = weights.as_ref().iter().fold(M::Out::zero(), |acc, w| acc + *w);
 
     macro_rules! perform_batch_calc {
-- 
2.43.0


From 6a044eeb8ccbc5ea4d725e5e169407673645615b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:08 +0000
Subject: [PATCH 55/67] fix: weighted distances refuse weights of a different
 length

---
 rstsr-sci-traits/src/distance/native_impl.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index f34722e..f6762a6 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -96,6 +96,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights must match the columns.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
@@ -267,6 +268,7 @@ where
 
     rstsr_assert_eq!(shape_a[1], shape_b[1], InvalidLayout, "The number of columns in xa and xb must match.")?;
     let k = shape_a[1];
+    rstsr_assert_eq!(weights.as_ref().len(), k, InvalidLayout, "The number of weights must match the columns.")?;
 
     let m = shape_a[0];
     let n = shape_b[0];
-- 
2.43.0


From e4d899e3f8b9b7b436c67f85482471b6facaaa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:41:38 +0000
Subject: [PATCH 56/67] fix: correlation distance with weights uses weighted
 means

---
 rstsr-sci-traits/src/distance/metric.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/metric.rs b/rstsr-sci-traits/src/distance/metric.rs
index 8868505..b2950bb 100644
--- a/rstsr-sci-traits/src/distance/metric.rs
+++ b/rstsr-sci-traits/src/distance/metric.rs
@@ -765,6 +765,7 @@ where
             "xa and weights must have the same number of columns"
         )?;
 
+        let weights_sum = weights.iter().fold(T::zero(), |acc, &w| acc + w);
         let mut norms_u = vec![T::zero(); m];
         let mut norms_v = vec![T::zero(); n];
         let mut means_u = vec![T::zero(); m];
@@ -773,8 +774,8 @@ where
         means_u.iter_mut().zip(norms_u.iter_mut()).enumerate().for_each(|(i, (mean_u, norm_u))| {
             *mean_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_u = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xa[la.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_u) * (val - *mean_u)
@@ -785,8 +786,8 @@ where
         means_v.iter_mut().zip(norms_v.iter_mut()).enumerate().for_each(|(i, (mean_v, norm_v))| {
             *mean_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
-                acc + val
-            }) / T::from_usize(k).unwrap();
+                acc + weights[j] * val
+            }) / weights_sum;
             *norm_v = (0..k).fold(T::zero(), |acc, j| unsafe {
                 let val = xb[lb.index_uncheck(&[i, j]) as usize];
                 acc + weights[j] * (val - *mean_v) * (val - *mean_v)
-- 
2.43.0


From 7a351ab2dba91f97fd9fe8d29f6779002372f2f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:33 +0000
Subject: [PATCH 57/67] fix: Jensen-Shannon distance of identical distributions
 is zero instead of NaN

---
 rstsr-sci-traits/src/distance/metric.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/rstsr-sci-traits/src/distance/metric.rs b/rstsr-sci-traits/src/distance/metric.rs
index b2950bb..803d03e 100644
--- a/rstsr-sci-traits/src/distance/metric.rs
+++ b/rstsr-sci-traits/src/distance/metric.rs
@@ -885,6 +885,11 @@ where
             },
         }
 
+        // divergence of (nearly) identical distributions can be negative by rounding
+        if dist < T::zero() {
+            dist = T::zero();
+        }
+
         (dist / two).sqrt()
     }
 
-- 
2.43.0


From 32226407eb17644b39d846474d6f3b97c1a0a093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:44:16 +0000
Subject: [PATCH 58/67] fix: results of pairwise distances are written without
 dropping uninitialized memory

---
 rstsr-sci-traits/src/distance/native_impl.rs | 33 +++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/rstsr-sci-traits/src/distance/native_impl.rs b/rstsr-sci-traits/src/distance/native_impl.rs
index f6762a6..65138c6 100644
--- a/rstsr-sci-traits/src/distance/native_impl.rs
+++ b/rstsr-sci-traits/src/distance/native_impl.rs
@@ -2,6 +2,7 @@ use super::metric::{MetricDistAPI, MetricDistWeightedAPI};
 use num::{Float, Zero};
 use rayon::prelude::*;
 use rstsr_core::prelude_dev::*;
+use std::mem::MaybeUninit;
 
 const CACHE_SIZE: usize = 256 * 1024; // 256 KiB
 
@@ -28,7 +29,7 @@ where
 
     let m = shape_a[0];
     let n = shape_b[0];
-    let mut dists = unsafe { uninitialized_vec::<M::Out>(m * n)? };
+    let mut dists = unsafe { uninitialized_vec::<MaybeUninit<M::Out>>(m * n)? };
 
     kernel.initialize(xa, la, xb, lb)?;
 
@@ -56,8 +57,8 @@ where
                             let size = k;
                             let dist = kernel.distance::<{ $STRIDED }>(uv, offsets, indices, strides, size);
                             match $ORDER {
-                                RowMajor => dists[i * n + j] = dist,
-                                ColMajor => dists[i + j * m] = dist,
+                                RowMajor => dists[i * n + j] = MaybeUninit::new(dist),
+                                ColMajor => dists[i + j * m] = MaybeUninit::new(dist),
                             }
                         }
                     }
@@ -72,7 +73,8 @@ where
         (true, ColMajor) => perform_batch_calc!(true, ColMajor),
     }
 
-    Ok(dists)
+    // all pairs have been visited; transmute `Vec<MaybeUninit<T>>` to `Vec<T>`
+    Ok(unsafe { core::mem::transmute::<Vec<MaybeUninit<M::Out>>, Vec<M::Out>>(dists) })
 }
 
 pub fn cdist_weighted_serial<T, M>(
@@ -100,7 +102,7 @@ where
 
     let m = shape_a[0];
     let n = shape_b[0];
-    let mut dists = unsafe { uninitialized_vec::<M::Out>(m * n)? };
+    let mut dists = unsafe { uninitialized_vec::<MaybeUninit<M::Out>>(m * n)? };
 
     kernel.weighted_initialize(xa, la, xb, lb, weights)?;
 
@@ -137,8 +139,8 @@ where
                                 weights_sum,
                             );
                             match $ORDER {
-                                RowMajor => dists[i * n + j] = dist,
-                                ColMajor => dists[i + j * m] = dist,
+                                RowMajor => dists[i * n + j] = MaybeUninit::new(dist),
+                                ColMajor => dists[i + j * m] = MaybeUninit::new(dist),
                             }
                         }
                     }
@@ -153,7 +155,8 @@ where
         (true, ColMajor) => perform_batch_calc!(true, ColMajor),
     }
 
-    Ok(dists)
+    // all pairs have been visited; transmute `Vec<MaybeUninit<T>>` to `Vec<T>`
+    Ok(unsafe { core::mem::transmute::<Vec<MaybeUninit<M::Out>>, Vec<M::Out>>(dists) })
 }
 
 pub fn cdist_rayon<T, M>(
@@ -187,7 +190,7 @@ where
 
     let m = shape_a[0];
     let n = shape_b[0];
-    let dists = unsafe { uninitialized_vec::<M::Out>(m * n)? };
+    let dists = unsafe { uninitialized_vec::<MaybeUninit<M::Out>>(m * n)? };
 
     kernel.initialize(xa, la, xb, lb)?;
 
@@ -219,7 +222,7 @@ where
                                     RowMajor => dists.as_ptr().add(i * n + j) as *mut _,
                                     ColMajor => dists.as_ptr().add(i + j * m) as *mut _,
                                 };
-                                *dist_ij = dist;
+                                *dist_ij = MaybeUninit::new(dist);
                             }
                         }
                     }
@@ -235,7 +238,8 @@ where
         (true, ColMajor) => perform_batch_calc!(true, ColMajor),
     });
 
-    Ok(dists)
+    // all pairs have been visited; transmute `Vec<MaybeUninit<T>>` to `Vec<T>`
+    Ok(unsafe { core::mem::transmute::<Vec<MaybeUninit<M::Out>>, Vec<M::Out>>(dists) })
 }
 
 pub fn cdist_weighted_rayon<T, M>(
@@ -272,7 +276,7 @@ where
 
     let m = shape_a[0];
     let n = shape_b[0];
-    let dists = unsafe { uninitialized_vec::<M::Out>(m * n)? };
+    let dists = unsafe { uninitialized_vec::<MaybeUninit<M::Out>>(m * n)? };
 
     kernel.weighted_initialize(xa, la, xb, lb, weights)?;
 
@@ -313,7 +317,7 @@ where
                                     RowMajor => dists.as_ptr().add(i * n + j) as *mut _,
                                     ColMajor => dists.as_ptr().add(i + j * m) as *mut _,
                                 };
-                                *dist_ij = dist;
+                                *dist_ij = MaybeUninit::new(dist);
                             }
                         }
                     }
@@ -329,5 +333,6 @@ where
         (true, ColMajor) => perform_batch_calc!(true, ColMajor),
     });
 
-    Ok(dists)
+    // all pairs have been visited; transmute `Vec<MaybeUninit<T>>` to `Vec<T>`
+    Ok(unsafe { core::mem::transmute::<Vec<MaybeUninit<M::Out>>, Vec<M::Out>>(dists) })
 }
-- 
2.43.0


From fac4c9247293c9e7490b42e479c78ff8be51910e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 59/67] fix: faer views with reversed rows or columns can be
 converted

---
 rstsr-core/src/device_faer/conversion.rs | 50 +++++++++++++++---------
 1 file changed, 31 insertions(+), 19 deletions(-)

diff --git a/rstsr-core/src/device_faer/conversion.rs b/rstsr-core/src/device_faer/conversion.rs
index e5cf124..da777df 100644
--- a/rstsr-core/src/device_faer/conversion.rs
+++ b/rstsr-core/src/device_faer/conversion.rs
@@ -37,19 +37,37 @@ where
     }
 }
 
+/// Lowest address and layout (relative to that address) of faer objects.
+///
+/// Strides of faer objects can be negative (reversed rows or columns).
+fn faer_to_layout<T, const N: usize>(
+    ptr: *const T,
+    shape: [usize; N],
+    stride: [isize; N],
+) -> (*mut T, Layout<[usize; N]>)
+where
+    [usize; N]: DimAPI + DimBaseAPI<Stride = [isize; N]>,
+{
+    let mut offset = 0;
+    if !shape.contains(&0) {
+        for (&n, &s) in shape.iter().zip(stride.iter()) {
+            offset += (n - 1) * if s < 0 { s.unsigned_abs() } else { 0 };
+        }
+    }
+    let layout = Layout::new(shape, stride, offset).unwrap();
+    (unsafe { ptr.sub(offset) } as *mut T, layout)
+}
+
 impl<'a, T> IntoRSTSR for MatRef<'a, T> {
     type RSTSR = TensorView<'a, T, DeviceFaer, Ix2>;
 
     fn into_rstsr(self) -> Self::RSTSR {
-        let nrows = self.nrows();
-        let ncols = self.ncols();
-        let row_stride = self.row_stride();
-        let col_stride = self.col_stride();
-        let ptr = self.as_ptr();
+        let shape = [self.nrows(), self.ncols()];
+        let stride = [self.row_stride(), self.col_stride()];
+        let (ptr, layout) = faer_to_layout(self.as_ptr(), shape, stride);
 
-        let layout = Layout::new([nrows, ncols], [row_stride, col_stride], 0).unwrap();
         let (_, upper_bound) = layout.bounds_index().unwrap();
-        let raw = unsafe { Vec::from_raw_parts(ptr as *mut T, upper_bound, upper_bound) };
+        let raw = unsafe { Vec::from_raw_parts(ptr, upper_bound, upper_bound) };
         let data = DataRef::from_manually_drop(ManuallyDrop::new(raw));
         let storage = Storage::new(data, DeviceFaer::default());
         let tensor = unsafe { TensorView::new_unchecked(storage, layout) };
@@ -82,13 +100,10 @@ impl<'a, T> IntoRSTSR for ColRef<'a, T> {
     type RSTSR = TensorView<'a, T, DeviceFaer, Ix1>;
 
     fn into_rstsr(self) -> Self::RSTSR {
-        let nrows = self.nrows();
-        let stride = self.row_stride();
-        let ptr = self.as_ptr();
+        let (ptr, layout) = faer_to_layout(self.as_ptr(), [self.nrows()], [self.row_stride()]);
 
-        let layout = Layout::new([nrows], [stride], 0).unwrap();
         let (_, upper_bound) = layout.bounds_index().unwrap();
-        let raw = unsafe { Vec::from_raw_parts(ptr as *mut T, upper_bound, upper_bound) };
+        let raw = unsafe { Vec::from_raw_parts(ptr, upper_bound, upper_bound) };
         let data = DataRef::from_manually_drop(ManuallyDrop::new(raw));
         let storage = Storage::new(data, DeviceFaer::default());
         let tensor = unsafe { TensorView::new_unchecked(storage, layout) };
@@ -100,15 +115,12 @@ impl<'a, T> IntoRSTSR for MatMut<'a, T> {
     type RSTSR = TensorViewMut<'a, T, DeviceFaer, Ix2>;
 
     fn into_rstsr(self) -> Self::RSTSR {
-        let nrows = self.nrows();
-        let ncols = self.ncols();
-        let row_stride = self.row_stride();
-        let col_stride = self.col_stride();
-        let ptr = self.as_ptr();
+        let shape = [self.nrows(), self.ncols()];
+        let stride = [self.row_stride(), self.col_stride()];
+        let (ptr, layout) = faer_to_layout(self.as_ptr(), shape, stride);
 
-        let layout = Layout::new([nrows, ncols], [row_stride, col_stride], 0).unwrap();
         let (_, upper_bound) = layout.bounds_index().unwrap();
-        let raw = unsafe { Vec::from_raw_parts(ptr as *mut T, upper_bound, upper_bound) };
+        let raw = unsafe { Vec::from_raw_parts(ptr, upper_bound, upper_bound) };
         let data = DataMut::from_manually_drop(ManuallyDrop::new(raw));
         let storage = Storage::new(data, DeviceFaer::default());
         let tensor = unsafe { TensorMut::new_unchecked(storage, layout) };
-- 
2.43.0


From 5dab8e8533a90d257abe0dc23a2a3f5159067b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:15 +0000
Subject: [PATCH 60/67] fix: owned faer matrix is moved into a vector instead
 of handing over foreign memory

---
 rstsr-core/src/device_faer/conversion.rs | 25 +++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/rstsr-core/src/device_faer/conversion.rs b/rstsr-core/src/device_faer/conversion.rs
index da777df..de562ae 100644
--- a/rstsr-core/src/device_faer/conversion.rs
+++ b/rstsr-core/src/device_faer/conversion.rs
@@ -78,17 +78,20 @@ impl<'a, T> IntoRSTSR for MatRef<'a, T> {
 impl<T> IntoRSTSR for Mat<T> {
     type RSTSR = Tensor<T, DeviceFaer, Ix2>;
 
-    fn into_rstsr(self) -> Self::RSTSR {
-        let nrows = self.nrows();
-        let ncols = self.ncols();
-        let row_stride = self.row_stride();
-        let col_stride = self.col_stride();
-        let ptr = self.as_ptr();
-        core::mem::forget(self); // prevent double free
-
-        let layout = Layout::new([nrows, ncols], [row_stride, col_stride], 0).unwrap();
-        let (_, upper_bound) = layout.bounds_index().unwrap();
-        let raw = unsafe { Vec::from_raw_parts(ptr as *mut T, upper_bound, upper_bound) };
+    fn into_rstsr(mut self) -> Self::RSTSR {
+        // Memory of `Mat` can not be taken over by `Vec`: it is allocated by other alignment and
+        // capacity, and is not initialized between the columns. So elements are moved out.
+        let (nrows, ncols) = (self.nrows(), self.ncols());
+        let mut raw = Vec::with_capacity(nrows * ncols);
+        for j in 0..ncols {
+            for i in 0..nrows {
+                raw.push(unsafe { core::ptr::read(self.as_ref().get_unchecked(i, j)) });
+            }
+        }
+        // elements now belong to `raw`
+        unsafe { self.set_dims(0, 0) };
+
+        let layout = [nrows, ncols].f();
         let data = DataOwned::from(raw);
         let storage = Storage::new(data, DeviceFaer::default());
         let tensor = unsafe { Tensor::new_unchecked(storage, layout) };
-- 
2.43.0


From 75353e757db345b437132455ed8c6270f7b6d7db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:54:11 +0000
Subject: [PATCH 61/67] fix: borrowed and shared data cross threads only if
 their elements may be shared

---
 rstsr-core/src/feature_rayon/par_iter.rs |  2 +-
 rstsr-core/src/storage/data.rs           | 10 +++++-----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/rstsr-core/src/feature_rayon/par_iter.rs b/rstsr-core/src/feature_rayon/par_iter.rs
index 0350c24..ed2b3a3 100644
--- a/rstsr-core/src/feature_rayon/par_iter.rs
+++ b/rstsr-core/src/feature_rayon/par_iter.rs
@@ -23,7 +23,7 @@ where
 impl<'a, T, B> IntoParallelIterator for IterTensor<'a, T, B>
 where
     T: Send + Sync,
-    B::Raw: Send,
+    B::Raw: Send + Sync,
     B: DeviceAPI<T> + Send,
 {
     type Item = <IterTensor<'a, T, B> as Iterator>::Item;
diff --git a/rstsr-core/src/storage/data.rs b/rstsr-core/src/storage/data.rs
index 0a6a394..ceb65e1 100644
--- a/rstsr-core/src/storage/data.rs
+++ b/rstsr-core/src/storage/data.rs
@@ -42,14 +42,14 @@ pub enum DataReference<'a, C> {
 }
 
 unsafe impl<C> Send for DataOwned<C> where C: Send {}
-unsafe impl<C> Send for DataRef<'_, C> where C: Send {}
+unsafe impl<C> Send for DataRef<'_, C> where C: Sync {}
 unsafe impl<C> Sync for DataRef<'_, C> where C: Sync {}
 unsafe impl<C> Send for DataMut<'_, C> where C: Send {}
 unsafe impl<C> Sync for DataCow<'_, C> where C: Sync {}
-unsafe impl<C> Send for DataCow<'_, C> where C: Send {}
-unsafe impl<C> Send for DataArc<C> where C: Send {}
-unsafe impl<C> Sync for DataArc<C> where C: Sync {}
-unsafe impl<C> Send for DataReference<'_, C> where C: Send {}
+unsafe impl<C> Send for DataCow<'_, C> where C: Send + Sync {}
+unsafe impl<C> Send for DataArc<C> where C: Send + Sync {}
+unsafe impl<C> Sync for DataArc<C> where C: Send + Sync {}
+unsafe impl<C> Send for DataReference<'_, C> where C: Send + Sync {}
 unsafe impl<C> Sync for DataReference<'_, C> where C: Sync {}
 
 /* #endregion */
-- 
2.43.0


From d4d5cc73a5a3f1dfc3ee119a566b899360736fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:31 +0000
Subject: [PATCH 62/67] fix: parallelism of faer is restored after errors,
 panics and overlapping calls

---
 rstsr-linalg-traits/src/faer_impl/cholesky.rs | 12 ++-----
 rstsr-linalg-traits/src/faer_impl/det.rs      | 12 ++-----
 rstsr-linalg-traits/src/faer_impl/eigh.rs     | 27 +++------------
 rstsr-linalg-traits/src/faer_impl/eigvalsh.rs | 12 ++-----
 rstsr-linalg-traits/src/faer_impl/inv.rs      | 12 ++-----
 rstsr-linalg-traits/src/faer_impl/mod.rs      | 34 +++++++++++++++++++
 rstsr-linalg-traits/src/faer_impl/pinv.rs     | 12 ++-----
 .../src/faer_impl/solve_general.rs            | 12 ++-----
 rstsr-linalg-traits/src/faer_impl/svd.rs      | 12 ++-----
 rstsr-linalg-traits/src/faer_impl/svdvals.rs  | 12 ++-----
 10 files changed, 54 insertions(+), 103 deletions(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/cholesky.rs b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
index 4667221..24f762b 100644
--- a/rstsr-linalg-traits/src/faer_impl/cholesky.rs
+++ b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::CholeskyAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -13,11 +14,7 @@ where
 {
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -40,11 +37,6 @@ where
     // convert to rstsr tensor with certain layout
     let result = result.into_rstsr().into_contig(device.default_order());
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/det.rs b/rstsr-linalg-traits/src/faer_impl/det.rs
index 25d4769..e0755a8 100644
--- a/rstsr-linalg-traits/src/faer_impl/det.rs
+++ b/rstsr-linalg-traits/src/faer_impl/det.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::DetAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -10,22 +11,13 @@ where
 {
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let faer_a = a.into_faer();
 
     // det computation
     let result = faer_a.determinant();
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/eigh.rs b/rstsr-linalg-traits/src/faer_impl/eigh.rs
index 92e247d..078493d 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigh.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::{EighAPI, EighResult};
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -17,11 +18,7 @@ where
 
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -43,11 +40,6 @@ where
     let eigenvalues = eigenvalues.mapv(|v| T::real_part_impl(&v));
     let eigenvectors = result.U().into_rstsr().into_contig(device.default_order());
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok((eigenvalues, eigenvectors))
 }
 
@@ -69,14 +61,8 @@ where
     let device = a.device().clone();
 
     let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    let faer_par = if let Some(pool) = pool {
-        let faer_par = Par::rayon(pool.current_num_threads());
-        faer::set_global_parallelism(faer_par);
-        faer_par
-    } else {
-        Par::Seq
-    };
+    let faer_par = pool.map_or(Par::Seq, |pool| Par::rayon(pool.current_num_threads()));
+    let _guard = pool.map(|_| FaerParGuard::new(faer_par));
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -172,11 +158,6 @@ where
         _ => unreachable!(),
     };
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
index b1fb0ab..40e1170 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::EigvalshAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -16,11 +17,7 @@ where
 
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let uplo = uplo.unwrap_or(match a.device().default_order() {
         RowMajor => Lower,
@@ -38,11 +35,6 @@ where
         .map_err(|e| rstsr_error!(FaerError, "Faer SelfAdjointEigen error: {e:?}"))?;
     let eigenvalues = asarray((result, &device)).into_dim::<Ix1>();
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(eigenvalues)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/inv.rs b/rstsr-linalg-traits/src/faer_impl/inv.rs
index ae8bfd4..fb3b747 100644
--- a/rstsr-linalg-traits/src/faer_impl/inv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/inv.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::InvAPI;
 use faer::linalg::solvers::DenseSolveCore;
 use faer::prelude::*;
@@ -11,11 +12,7 @@ where
 {
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let faer_a = a.into_faer();
 
@@ -26,11 +23,6 @@ where
     // convert to rstsr tensor with certain layout
     let result = result.as_ref().into_rstsr().into_contig(device.default_order());
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/mod.rs b/rstsr-linalg-traits/src/faer_impl/mod.rs
index 2dced41..0d3e72e 100644
--- a/rstsr-linalg-traits/src/faer_impl/mod.rs
+++ b/rstsr-linalg-traits/src/faer_impl/mod.rs
@@ -8,3 +8,37 @@ pub mod solve_general;
 pub mod solve_triangular;
 pub mod svd;
 pub mod svdvals;
+
+use faer::Par;
+use std::sync::Mutex;
+
+/// Number of living guards, and the parallelism that faer had before the first of them.
+static FAER_PAR: Mutex<(usize, Par)> = Mutex::new((0, Par::Seq));
+
+/// Sets the global parallelism of faer.
+///
+/// The original parallelism is restored once all guards are dropped, also when an error occurs or
+/// when functions of different devices run at the same time.
+pub(crate) struct FaerParGuard;
+
+impl FaerParGuard {
+    pub(crate) fn new(par: Par) -> Self {
+        let mut state = FAER_PAR.lock().unwrap_or_else(|e| e.into_inner());
+        if state.0 == 0 {
+            state.1 = faer::get_global_parallelism();
+        }
+        state.0 += 1;
+        faer::set_global_parallelism(par);
+        Self
+    }
+}
+
+impl Drop for FaerParGuard {
+    fn drop(&mut self) {
+        let mut state = FAER_PAR.lock().unwrap_or_else(|e| e.into_inner());
+        state.0 -= 1;
+        if state.0 == 0 {
+            faer::set_global_parallelism(state.1);
+        }
+    }
+}
diff --git a/rstsr-linalg-traits/src/faer_impl/pinv.rs b/rstsr-linalg-traits/src/faer_impl/pinv.rs
index 901e7cf..b8bffca 100644
--- a/rstsr-linalg-traits/src/faer_impl/pinv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/pinv.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::{PinvAPI, PinvResult};
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -16,11 +17,7 @@ where
 {
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     // compute rcond value
     let atol = atol.unwrap_or(T::Real::zero());
@@ -52,11 +49,6 @@ where
     let a_pinv = v.i((.., ..rank)) % u.mapv(|x| T::conj_impl(&x)).t();
     let pinv = a_pinv.into_dim::<Ix2>();
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(PinvResult { pinv, rank })
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_general.rs b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
index 12ef1b2..61cbbab 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_general.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::SolveGeneralAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -14,11 +15,7 @@ where
 {
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let faer_a = a.view().into_faer();
 
@@ -32,11 +29,6 @@ where
 
     svd_result.solve_in_place(faer_b);
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(b.clone_to_mut())
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/svd.rs b/rstsr-linalg-traits/src/faer_impl/svd.rs
index b695aae..29030fd 100644
--- a/rstsr-linalg-traits/src/faer_impl/svd.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svd.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::{SVDResult, SVDAPI};
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -13,11 +14,7 @@ where
 {
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let faer_a = a.into_faer();
 
@@ -39,11 +36,6 @@ where
         vt: v.into_reverse_axes().mapv(|v| T::conj_impl(&v)).into_contig(device.default_order()),
     };
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
diff --git a/rstsr-linalg-traits/src/faer_impl/svdvals.rs b/rstsr-linalg-traits/src/faer_impl/svdvals.rs
index ef80281..1f64088 100644
--- a/rstsr-linalg-traits/src/faer_impl/svdvals.rs
+++ b/rstsr-linalg-traits/src/faer_impl/svdvals.rs
@@ -1,3 +1,4 @@
+use super::FaerParGuard;
 use crate::traits_def::SVDvalsAPI;
 use faer::prelude::*;
 use faer::traits::ComplexField;
@@ -10,11 +11,7 @@ where
 {
     // set parallel mode
     let device = a.device().clone();
-    let pool = device.get_current_pool();
-    let faer_par_orig = faer::get_global_parallelism();
-    if let Some(pool) = pool {
-        faer::set_global_parallelism(Par::rayon(pool.current_num_threads()));
-    }
+    let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
 
     let faer_a = a.into_faer();
 
@@ -23,11 +20,6 @@ where
         faer_a.singular_values().map_err(|e| rstsr_error!(FaerError, "Faer SVD singular values error: {e:?}"))?;
     let result = asarray((result, &device)).into_dim::<Ix1>();
 
-    // restore parallel mode
-    if pool.is_some() {
-        faer::set_global_parallelism(faer_par_orig)
-    }
-
     Ok(result)
 }
 
-- 
2.43.0


From 72b77a289e85092200312fa5e47913a85515422a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:03 +0000
Subject: [PATCH 63/67] fix: linear algebra with faer reports operands of wrong
 shape or device as errors

---
 rstsr-linalg-traits/src/faer_impl/cholesky.rs         | 2 ++
 rstsr-linalg-traits/src/faer_impl/det.rs              | 2 ++
 rstsr-linalg-traits/src/faer_impl/eigh.rs             | 4 ++++
 rstsr-linalg-traits/src/faer_impl/eigvalsh.rs         | 2 ++
 rstsr-linalg-traits/src/faer_impl/inv.rs              | 2 ++
 rstsr-linalg-traits/src/faer_impl/solve_general.rs    | 5 +++++
 rstsr-linalg-traits/src/faer_impl/solve_triangular.rs | 5 +++++
 7 files changed, 22 insertions(+)

diff --git a/rstsr-linalg-traits/src/faer_impl/cholesky.rs b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
index 24f762b..f34435c 100644
--- a/rstsr-linalg-traits/src/faer_impl/cholesky.rs
+++ b/rstsr-linalg-traits/src/faer_impl/cholesky.rs
@@ -12,6 +12,8 @@ pub fn faer_impl_cholesky_f<T>(
 where
     T: ComplexField,
 {
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Cholesky decomposition requires a square matrix.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
diff --git a/rstsr-linalg-traits/src/faer_impl/det.rs b/rstsr-linalg-traits/src/faer_impl/det.rs
index e0755a8..85911d7 100644
--- a/rstsr-linalg-traits/src/faer_impl/det.rs
+++ b/rstsr-linalg-traits/src/faer_impl/det.rs
@@ -9,6 +9,8 @@ pub fn faer_impl_det_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<T>
 where
     T: ComplexField,
 {
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Determinant requires a square matrix.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
diff --git a/rstsr-linalg-traits/src/faer_impl/eigh.rs b/rstsr-linalg-traits/src/faer_impl/eigh.rs
index 078493d..b0015e6 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigh.rs
@@ -16,6 +16,8 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Eigenvalue problem requires a square matrix.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
@@ -56,6 +58,8 @@ where
     rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
     rstsr_pattern!(itype, 1..=3, InvalidValue, "itype in generalized eigen must be 1, 2 or 3")?;
     rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(b.nrow(), b.ncol(), InvalidLayout, "Matrix b must be square.")?;
+    rstsr_assert_eq!(a.nrow(), b.nrow(), InvalidLayout, "Matrices a and b must be of the same size.")?;
 
     // set parallel mode
     let device = a.device().clone();
diff --git a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
index 40e1170..248a233 100644
--- a/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
+++ b/rstsr-linalg-traits/src/faer_impl/eigvalsh.rs
@@ -15,6 +15,8 @@ where
     // TODO: It seems faer is suspeciously slow on eigh function?
     // However, tests shows that results are correct.
 
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Eigenvalue problem requires a square matrix.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
diff --git a/rstsr-linalg-traits/src/faer_impl/inv.rs b/rstsr-linalg-traits/src/faer_impl/inv.rs
index fb3b747..f4c1bc5 100644
--- a/rstsr-linalg-traits/src/faer_impl/inv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/inv.rs
@@ -10,6 +10,8 @@ pub fn faer_impl_inv_f<T>(a: TensorView<'_, T, DeviceFaer, Ix2>) -> Result<Tenso
 where
     T: ComplexField,
 {
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Inverse requires a square matrix.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_general.rs b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
index 61cbbab..5a7d9c7 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_general.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_general.rs
@@ -13,6 +13,11 @@ pub fn faer_impl_solve_general_f<'b, T>(
 where
     T: ComplexField,
 {
+    // check sanity
+    rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.nrow(), b.nrow(), InvalidLayout, "Matrices a and b must have the same number of rows.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let _guard = device.get_current_pool().map(|pool| FaerParGuard::new(Par::rayon(pool.current_num_threads())));
diff --git a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
index 76613ac..70d663b 100644
--- a/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
+++ b/rstsr-linalg-traits/src/faer_impl/solve_triangular.rs
@@ -13,6 +13,11 @@ pub fn faer_impl_solve_triangular_f<'b, T>(
 where
     T: ComplexField,
 {
+    // check sanity
+    rstsr_assert!(a.device().same_device(b.device()), DeviceMismatch)?;
+    rstsr_assert_eq!(a.nrow(), a.ncol(), InvalidLayout, "Matrix a must be square.")?;
+    rstsr_assert_eq!(a.nrow(), b.nrow(), InvalidLayout, "Matrices a and b must have the same number of rows.")?;
+
     // set parallel mode
     let device = a.device().clone();
     let pool = device.get_current_pool();
-- 
2.43.0


From 7f1881c6e6a5c18fe2f937c1e7784db72b312823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:19:22 +0000
Subject: [PATCH 64/67] fix: pseudo-inverse of an empty matrix is empty instead
 of a panic

---
 rstsr-linalg-traits/src/faer_impl/pinv.rs | 2 +-
 rstsr-linalg-traits/src/ref_impl_blas.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/rstsr-linalg-traits/src/faer_impl/pinv.rs b/rstsr-linalg-traits/src/faer_impl/pinv.rs
index b8bffca..c9b0b93 100644
--- a/rstsr-linalg-traits/src/faer_impl/pinv.rs
+++ b/rstsr-linalg-traits/src/faer_impl/pinv.rs
@@ -41,7 +41,7 @@ where
 
     // compute pinv
     let s = s.mapv(|x| T::real_part_impl(&x));
-    let maxs = *s.raw().iter().max_by(|a, b| a.partial_cmp(b).unwrap()).unwrap();
+    let maxs = s.raw().iter().fold(T::Real::zero(), |m, &x| m.max(x));
     let val = atol + rtol * maxs;
     let rank = s.raw().iter().take_while(|&&x| x > val).count();
     let mut u = u.into_slice((.., ..rank));
diff --git a/rstsr-linalg-traits/src/ref_impl_blas.rs b/rstsr-linalg-traits/src/ref_impl_blas.rs
index 73afb38..dcfde0b 100644
--- a/rstsr-linalg-traits/src/ref_impl_blas.rs
+++ b/rstsr-linalg-traits/src/ref_impl_blas.rs
@@ -126,7 +126,7 @@ where
             mnmax * T::Real::epsilon()
         });
         if let (s, Some(u), Some(vt)) = GESDD::default().a(a).full_matrices(false).build()?.run()? {
-            let maxs = s.max_all();
+            let maxs = s.raw().iter().fold(T::Real::zero(), |m, &x| m.max(x));
             let val = atol + rtol * maxs;
             let rank = s.raw().iter().take_while(|&&x| x > val).count();
             let mut u = u.into_slice((.., ..rank));
-- 
2.43.0


From fd753d223dcffeb7be42675e843412fc842cadbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:55 +0000
Subject: [PATCH 65/67] fix: tensordot refuses different numbers of summed axes

---
 rstsr-common/src/tensordot_to_einsum.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/rstsr-common/src/tensordot_to_einsum.rs b/rstsr-common/src/tensordot_to_einsum.rs
index c69ddad..4742e33 100644
--- a/rstsr-common/src/tensordot_to_einsum.rs
+++ b/rstsr-common/src/tensordot_to_einsum.rs
@@ -27,10 +27,17 @@ pub fn tensordot_to_einsum_str(
 
     let (axes_a, axes_b): (Vec<usize>, Vec<usize>) = match axes {
         AxesPairIndex::None => unreachable!("this have been handled above"),
-        AxesPairIndex::Pair(axes_a, axes_b) => (
-            normalize_axes_index(axes_a, dim_a, false, false)?.into_iter().map(|x| x as usize).collect(),
-            normalize_axes_index(axes_b, dim_b, false, false)?.into_iter().map(|x| x as usize).collect(),
-        ),
+        AxesPairIndex::Pair(axes_a, axes_b) => {
+            let axes_a = normalize_axes_index(axes_a, dim_a, false, false)?;
+            let axes_b = normalize_axes_index(axes_b, dim_b, false, false)?;
+            rstsr_assert_eq!(
+                axes_a.len(),
+                axes_b.len(),
+                InvalidValue,
+                "number of summed axes must be the same for both tensors"
+            )?;
+            (axes_a.into_iter().map(|x| x as usize).collect(), axes_b.into_iter().map(|x| x as usize).collect())
+        },
         AxesPairIndex::Val(n) => {
             if n < 0 {
                 return rstsr_raise!(InvalidValue, "n must be non-negative")?;
@@ -49,10 +56,10 @@ pub fn tensordot_to_einsum_str(
     };
 
     // Axis bounds are already guaranteed by the branches above:
-    //  - `Pair` runs each side through `normalize_axes_index(.., dim, ..)`, which folds negative axes
-    //    and rejects any out-of-range axis with `AxisError`.
-    //  - `Val(n)` constructs `(dim_a - n..dim_a)` / `(0..n)`, both in-bounds because the `n > dim_a ||
-    //    n > dim_b` check above returns `InvalidLayout` first.
+    //  - `Pair` runs each side through `normalize_axes_index(.., dim, ..)`, which folds negative
+    //    axes and rejects any out-of-range axis with `AxisError`.
+    //  - `Val(n)` constructs `(dim_a - n..dim_a)` / `(0..n)`, both in-bounds because the `n > dim_a
+    //    || n > dim_b` check above returns `InvalidLayout` first.
     // The `assert_eq!(axes_a.len(), axes_b.len(), …)` and per-axis bounds asserts
     // that previously lived here were dead defensive code (they could never fire
     // after the validation above) *and* they panicked inside a `Result`-returning
-- 
2.43.0


From 0b82d3f240ea87a5bb648acd2f22d9a60f202cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:55 +0000
Subject: [PATCH 66/67] fix: einsum with TBLIS writes a given output and
 restores the thread setting after errors

---
 crates-plugin/rstsr-tblis/src/einsum_impl.rs | 49 ++++++++++++++++----
 1 file changed, 40 insertions(+), 9 deletions(-)

diff --git a/crates-plugin/rstsr-tblis/src/einsum_impl.rs b/crates-plugin/rstsr-tblis/src/einsum_impl.rs
index 8e634b4..4aa34ba 100644
--- a/crates-plugin/rstsr-tblis/src/einsum_impl.rs
+++ b/crates-plugin/rstsr-tblis/src/einsum_impl.rs
@@ -140,6 +140,25 @@ where
     Tensor::new_f(storage, layout)
 }
 
+/// Sets number of threads of TBLIS, and restores the original number when dropped.
+struct TblisNumThreadsGuard {
+    original: usize,
+}
+
+impl TblisNumThreadsGuard {
+    fn new(num_threads: usize) -> Self {
+        let original = tblis_get_num_threads();
+        tblis_set_num_threads(num_threads);
+        Self { original }
+    }
+}
+
+impl Drop for TblisNumThreadsGuard {
+    fn drop(&mut self) {
+        tblis_set_num_threads(self.original);
+    }
+}
+
 /// Perform einsum operation using TBLIS.
 ///
 /// See also [`einsum`].
@@ -175,24 +194,36 @@ where
     let tblis_operands = operands.iter().map(|t| t.to_tblis_tensor()).collect_vec();
     let tblis_operands_ref = tblis_operands.iter().collect_vec();
     let row_major = device.default_order() == RowMajor;
-    let mut tblis_output = output.map(|t| t.to_tblis_tensor());
+    let tblis_output = output.map(|t| t.to_tblis_tensor());
 
-    // current number of threads
+    // current number of threads; the original number is restored when the guard is dropped
     let num_threads_to_set = device.get_current_pool().map_or(1, |pool| pool.current_num_threads());
-    let num_threads_original = tblis_get_num_threads();
-    tblis_set_num_threads(num_threads_to_set);
+    let _guard = TblisNumThreadsGuard::new(num_threads_to_set);
 
     // call einsum
     let out = unsafe {
-        tblis_einsum_f(subscripts, &tblis_operands_ref, optimize, memory_limit, row_major, tblis_output.as_mut())
+        tblis_einsum_f(subscripts, &tblis_operands_ref, optimize, memory_limit, row_major, None)
             .map_err(|e| rstsr_error!(InvalidValue, "TBLIS einsum failed: {e:?}"))?
     };
-    tblis_set_num_threads(num_threads_original);
+    let (vec, tsr) = out.ok_or_else(|| rstsr_error!(RuntimeError, "TBLIS einsum gives no result."))?;
 
-    if let Some((vec, tsr)) = out {
-        from_tblis_tensor(vec, &tsr, device).map(Some)
-    } else {
+    if let Some(mut tblis_output) = tblis_output {
+        // `tblis_einsum_f` reports an error whenever it writes to given output, so that it is
+        // copied here
+        rstsr_assert_eq!(tblis_output.shape, tsr.shape, InvalidLayout, "Output tensor shape mismatch.")?;
+        if tsr.shape.is_empty() {
+            unsafe { *tblis_output.data = vec[0] };
+        } else {
+            let labels = ('a'..='z').chain('A'..='Z').take(tsr.shape.len()).collect::<String>();
+            let cfg = TblisAddCfgBuilder::default().beta(T::zero()).build().unwrap();
+            unsafe {
+                tblis_tensor_add_f(&tsr, &labels, &mut tblis_output, &labels, Some(cfg))
+                    .map_err(|e| rstsr_error!(InvalidValue, "TBLIS failed to write output: {e:?}"))?
+            };
+        }
         Ok(None)
+    } else {
+        from_tblis_tensor(vec, &tsr, device).map(Some)
     }
 }
 
-- 
2.43.0


From 6b13199d9a115ec12212d1368ed8f3932f787966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:36:00 +0000
Subject: [PATCH 67/67] fix: printing an array of many rows does not exhaust
 the stack

---
 rstsr-core/src/format/format_tensor.rs | 281 +++++++++++++------------
 1 file changed, 143 insertions(+), 138 deletions(-)

diff --git a/rstsr-core/src/format/format_tensor.rs b/rstsr-core/src/format/format_tensor.rs
index 9a1eb22..430d887 100644
--- a/rstsr-core/src/format/format_tensor.rs
+++ b/rstsr-core/src/format/format_tensor.rs
@@ -27,163 +27,168 @@ where
     T: Clone,
     D: DimAPI,
 {
-    let FnPrintVecWithLayout { vec, layout, offset, idx_prev, max_print, min_print, fmt, fmt_elem } = c;
-    let max_print = *max_print;
-    let min_print = *min_print;
-    let ndim = layout.ndim();
-    let offset = *offset;
-    let len_prev = idx_prev.len();
-    let shape = layout.shape().as_ref();
-    let stride = layout.stride().as_ref();
-    let fmt_elem = *fmt_elem;
-
-    // special case
-    if ndim == 0 {
-        return fmt_elem(&vec[layout.offset()], fmt);
-    }
-
-    if idx_prev.last().is_some_and(|&v| v == shape[len_prev - 1]) {
-        // hit shape boundary
-
-        // special case: zero shape quick return
-        if idx_prev.last().is_some_and(|&v| v == 0) {
-            return write!(fmt, "[]");
+    // iterate instead of recurse, so that stack does not grow with number of printed rows
+    loop {
+        let FnPrintVecWithLayout { vec, layout, offset, idx_prev, max_print, min_print, fmt, fmt_elem } = c;
+        let max_print = *max_print;
+        let min_print = *min_print;
+        let ndim = layout.ndim();
+        let offset = *offset;
+        let len_prev = idx_prev.len();
+        let shape = layout.shape().as_ref();
+        let stride = layout.stride().as_ref();
+        let fmt_elem = *fmt_elem;
+
+        // special case
+        if ndim == 0 {
+            return fmt_elem(&vec[layout.offset()], fmt);
         }
 
-        // pop last index, increase previous index by 1 or skip
-        if len_prev == 1 {
-            // multiple dimension exit
-            return Ok(());
-        } else {
-            let p1_prev = idx_prev.pop().unwrap();
-            let p2_prev = idx_prev.pop().unwrap();
-            let offset =
-                offset as isize - p1_prev as isize * stride[len_prev - 1] - p2_prev as isize * stride[len_prev - 2];
-            if shape[len_prev - 2] < max_print || p2_prev + min_print >= shape[len_prev - 2] || p2_prev + 1 < min_print
-            {
-                let p2 = p2_prev + 1;
-                idx_prev.push(p2);
-                let offset = offset + p2 as isize * stride[len_prev - 2];
-                let offset = offset as usize;
-                c.offset = offset;
-                return print_vec_with_layout_dfs_inner(c);
-            } else {
-                write!(fmt, "{}...\n\n", " ".repeat(len_prev - 1))?;
-                let p2: usize = shape[len_prev - 2] - min_print;
-                idx_prev.push(p2);
-                let offset = offset + p2 as isize * stride[len_prev - 2];
-                let offset = offset as usize;
-                c.offset = offset;
-                return print_vec_with_layout_dfs_inner(c);
-            }
-        }
-    } else {
-        // not hit shape boundary
-        if len_prev + 1 != ndim {
-            // new index can still be pushed
-            idx_prev.push(0);
-            return print_vec_with_layout_dfs_inner(c);
-        } else {
-            // last line
-
-            // number of last dimension
-            let nlast = *shape.last().unwrap();
-            let stride_last = *stride.last().unwrap();
+        if idx_prev.last().is_some_and(|&v| v == shape[len_prev - 1]) {
+            // hit shape boundary
 
             // special case: zero shape quick return
-            if nlast == 0 {
+            if idx_prev.last().is_some_and(|&v| v == 0) {
                 return write!(fmt, "[]");
             }
 
-            // prefix: "  [[["
-            // count zeros from last element as numbers of "["
-            if idx_prev.is_empty() {
-                write!(fmt, "[")?;
+            // pop last index, increase previous index by 1 or skip
+            if len_prev == 1 {
+                // multiple dimension exit
+                return Ok(());
             } else {
-                let mut nbra = 1;
-                for &idx in idx_prev.iter().rev() {
-                    if idx == 0 {
-                        nbra += 1;
-                    } else {
-                        break;
-                    }
+                let p1_prev = idx_prev.pop().unwrap();
+                let p2_prev = idx_prev.pop().unwrap();
+                let offset =
+                    offset as isize - p1_prev as isize * stride[len_prev - 1] - p2_prev as isize * stride[len_prev - 2];
+                if shape[len_prev - 2] < max_print
+                    || p2_prev + min_print >= shape[len_prev - 2]
+                    || p2_prev + 1 < min_print
+                {
+                    let p2 = p2_prev + 1;
+                    idx_prev.push(p2);
+                    let offset = offset + p2 as isize * stride[len_prev - 2];
+                    let offset = offset as usize;
+                    c.offset = offset;
+                    continue;
+                } else {
+                    write!(fmt, "{}...\n\n", " ".repeat(len_prev - 1))?;
+                    let p2: usize = shape[len_prev - 2] - min_print;
+                    idx_prev.push(p2);
+                    let offset = offset + p2 as isize * stride[len_prev - 2];
+                    let offset = offset as usize;
+                    c.offset = offset;
+                    continue;
                 }
-                write!(fmt, "{:}", " ".repeat(ndim - nbra))?;
-                write!(fmt, "{:}", "[".repeat(nbra))?;
             }
-
-            // values: " 1.23 4.56 ... 7.89 10.11"
-            if nlast <= max_print.max(2 * min_print + 1) {
-                // all elements in last dimension should be printed
-                for i in 0..nlast {
-                    let offset_i = (offset as isize + i as isize * stride_last) as usize;
-                    write!(fmt, " ")?;
-                    fmt_elem(&vec[offset_i], fmt)?;
-                }
+        } else {
+            // not hit shape boundary
+            if len_prev + 1 != ndim {
+                // new index can still be pushed
+                idx_prev.push(0);
+                continue;
             } else {
-                // only print the first/last min_print elements
-                for i in 0..min_print {
-                    let offset_i = (offset as isize + i as isize * stride_last) as usize;
-                    write!(fmt, " ")?;
-                    fmt_elem(&vec[offset_i], fmt)?;
-                }
-                write!(fmt, " ...")?;
-                for i in (nlast - min_print)..nlast {
-                    let offset_i = (offset as isize + i as isize * stride_last) as usize;
-                    write!(fmt, " ")?;
-                    fmt_elem(&vec[offset_i], fmt)?;
+                // last line
+
+                // number of last dimension
+                let nlast = *shape.last().unwrap();
+                let stride_last = *stride.last().unwrap();
+
+                // special case: zero shape quick return
+                if nlast == 0 {
+                    return write!(fmt, "[]");
                 }
-            };
 
-            // suffix: "]]]"
-            // count (if index = shape) from last element as numbers of "["
-            if idx_prev.is_empty() {
-                write!(fmt, "]")?;
-            } else {
-                let mut nket = 1;
-                for i in (0..idx_prev.len()).rev() {
-                    if idx_prev[i] == shape[i] - 1 {
-                        nket += 1;
-                    } else {
-                        break;
+                // prefix: "  [[["
+                // count zeros from last element as numbers of "["
+                if idx_prev.is_empty() {
+                    write!(fmt, "[")?;
+                } else {
+                    let mut nbra = 1;
+                    for &idx in idx_prev.iter().rev() {
+                        if idx == 0 {
+                            nbra += 1;
+                        } else {
+                            break;
+                        }
                     }
+                    write!(fmt, "{:}", " ".repeat(ndim - nbra))?;
+                    write!(fmt, "{:}", "[".repeat(nbra))?;
                 }
-                write!(fmt, "{:}", "]".repeat(nket))?;
-                if nket != ndim {
-                    // last line should not add new-line character
-                    if nket > 1 {
-                        writeln!(fmt, "\n")?;
-                    } else {
-                        writeln!(fmt)?;
+
+                // values: " 1.23 4.56 ... 7.89 10.11"
+                if nlast <= max_print.max(2 * min_print + 1) {
+                    // all elements in last dimension should be printed
+                    for i in 0..nlast {
+                        let offset_i = (offset as isize + i as isize * stride_last) as usize;
+                        write!(fmt, " ")?;
+                        fmt_elem(&vec[offset_i], fmt)?;
+                    }
+                } else {
+                    // only print the first/last min_print elements
+                    for i in 0..min_print {
+                        let offset_i = (offset as isize + i as isize * stride_last) as usize;
+                        write!(fmt, " ")?;
+                        fmt_elem(&vec[offset_i], fmt)?;
+                    }
+                    write!(fmt, " ...")?;
+                    for i in (nlast - min_print)..nlast {
+                        let offset_i = (offset as isize + i as isize * stride_last) as usize;
+                        write!(fmt, " ")?;
+                        fmt_elem(&vec[offset_i], fmt)?;
+                    }
+                };
+
+                // suffix: "]]]"
+                // count (if index = shape) from last element as numbers of "["
+                if idx_prev.is_empty() {
+                    write!(fmt, "]")?;
+                } else {
+                    let mut nket = 1;
+                    for i in (0..idx_prev.len()).rev() {
+                        if idx_prev[i] == shape[i] - 1 {
+                            nket += 1;
+                        } else {
+                            break;
+                        }
+                    }
+                    write!(fmt, "{:}", "]".repeat(nket))?;
+                    if nket != ndim {
+                        // last line should not add new-line character
+                        if nket > 1 {
+                            writeln!(fmt, "\n")?;
+                        } else {
+                            writeln!(fmt)?;
+                        }
                     }
                 }
-            }
 
-            // pop last index, increase previous index by 1 or skip
-            if len_prev == 0 {
-                // one-dimension exit
-                return Ok(());
-            } else {
-                let p1_prev = idx_prev.pop().unwrap();
-                let offset = offset as isize - p1_prev as isize * stride[len_prev - 1];
-                if shape[len_prev - 1] < max_print
-                    || p1_prev + min_print >= shape[len_prev - 1]
-                    || p1_prev + 1 < min_print
-                {
-                    let p1 = p1_prev + 1;
-                    idx_prev.push(p1);
-                    let offset = offset + p1 as isize * stride[len_prev - 1];
-                    let offset = offset as usize;
-                    c.offset = offset;
-                    return print_vec_with_layout_dfs_inner(c);
+                // pop last index, increase previous index by 1 or skip
+                if len_prev == 0 {
+                    // one-dimension exit
+                    return Ok(());
                 } else {
-                    writeln!(fmt, "{}...", " ".repeat(len_prev))?;
-                    let p1: usize = shape[len_prev - 1] - min_print;
-                    idx_prev.push(p1);
-                    let offset = offset + p1 as isize * stride[len_prev - 1];
-                    let offset = offset as usize;
-                    c.offset = offset;
-                    return print_vec_with_layout_dfs_inner(c);
+                    let p1_prev = idx_prev.pop().unwrap();
+                    let offset = offset as isize - p1_prev as isize * stride[len_prev - 1];
+                    if shape[len_prev - 1] < max_print
+                        || p1_prev + min_print >= shape[len_prev - 1]
+                        || p1_prev + 1 < min_print
+                    {
+                        let p1 = p1_prev + 1;
+                        idx_prev.push(p1);
+                        let offset = offset + p1 as isize * stride[len_prev - 1];
+                        let offset = offset as usize;
+                        c.offset = offset;
+                        continue;
+                    } else {
+                        writeln!(fmt, "{}...", " ".repeat(len_prev))?;
+                        let p1: usize = shape[len_prev - 1] - min_print;
+                        idx_prev.push(p1);
+                        let offset = offset + p1 as isize * stride[len_prev - 1];
+                        let offset = offset as usize;
+                        c.offset = offset;
+                        continue;
+                    }
                 }
             }
         }
-- 
2.43.0

