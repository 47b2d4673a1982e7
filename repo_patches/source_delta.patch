From 408cc35fd57f78c24f55c94b3c67a16aecb8f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 01/79] fix: SIMD partition must start at the next aligned
 address and never split a complex number

---
 vector/src/simd_extensions/mod.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/vector/src/simd_extensions/mod.rs b/vector/src/simd_extensions/mod.rs
index fabe613..55496a7 100644
--- a/vector/src/simd_extensions/mod.rs
+++ b/vector/src/simd_extensions/mod.rs
@@ -194,10 +194,12 @@ macro_rules! simd_generic_impl {
             fn calc_data_alignment_reqs(array: &[$data_type]) -> SimdPartition<$data_type> {
                 let data_length = array.len();
                 let addr = array.as_ptr();
-                let left = get_alignment_offset(addr as usize, mem::size_of::<Self>());
-                assert!(left % mem::size_of::<$data_type>() == 0);
-                let left = left / mem::size_of::<$data_type>();
-                if left + Self::LEN > data_length {
+                let offset = get_alignment_offset(addr as usize, mem::size_of::<Self>());
+                assert!(offset % mem::size_of::<$data_type>() == 0);
+                // Number of elements up to the next address which is aligned for the register
+                let left = (Self::LEN - offset / mem::size_of::<$data_type>()) % Self::LEN;
+                // An odd number of elements would split a complex number between edge and center
+                if left % 2 != 0 || left + Self::LEN > data_length {
                     SimdPartition::new_all_scalar(data_length)
                 } else {
                     let right = (data_length - left) % Self::LEN;
-- 
2.43.0


From ee95edfcf6a54d8dc508527ccd498f2125222449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:54 +0000
Subject: [PATCH 02/79] fix: complex mul and div must only convert the valid
 part of the storage

---
 vector/src/vector_types/general/elementary.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index aa23f61..0342ddf 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -444,7 +444,7 @@ macro_rules! impl_binary_complex_vector_operation {
                         }
                 });
 
-                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(array)).zip(partition.cedge_iter(array_to_complex(other))) {
+                for (n, o) in partition.cedge_iter_mut(array_to_complex_mut(&mut array[0..data_length])).zip(partition.cedge_iter(array_to_complex(other))) {
                     *n = n.$scal_op(*o);
                 }
             }
-- 
2.43.0


From d3eb00f3d32627faaef1e683a8fbd144a16a5d14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 03/79] fix: inverse swap of a single point must not index
 behind the array

---
 vector/src/vector_types/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/mod.rs b/vector/src/vector_types/mod.rs
index 55b78cc..99cde12 100644
--- a/vector/src/vector_types/mod.rs
+++ b/vector/src/vector_types/mod.rs
@@ -181,7 +181,7 @@ where
     } else {
         let step = if forward { len / 2 } else { len / 2 + 1 };
         let mut temp = data[0];
-        let mut pos = step;
+        let mut pos = step % len;
         for _ in 0..len {
             let pos_new = (pos + step) % len;
             mem::swap(&mut temp, &mut data[pos]);
-- 
2.43.0


From 0b323bad517ad50ee2209da8cccfdaf43564c0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 04/79] fix: split_into must only read the valid part and count
 points

---
 vector/src/vector_types/general/data_reorganization.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index f5f60ae..aea6291 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -484,7 +484,7 @@ where
     fn split_into(&self, targets: &mut [&mut Self]) -> VoidResult {
         let num_targets = targets.len();
         let data_length = self.len();
-        if num_targets == 0 || data_length % num_targets != 0 {
+        if num_targets == 0 || self.points() % num_targets != 0 {
             return Err(ErrorReason::InvalidArgumentLength);
         }
 
@@ -501,7 +501,7 @@ where
                 target[2 * pos + 1] = data[2 * i + 1];
             }
         } else {
-            for (i, d) in data.iter().enumerate() {
+            for (i, d) in data[0..data_length].iter().enumerate() {
                 let target = targets[i % num_targets].data.to_slice_mut();
                 let pos = i / num_targets;
                 target[pos] = *d;
-- 
2.43.0


From 2526fd8c3d10a135c087ef9b37b79af42213bbc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 05/79] fix: merge must only write the valid part

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index aea6291..3307ca6 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -545,7 +545,7 @@ where
                     data[2 * i + 1] = source[2 * pos + 1];
                 }
             } else {
-                for (i, d) in data.iter_mut().enumerate() {
+                for (i, d) in data[0..data_length].iter_mut().enumerate() {
                     let source = sources[i % num_sources].data.to_slice();
                     let pos = i / num_sources;
                     *d = source[pos];
-- 
2.43.0


From a0e9095d0507db1b1d989c75d7c3e42abacaf183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 06/79] fix: zero_pad and zero_pad_b must surround a vector
 with the same zeros

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 3307ca6..7edbe76 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -326,7 +326,7 @@ where
             }
             PaddingOption::Surround => {
                 let diff = (len - len_before) / step;
-                let mut right = (diff - 1) / 2;
+                let mut right = diff / 2;
                 let mut left = diff - right;
                 if is_complex {
                     right *= 2;
-- 
2.43.0


From dea9db0e17c5b9ce94649db59bdd3b45724f7750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 07/79] fix: zero_pad_b must clear all of the gap in the center

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 7edbe76..1b35245 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -453,7 +453,7 @@ where
 
                     target[len - right..len].copy_from_slice(&data[len_before - right..len_before]);
                     target[0..left].copy_from_slice(&data[0..left]);
-                    memzero(target, left..len - len_before);
+                    memzero(target, left..len - right);
                 }
             }
         }
-- 
2.43.0


From 4348baa1b70bf70a46c660c74936b3e44e82920c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 08/79] fix: zero_interleave must only convert the valid part
 of the storage

---
 vector/src/vector_types/general/data_reorganization.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index 1b35245..fe73242 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -372,7 +372,7 @@ where
 
         if is_complex {
             let data = self.data.to_slice_mut();
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 {
                 let i = len / 2 - 1 - j;
                 if i % factor == 0 {
-- 
2.43.0


From 38cc804344717f54ac10407253feb9d11e3932da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 09/79] fix: zero_interleave_b must accept an empty vector

---
 vector/src/vector_types/general/data_reorganization.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/data_reorganization.rs b/vector/src/vector_types/general/data_reorganization.rs
index fe73242..c3a80d8 100644
--- a/vector/src/vector_types/general/data_reorganization.rs
+++ b/vector/src/vector_types/general/data_reorganization.rs
@@ -275,10 +275,8 @@ macro_rules! zero_interleave {
                 (),
                 move |original, range, target, _arg| {
                     // Zero target
-                    let ptr = &mut target[0] as *mut T;
-                    unsafe {
-                        ptr::write_bytes(ptr, 0, new_len);
-                    }
+                    let target_len = target.len();
+                    memzero(target, 0..target_len);
                     let skip = step * $tuple;
                     let mut i = 0;
                     let mut j = range.start;
-- 
2.43.0


From cd06c883fa0710d860b7671a1fd22ec34d9afdb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 10/79] fix: diff must accept an empty vector

---
 vector/src/vector_types/general/diff_sum.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 7181d46..9b5ff3a 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -66,6 +66,10 @@ where
         let is_complex = self.is_complex();
         let step = if is_complex { 2 } else { 1 };
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         self.valid_len -= step;
         let data = self.data.to_slice_mut();
 
-- 
2.43.0


From 2edd52d063273a87579699c3b9af217fa6c96c1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 11/79] fix: diff and diff_with_start must only convert the
 valid part of the storage

---
 vector/src/vector_types/general/diff_sum.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/diff_sum.rs b/vector/src/vector_types/general/diff_sum.rs
index 9b5ff3a..c2b3bec 100644
--- a/vector/src/vector_types/general/diff_sum.rs
+++ b/vector/src/vector_types/general/diff_sum.rs
@@ -74,7 +74,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             for j in 0..len / 2 - 1 {
                 data[j] = data[j + 1] - data[j];
             }
@@ -95,7 +95,7 @@ where
         let data = self.data.to_slice_mut();
 
         if is_complex {
-            let data = array_to_complex_mut(data);
+            let data = array_to_complex_mut(&mut data[0..len]);
             let mut temp = data[0];
             for n in &mut data[1..len / 2] {
                 let diff = *n - temp;
-- 
2.43.0


From b1009f7985c9f31648200e962f9de02103dd4089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:04 +0000
Subject: [PATCH 12/79] fix: FixedLenBuffer must grow the storage it hands its
 content to

---
 vector/src/vector_types/support_core.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index f291ab3..7ca58cc 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -47,7 +47,13 @@ impl<'a, T: RealNumber + 'a> ToSliceMut<T> for FixedLenBufferBurrow<'a, T>  {
 
 impl<'a, S: ToSliceMut<T>, T: RealNumber> BufferBorrow<S, T> for FixedLenBufferBurrow<'a, T> {
     fn trade(self, storage: &mut S) {
-        let len = std::cmp::min(storage.len(), self.data.len());
+        let len = self.data.len();
+        if storage.len() < len {
+            storage
+                .try_resize(len)
+                .expect("FixedLenBuffer: Out of memory");
+        }
+
         let storage = storage.to_slice_mut();
         storage[0..len]
             .to_slice_mut()
-- 
2.43.0


From 0034a38ec73cd3b0f9936fba1625d16090a8262b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 13/79] fix: edge iterators computed pointers outside of the
 slice and accessed them for empty vectors

---
 vector/src/simd_extensions/simd_partition.rs | 96 ++++++--------------
 1 file changed, 29 insertions(+), 67 deletions(-)

diff --git a/vector/src/simd_extensions/simd_partition.rs b/vector/src/simd_extensions/simd_partition.rs
index a28b391..49f8839 100644
--- a/vector/src/simd_extensions/simd_partition.rs
+++ b/vector/src/simd_extensions/simd_partition.rs
@@ -1,5 +1,6 @@
 use num_complex::Complex;
 use std::marker::PhantomData;
+use std::slice::IterMut;
 
 /// Holds information about how to partition the access to a slice to get aligned
 /// reads/writes to the largest portion of the slice.
@@ -14,27 +15,17 @@ pub struct SimdPartition<T> {
 
 /// Iterator around the left and right side of a vector.
 pub struct EdgeIteratorMut<'a, T: 'a> {
-    pos: *mut T,
-    left: *mut T,
-    right: *mut T,
-    end: *mut T,
-    _marker: PhantomData<&'a mut T>,
+    left: IterMut<'a, T>,
+    right: IterMut<'a, T>,
 }
 
 impl<'a, T> EdgeIteratorMut<'a, T> {
-    pub fn new(slice: &mut [T], left: usize, right: usize) -> Self {
-        let start = slice.as_mut_ptr();
-        let len = slice.len() as isize;
-        let left = left as isize;
-        let right = right as isize;
-        unsafe {
-            EdgeIteratorMut {
-                pos: start,
-                left: start.offset(left - 1),
-                right: start.offset(len - right),
-                end: start.offset(len - 1),
-                _marker: PhantomData,
-            }
+    pub fn new(slice: &'a mut [T], left: usize, right: usize) -> Self {
+        let right_idx = slice.len() - right;
+        let (left_side, rest) = slice.split_at_mut(left);
+        EdgeIteratorMut {
+            left: left_side.iter_mut(),
+            right: rest[right_idx.saturating_sub(left)..].iter_mut(),
         }
     }
 }
@@ -43,50 +34,30 @@ impl<'a, T> Iterator for EdgeIteratorMut<'a, T> {
     type Item = &'a mut T;
 
     fn next(&mut self) -> Option<&'a mut T> {
-        unsafe {
-            // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
-                self.pos = self.right;
-            }
-
-            if self.pos > self.end {
-                None
-            } else {
-                let value = &mut *self.pos;
-                self.pos = self.pos.offset(1);
-                Some(value)
-            }
+        match self.left.next() {
+            None => self.right.next(),
+            value => value,
         }
     }
 }
 
 /// Iterator with index around the left and right side of a vector.
 pub struct IndexedEdgeIteratorMut<'a, T: 'a> {
-    pos: *mut T,
     idx: isize,
-    left: *mut T,
+    left: IterMut<'a, T>,
     right_idx: isize,
-    right: *mut T,
-    end: *mut T,
-    _marker: PhantomData<&'a mut T>,
+    right: IterMut<'a, T>,
 }
 
 impl<'a, T> IndexedEdgeIteratorMut<'a, T> {
-    pub fn new(slice: &mut [T], left: usize, right: usize) -> Self {
-        let start = slice.as_mut_ptr();
-        let len = slice.len() as isize;
-        let left = left as isize;
-        let right = right as isize;
-        unsafe {
-            IndexedEdgeIteratorMut {
-                pos: start,
-                idx: 0,
-                left: start.offset(left - 1),
-                right_idx: len - right,
-                right: start.offset(len - right),
-                end: start.offset(len - 1),
-                _marker: PhantomData,
-            }
+    pub fn new(slice: &'a mut [T], left: usize, right: usize) -> Self {
+        let right_idx = (slice.len() - right).max(left);
+        let (left_side, rest) = slice.split_at_mut(left);
+        IndexedEdgeIteratorMut {
+            idx: 0,
+            left: left_side.iter_mut(),
+            right_idx: right_idx as isize,
+            right: rest[right_idx - left..].iter_mut(),
         }
     }
 }
@@ -95,23 +66,14 @@ impl<'a, T> Iterator for IndexedEdgeIteratorMut<'a, T> {
     type Item = (isize, &'a mut T);
 
     fn next(&mut self) -> Option<(isize, &'a mut T)> {
-        unsafe {
-            // Jump from end of left to right.
-            if self.pos > self.left && self.pos < self.right {
-                self.pos = self.right;
-                self.idx = self.right_idx;
-            }
-
-            if self.pos > self.end {
-                None
-            } else {
-                let value = &mut *self.pos;
-                let idx = self.idx;
-                self.pos = self.pos.offset(1);
-                self.idx += 1;
-                Some((idx, value))
-            }
+        if let Some(value) = self.left.next() {
+            self.idx += 1;
+            return Some((self.idx - 1, value));
         }
+
+        let value = self.right.next()?;
+        self.right_idx += 1;
+        Some((self.right_idx - 1, value))
     }
 }
 
-- 
2.43.0


From 82aa41389061efaa0ed4686ec68dcdd83abe8588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 14/79] fix: with_thresholds overflowed for the largest
 threshold

---
 vector/src/multicore_support/threading.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index f16919e..6eae3f0 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -271,10 +271,11 @@ impl MultiCoreSettings {
         MultiCoreSettings {
             core_limit,
             med_dual_core_threshold,
-            med_multi_core_threshold: med_multi_core_threshold.max(med_dual_core_threshold + 1),
+            med_multi_core_threshold: med_multi_core_threshold
+                .max(med_dual_core_threshold.saturating_add(1)),
             large_dual_core_threshold,
             large_multi_core_threshold: large_multi_core_threshold
-                .max(large_dual_core_threshold + 1),
+                .max(large_dual_core_threshold.saturating_add(1)),
         }
     }
 }
-- 
2.43.0


From a1018c830b5cd5ebebbd817a68ababdc5053587c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 15/79] fix: dividing an empty array into chunks panicked

---
 vector/src/multicore_support/no_threading.rs | 3 ++-
 vector/src/multicore_support/threading.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index b726787..2d7d1d6 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -275,7 +275,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // Chunks can't be of size zero, even if there is nothing to divide
+        chunk_size.max(step_size)
     }
 }
 
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 6eae3f0..69f6a5c 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -375,7 +375,8 @@ impl Chunk {
             chunk_size += step_size - chunk_size % step_size;
         }
 
-        chunk_size
+        // Chunks can't be of size zero, even if there is nothing to divide
+        chunk_size.max(step_size)
     }
 
     /// This function returns the ranges which correspond to the chunks generated by
-- 
2.43.0


From 3683380a31323416fdc96dac95c49d9e4c139dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:33 +0000
Subject: [PATCH 16/79] fix: symmetric pairs of chunks were not symmetric with
 several cores and panicked for less than two points

---
 vector/src/multicore_support/no_threading.rs |  7 +-
 vector/src/multicore_support/threading.rs    | 71 +++++++++-----------
 2 files changed, 37 insertions(+), 41 deletions(-)

diff --git a/vector/src/multicore_support/no_threading.rs b/vector/src/multicore_support/no_threading.rs
index 2d7d1d6..19cbd5c 100644
--- a/vector/src/multicore_support/no_threading.rs
+++ b/vector/src/multicore_support/no_threading.rs
@@ -143,9 +143,12 @@ impl Chunk {
     {
         let array_length = array.len();
         let mut chunks = Chunk::partition_mut(array, step_size, 2);
-        let mut chunks1 = chunks.next().unwrap();
+        let mut chunks1 = match chunks.next() {
+            Some(chunk) => chunk,
+            None => return,
+        };
         let len1 = chunks1.len();
-        let mut chunks2 = chunks.next().unwrap();
+        let mut chunks2 = chunks.next().unwrap_or(&mut []);
         function(
             &mut chunks1,
             &Range {
diff --git a/vector/src/multicore_support/threading.rs b/vector/src/multicore_support/threading.rs
index 69f6a5c..e1cc6ff 100644
--- a/vector/src/multicore_support/threading.rs
+++ b/vector/src/multicore_support/threading.rs
@@ -564,52 +564,45 @@ impl Chunk {
         S: Sync + Copy + Send,
     {
         let array_length = array.len();
-        let number_of_chunks =
-            2 * Chunk::determine_number_of_chunks(array_length, complexity, settings);
-        if number_of_chunks > 2 {
-            let chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let ranges = Chunk::partition_in_ranges(array_length, step_size, chunks.len());
-            let mut i = 0;
-            let (mut chunks1, mut chunks2): (Vec<_>, Vec<_>) = chunks.partition(|_c| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            i = 0;
-            let (ranges1, ranges2): (Vec<_>, Vec<_>) = ranges.iter().partition(|_r| {
-                i += 1;
-                i <= number_of_chunks / 2
-            });
-            let chunks2 = chunks2.iter_mut().rev();
-            let ranges2 = ranges2.iter().rev();
-            let zipped1 = chunks1.iter_mut().zip(ranges1);
-            let zipped2 = chunks2.zip(ranges2);
+        let number_of_pairs =
+            Chunk::determine_number_of_chunks(array_length, complexity, settings).max(1);
+        let half = Chunk::calc_chunk_size(array_length, step_size, 2).min(array_length);
+        let chunk_size = Chunk::calc_chunk_size(half, step_size, number_of_pairs);
+        let (first, second) = array.split_at_mut(half);
+        // The chunks of the second half are counted from the end so that every pair
+        // is symmetric around the center.
+        let mut chunks2 = second.rchunks_mut(chunk_size);
+        let mut start = 0;
+        let mut end = array_length;
+        let mut pairs = Vec::with_capacity(number_of_pairs);
+        for chunk1 in first.chunks_mut(chunk_size) {
+            let chunk2 = chunks2.next().unwrap_or(&mut []);
+            let range1 = Range {
+                start,
+                end: start + chunk1.len(),
+            };
+            let range2 = Range {
+                start: end - chunk2.len(),
+                end,
+            };
+            start = range1.end;
+            end = range2.start;
+            pairs.push((chunk1, range1, chunk2, range2));
+        }
+
+        if pairs.len() > 1 {
             crossbeam::scope(|scope| {
-                for chunk in zipped1.zip(zipped2) {
+                for (mut chunk1, range1, mut chunk2, range2) in pairs {
                     scope.spawn(move |_| {
-                        let (pair1, pair2) = chunk;
-                        function(pair1.0, pair1.1, pair2.0, pair2.1, arguments);
+                        function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
                     });
                 }
             })
             .expect("Failed to spawn thread");
         } else {
-            let mut chunks = Chunk::partition_mut(array, step_size, number_of_chunks);
-            let mut chunks1 = chunks.next().unwrap();
-            let len1 = chunks1.len();
-            let mut chunks2 = chunks.next().unwrap();
-            function(
-                &mut chunks1,
-                &Range {
-                    start: 0,
-                    end: len1,
-                },
-                &mut chunks2,
-                &Range {
-                    start: len1,
-                    end: array_length,
-                },
-                arguments,
-            );
+            for (mut chunk1, range1, mut chunk2, range2) in pairs {
+                function(&mut chunk1, &range1, &mut chunk2, &range2, arguments);
+            }
         }
     }
 
-- 
2.43.0


From eaffcc67472b932ec9f1262aaef79656af0a473a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 17/79] fix: operations with a smaller argument must reject an
 empty argument

---
 vector/src/vector_types/general/elementary.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/elementary.rs b/vector/src/vector_types/general/elementary.rs
index 0342ddf..d4db3bc 100644
--- a/vector/src/vector_types/general/elementary.rs
+++ b/vector/src/vector_types/general/elementary.rs
@@ -460,7 +460,7 @@ macro_rules! impl_binary_smaller_vector_operation {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -490,7 +490,7 @@ macro_rules! impl_binary_smaller_complex_vector_ops {
         {
             {
                 let len = self.len();
-                reject_if!(self, len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
+                reject_if!(self, $arg_name.is_empty() || len % $arg_name.len() != 0, ErrorReason::InvalidArgumentLength);
                 assert_meta_data!(self, $arg_name);
 
                 let data_length = self.len();
@@ -610,7 +610,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % factor.len() != 0,
+            factor.is_empty() || len % factor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, factor);
@@ -626,7 +626,7 @@ where
         let len = self.len();
         reject_if!(
             self,
-            len % divisor.len() != 0,
+            divisor.is_empty() || len % divisor.len() != 0,
             ErrorReason::InvalidArgumentLength
         );
         assert_meta_data!(self, divisor);
-- 
2.43.0


From 3c0b9148d950201447910b1a83ee71dcbd8dc99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 18/79] fix: dot products must check meta data and length of
 their operands

---
 .../src/vector_types/general/dot_products.rs  | 24 +++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index a929468..bb4287b 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -78,6 +78,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -129,6 +137,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -177,6 +189,14 @@ where
             return Err(ErrorReason::InputMustBeReal);
         }
 
+        if factor.is_complex() || self.domain() != factor.domain() {
+            return Err(ErrorReason::InputMetaDataMustAgree);
+        }
+
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
@@ -227,6 +247,10 @@ where
             return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
+        if self.len() != factor.len() {
+            return Err(ErrorReason::InputMustHaveTheSameSize);
+        }
+
         let data_length = self.len();
         let array = self.data.to_slice();
         let partition = Reg::calc_data_alignment_reqs(&array[0..data_length]);
-- 
2.43.0


From a5c91a65d4b7740cceac6da308ae3317acfd83aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 19/79] fix: complex dot products must only convert the valid
 part of the storage

---
 vector/src/vector_types/general/dot_products.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/dot_products.rs b/vector/src/vector_types/general/dot_products.rs
index bb4287b..dbdf002 100644
--- a/vector/src/vector_types/general/dot_products.rs
+++ b/vector/src/vector_types/general/dot_products.rs
@@ -165,7 +165,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
@@ -275,7 +275,7 @@ where
         );
 
         let sum = partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .zip(partition.cedge_iter(array_to_complex(other)))
             .fold(Complex::<T>::zero(), |sum, (a, b)| sum + *a * *b);
 
-- 
2.43.0


From 6811bcb524ca78f6cb0e1530019f0e1d883bb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 20/79] fix: correlate must report which operand does not fit
 and leave self unchanged

---
 vector/src/vector_types/time_freq/correlation.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 3c73db3..52976a9 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -132,18 +132,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Time || !self.is_complex() {
-            self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+        if self.domain() != DataDomain::Time {
             return Err(ErrorReason::InputMustBeInTimeDomain);
         }
 
+        if !self.is_complex() {
+            return Err(ErrorReason::InputMustBeComplex);
+        }
+
         if other.domain() != DataDomain::Frequency || !other.is_complex() {
-            self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
-            return Err(ErrorReason::InputMustBeInTimeDomain);
+            return Err(ErrorReason::InputMetaDataMustAgree);
         }
 
         let points = other.points();
-- 
2.43.0


From 82e25b59ea7299f72115f6082f5f6cd7b42c3e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 21/79] fix: correlate must accept an argument with the same
 length

---
 vector/src/vector_types/time_freq/correlation.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index 52976a9..ab04726 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -145,7 +145,10 @@ where
         }
 
         let points = other.points();
-        self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        if points != self.points() {
+            self.zero_pad_b(buffer, points, PaddingOption::Surround)?;
+        }
+
         // The next steps: fft, mul, ifft
         let complex = (self.data_mut(..)).to_complex_time_vec();
         let mut buffer = NoTradeBuffer::new(buffer.borrow(buffer.alloc_len()));
-- 
2.43.0


From e172de653190deb108017a94538d2d3245aa5bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:23 +0000
Subject: [PATCH 22/79] fix: prepare_argument_padded panicked for vectors with
 less than two points

---
 vector/src/vector_types/time_freq/correlation.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/correlation.rs b/vector/src/vector_types/time_freq/correlation.rs
index ab04726..1e093a4 100644
--- a/vector/src/vector_types/time_freq/correlation.rs
+++ b/vector/src/vector_types/time_freq/correlation.rs
@@ -107,10 +107,13 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let points = self.points();
-        self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
-            .expect(
-                "zero_pad_b shouldn't fail since the argument is always larger than the vector",
-            );
+        if points > 1 {
+            self.zero_pad_b(buffer, 2 * points - 1, PaddingOption::Surround)
+                .expect(
+                    "zero_pad_b shouldn't fail since the argument is always larger than the vector",
+                );
+        }
+
         let mut result = self.plain_fft(buffer);
         result.conj();
         result
-- 
2.43.0


From 39a634652062e757e1e0e3d620ad4754e34d860a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 23/79] fix: a complex vector from a slice with an odd length
 must be empty

---
 vector/src/vector_types/support_core.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index 7ca58cc..6ff1112 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -522,7 +522,10 @@ where
     T: RealNumber,
 {
     fn to_gen_dsp_vec(self, is_complex: bool, domain: DataDomain) -> GenDspVec<Self, T> {
-        let len = self.len();
+        let mut len = self.len();
+        if len % 2 != 0 && is_complex {
+            len = 0;
+        }
         GenDspVec {
             data: self,
             delta: T::one(),
-- 
2.43.0


From 624c3c0490fdca3164d6da99565a86f879590301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 24/79] fix: a complex vector converted from a storage with an
 odd length must be empty

---
 vector/src/vector_types/to_from_vec_conversions.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/to_from_vec_conversions.rs b/vector/src/vector_types/to_from_vec_conversions.rs
index a2f3db3..eaa2638 100644
--- a/vector/src/vector_types/to_from_vec_conversions.rs
+++ b/vector/src/vector_types/to_from_vec_conversions.rs
@@ -255,7 +255,7 @@ where
             delta: T::one(),
             domain: meta::Time,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
@@ -296,7 +296,7 @@ where
             delta: T::one(),
             domain: meta::Freq,
             number_space: meta::Complex,
-            valid_len: len,
+            valid_len: if len % 2 == 0 { len } else { 0 },
             multicore_settings: MultiCoreSettings::default(),
         }
     }
-- 
2.43.0


From f31a289f8f52ffb5e3fc3551bc8d97ec720c3ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:53 +0000
Subject: [PATCH 25/79] fix: try_resize of an inline vector must change its
 length

---
 vector/src/inline_vector/dynamic.rs    | 6 +++++-
 vector/src/inline_vector/fixed_size.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/vector/src/inline_vector/dynamic.rs b/vector/src/inline_vector/dynamic.rs
index 12d4119..1fd343f 100644
--- a/vector/src/inline_vector/dynamic.rs
+++ b/vector/src/inline_vector/dynamic.rs
@@ -144,8 +144,12 @@ impl<T> InlineVector<T> {
 impl<T: Zero + Clone> InlineVector<T> {
     pub fn try_resize(&mut self, len: usize) -> VoidResult {
         match *self {
-            InlineVector::Inline(ref v) => {
+            InlineVector::Inline(ref mut v) => {
                 if v.capacity() >= len {
+                    v.truncate(len);
+                    while v.len() < len {
+                        v.push(T::zero());
+                    }
                     Ok(())
                 } else {
                     Err(ErrorReason::TypeCanNotResize)
diff --git a/vector/src/inline_vector/fixed_size.rs b/vector/src/inline_vector/fixed_size.rs
index 969838d..d146dd4 100644
--- a/vector/src/inline_vector/fixed_size.rs
+++ b/vector/src/inline_vector/fixed_size.rs
@@ -132,8 +132,12 @@ impl<T> InlineVector<T> {
 impl<T: Zero + Clone> InlineVector<T> {
     pub fn try_resize(&mut self, len: usize) -> VoidResult {
         match *self {
-            InlineVector::Inline(ref v) => {
+            InlineVector::Inline(ref mut v) => {
                 if v.capacity() >= len {
+                    v.truncate(len);
+                    while v.len() < len {
+                        v.push(T::zero());
+                    }
                     Ok(())
                 } else {
                     Err(ErrorReason::TypeCanNotResize)
-- 
2.43.0


From ae7582fa24f7c5d7251648464961cb87eb50d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 26/79] fix: conversions between complex and interleaved
 vectors panicked for empty vectors and freed odd storage with the wrong size

---
 vector/src/vector_types/support_std.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index 8a1c3cd..aa8be7b 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -648,7 +648,7 @@ where
     let len = boxed.len();
     unsafe {
         let mut trans: Box<[T]> = mem::transmute(boxed);
-        let vec = Vec::<T>::from_raw_parts(&mut trans[0] as *mut T, len * 2, len * 2);
+        let vec = Vec::<T>::from_raw_parts(trans.as_mut_ptr(), len * 2, len * 2);
         mem::forget(trans); // TODO memory leak?
         vec
     }
@@ -659,12 +659,16 @@ where
     T: RealNumber,
 {
     expand_to_full_capacity(&mut vec);
+    if vec.len() % 2 != 0 {
+        vec.pop();
+    }
+
     let boxed = vec.into_boxed_slice();
     let len = boxed.len();
     unsafe {
         let mut trans: Box<[Complex<T>]> = mem::transmute(boxed);
         let vec =
-            Vec::<Complex<T>>::from_raw_parts(&mut trans[0] as *mut Complex<T>, len / 2, len / 2);
+            Vec::<Complex<T>>::from_raw_parts(trans.as_mut_ptr(), len / 2, len / 2);
         mem::forget(trans); // TODO memory leak?
         vec
     }
-- 
2.43.0


From ab5089c9fd435d24a9aeb0563e4111006896cb23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 27/79] fix: a complex vector converted to a Vec must only
 contain the valid points

---
 vector/src/vector_types/support_std.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/support_std.rs b/vector/src/vector_types/support_std.rs
index aa8be7b..5603347 100644
--- a/vector/src/vector_types/support_std.rs
+++ b/vector/src/vector_types/support_std.rs
@@ -626,7 +626,9 @@ where
     fn from(mut vector: DspVec<Vec<T>, T, meta::Complex, D>) -> Self {
         let len = vector.valid_len;
         vector.data.truncate(len);
-        interleaved_vec_to_complex_vec(vector.data)
+        let mut result = interleaved_vec_to_complex_vec(vector.data);
+        result.truncate(len / 2);
+        result
     }
 }
 
-- 
2.43.0


From e77e60b649d4efaa59c40f467293f216141c6879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:34 +0000
Subject: [PATCH 28/79] fix: an inline vector must move to the heap if it
 outgrows its inline storage

---
 vector/src/inline_vector/dynamic.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/vector/src/inline_vector/dynamic.rs b/vector/src/inline_vector/dynamic.rs
index 1fd343f..61b2975 100644
--- a/vector/src/inline_vector/dynamic.rs
+++ b/vector/src/inline_vector/dynamic.rs
@@ -68,7 +68,17 @@ impl<T> InlineVector<T> {
         Self::with_capacity(0)
     }
 
+    /// Moves all elements to the heap if the inline storage has no space left.
+    fn spill_if_full(&mut self) {
+        let elements = match *self {
+            InlineVector::Inline(ref mut v) if v.is_full() => v.drain(..).collect(),
+            _ => return,
+        };
+        *self = InlineVector::Dynamic(elements);
+    }
+
     pub fn push(&mut self, elem: T) {
+        self.spill_if_full();
         match *self {
             InlineVector::Inline(ref mut v) => {
                 v.push(elem);
@@ -132,6 +142,7 @@ impl<T> InlineVector<T> {
     }
 
     pub fn insert(&mut self, index: usize, element: T) {
+        self.spill_if_full();
         match *self {
             InlineVector::Inline(ref mut v) => {
                 v.insert(index, element);
-- 
2.43.0


From 0ce9601d55e9a658f37408300628211a6a35e4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:45 +0000
Subject: [PATCH 29/79] hook: make the inline vector reachable with --cfg
 bdsp_verif

---
 vector/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/vector/src/lib.rs b/vector/src/lib.rs
index 8527f43..726e398 100644
--- a/vector/src/lib.rs
+++ b/vector/src/lib.rs
@@ -101,6 +101,9 @@ pub use crate::multicore_support::print_calibration;
 pub use crate::multicore_support::MultiCoreSettings;
 pub use crate::vector_types::*;
 mod gpu_support;
+#[cfg(bdsp_verif)]
+pub mod inline_vector;
+#[cfg(not(bdsp_verif))]
 mod inline_vector;
 use crate::numbers::*;
 use std::ops::Range;
-- 
2.43.0


From aea201ae8ef75713bcef589ffdca93b803b3772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 30/79] fix: the minimum got lost when a chunk held a new
 maximum and a new minimum

---
 vector/src/vector_types/general/statistics.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index 4cd739d..bd82d84 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -227,7 +227,8 @@ where
             if stat.max > max {
                 max = stat.max;
                 max_index = stat.max_index;
-            } else if stat.min < min {
+            }
+            if stat.min < min {
                 min = stat.min;
                 min_index = stat.min_index;
             }
@@ -316,7 +317,8 @@ where
                 max = stat.max;
                 max_norm = max.norm();
                 max_index = stat.max_index;
-            } else if stat.min.norm() < min_norm {
+            }
+            if stat.min.norm() < min_norm {
                 min = stat.min;
                 min_norm = min.norm();
                 min_index = stat.min_index;
-- 
2.43.0


From e511ba1b2a78ef29379376d7cd58de24055d2fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:56 +0000
Subject: [PATCH 31/79] fix: sum and sum_sq of complex vectors converted the
 whole storage and panicked for odd storage lengths

---
 vector/src/vector_types/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index bd82d84..bcc8f5d 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -527,7 +527,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x)
     }
 
@@ -558,7 +558,7 @@ where
         };
 
         sum + partition
-            .cedge_iter(array_to_complex(array))
+            .cedge_iter(array_to_complex(&array[0..data_length]))
             .fold(Complex::<T>::zero(), |sum, x| sum + *x * *x)
     }
 }
-- 
2.43.0


From 3a012e62eebbf7df69190fc501e9a8ff3bdb9b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 32/79] fix: merging the statistics of more than 16 pieces
 panicked

---
 vector/src/vector_types/general/statistics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/general/statistics.rs b/vector/src/vector_types/general/statistics.rs
index bcc8f5d..d7f60d9 100644
--- a/vector/src/vector_types/general/statistics.rs
+++ b/vector/src/vector_types/general/statistics.rs
@@ -3,6 +3,7 @@ use super::super::{
     ToSlice, Vector,
 };
 use crate::array_to_complex;
+use crate::inline_vector::InlineVector;
 use crate::multicore_support::*;
 use crate::numbers::*;
 use crate::simd_extensions::*;
@@ -157,12 +158,12 @@ macro_rules! impl_common_stats {
             let len = stats[0].len();
             let mut results = StatsVec::new();
             for i in 0..len {
-                let mut reordered = StatsVec::new();
+                let mut reordered = InlineVector::with_capacity(stats.len());
                 for s in stats.iter() {
                     reordered.push(s[i]);
                 }
 
-                let merged = Statistics::merge(&reordered);
+                let merged = Statistics::merge(&reordered[..]);
                 results.push(merged);
             }
             results
-- 
2.43.0


From 432eedc3d1be385c441dd6997e5e47512c789afa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:55 +0000
Subject: [PATCH 33/79] fix: precise split statistics shared the rounding
 compensation between the parts

---
 .../src/vector_types/general/precise_stats.rs  | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/vector/src/vector_types/general/precise_stats.rs b/vector/src/vector_types/general/precise_stats.rs
index a3e7202..b93e59f 100644
--- a/vector/src/vector_types/general/precise_stats.rs
+++ b/vector/src/vector_types/general/precise_stats.rs
@@ -259,11 +259,12 @@ where
             |array, range, len| {
                 let mut results = Statistics::empty_vec(len);
                 let mut j = range.start;
-                let mut sumc = 0.0;
-                let mut rmsc = 0.0;
+                let mut sumc = [0.0; STATS_VEC_CAPACTIY];
+                let mut rmsc = [0.0; STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stats = &mut results[j % len];
-                    stats.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let part = j % len;
+                    let stats = &mut results[part];
+                    stats.add_prec(*num, j / len, &mut sumc[part], &mut rmsc[part]);
                     j += 1;
                 }
 
@@ -507,11 +508,12 @@ where
                 let mut results = Statistics::<Complex<f64>>::empty_vec(len);
                 let mut j = range.start / 2;
                 let array = array_to_complex(array);
-                let mut sumc = Complex64::zero();
-                let mut rmsc = Complex64::zero();
+                let mut sumc = [Complex64::zero(); STATS_VEC_CAPACTIY];
+                let mut rmsc = [Complex64::zero(); STATS_VEC_CAPACTIY];
                 for num in array {
-                    let stat = &mut results[j % len];
-                    stat.add_prec(*num, j / len, &mut sumc, &mut rmsc);
+                    let part = j % len;
+                    let stat = &mut results[part];
+                    stat.add_prec(*num, j / len, &mut sumc[part], &mut rmsc[part]);
                     j += 1;
                 }
 
-- 
2.43.0


From 68abbea57ba0db01c9def9f83c505092a8030f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 34/79] fix: map_inplace and map_aggregate visited the storage
 behind the valid length

---
 vector/src/vector_types/general/mapping.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/general/mapping.rs b/vector/src/vector_types/general/mapping.rs
index 112fb07..a452b15 100644
--- a/vector/src/vector_types/general/mapping.rs
+++ b/vector/src/vector_types/general/mapping.rs
@@ -60,8 +60,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -106,7 +106,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
@@ -170,8 +170,8 @@ where
             return;
         }
 
+        let length = self.valid_len;
         let array = self.data.to_slice_mut();
-        let length = array.len();
         Chunk::execute_with_range(
             Complexity::Small,
             &self.multicore_settings,
@@ -217,7 +217,7 @@ where
             }
 
             let array = self.data.to_slice();
-            let length = array.len();
+            let length = self.valid_len;
             if length == 0 {
                 return Err(ErrorReason::InputMustNotBeEmpty);
             }
-- 
2.43.0


From ac4e29ebfdb9c5c67fd8f0eb77d9041062bce454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 35/79] fix: get_magnitude and get_magnitude_squared converted
 the whole storage and panicked

---
 vector/src/vector_types/complex/complex_to_real.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 8bd65c0..66621b7 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -543,7 +543,7 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         destination.set_delta(self.delta);
         let temp = destination.data_mut(0..data_length / 2);
-        let array = &self.data.to_slice();
+        let array = &self.data.to_slice()[0..data_length];
         let partition = Reg::calc_data_alignment_reqs(array);
         Chunk::from_src_to_dest(
             complexity,
-- 
2.43.0


From 3e44fa1acdcc66616f0cb8319d74bfe1382610de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 36/79] fix: get_real_imag and get_mag_phase must set the delta
 of their targets like the other getters

---
 vector/src/vector_types/complex/complex_to_real.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 66621b7..232ef3b 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -678,6 +678,8 @@ where
             .expect("Target should be real and thus all values for len / 2 should be valid");
         imag.resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        real.set_delta(self.delta);
+        imag.set_delta(self.delta);
         let real = real.data_mut(0..data_length / 2);
         let imag = imag.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
@@ -698,6 +700,8 @@ where
         phase
             .resize(data_length / 2)
             .expect("Target should be real and thus all values for len / 2 should be valid");
+        mag.set_delta(self.delta);
+        phase.set_delta(self.delta);
         let mag = mag.data_mut(0..data_length / 2);
         let phase = phase.data_mut(0..data_length / 2);
         let data = self.data.to_slice();
-- 
2.43.0


From c145f266d19d2bf9161ede87a7c8c9f837f0b8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 37/79] fix: the getters for complex parts required twice the
 storage of the result

---
 .../src/vector_types/complex/complex_to_real.rs   | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 232ef3b..0a8a001 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -608,9 +608,6 @@ where
 {
     fn get_real(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.re,
@@ -621,9 +618,6 @@ where
 
     fn get_imag(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.im,
@@ -634,9 +628,6 @@ where
 
     fn get_magnitude(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs(),
@@ -647,9 +638,6 @@ where
 
     fn get_magnitude_squared(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         sel_reg!(self.simd_complex_into_real_target_operation::<T>(
             destination,
             |x| x.complex_abs_squared(),
@@ -660,9 +648,6 @@ where
 
     fn get_phase(&self, destination: &mut O) {
         assert_self_complex_and_target_real!(self, destination);
-        destination
-            .resize(self.len())
-            .expect("Target is real and thus all values are valid");
         self.pure_complex_into_real_target_operation(
             destination,
             |x, _arg| x.arg(),
-- 
2.43.0


From 2a088d79581f33af5410916912cccd50f3ebe1df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 38/79] fix: to_complex returned a complex vector with real
 data if the storage can not be resized

---
 vector/src/vector_types/real/real_to_complex.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/real/real_to_complex.rs b/vector/src/vector_types/real/real_to_complex.rs
index 2589d8d..daed88e 100644
--- a/vector/src/vector_types/real/real_to_complex.rs
+++ b/vector/src/vector_types/real/real_to_complex.rs
@@ -76,10 +76,13 @@ where
         let result = self.zero_interleave(2);
         let domain = self.domain();
         match result {
-            Err(reason) => Err((
-                reason,
-                Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
-            )),
+            Err(reason) => {
+                self.mark_vector_as_invalid();
+                Err((
+                    reason,
+                    Self::ComplexResult::rededicate_with_runtime_data(self, true, domain),
+                ))
+            }
             Ok(()) => Ok(Self::ComplexResult::rededicate_with_runtime_data(
                 self, true, domain,
             )),
-- 
2.43.0


From 3058f98d47eac2cf5ee07be10a8f9017291b3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:43 +0000
Subject: [PATCH 39/79] fix: rededicate must return an empty vector if either
 number space or domain do not match

---
 vector/src/vector_types/rededicate_and_relations.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/rededicate_and_relations.rs b/vector/src/vector_types/rededicate_and_relations.rs
index 2c5e7ed..acef40b 100644
--- a/vector/src/vector_types/rededicate_and_relations.rs
+++ b/vector/src/vector_types/rededicate_and_relations.rs
@@ -337,7 +337,7 @@ where
         let is_complex = origin.is_complex();
         let domain = origin.domain();
         let mut result = Self::rededicate_from_force(origin);
-        if result.is_complex() != is_complex && result.domain() != domain {
+        if result.is_complex() != is_complex || result.domain() != domain {
             result
                 .resize(0)
                 .expect("Setting size to 0 should always succeed");
-- 
2.43.0


From 7edcd7b05af816d8f99eade2b0e578d9ec7b4354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 40/79] fix: mirror of an empty spectrum panicked

---
 vector/src/vector_types/time_freq/freq.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index f83b017..e2d6b4a 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -59,6 +59,10 @@ where
         }
 
         let len = self.len();
+        if len == 0 {
+            return;
+        }
+
         let step = 2;
         let temp_len = 2 * len - step;
         let mut temp = buffer.borrow(temp_len);
-- 
2.43.0


From 1cf2207348db54eab6810b58ef697045a96358db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 41/79] fix: mirror accepted vectors which are either not
 complex or not in frequency domain

---
 vector/src/vector_types/time_freq/freq.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/freq.rs b/vector/src/vector_types/time_freq/freq.rs
index e2d6b4a..cfe5c89 100644
--- a/vector/src/vector_types/time_freq/freq.rs
+++ b/vector/src/vector_types/time_freq/freq.rs
@@ -53,7 +53,7 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        if self.domain() != DataDomain::Frequency && !self.is_complex() {
+        if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
             return;
         }
-- 
2.43.0


From 7c3c64e863d31ed6ecdc4237ef68bdf3c9198e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 42/79] fix: the symmetric FFTs returned a wrong number of
 points for generic vectors and the window was applied at the wrong positions

---
 .../src/vector_types/time_freq/time_to_freq.rs   | 16 +++++-----------
 1 file changed, 5 insertions(+), 11 deletions(-)

diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 029494e..62e8301 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -177,10 +177,10 @@ where
 
 macro_rules! unmirror {
     ($self_: ident, $points: ident) => {
-        let len = $points;
-        let len = len / 2 + 1;
+        // The non-redundant half of the spectrum starts at 0 Hz
+        // and holds two numbers for every point.
         $self_
-            .resize(len)
+            .resize($points + 1)
             .expect("Shrinking a vector should always succeed");
     };
 }
@@ -219,8 +219,6 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
         let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
@@ -251,10 +249,8 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
@@ -287,11 +283,9 @@ where
             ));
         }
 
-        self.zero_interleave_b(buffer, 2);
-        self.number_space.to_complex();
         self.apply_window(window);
         let points = self.points();
-        let mut result = self.fft(buffer);
+        let mut result = self.plain_fft(buffer);
         unmirror!(result, points);
         Ok(result)
     }
-- 
2.43.0


From 0b031a4cacc2862c2153e501d19fdc4332635720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 43/79] fix: plain_ifft and plain_sifft of a generic vector
 must give a vector in time domain

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index a101059..ad1e82b 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -142,7 +142,7 @@ where
         if self.domain() != DataDomain::Frequency {
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
-            self.domain.to_freq();
+            self.domain.to_time();
             return Self::TimeResult::rededicate_from_force(self);
         }
 
@@ -153,7 +153,7 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         Self::TimeResult::rededicate_from_force(self)
     }
 
@@ -193,8 +193,8 @@ where
     {
         if self.domain() != DataDomain::Frequency || !self.is_complex() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeInFrequencyDomain,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -203,8 +203,8 @@ where
 
         if self.points() > 0 && self.data(1).abs() > T::from(1e-10).unwrap() {
             self.mark_vector_as_invalid();
-            self.number_space.to_complex();
-            self.domain.to_freq();
+            self.number_space.to_real();
+            self.domain.to_time();
             return Err((
                 ErrorReason::InputMustBeConjSymmetric,
                 Self::RealTimeResult::rededicate_from_force(self),
@@ -215,8 +215,9 @@ where
 
         fft(&mut self, buffer, FftDirection::Inverse);
 
-        self.domain.to_freq();
+        self.domain.to_time();
         self.pure_complex_to_real_operation(buffer, |x, _arg| x.re, (), Complexity::Small);
+        self.number_space.to_real();
         Ok(Self::RealTimeResult::rededicate_from_force(self))
     }
 
-- 
2.43.0


From 3e22738baf5a38fcc665e5ad89308d804cad2a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 44/79] fix: sifft and windowed_sifft must restore the vector
 given to sfft and windowed_sfft

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index ad1e82b..bd235f7 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -225,12 +225,12 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
-        let points = self.points();
+        // Number of points after the spectrum has been mirrored
+        let points = (2 * self.points()).saturating_sub(1);
         self.scale(Complex::<T>::new(
             T::one() / T::from(points).unwrap(),
             T::zero(),
         ));
-        self.ifft_shift();
         self.plain_sifft(buffer)
     }
 
-- 
2.43.0


From a3a048f1daaaa15f1881682e752d28dd0c4cffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:03 +0000
Subject: [PATCH 45/79] fix: plain_sifft refused spectra whose first bin is
 only off by rounding

---
 vector/src/vector_types/time_freq/freq_to_time.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index bd235f7..382afa7 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -201,7 +201,10 @@ where
             ));
         }
 
-        if self.points() > 0 && self.data(1).abs() > T::from(1e-10).unwrap() {
+        // The spectrum of a real vector might be off by rounding at 0 Hz too
+        let largest = self.data(..).iter().fold(T::zero(), |m, x| m.max(x.abs()));
+        let tolerance = (largest * T::epsilon() * T::from(64.0).unwrap()).max(T::from(1e-10).unwrap());
+        if self.points() > 0 && self.data(1).abs() > tolerance {
             self.mark_vector_as_invalid();
             self.number_space.to_real();
             self.domain.to_time();
-- 
2.43.0


From 50125be8c1ce3653bd3d754afee31ba3a2274cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 46/79] fix: set_real_imag and set_mag_phase wrote into vectors
 which are not complex

---
 vector/src/vector_types/complex/complex_to_real.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 0a8a001..10249ec 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -714,6 +714,13 @@ where
 {
     fn set_real_imag(&mut self, real: &O, imag: &O) -> VoidResult {
         {
+            if !self.is_complex() {
+                self.mark_vector_as_invalid();
+                return Err(ErrorReason::InputMustBeComplex);
+            }
+            if real.is_complex() || imag.is_complex() {
+                return Err(ErrorReason::InputMustBeReal);
+            }
             if real.len() != imag.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
             }
@@ -737,6 +744,13 @@ where
 
     fn set_mag_phase(&mut self, mag: &O, phase: &O) -> VoidResult {
         {
+            if !self.is_complex() {
+                self.mark_vector_as_invalid();
+                return Err(ErrorReason::InputMustBeComplex);
+            }
+            if mag.is_complex() || phase.is_complex() {
+                return Err(ErrorReason::InputMustBeReal);
+            }
             if mag.len() != phase.len() {
                 return Err(ErrorReason::InvalidArgumentLength);
             }
-- 
2.43.0


From 0191d64832958b3638b9525d9680c7143f62328c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:37 +0000
Subject: [PATCH 47/79] fix: the symmetric transforms reported a wrong domain
 for a wrong number space

---
 .../vector_types/time_freq/freq_to_time.rs    |  7 ++++++-
 .../vector_types/time_freq/time_to_freq.rs    | 21 ++++++++++++++++---
 2 files changed, 24 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/freq_to_time.rs b/vector/src/vector_types/time_freq/freq_to_time.rs
index 382afa7..a4e4df1 100644
--- a/vector/src/vector_types/time_freq/freq_to_time.rs
+++ b/vector/src/vector_types/time_freq/freq_to_time.rs
@@ -192,11 +192,16 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Frequency || !self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeInFrequencyDomain
+            } else {
+                ErrorReason::InputMustBeComplex
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_real();
             self.domain.to_time();
             return Err((
-                ErrorReason::InputMustBeInFrequencyDomain,
+                reason,
                 Self::RealTimeResult::rededicate_from_force(self),
             ));
         }
diff --git a/vector/src/vector_types/time_freq/time_to_freq.rs b/vector/src/vector_types/time_freq/time_to_freq.rs
index 62e8301..276a274 100644
--- a/vector/src/vector_types/time_freq/time_to_freq.rs
+++ b/vector/src/vector_types/time_freq/time_to_freq.rs
@@ -200,11 +200,16 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Time || self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeReal
+            } else {
+                ErrorReason::InputMustBeInTimeDomain
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
             return Err((
-                ErrorReason::InputMustBeInTimeDomain,
+                reason,
                 Self::FreqResult::rededicate_from_force(self),
             ));
         }
@@ -230,11 +235,16 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Time || self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeReal
+            } else {
+                ErrorReason::InputMustBeInTimeDomain
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
             return Err((
-                ErrorReason::InputMustBeInTimeDomain,
+                reason,
                 Self::FreqResult::rededicate_from_force(self),
             ));
         }
@@ -264,11 +274,16 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         if self.domain() != DataDomain::Time || self.is_complex() {
+            let reason = if self.is_complex() {
+                ErrorReason::InputMustBeReal
+            } else {
+                ErrorReason::InputMustBeInTimeDomain
+            };
             self.mark_vector_as_invalid();
             self.number_space.to_complex();
             self.domain.to_freq();
             return Err((
-                ErrorReason::InputMustBeInTimeDomain,
+                reason,
                 Self::FreqResult::rededicate_from_force(self),
             ));
         }
-- 
2.43.0


From 4875fb928c40d3b0bde82bdb662d93f75e72fcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 48/79] fix: overlap_discard left a part of the signal
 unconvolved if it is less than two FFT blocks long

---
 vector/src/vector_types/time_freq/convolution.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 2276539..16e6845 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -338,7 +338,9 @@ where
         let scratch_len = 2 * std::cmp::max(fft.get_inplace_scratch_len(), fft.get_outofplace_scratch_len()); // Times 2 as the fft is complex
         let signal_freq_len = 2 * fft_len;
         let tmp_len = 2 * fft_len;
-        let remainder_len = x_len - x_len % fft_len;
+        // The FFT blocks end less than `fft_len` points before the end of the signal,
+        // times 2 as the signal is complex
+        let remainder_len = 2 * fft_len;
         let mut array =
             buffer.borrow(filter_response_padded_len + scratch_len + signal_freq_len + tmp_len + remainder_len);
         {
-- 
2.43.0


From 8fbc75acc5f2e5047a7346d3bd59c97766052e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 49/79] fix: convolve with a sampled function built a wrong
 impulse response for long vectors

---
 vector/src/vector_types/time_freq/convolution.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 16e6845..73ba6de 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -157,12 +157,13 @@ where
                 multicore_settings: MultiCoreSettings::default(),
             };
 
+            let step = if self.is_complex() { 2 } else { 1 };
             let mut i = 0;
             let mut j = -(T::from(len).unwrap());
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value;
-                i += 2;
+                i += step;
                 j = j + T::one();
             }
 
@@ -218,11 +219,11 @@ where
         let points = calc_points(len, ratio, self.is_complex());
         if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
-                data: InlineVector::of_size(T::zero(), 2 * points),
+                data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
                 domain: self.domain.clone(),
                 number_space: self.number_space.clone(),
-                valid_len: self.valid_len,
+                valid_len: points,
                 multicore_settings: MultiCoreSettings::default(),
             };
 
@@ -231,7 +232,7 @@ where
             while i < imp_resp.len() {
                 let value = function.calc(j * ratio_inv);
                 *imp_resp.data_mut(i) = value.re;
-                i += 2;
+                i += 1;
                 *imp_resp.data_mut(i) = value.im;
                 i += 1;
                 j = j + T::one();
-- 
2.43.0


From 396569cc07e6f24c558e1f07a8646c646b420959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:38 +0000
Subject: [PATCH 50/79] fix: convolve_mat cut complex vectors to the length of
 the impulse response

---
 vector/src/vector_types/time_freq/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f439466..6251872 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -415,7 +415,7 @@ where
                 .collect();
             let data_vecs: InlineVector<&[Complex<T>]> = data_vecs
                 .iter()
-                .map(|o| array_to_complex(&o[0..impulse_response[0].len()]))
+                .map(|o| array_to_complex(&o[0..len]))
                 .collect();
             let dest = array_to_complex_mut(&mut target[0..len]);
             let conv_len = conv_len as isize;
-- 
2.43.0


From 727decfa08b9c58dff4be977e794fd82d3876217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 51/79] fix: interpolation and decimation left the sample
 spacing unchanged

---
 vector/src/vector_types/time_freq/interpolation.rs      | 3 +++
 vector/src/vector_types/time_freq/real_interpolation.rs | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c1cdfe0..a254cff 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -395,6 +395,7 @@ where
         B: for<'a> Buffer<'a, S, T>,
     {
         let delay = delay / self.delta;
+        self.delta = self.delta / interpolation_factor;
         let len = self.len();
         let points_half = self.points() / 2;
         let conv_len = if conv_len > points_half {
@@ -522,6 +523,7 @@ where
         );
         complex.plain_ifft(&mut buffer);
         let points = len / 2;
+        self.delta = self.delta / interpolation_factorf;
         self.scale(T::one() / T::from(points).unwrap());
         if !is_complex {
             // Convert vector back into real number space
@@ -630,6 +632,7 @@ where
             }
             self.valid_len = j;
         }
+        self.delta = self.delta * T::from(decimation_factor).unwrap();
     }
 }
 
diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 2b6626f..8eb680c 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -66,6 +66,7 @@ where
             }
             dest[dest_len - 1] = data[data_len - 1];
             self.valid_len = dest_len;
+            self.delta = self.delta / interpolation_factor;
         }
         temp.trade(&mut self.data);
     }
@@ -175,6 +176,7 @@ where
             }
         }
         self.valid_len = dest_len;
+        self.delta = self.delta / interpolation_factor;
         temp.trade(&mut self.data);
     }
 }
-- 
2.43.0


From 78181d5fd618f43a9ecb10b8ccb91e6de3763270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 52/79] fix: interpolatef added a point to real vectors of an
 odd length

---
 vector/src/vector_types/time_freq/interpolation.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index a254cff..6d19cf4 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -408,7 +408,11 @@ where
             .round()
             .to_usize()
             .unwrap();
-        let new_len = new_len + new_len % 2;
+        let new_len = if is_complex {
+            new_len + new_len % 2
+        } else {
+            new_len
+        };
         if conv_len <= 202
             && new_len >= 2000
             && (interpolation_factor.round() - interpolation_factor).abs() < T::from(1e-6).unwrap()
-- 
2.43.0


From 865501eac4476b1c94506f863efed406d0546bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 53/79] fix: interpolation with a symmetric function hit the
 wrong bins for an odd number of points

---
 vector/src/vector_types/time_freq/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 6251872..f4c1dcc 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -639,6 +639,11 @@ where
                     let scale = TT::from(ratio);
                     let offset = if points % 2 != 0 { 1 } else { 0 };
                     let max = T::from(points - offset).unwrap() / two;
+                    let ratio = if is_fft_shifted {
+                        ratio * (two * max / T::from(points).unwrap())
+                    } else {
+                        ratio
+                    };
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
@@ -671,6 +676,13 @@ where
                     let center = T::from(points - offset).unwrap() / two;
                     let mut j1 = -center + T::from(range1.start).unwrap();
                     let mut j2 = center - T::from(range2.end - 1).unwrap();
+                    let mut ratio = ratio;
+                    if is_fft_shifted {
+                        // A spectrum which starts with 0 Hz is symmetric around its first bin
+                        j2 = j2 + T::from(offset).unwrap();
+                        // and half of the sample rate is at half of the points
+                        ratio = ratio * (two * max / T::from(points).unwrap());
+                    }
                     let mut i1 = 0;
                     let mut i2 = 0;
                     {
-- 
2.43.0


From ecfe7974d134e5d8e97690dc206bc4583cd4f752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 54/79] fix: interpolation with an asymmetric function hit the
 wrong bins for an even number of points

---
 vector/src/vector_types/time_freq/mod.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index f4c1dcc..6e117dd 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -647,8 +647,14 @@ where
                     let mut j =
                         -(T::from(points - offset).unwrap()) / two + T::from(range.start).unwrap();
                     for num in array {
+                        // The most negative frequency is missing in an even number of points
+                        let x = if is_fft_shifted && points % 2 == 0 && j > T::zero() {
+                            j + T::one()
+                        } else {
+                            j
+                        };
                         *num =
-                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, j, max) * ratio);
+                            (*num) * scale * fun(arg, fft_swap_x(is_fft_shifted, x, max) * ratio);
                         j = j + T::one();
                     }
                 },
-- 
2.43.0


From 2287ab23da0c89cfa5dfe71274ca1b5d46d90e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:28 +0000
Subject: [PATCH 55/79] fix: a fractional delay moved one bin of an odd number
 of points by the wrong phase

---
 vector/src/vector_types/time_freq/interpolation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 6d19cf4..8b01a82 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -320,8 +320,8 @@ where
         let pi = T::PI();
         let two = T::one() + T::one();
         let points = self.len() / 2;
-        let pos_points = points / 2;
-        let neg_points = points - pos_points;
+        let neg_points = points / 2;
+        let pos_points = points - neg_points;
         let phase_inc = two * pi * delay / T::from(points).unwrap();
         {
             let len = self.len();
-- 
2.43.0


From 2b2896e2377ecf985c2002b6faa9ad5a57d6d815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:53 +0000
Subject: [PATCH 56/79] fix: interpolatef panicked on vectors which are short
 for the convolution length or not aligned

---
 .../src/vector_types/time_freq/interpolation.rs   | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index 8b01a82..c55c8d3 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -233,9 +233,16 @@ where
             let temp = temp.to_slice_mut();
             let dest = convert_mut(&mut temp[0..new_len]);
             let len = dest.len();
-            let scalar_len = vectors[0].points() * interpolation_factor;
+            // Reg::LEN due to the points which can't be loaded or don't fill a register
+            let scalar_len = (vectors[0].points() + 2 * Reg::LEN) * interpolation_factor;
 
             let partition = Reg::calc_data_alignment_reqs(&data[0..data_len]);
+            let (scalar_left, scalar_right) =
+                if partition.left == data_len || 2 * scalar_len >= len {
+                    (len, 0)
+                } else {
+                    (scalar_len, scalar_len)
+                };
             let left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
             // Length of a SIMD reg relative to the length of type T
@@ -244,11 +251,11 @@ where
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..len - scalar_len],
+                &mut dest[scalar_left..len - scalar_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = range.start + scalar_len;
+                    let mut i = range.start + scalar_left;
                     for num in dest_range {
                         let rounded = (i + interpolation_factor - 1) / interpolation_factor;
                         let end = rounded + conv_len - left_points;
@@ -275,7 +282,7 @@ where
             );
 
             let data = convert(&data[0..data_len]);
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_left, scalar_right) {
                 (*num) = Self::interpolate_priv_simd_step(
                     i as usize,
                     interpolation_factor,
-- 
2.43.0


From 320498b8c06b4c03bae23193c67dbc95ffd13ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 57/79] fix: interpolate_lin failed for empty vectors and
 positions outside of the vector

---
 .../time_freq/real_interpolation.rs           | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 8eb680c..429f2d6 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -34,7 +34,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
+
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -42,10 +51,6 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             let data = &data[0..data_len];
@@ -53,10 +58,13 @@ where
             let mut i = T::zero();
 
             for num in &mut dest[0..dest_len - 1] {
-                let rounded = i / interpolation_factor + delay;
+                // Positions outside of the vector get the value of its first or last point
+                let rounded = (i / interpolation_factor + delay)
+                    .max(T::zero())
+                    .min(T::from(data_len - 1).unwrap());
                 let beforef = rounded.floor();
                 let before = beforef.to_usize().unwrap();
-                let next = before + 1;
+                let next = (before + 1).min(data_len - 1);
                 let x0 = beforef;
                 let y0 = data[before];
                 let y1 = data[next];
-- 
2.43.0


From 9885786ccd0e36415e4e2c88e3ba6fa4a9eb570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:39 +0000
Subject: [PATCH 58/79] fix: interpolate_hermite failed for less than three
 points and positions outside of the vector

---
 .../time_freq/real_interpolation.rs           | 86 ++++++-------------
 1 file changed, 25 insertions(+), 61 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 429f2d6..7f3fa53 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -83,7 +83,16 @@ where
     where
         B: for<'a> Buffer<'a, S, T>,
     {
+        if self.is_complex() {
+            self.mark_vector_as_invalid();
+            return;
+        }
+
         let data_len = self.len();
+        if data_len == 0 {
+            return;
+        }
+
         let dest_len = (T::from(data_len - 1).unwrap() * interpolation_factor)
             .round()
             .to_usize()
@@ -91,83 +100,38 @@ where
             + 1;
         let mut temp = buffer.borrow(dest_len);
         {
-            if self.is_complex() {
-                self.mark_vector_as_invalid();
-                return;
-            }
             let data = self.data.to_slice();
             let temp = temp.to_slice_mut();
             // Literature: http://paulbourke.net/miscellaneous/interpolation/
             let data = &data[0..data_len];
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
-            let start = ((T::one() - delay) * interpolation_factor)
-                .ceil()
-                .to_usize()
-                .unwrap();
-            let end = start + 1;
             let half = T::from(0.5).unwrap();
             let one_point_five = T::from(1.5).unwrap();
             let two = T::from(2.0).unwrap();
             let two_point_five = T::from(2.5).unwrap();
-            for num in &mut dest[0..start] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                assert_eq!(before, 0);
-                let next = before + 1;
-                let next_next = next + 1;
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let y0 = y1 - (y2 - y1);
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[start..dest_len - end] {
-                let rounded = i / interpolation_factor + delay;
-                let beforef = rounded.floor();
-                let before = beforef.to_usize().unwrap();
-                let before_before = before - 1;
-                let next = before + 1;
-                let next_next = next + 1;
-                let y0 = data[before_before];
-                let y1 = data[before];
-                let y2 = data[next];
-                let y3 = data[next_next];
-                let x = rounded - beforef;
-                let x2 = x * x;
-                let a0 = -half * y0 + one_point_five * y1 - one_point_five * y2 + half * y3;
-                let a1 = y0 - two_point_five * y1 + two * y2 - half * y3;
-                let a2 = -half * y0 + half * y2;
-                let a3 = y1;
-
-                (*num) = (a0 * x * x2) + (a1 * x2) + (a2 * x) + a3;
-                i = i + T::one();
-            }
-
-            for num in &mut dest[dest_len - end..dest_len] {
-                let rounded = i / interpolation_factor + delay;
+            for num in &mut dest[..] {
+                // Positions outside of the vector get the value of its first or last point
+                let rounded = (i / interpolation_factor + delay)
+                    .max(T::zero())
+                    .min(T::from(data_len - 1).unwrap());
                 let beforef = rounded.floor();
                 let before = beforef.to_usize().unwrap();
-                assert!(before + 2 >= data_len);
-                let before_before = before - 1;
-                let y0 = data[before_before];
+                // Missing neighbors are extrapolated
                 let y1 = data[before];
-                let y2 = if before < data_len - 1 {
+                let y2 = if before + 1 < data_len {
                     data[before + 1]
+                } else if before > 0 {
+                    y1 + (y1 - data[before - 1])
+                } else {
+                    y1
+                };
+                let y0 = if before > 0 {
+                    data[before - 1]
                 } else {
-                    y1 + (y1 - y0)
+                    y1 - (y2 - y1)
                 };
-                let y3 = if before < data_len - 2 {
+                let y3 = if before + 2 < data_len {
                     data[before + 2]
                 } else {
                     y2 + (y2 - y1)
-- 
2.43.0


From 5faa5e096b6ef1df80eb678fb5234fcdfee3a08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:01 +0000
Subject: [PATCH 59/79] fix: interpolatef moved the edges of long vectors into
 the opposite direction of all other points

---
 .../vector_types/time_freq/interpolation.rs   | 20 ++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index c55c8d3..b72ef19 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -136,6 +136,7 @@ fn function_to_vectors<T>(
     complex_result: bool,
     interpolation_factor: usize,
     delay: T,
+    reversed: bool,
 ) -> InlineVector<GenDspVec<InlineVector<T>, T>>
 where
     T: RealNumber,
@@ -149,6 +150,7 @@ where
             complex_result,
             offset,
             delay,
+            reversed,
         ));
     }
 
@@ -161,6 +163,7 @@ fn function_to_vector<T>(
     complex_result: bool,
     offset: T,
     delay: T,
+    reversed: bool,
 ) -> GenDspVec<InlineVector<T>, T>
 where
     T: RealNumber,
@@ -170,9 +173,10 @@ where
     let mut imp_resp =
         InlineVector::of_size(T::zero(), data_len).to_gen_dsp_vec(complex_result, DataDomain::Time);
     let mut i = 0;
-    let mut j = -(T::from(conv_len).unwrap() - T::one()) + delay;
+    let mut j = -(T::from(conv_len).unwrap() - T::one());
     while i < data_len {
-        let value = function.calc(j - offset);
+        let x = j - offset;
+        let value = function.calc(if reversed { delay - x } else { x + delay });
         *imp_resp.data_mut(i) = value;
         i += step;
         j = j + T::one();
@@ -220,6 +224,16 @@ where
                 self.is_complex(),
                 interpolation_factor,
                 delay,
+                false,
+            );
+            // The edges traverse their vectors in the opposite order of the shifted copies
+            let edge_vectors = function_to_vectors(
+                function,
+                conv_len,
+                self.is_complex(),
+                interpolation_factor,
+                delay,
+                true,
             );
             let mut shifts = InlineVector::with_capacity(vectors.len() * number_of_shifts);
             for vector in &vectors[..] {
@@ -288,7 +302,7 @@ where
                     interpolation_factor,
                     conv_len,
                     data,
-                    &vectors[..],
+                    &edge_vectors[..],
                 );
             }
         }
-- 
2.43.0


From 04e196ffaf8e4d1d8076929cb242427879c5259a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 60/79] fix: diff_with_start and cum_sum of matrices calculated
 diff instead

---
 matrix/src/general/elementary.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/elementary.rs b/matrix/src/general/elementary.rs
index e9e8aaa..7b94333 100644
--- a/matrix/src/general/elementary.rs
+++ b/matrix/src/general/elementary.rs
@@ -213,13 +213,13 @@ macro_rules! add_mat_impl {
 
 				fn diff_with_start(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.diff_with_start()
 					}
 				}
 
 				fn cum_sum(&mut self)  {
 					for v in self.rows_mut() {
-						v.diff()
+						v.cum_sum()
 					}
 				}
 			}
-- 
2.43.0


From 2e9360db5c51d0b0b2f0e10fa2ba2d3ee0f46a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 61/79] fix: get_magnitude, get_magnitude_squared and get_phase
 of matrices returned the imaginary part

---
 matrix/src/complex.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/matrix/src/complex.rs b/matrix/src/complex.rs
index b2495e0..2a4fbe4 100644
--- a/matrix/src/complex.rs
+++ b/matrix/src/complex.rs
@@ -134,19 +134,19 @@ macro_rules! add_mat_impl {
 
 				fn get_magnitude(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude(o);
 					}
 				}
 
 				fn get_magnitude_squared(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_magnitude_squared(o);
 					}
 				}
 
 				fn get_phase(&self, destination: &mut O) {
                     for (o, v) in destination.rows_mut().iter_mut().zip(self.rows()) {
-						v.get_imag(o);
+						v.get_phase(o);
 					}
 				}
 
-- 
2.43.0


From 21aa8730411e5c0c22d4eb2f00d024abc21d5ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 62/79] fix: sum and sum_sq of 3xN and 4xN matrices were
 implemented for 2xN matrices

---
 matrix/src/general/statistics.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 49a628c..4a24251 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -187,7 +187,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 3]> for Matrix3xN<V, S, T>
 where
     V: SumOps<T>,
 {
@@ -212,7 +212,7 @@ where
     }
 }
 
-impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix2xN<V, S, T>
+impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> SumOps<[T; 4]> for Matrix4xN<V, S, T>
 where
     V: SumOps<T>,
 {
-- 
2.43.0


From 104f1cc0dd3ed87dc64c4bc2deac1b4d6f98cf11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 63/79] fix: statistics of matrices required rows which do not
 exist

---
 matrix/src/general/statistics.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/matrix/src/general/statistics.rs b/matrix/src/general/statistics.rs
index 4a24251..25e9724 100644
--- a/matrix/src/general/statistics.rs
+++ b/matrix/src/general/statistics.rs
@@ -3,7 +3,7 @@ use crate::IntoFixedLength;
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for MatrixMxN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = Vec<Statistics<T>>;
 
@@ -20,7 +20,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for MatrixMxN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = Vec<StatsVec<Statistics<T>>>;
 
@@ -37,7 +37,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix2xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 2];
 
@@ -54,7 +54,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix2xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 2];
 
@@ -71,7 +71,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix3xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 3];
 
@@ -88,7 +88,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix3xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 3];
 
@@ -105,7 +105,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsOps<T> for Matrix4xN<V, S, T>
 where
-    V: StatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: StatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 4];
 
@@ -122,7 +122,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> StatisticsSplitOps<T> for Matrix4xN<V, S, T>
 where
-    V: StatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: StatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 4];
 
@@ -239,7 +239,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = Vec<Statistics<T>>;
 
@@ -256,7 +256,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for MatrixMxN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = Vec<StatsVec<Statistics<T>>>;
 
@@ -273,7 +273,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 2];
 
@@ -290,7 +290,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix2xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 2];
 
@@ -307,7 +307,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 3];
 
@@ -324,7 +324,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix3xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 3];
 
@@ -341,7 +341,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsOps<T> for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsOps<Statistics<T>, Result = Statistics<T>>,
+    V: PreciseStatisticsOps<T, Result = Statistics<T>>,
 {
     type Result = [Statistics<T>; 4];
 
@@ -358,7 +358,7 @@ where
 
 impl<S: ToSlice<T>, V: Vector<T>, T: RealNumber> PreciseStatisticsSplitOps<T> for Matrix4xN<V, S, T>
 where
-    V: PreciseStatisticsSplitOps<Statistics<T>, Result = StatsVec<Statistics<T>>>,
+    V: PreciseStatisticsSplitOps<T, Result = StatsVec<Statistics<T>>>,
 {
     type Result = [StatsVec<Statistics<T>>; 4];
 
-- 
2.43.0


From db6434de0c41c90eb5a9d89f7856953a3933027b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 64/79] fix: convolve_signal of a matrix returned buffer
 content for rows without an impulse response

---
 matrix/src/time_freq.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/matrix/src/time_freq.rs b/matrix/src/time_freq.rs
index 4aef619..fe9bc7b 100644
--- a/matrix/src/time_freq.rs
+++ b/matrix/src/time_freq.rs
@@ -440,6 +440,9 @@ macro_rules! convolve_signal {
     ($self_: expr, $buffer: ident, $impulse_response: ident) => {{
         let col_len = $self_.col_len();
         let row_len = $self_.row_len();
+        if $impulse_response.len() != col_len {
+            return Err(ErrorReason::InvalidArgumentLength);
+        }
         let mut target = $buffer.borrow(row_len * col_len);
         {
             let rows: Vec<&DspVec<S, T, N, D>> = $self_.rows().iter().collect();
-- 
2.43.0


From bb231109db4213aae09d79d71fcd278e877b5f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 65/79] fix: atan of the C interface calculated tan

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 61f890d..79549e8 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -446,7 +446,7 @@ pub extern "C" fn acos32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index b54d5aa..a89aa12 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -447,7 +447,7 @@ pub extern "C" fn acos64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn atan64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
-    vector.convert_vec(|v, _| Ok(v.tan()))
+    vector.convert_vec(|v, _| Ok(v.atan()))
 }
 
 #[no_mangle]
-- 
2.43.0


From d0926bfc434bd176fe8b6cf7a14db583b05f87c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 66/79] fix: sub of the C interface expected a pointer to a
 pointer as operand

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 79549e8..c5fc82f 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -175,7 +175,7 @@ pub extern "C" fn add32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub32(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index a89aa12..2872878 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -176,7 +176,7 @@ pub extern "C" fn add64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropR
 }
 
 #[no_mangle]
-pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBox) -> VectorInteropResult<VecBuf> {
+pub extern "C" fn sub64(vector: Box<VecBuf>, operand: &VecBuf) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| v.sub(&operand.vec))
 }
 
-- 
2.43.0


From 5d3f29c0f70d0e147431020378bfcd7b11cf2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 67/79] fix: the C interface reported success with the code of
 InputMustHaveAnOddLength

---
 interop/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interop/src/lib.rs b/interop/src/lib.rs
index 0f8b45d..47f7867 100644
--- a/interop/src/lib.rs
+++ b/interop/src/lib.rs
@@ -99,7 +99,7 @@ where
 
 pub fn convert_void(result: VoidResult) -> i32 {
     match result {
-        Ok(()) => 9,
+        Ok(()) => 0,
         Err(err) => translate_error(err),
     }
 }
-- 
2.43.0


From e33f49e96801f877d20b7220def7135a5f2da1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 68/79] fix: overwrite_data of the C interface refused to
 overwrite all data

---
 interop/src/facade32.rs | 2 +-
 interop/src/facade64.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index c5fc82f..40838ad 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -830,7 +830,7 @@ pub extern "C" fn overwrite_data32(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 2872878..1a3a6e2 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -831,7 +831,7 @@ pub extern "C" fn overwrite_data64(
     len: usize,
 ) -> VectorInteropResult<VecBuf> {
     let data = unsafe { slice::from_raw_parts(data, len) };
-    if len < vector.vec.len() {
+    if len <= vector.vec.len() {
         vector.vec.data_mut(0..len).clone_from_slice(&data);
         VectorInteropResult {
             result_code: 0,
-- 
2.43.0


From a25b6a0052a6f7ea9042573347d3dcfd913ab039 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 69/79] fix: fft_shift and ifft_shift were not exported by the
 C interface

---
 interop/src/facade32.rs | 2 ++
 interop/src/facade64.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 40838ad..666c220 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -960,10 +960,12 @@ pub extern "C" fn mirror32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 1a3a6e2..93c6361 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -961,10 +961,12 @@ pub extern "C" fn mirror64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, b| Ok(v.mirror(b)))
 }
 
+#[no_mangle]
 pub extern "C" fn fft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.fft_shift()))
 }
 
+#[no_mangle]
 pub extern "C" fn ifft_shift64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
     vector.convert_vec(|v, _| Ok(v.ifft_shift()))
 }
-- 
2.43.0


From 566b1115aca19c32ffd077d091d77d1a32737648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 70/79] fix: getters of the C interface and clone destroyed the
 vector they read from

---
 interop/src/facade32.rs | 16 ++++++++--------
 interop/src/facade64.rs | 16 ++++++++--------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 666c220..0cdb943 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -561,12 +561,12 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -649,12 +649,12 @@ pub extern "C" fn map_aggregate_complex32(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -664,7 +664,7 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase32(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -684,7 +684,7 @@ pub extern "C" fn plain_ifft32(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone32(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone32(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -766,7 +766,7 @@ pub extern "C" fn mul_smaller_vector32(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -775,7 +775,7 @@ pub extern "C" fn get_real_imag32(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase32(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 93c6361..859e6a9 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -562,12 +562,12 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_magnitude_squared64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
 }
 
@@ -650,12 +650,12 @@ pub extern "C" fn map_aggregate_complex64(
 }
 
 #[no_mangle]
-pub extern "C" fn get_real64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
 }
 
 #[no_mangle]
-pub extern "C" fn get_imag64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
 }
 
@@ -665,7 +665,7 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 }
 
 #[no_mangle]
-pub extern "C" fn get_phase64(vector: Box<VecBuf>, destination: &mut VecBuf) -> i32 {
+pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
     convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
 }
 
@@ -685,7 +685,7 @@ pub extern "C" fn plain_ifft64(vector: Box<VecBuf>) -> VectorInteropResult<VecBu
 }
 
 #[no_mangle]
-pub extern "C" fn clone64(vector: Box<VecBuf>) -> Box<VecBuf> {
+pub extern "C" fn clone64(vector: &VecBuf) -> Box<VecBuf> {
     Box::new(VecBuf {
         vec: vector.vec.clone(),
         buffer: SingleBuffer::new(),
@@ -767,7 +767,7 @@ pub extern "C" fn mul_smaller_vector64(
 
 #[no_mangle]
 pub extern "C" fn get_real_imag64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
@@ -776,7 +776,7 @@ pub extern "C" fn get_real_imag64(
 
 #[no_mangle]
 pub extern "C" fn get_mag_phase64(
-    vector: Box<VecBuf>,
+    vector: &VecBuf,
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-- 
2.43.0


From 126d11336d72e77bc5118369a9582ea01df736b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:52 +0000
Subject: [PATCH 71/79] fix: getters of the C interface reported success if the
 target became invalid

---
 interop/src/facade32.rs | 27 ++++++++++++++++++++-------
 interop/src/facade64.rs | 27 ++++++++++++++++++++-------
 2 files changed, 40 insertions(+), 14 deletions(-)

diff --git a/interop/src/facade32.rs b/interop/src/facade32.rs
index 0cdb943..6c08b38 100644
--- a/interop/src/facade32.rs
+++ b/interop/src/facade32.rs
@@ -562,12 +562,14 @@ pub extern "C" fn magnitude32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 
 #[no_mangle]
 pub extern "C" fn get_magnitude32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
+    vector.vec.get_magnitude(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
 pub extern "C" fn get_magnitude_squared32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
+    vector.vec.get_magnitude_squared(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
@@ -650,12 +652,14 @@ pub extern "C" fn map_aggregate_complex32(
 
 #[no_mangle]
 pub extern "C" fn get_real32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
+    vector.vec.get_real(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
 pub extern "C" fn get_imag32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
+    vector.vec.get_imag(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
@@ -665,7 +669,8 @@ pub extern "C" fn phase32(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn get_phase32(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
+    vector.vec.get_phase(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
@@ -770,7 +775,11 @@ pub extern "C" fn get_real_imag32(
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
-    convert_void(Ok(vector.vec.get_real_imag(&mut real.vec, &mut imag.vec)))
+    vector.vec.get_real_imag(&mut real.vec, &mut imag.vec);
+    match get_error_marker(real) {
+        0 => get_error_marker(imag),
+        code => code,
+    }
 }
 
 #[no_mangle]
@@ -779,7 +788,11 @@ pub extern "C" fn get_mag_phase32(
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-    convert_void(Ok(vector.vec.get_mag_phase(&mut mag.vec, &mut phase.vec)))
+    vector.vec.get_mag_phase(&mut mag.vec, &mut phase.vec);
+    match get_error_marker(mag) {
+        0 => get_error_marker(phase),
+        code => code,
+    }
 }
 
 #[no_mangle]
diff --git a/interop/src/facade64.rs b/interop/src/facade64.rs
index 859e6a9..e475a74 100644
--- a/interop/src/facade64.rs
+++ b/interop/src/facade64.rs
@@ -563,12 +563,14 @@ pub extern "C" fn magnitude64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf
 
 #[no_mangle]
 pub extern "C" fn get_magnitude64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_magnitude(&mut destination.vec)))
+    vector.vec.get_magnitude(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
 pub extern "C" fn get_magnitude_squared64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_magnitude_squared(&mut destination.vec)))
+    vector.vec.get_magnitude_squared(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
@@ -651,12 +653,14 @@ pub extern "C" fn map_aggregate_complex64(
 
 #[no_mangle]
 pub extern "C" fn get_real64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_real(&mut destination.vec)))
+    vector.vec.get_real(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
 pub extern "C" fn get_imag64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_imag(&mut destination.vec)))
+    vector.vec.get_imag(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
@@ -666,7 +670,8 @@ pub extern "C" fn phase64(vector: Box<VecBuf>) -> VectorInteropResult<VecBuf> {
 
 #[no_mangle]
 pub extern "C" fn get_phase64(vector: &VecBuf, destination: &mut VecBuf) -> i32 {
-    convert_void(Ok(vector.vec.get_phase(&mut destination.vec)))
+    vector.vec.get_phase(&mut destination.vec);
+    get_error_marker(destination)
 }
 
 #[no_mangle]
@@ -771,7 +776,11 @@ pub extern "C" fn get_real_imag64(
     real: &mut VecBuf,
     imag: &mut VecBuf,
 ) -> i32 {
-    convert_void(Ok(vector.vec.get_real_imag(&mut real.vec, &mut imag.vec)))
+    vector.vec.get_real_imag(&mut real.vec, &mut imag.vec);
+    match get_error_marker(real) {
+        0 => get_error_marker(imag),
+        code => code,
+    }
 }
 
 #[no_mangle]
@@ -780,7 +789,11 @@ pub extern "C" fn get_mag_phase64(
     mag: &mut VecBuf,
     phase: &mut VecBuf,
 ) -> i32 {
-    convert_void(Ok(vector.vec.get_mag_phase(&mut mag.vec, &mut phase.vec)))
+    vector.vec.get_mag_phase(&mut mag.vec, &mut phase.vec);
+    match get_error_marker(mag) {
+        0 => get_error_marker(phase),
+        code => code,
+    }
 }
 
 #[no_mangle]
-- 
2.43.0


From 7a16f13471fbf4f5bb660cd70cbb0fd9bf4813c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:51 +0000
Subject: [PATCH 72/79] fix: a failing set_real_imag or set_mag_phase must
 leave the vector unchanged

---
 vector/src/vector_types/complex/complex_to_real.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/vector/src/vector_types/complex/complex_to_real.rs b/vector/src/vector_types/complex/complex_to_real.rs
index 10249ec..ef474be 100644
--- a/vector/src/vector_types/complex/complex_to_real.rs
+++ b/vector/src/vector_types/complex/complex_to_real.rs
@@ -715,7 +715,6 @@ where
     fn set_real_imag(&mut self, real: &O, imag: &O) -> VoidResult {
         {
             if !self.is_complex() {
-                self.mark_vector_as_invalid();
                 return Err(ErrorReason::InputMustBeComplex);
             }
             if real.is_complex() || imag.is_complex() {
@@ -745,7 +744,6 @@ where
     fn set_mag_phase(&mut self, mag: &O, phase: &O) -> VoidResult {
         {
             if !self.is_complex() {
-                self.mark_vector_as_invalid();
                 return Err(ErrorReason::InputMustBeComplex);
             }
             if mag.is_complex() || phase.is_complex() {
-- 
2.43.0


From 066ae9aa6b0e8857fba0379fb58ac2f99f9fb0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:48:30 +0000
Subject: [PATCH 73/79] fix: convolve_signal no longer panics if no point of
 the signal can be loaded into a SIMD register

---
 vector/src/vector_types/time_freq/mod.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/vector/src/vector_types/time_freq/mod.rs b/vector/src/vector_types/time_freq/mod.rs
index 6e117dd..42a3e8c 100644
--- a/vector/src/vector_types/time_freq/mod.rs
+++ b/vector/src/vector_types/time_freq/mod.rs
@@ -569,17 +569,22 @@ where
             let conv_len = conv_len as isize;
 
             let partition = Reg::calc_data_alignment_reqs(&data[0..len]);
+            let (scalar_left, scalar_right) = if partition.left == len {
+                (points, 0)
+            } else {
+                (scalar_len, scalar_len)
+            };
             let step = if self.is_complex() { 2 } else { 1 };
             let scalar_left_points = partition.left / step;
             let simd = Reg::array_to_regs(partition.center(data));
             Chunk::execute_with_range(
                 Complexity::Large,
                 &self.multicore_settings,
-                &mut dest[scalar_len..points - scalar_len],
+                &mut dest[scalar_left..points - scalar_right],
                 1,
                 simd,
                 move |dest_range, range, simd| {
-                    let mut i = (scalar_len + range.start) as isize;
+                    let mut i = (scalar_left + range.start) as isize;
                     for num in dest_range {
                         let end = (i + conv_len) as usize - scalar_left_points;
                         let shift = end % shifts.len();
@@ -596,7 +601,7 @@ where
                     }
                 },
             );
-            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_len, scalar_len) {
+            for (i, num) in IndexedEdgeIteratorMut::new(dest, scalar_left, scalar_right) {
                 *num = Self::convolve_iteration(
                     complex,
                     other_iter,
-- 
2.43.0


From 39042f612bbc444b9580666ca009b0ffb0f7f016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 74/79] fix: convolve took the optimized path for ratios other
 than one

---
 vector/src/vector_types/time_freq/convolution.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 73ba6de..b4eba7b 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -106,6 +106,8 @@ fn would_benefit_from_simd<T: RealNumber>(vec_len: usize, imp_len: usize, ratio:
     imp_len <= 202
         && vec_len > 2000
         && (ratio_inv.round() - ratio_inv).abs() < T::from(1e-6).unwrap()
+        // Large ratios have an inverse of zero and ratios close to 0.5 have one of two
+        && ratio_inv.round() == T::one()
         && ratio > T::from(0.5).unwrap()
 }
 
-- 
2.43.0


From 3d4a160a31db704fc3f02272a82570df0e3bc4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:36:08 +0000
Subject: [PATCH 75/79] fix: convolve must not panic if the ratio doesn't fit
 into an integer

---
 .../src/vector_types/time_freq/convolution.rs | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index b4eba7b..8928330 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -146,8 +146,14 @@ where
     {
         assert_time!(self);
         let ratio_inv = T::one() / ratio;
-        let points = calc_points(len, ratio, self.is_complex());
-        if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
+        let use_simd = would_benefit_from_simd(self.len(), len, ratio);
+        // The points are only required, and only known to be valid, for the optimized path
+        let points = if use_simd {
+            calc_points(len, ratio, self.is_complex())
+        } else {
+            0
+        };
+        if use_simd && can_use_simd::<T>(points) {
             // Create a vector from the impulse response and use `convolve_signal` to get
             // SIMD support
             let mut imp_resp = DspVec {
@@ -218,8 +224,14 @@ where
         assert_time!(self);
 
         let ratio_inv = T::one() / ratio;
-        let points = calc_points(len, ratio, self.is_complex());
-        if would_benefit_from_simd(self.len(), len, ratio) && can_use_simd::<T>(points) {
+        let use_simd = would_benefit_from_simd(self.len(), len, ratio);
+        // The points are only required, and only known to be valid, for the optimized path
+        let points = if use_simd {
+            calc_points(len, ratio, self.is_complex())
+        } else {
+            0
+        };
+        if use_simd && can_use_simd::<T>(points) {
             let mut imp_resp = DspVec {
                 data: InlineVector::of_size(T::zero(), points),
                 delta: self.delta(),
-- 
2.43.0


From 9f99bbbe962ba0760e9a9b4d62772246cd7fd3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:31 +0000
Subject: [PATCH 76/79] fix: interpolatef rounded the factor even if that moves
 points of long vectors or reads behind the signal

---
 vector/src/vector_types/time_freq/interpolation.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/vector/src/vector_types/time_freq/interpolation.rs b/vector/src/vector_types/time_freq/interpolation.rs
index b72ef19..820dc88 100644
--- a/vector/src/vector_types/time_freq/interpolation.rs
+++ b/vector/src/vector_types/time_freq/interpolation.rs
@@ -437,6 +437,8 @@ where
         if conv_len <= 202
             && new_len >= 2000
             && (interpolation_factor.round() - interpolation_factor).abs() < T::from(1e-6).unwrap()
+            && (interpolation_factor.round() - interpolation_factor).abs() * T::from(len).unwrap()
+                < T::from(1e-2).unwrap()
         {
             let interpolation_factor = interpolation_factor.round().to_usize().unwrap();
             if self.is_complex() {
-- 
2.43.0


From e8af43bedc3bb00cec506fdc5414c5a24417cc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:07 +0000
Subject: [PATCH 77/79] fix: convolve_signal panicked for an impulse response
 with an odd number of allocated elements

---
 vector/src/vector_types/time_freq/convolution.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/vector/src/vector_types/time_freq/convolution.rs b/vector/src/vector_types/time_freq/convolution.rs
index 8928330..b6bfdc0 100644
--- a/vector/src/vector_types/time_freq/convolution.rs
+++ b/vector/src/vector_types/time_freq/convolution.rs
@@ -378,7 +378,7 @@ where
             let (filter_response_padded, _) = filter_response_padded.getf();
 
             let signal_time = self.data.to_slice_mut();
-            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[..]);
+            let filter_response: &[Complex<T>] = array_to_complex(&filter_response[0..2 * imp_len]);
             let filter_response_padded: &mut [Complex<T>] =
                 array_to_complex_mut(&mut filter_response_padded[0..2 * fft_len]);
             let signal_time: &mut [Complex<T>] = array_to_complex_mut(&mut signal_time[0..2 * x_len]);
-- 
2.43.0


From 919d41a8f6794bb7b36306f5ff72075c98bd8d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:24:03 +0000
Subject: [PATCH 78/79] fix: getting the points of a complex vector from a
 slice with an odd number of elements panicked

---
 vector/src/vector_types/support_core.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/vector/src/vector_types/support_core.rs b/vector/src/vector_types/support_core.rs
index 6ff1112..f3502ba 100644
--- a/vector/src/vector_types/support_core.rs
+++ b/vector/src/vector_types/support_core.rs
@@ -790,7 +790,8 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex(self.data), len)
+        let even = self.data.len() - self.data.len() % 2;
+        (array_to_complex(&self.data[0..even]), len)
     }
 }
 
@@ -803,6 +804,7 @@ where
 
     fn get(self) -> (Self::Output, usize) {
         let len = self.valid_len / 2;
-        (array_to_complex_mut(self.data), len)
+        let even = self.data.len() - self.data.len() % 2;
+        (array_to_complex_mut(&mut self.data[0..even]), len)
     }
 }
-- 
2.43.0


From d8e08058700ae18205503892c31764eec923c410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:08:15 +0000
Subject: [PATCH 79/79] fix: the last point of interpolate_lin ignored the
 delay

---
 vector/src/vector_types/time_freq/real_interpolation.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/vector/src/vector_types/time_freq/real_interpolation.rs b/vector/src/vector_types/time_freq/real_interpolation.rs
index 7f3fa53..cc8d233 100644
--- a/vector/src/vector_types/time_freq/real_interpolation.rs
+++ b/vector/src/vector_types/time_freq/real_interpolation.rs
@@ -57,7 +57,7 @@ where
             let dest = &mut temp[0..dest_len];
             let mut i = T::zero();
 
-            for num in &mut dest[0..dest_len - 1] {
+            for num in &mut dest[..] {
                 // Positions outside of the vector get the value of its first or last point
                 let rounded = (i / interpolation_factor + delay)
                     .max(T::zero())
@@ -72,7 +72,6 @@ where
                 (*num) = y0 + (y1 - y0) * (x - x0);
                 i = i + T::one();
             }
-            dest[dest_len - 1] = data[data_len - 1];
             self.valid_len = dest_len;
             self.delta = self.delta / interpolation_factor;
         }
-- 
2.43.0

