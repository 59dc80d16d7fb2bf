From e6340d2b1e63c20399f752df8edce2035892e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 01/16] fix: acquire the yielded counter before using the
 wrapped iterator

The ticket hand-off of ConIterOfIter read the yielded counter with a relaxed
load, so that consecutive uses of the wrapped iterator by different threads
were not ordered by happens-before: a data race in the language memory model.
---
 src/iter/atomic_counter.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index fa0b710..4c310b8 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -25,9 +25,11 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter.
+    ///
+    /// The load acquires: whatever happened before the counter reached the returned value is visible to the caller.
     #[inline(always)]
     pub fn current(&self) -> usize {
-        self.current.load(Ordering::Relaxed)
+        self.current.load(Ordering::Acquire)
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
-- 
2.43.0


From a069107ce434da03e230f2ea3f704894b13bcf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:05 +0000
Subject: [PATCH 02/16] fix: saturate the position counter instead of wrapping
 around

A pull with a huge chunk size, or a pull after skip_to_end on ConIterOfIter
which parks the counter at usize::MAX, wrapped the counter to zero: later
pulls delivered (and for vectors and arrays moved out) elements again.
---
 src/iter/atomic_counter.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 4c310b8..758352c 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -13,15 +13,30 @@ impl AtomicCounter {
     }
 
     /// Fetches and returns the current value of the counter, and adds `len` to it.
+    ///
+    /// The counter saturates at `usize::MAX`; it never wraps around to positions which are already reserved.
     #[inline(always)]
     pub fn fetch_and_add(&self, len: usize) -> usize {
-        self.current.fetch_add(len, Ordering::AcqRel)
+        let mut current = self.current.load(Ordering::Relaxed);
+        loop {
+            match self.current.compare_exchange_weak(
+                current,
+                current.saturating_add(len),
+                Ordering::AcqRel,
+                Ordering::Relaxed,
+            ) {
+                Ok(begin) => return begin,
+                Err(updated) => current = updated,
+            }
+        }
     }
 
     /// Fetches and returns the current value of the counter, and adds `1` to it.
+    ///
+    /// The counter saturates at `usize::MAX`; it never wraps around to positions which are already reserved.
     #[inline(always)]
     pub fn fetch_and_increment(&self) -> usize {
-        self.current.fetch_add(1, Ordering::AcqRel)
+        self.fetch_and_add(1)
     }
 
     /// Fetches and returns the current value of the counter.
-- 
2.43.0


From dbe957b27d095c6e56c8f06c05c21b613cce849e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:29 +0000
Subject: [PATCH 03/16] fix: no overflow in range pulls near the largest index
 value

start + index overflowed (panicking with overflow checks, delivering
wrapped-around values without them) for pulls past the end of a range close to
usize::MAX, for huge chunk sizes, and in into_seq_iter.
---
 src/iter/buffered/range.rs     |  4 +++-
 src/iter/implementors/range.rs | 17 ++++++-----------
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/iter/buffered/range.rs b/src/iter/buffered/range.rs
index 8d6fee0..2bca5a5 100644
--- a/src/iter/buffered/range.rs
+++ b/src/iter/buffered/range.rs
@@ -41,7 +41,9 @@ where
         let begin_value = begin_idx + range.start.into();
         match begin_value.cmp(&range.end.into()) {
             Ordering::Less => {
-                let end_value = (begin_value + self.chunk_size).min(range.end.into());
+                let end_value = begin_value
+                    .saturating_add(self.chunk_size)
+                    .min(range.end.into());
                 let values = (begin_value..end_value).map(Idx::from);
                 Some(values)
             }
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index 6839d66..c1d63e2 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -105,9 +105,8 @@ where
     }
 
     fn get(&self, item_idx: usize) -> Option<Idx> {
-        let value = self.range.start + item_idx.into();
-        match value.cmp(&self.range.end) {
-            Ordering::Less => Some(value),
+        match item_idx.cmp(&self.initial_len()) {
+            Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
         }
     }
@@ -117,17 +116,13 @@ where
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let begin_value = begin_idx + self.range.start.into();
-        let end_value = match begin_value.cmp(&self.range.end.into()) {
-            Ordering::Less => (begin_value + n).min(self.range.end.into()),
-            _ => begin_value,
-        };
-        let end_idx: usize = end_value - self.range.start.into();
+        let end_idx = begin_idx.saturating_add(n).min(self.initial_len());
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
             _ => {
-                let values = (begin_value..end_value).map(Idx::from);
+                let start: usize = self.range.start.into();
+                let values = (start + begin_idx..start + end_idx).map(Idx::from);
                 Some(NextChunk { begin_idx, values })
             }
         }
@@ -243,7 +238,7 @@ where
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
+        let current = self.counter().current().min(self.initial_len());
         (self.range.start + current.into())..self.range.end
     }
 
-- 
2.43.0


From bc403c8ad546621a758b934f6af19f9f659b13d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:30 +0000
Subject: [PATCH 04/16] fix: no overflow in chunk pulls with huge chunk sizes

begin + chunk_size overflowed: a panic with overflow checks; without them an
empty chunk or, for vectors and arrays, a chunk of wrapped-around length over
memory outside of the collection.
---
 src/iter/buffered/slice.rs     | 3 ++-
 src/iter/implementors/array.rs | 4 ++--
 src/iter/implementors/slice.rs | 5 ++++-
 src/iter/implementors/vec.rs   | 7 +++++--
 4 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/iter/buffered/slice.rs b/src/iter/buffered/slice.rs
index 8bed6e8..859989b 100644
--- a/src/iter/buffered/slice.rs
+++ b/src/iter/buffered/slice.rs
@@ -32,7 +32,8 @@ where
         let slice = iter.as_slice();
         match begin_idx.cmp(&slice.len()) {
             Ordering::Less => {
-                let end_idx = (begin_idx + self.chunk_size)
+                let end_idx = begin_idx
+                    .saturating_add(self.chunk_size)
                     .min(slice.len())
                     .max(begin_idx);
                 let values = slice[begin_idx..end_idx].iter();
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 21a7a6d..f9b4b72 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -56,7 +56,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let array = &mut *self.array.get();
-        let end_idx = (begin_idx + len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(array.len());
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
@@ -113,7 +113,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(N).max(begin_idx);
+        let end_idx = begin_idx.saturating_add(n).min(N).max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 523007c..039b02c 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -74,7 +74,10 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 333774b..f2c0bb1 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -56,7 +56,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
         let vec = &mut *self.vec.get();
-        let end_idx = (begin_idx + len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(vec.len());
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
@@ -109,7 +109,10 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         let begin_idx = self
             .progress_and_get_begin_idx(n)
             .unwrap_or(self.initial_len());
-        let end_idx = (begin_idx + n).min(self.initial_len()).max(begin_idx);
+        let end_idx = begin_idx
+            .saturating_add(n)
+            .min(self.initial_len())
+            .max(begin_idx);
 
         match begin_idx.cmp(&end_idx) {
             Ordering::Equal => None,
-- 
2.43.0


From 86436bd62f1faa274bbb65708c28d7bfeb6b3d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:08 +0000
Subject: [PATCH 05/16] fix: yield chunks of vectors and arrays by an owning
 iterator

Chunks were vectors built by Vec::from_raw_parts with a capacity (zero) less
than the length. This violates the documented safety preconditions, and aborts
in debug builds on recent toolchains.
---
 src/iter/implementors/array.rs |  4 +--
 src/iter/implementors/vec.rs   |  4 +--
 src/iter/mod.rs                |  1 +
 src/iter/taken_slice.rs        | 64 ++++++++++++++++++++++++++++++++++
 4 files changed, 69 insertions(+), 4 deletions(-)
 create mode 100644 src/iter/taken_slice.rs

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index f9b4b72..1c25b71 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -4,6 +4,7 @@ use crate::{
         buffered::{
             array::BufferedArray, buffered_chunk::BufferedChunk, buffered_iter::BufferedIter,
         },
+        taken_slice::TakenSlice,
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -60,8 +61,7 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         let len = end_idx - begin_idx;
 
         let ptr = array.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        TakenSlice::new(ptr, len)
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index f2c0bb1..3f3e4b4 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -2,6 +2,7 @@ use crate::{
     iter::{
         atomic_iter::{AtomicIter, AtomicIterWithInitialLen},
         buffered::{buffered_chunk::BufferedChunk, buffered_iter::BufferedIter, vec::BufferedVec},
+        taken_slice::TakenSlice,
     },
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
@@ -60,8 +61,7 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         let len = end_idx - begin_idx;
 
         let ptr = vec.as_mut_ptr().add(begin_idx);
-        let vec = Vec::from_raw_parts(ptr, len, 0);
-        vec.into_iter()
+        TakenSlice::new(ptr, len)
     }
 
     unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
diff --git a/src/iter/mod.rs b/src/iter/mod.rs
index 65a28ac..c4eb136 100644
--- a/src/iter/mod.rs
+++ b/src/iter/mod.rs
@@ -8,4 +8,5 @@ pub(crate) mod constructors;
 pub(crate) mod copied;
 mod default_fns;
 pub(crate) mod implementors;
+pub(crate) mod taken_slice;
 pub(crate) mod wrappers;
diff --git a/src/iter/taken_slice.rs b/src/iter/taken_slice.rs
new file mode 100644
index 0000000..106f269
--- /dev/null
+++ b/src/iter/taken_slice.rs
@@ -0,0 +1,64 @@
+/// An owning iterator over consecutive elements taken out of a consumed collection.
+/// Elements which are not yielded are dropped with the iterator; the storage of the elements is not released.
+pub(crate) struct TakenSlice<T> {
+    ptr: *mut T,
+    begin: usize,
+    end: usize,
+}
+
+impl<T> TakenSlice<T> {
+    /// Creates an owning iterator over the `len` elements starting at `ptr`.
+    ///
+    /// # Safety
+    ///
+    /// * `ptr` must point to `len` initialized elements, which must stay in place as long as the iterator lives,
+    /// * the iterator becomes the only owner of these elements: they must neither be accessed nor be dropped by other means.
+    pub(crate) unsafe fn new(ptr: *mut T, len: usize) -> Self {
+        Self {
+            ptr,
+            begin: 0,
+            end: len,
+        }
+    }
+}
+
+impl<T> Iterator for TakenSlice<T> {
+    type Item = T;
+
+    #[inline]
+    fn next(&mut self) -> Option<Self::Item> {
+        match self.begin < self.end {
+            true => {
+                let idx = self.begin;
+                self.begin += 1;
+                // SAFETY: `idx` is in bounds and each index is read only once
+                Some(unsafe { self.ptr.add(idx).read() })
+            }
+            false => None,
+        }
+    }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.end - self.begin;
+        (len, Some(len))
+    }
+}
+
+impl<T> ExactSizeIterator for TakenSlice<T> {}
+
+impl<T> Drop for TakenSlice<T> {
+    fn drop(&mut self) {
+        let len = self.end - self.begin;
+        // SAFETY: elements in the range begin..end are owned by the iterator and are not yielded
+        unsafe {
+            let remaining = std::ptr::slice_from_raw_parts_mut(self.ptr.add(self.begin), len);
+            std::ptr::drop_in_place(remaining);
+        }
+    }
+}
+
+// SAFETY: TakenSlice owns its elements
+unsafe impl<T: Send> Send for TakenSlice<T> {}
+
+unsafe impl<T: Sync> Sync for TakenSlice<T> {}
-- 
2.43.0


From 44ef2eed74a573c78cef6702a3276038bd032f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 06/16] fix: do not drop delivered elements of a consumed array
 again

split_off_right, called on drop and by into_seq_iter, dropped the already
delivered elements a second time, and the remainder both through the returned
vector and through the drop of the iterator.
---
 src/iter/implementors/array.rs | 28 ++++++++--------------------
 1 file changed, 8 insertions(+), 20 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 1c25b71..8216a11 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -24,10 +24,9 @@ pub struct ConIterOfArray<const N: usize, T: Send + Sync> {
 
 impl<const N: usize, T: Send + Sync> Drop for ConIterOfArray<N, T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= N {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let current = self.counter().current().min(N);
+        // SAFETY: elements of the range current..N are not taken out
+        drop(unsafe { self.take_slice(current, N) });
     }
 }
 
@@ -63,19 +62,6 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         let ptr = array.as_mut_ptr().add(begin_idx);
         TakenSlice::new(ptr, len)
     }
-
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= N);
-
-        let man_array = &mut *self.array.get();
-        let mut array = ManuallyDrop::take(man_array);
-
-        let mut vec = Vec::from_raw_parts(array.as_mut_ptr(), N, 0);
-        let right_vec = vec.split_off(left_len);
-
-        *man_array = ManuallyDrop::new(array);
-        right_vec
-    }
 }
 
 impl<const N: usize, T: Send + Sync> From<[T; N]> for ConIterOfArray<N, T> {
@@ -185,9 +171,11 @@ impl<const N: usize, T: Send + Sync> ConcurrentIter for ConIterOfArray<N, T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(N)) };
-        remaining_vec.into_iter()
+        // reserves all of the remaining elements, so that they are not dropped together with self
+        let begin_idx = self.counter().fetch_and_add(N).min(N);
+        // SAFETY: elements of the range begin_idx..N are not taken out
+        let remaining = unsafe { self.take_slice(begin_idx, N) };
+        remaining.collect::<Vec<_>>().into_iter()
     }
 
     #[inline(always)]
-- 
2.43.0


From d13b2053ba1ec45b3d0ae4f4985406ef2d2fb9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 07/16] fix: release the buffer of a consumed vector

The heap allocation of the vector was never released: it was kept in a
ManuallyDrop both by drop and by into_seq_iter.
---
 src/iter/implementors/vec.rs | 38 ++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 3f3e4b4..7cba51c 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -23,10 +23,9 @@ pub struct ConIterOfVec<T: Send + Sync> {
 
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
-        let current = self.counter().current();
-        if current <= self.vec_len {
-            let _remaining_vec_to_be_dropped = unsafe { self.split_off_right(current) };
-        }
+        let current = self.counter().current().min(self.vec_len);
+        // SAFETY: elements of the range current..vec_len are not taken out, and the vector is not used afterwards
+        drop(unsafe { self.take_remaining(current) });
     }
 }
 
@@ -64,14 +63,22 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         TakenSlice::new(ptr, len)
     }
 
-    unsafe fn split_off_right(&self, left_len: usize) -> Vec<T> {
-        debug_assert!(left_len <= self.vec_len);
-
-        let man_vec = &mut *self.vec.get();
-        let mut left_vec: Vec<T> = ManuallyDrop::take(man_vec);
-        let right_vec = left_vec.split_off(left_len);
-        *man_vec = ManuallyDrop::new(left_vec);
-        right_vec
+    /// Takes the vector out, keeping only its elements starting from the `begin_idx`-th one.
+    ///
+    /// # Safety
+    ///
+    /// * elements before `begin_idx` must have been taken out, and the others must not have been,
+    /// * the vector must not be used afterwards.
+    unsafe fn take_remaining(&mut self, begin_idx: usize) -> Vec<T> {
+        debug_assert!(begin_idx <= self.vec_len);
+
+        let mut vec = ManuallyDrop::take(self.vec.get_mut());
+        let len = self.vec_len - begin_idx;
+        vec.set_len(0);
+        let ptr = vec.as_mut_ptr();
+        std::ptr::copy(ptr.add(begin_idx), ptr, len);
+        vec.set_len(len);
+        vec
     }
 }
 
@@ -181,9 +188,10 @@ impl<T: Send + Sync> ConcurrentIter for ConIterOfVec<T> {
     /// }
     /// ```
     fn into_seq_iter(self) -> Self::SeqIter {
-        let current = self.counter().current();
-        let remaining_vec = unsafe { self.split_off_right(current.min(self.vec_len)) };
-        remaining_vec.into_iter()
+        let mut iter = ManuallyDrop::new(self);
+        let current = iter.counter().current().min(iter.vec_len);
+        // SAFETY: elements of the range current..vec_len are not taken out, and iter will not be dropped
+        unsafe { iter.take_remaining(current) }.into_iter()
     }
 
     #[inline(always)]
-- 
2.43.0


From 5271219cc5888bcec43948b5f735928348bfdde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 08/16] fix: skip_to_end drops the skipped elements of consumed
 vectors and arrays

Moving the counter to the end made the undelivered elements look delivered:
they were never dropped.
---
 src/iter/implementors/array.rs | 6 +++++-
 src/iter/implementors/vec.rs   | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 8216a11..1c5953a 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -111,7 +111,11 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(N)
+        // reserves and drops all of the remaining elements, nobody else would drop them
+        if let Some(begin_idx) = self.progress_and_get_begin_idx(N) {
+            // SAFETY: the range begin_idx..N is reserved by this call
+            drop(unsafe { self.take_slice(begin_idx, N) });
+        }
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 7cba51c..05d8e26 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -131,7 +131,11 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.vec_len)
+        // reserves and drops all of the remaining elements, nobody else would drop them
+        if let Some(begin_idx) = self.progress_and_get_begin_idx(self.vec_len) {
+            // SAFETY: the range begin_idx..vec_len is reserved by this call
+            drop(unsafe { self.take_slice(begin_idx, self.vec_len) });
+        }
     }
 }
 
-- 
2.43.0


From a58292342962c3fa9a5aafb59ea7acd6edb19d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:19 +0000
Subject: [PATCH 09/16] fix: no aliasing mutable references to the consumed
 collection

Every pull created a mutable reference to the vector or array shared by the
threads, a data race on the collection under the aliasing rules.
---
 src/iter/implementors/array.rs | 28 ++++++++-----------
 src/iter/implementors/vec.rs   | 51 ++++++++++++++++++----------------
 2 files changed, 38 insertions(+), 41 deletions(-)

diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 1c5953a..5ac710e 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -9,11 +9,7 @@ use crate::{
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
 };
-use std::{
-    cell::UnsafeCell,
-    cmp::Ordering,
-    mem::{ManuallyDrop, MaybeUninit},
-};
+use std::{cell::UnsafeCell, cmp::Ordering, mem::ManuallyDrop};
 
 /// A concurrent iterator over an array, consuming the array and yielding its elements.
 #[derive(Debug)]
@@ -39,15 +35,15 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         }
     }
 
-    unsafe fn take_one(&self, item_idx: usize) -> T {
-        let array = &mut *self.array.get();
-        let src_ptr = array.as_mut_ptr().add(item_idx);
-
-        let mut value = MaybeUninit::<T>::uninit();
-        let dst_ptr = value.as_mut_ptr();
+    /// Returns pointer to the first element of the array.
+    ///
+    /// No reference to the array is created, since multiple threads might be taking elements concurrently.
+    fn elements_ptr(&self) -> *mut T {
+        self.array.get().cast::<T>()
+    }
 
-        dst_ptr.write(src_ptr.read());
-        value.assume_init()
+    unsafe fn take_one(&self, item_idx: usize) -> T {
+        self.elements_ptr().add(item_idx).read()
     }
 
     pub(crate) unsafe fn take_slice(
@@ -55,12 +51,10 @@ impl<const N: usize, T: Send + Sync> ConIterOfArray<N, T> {
         begin_idx: usize,
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
-        let array = &mut *self.array.get();
-        let end_idx = begin_idx.saturating_add(len).min(array.len());
+        let end_idx = begin_idx.saturating_add(len).min(N);
         let len = end_idx - begin_idx;
 
-        let ptr = array.as_mut_ptr().add(begin_idx);
-        TakenSlice::new(ptr, len)
+        TakenSlice::new(self.elements_ptr().add(begin_idx), len)
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index 05d8e26..d6fbf40 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -7,20 +7,22 @@ use crate::{
     next::NextChunk,
     AtomicCounter, ConcurrentIter, Next,
 };
-use std::{
-    cell::UnsafeCell,
-    cmp::Ordering,
-    mem::{ManuallyDrop, MaybeUninit},
-};
+use std::{cell::UnsafeCell, cmp::Ordering, mem::ManuallyDrop};
 
 /// A concurrent iterator over a vector, consuming the vector and yielding its elements.
 #[derive(Debug)]
 pub struct ConIterOfVec<T: Send + Sync> {
-    vec: UnsafeCell<ManuallyDrop<Vec<T>>>,
+    vec: UnsafeCell<RawParts<T>>,
     vec_len: usize,
     counter: AtomicCounter,
 }
 
+/// Pointer to the elements and capacity of the consumed vector.
+struct RawParts<T> {
+    ptr: *mut T,
+    capacity: usize,
+}
+
 impl<T: Send + Sync> Drop for ConIterOfVec<T> {
     fn drop(&mut self) {
         let current = self.counter().current().min(self.vec_len);
@@ -32,22 +34,28 @@ impl<T: Send + Sync> Drop for ConIterOfVec<T> {
 impl<T: Send + Sync> ConIterOfVec<T> {
     /// Consumes and creates a concurrent iterator of the given `vec`.
     pub fn new(vec: Vec<T>) -> Self {
+        let mut vec = ManuallyDrop::new(vec);
+        let raw_parts = RawParts {
+            ptr: vec.as_mut_ptr(),
+            capacity: vec.capacity(),
+        };
         Self {
             vec_len: vec.len(),
-            vec: ManuallyDrop::new(vec).into(),
+            vec: raw_parts.into(),
             counter: AtomicCounter::new(),
         }
     }
 
-    unsafe fn take_one(&self, item_idx: usize) -> T {
-        let vec = &mut *self.vec.get();
-        let src_ptr = vec.as_mut_ptr().add(item_idx);
-
-        let mut value = MaybeUninit::<T>::uninit();
-        let dst_ptr = value.as_mut_ptr();
+    /// Returns pointer to the first element of the vector.
+    ///
+    /// No reference to the elements is created, since multiple threads might be taking elements concurrently.
+    fn elements_ptr(&self) -> *mut T {
+        // SAFETY: raw parts are never mutated
+        unsafe { (*self.vec.get()).ptr }
+    }
 
-        dst_ptr.write(src_ptr.read());
-        value.assume_init()
+    unsafe fn take_one(&self, item_idx: usize) -> T {
+        self.elements_ptr().add(item_idx).read()
     }
 
     pub(crate) unsafe fn take_slice(
@@ -55,12 +63,10 @@ impl<T: Send + Sync> ConIterOfVec<T> {
         begin_idx: usize,
         len: usize,
     ) -> impl ExactSizeIterator<Item = T> {
-        let vec = &mut *self.vec.get();
-        let end_idx = begin_idx.saturating_add(len).min(vec.len());
+        let end_idx = begin_idx.saturating_add(len).min(self.vec_len);
         let len = end_idx - begin_idx;
 
-        let ptr = vec.as_mut_ptr().add(begin_idx);
-        TakenSlice::new(ptr, len)
+        TakenSlice::new(self.elements_ptr().add(begin_idx), len)
     }
 
     /// Takes the vector out, keeping only its elements starting from the `begin_idx`-th one.
@@ -72,13 +78,10 @@ impl<T: Send + Sync> ConIterOfVec<T> {
     unsafe fn take_remaining(&mut self, begin_idx: usize) -> Vec<T> {
         debug_assert!(begin_idx <= self.vec_len);
 
-        let mut vec = ManuallyDrop::take(self.vec.get_mut());
+        let RawParts { ptr, capacity } = *self.vec.get_mut();
         let len = self.vec_len - begin_idx;
-        vec.set_len(0);
-        let ptr = vec.as_mut_ptr();
         std::ptr::copy(ptr.add(begin_idx), ptr, len);
-        vec.set_len(len);
-        vec
+        Vec::from_raw_parts(ptr, len, capacity)
     }
 }
 
-- 
2.43.0


From 9e0306de53f449f4676e23b17047d7dd7da56a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 10/16] fix: zero-sized and huge one-shot chunks of a wrapped
 iterator

A chunk of size zero reserves no ticket: the caller reached the wrapped
iterator concurrently with the owner of the ticket, and then terminated the
iteration. begin + n overflowed for huge chunk sizes.
---
 src/iter/implementors/iter.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 2ccf8cb..85e958b 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -134,11 +134,15 @@ where
     }
 
     fn fetch_n(&self, n: usize) -> Option<NextChunk<T, impl ExactSizeIterator<Item = T>>> {
+        if n == 0 {
+            // reserves no position; hence, the calling thread would not be allowed to use the iterator exclusively
+            return None;
+        }
+
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
-            let end_idx = begin_idx + n;
-            let buffer = (begin_idx..end_idx)
+            let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
-- 
2.43.0


From cda60bb87c979fc173e694db21953442df0b4805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 11/16] fix: do not use the wrapped iterator after it reports
 the end

A short or empty chunk left the iteration open (or re-opened it, since the
owner of the next ticket ignored the completed flag): later pulls called next
again and revived elements of an iterator which is not fused, with wrong
indices.
---
 src/iter/buffered/iter.rs     |  5 +++++
 src/iter/implementors/iter.rs | 22 ++++++++++++++++++----
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index c7830f5..d9adecc 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -50,6 +50,11 @@ where
             }
         }
 
+        if i < self.chunk_size() {
+            // the wrapped iterator must not be used after it reports the end
+            iter.set_completed();
+        }
+
         let older_count = iter.progress_yielded_counter(self.chunk_size());
         assert_eq!(older_count, begin_idx);
 
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 85e958b..315337e 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -58,6 +58,10 @@ where
         unsafe { &mut *self.iter.get() }
     }
 
+    pub(crate) fn set_completed(&self) {
+        self.completed.store(true, atomic::Ordering::SeqCst);
+    }
+
     #[inline(always)]
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
@@ -89,8 +93,11 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match begin_idx.cmp(&yielded_count) {
-                // begin_idx==yielded_count => it is our job to provide the items
-                Ordering::Equal => return Some(begin_idx),
+                // begin_idx==yielded_count => it is our job to provide the items, unless the end is already reached
+                Ordering::Equal => match self.completed.load(atomic::Ordering::Relaxed) {
+                    true => return None,
+                    false => return Some(begin_idx),
+                },
 
                 Ordering::Less => return None,
 
@@ -108,8 +115,11 @@ where
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
-                // item_idx==yielded_count => it is our job to provide the item
+                // item_idx==yielded_count => it is our job to provide the item, unless the end is already reached
                 Ordering::Equal => {
+                    if self.completed.load(atomic::Ordering::Relaxed) {
+                        return None;
+                    }
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
                     match next.is_some() {
@@ -148,9 +158,13 @@ where
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
 
+            if buffer.len() < n {
+                // the wrapped iterator must not be used after it reports the end
+                self.set_completed();
+            }
+
             match buffer.len() {
                 0 => {
-                    self.completed.store(true, atomic::Ordering::SeqCst);
                     let older_count = self.progress_yielded_counter(n);
                     assert_eq!(older_count, begin_idx);
                     None
-- 
2.43.0


From 5da2ddaa670080f9d0e83c8f785e7fa98c3036e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:44 +0000
Subject: [PATCH 12/16] fix: a panic of the wrapped iterator does not hang the
 other threads

The owner of the ticket unwound without serving it: all other threads kept
waiting for their turn forever. Now, the iteration is completed on unwind.
---
 src/iter/buffered/iter.rs     |  3 +++
 src/iter/implementors/iter.rs | 27 +++++++++++++++++++++++++++
 2 files changed, 30 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index d9adecc..b0ff54a 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -36,6 +36,7 @@ where
         begin_idx: usize,
     ) -> Option<impl ExactSizeIterator<Item = T>> {
         let core_iter = unsafe { iter.mut_iter() };
+        let guard = iter.complete_on_unwind();
 
         let mut i = 0;
         loop {
@@ -50,6 +51,8 @@ where
             }
         }
 
+        guard.disarm();
+
         if i < self.chunk_size() {
             // the wrapped iterator must not be used after it reports the end
             iter.set_completed();
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 315337e..07eba5c 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -31,6 +31,21 @@ where
     completed: AtomicBool,
 }
 
+/// Marks the iterator as completed when dropped.
+pub(crate) struct CompleteOnUnwind<'a>(&'a AtomicBool);
+
+impl CompleteOnUnwind<'_> {
+    pub(crate) fn disarm(self) {
+        std::mem::forget(self);
+    }
+}
+
+impl Drop for CompleteOnUnwind<'_> {
+    fn drop(&mut self) {
+        self.0.store(true, atomic::Ordering::SeqCst);
+    }
+}
+
 impl<T: Send + Sync, Iter> ConIterOfIter<T, Iter>
 where
     Iter: Iterator<Item = T>,
@@ -62,6 +77,14 @@ where
         self.completed.store(true, atomic::Ordering::SeqCst);
     }
 
+    /// Returns a guard which, unless it is disarmed, marks the iterator as completed when dropped.
+    ///
+    /// It must be alive while the wrapped iterator is used: the owner of the ticket cannot serve it once the
+    /// wrapped iterator panics, and the other threads must not wait for it.
+    pub(crate) fn complete_on_unwind(&self) -> CompleteOnUnwind<'_> {
+        CompleteOnUnwind(&self.completed)
+    }
+
     #[inline(always)]
     pub(crate) fn progress_yielded_counter(&self, num_yielded: usize) -> usize {
         self.yielded_counter.fetch_and_add(num_yielded)
@@ -120,8 +143,10 @@ where
                     if self.completed.load(atomic::Ordering::Relaxed) {
                         return None;
                     }
+                    let guard = self.complete_on_unwind();
                     // SAFETY: no other thread has the valid condition to iterate, they are waiting
                     let next = unsafe { self.mut_iter() }.next();
+                    guard.disarm();
                     match next.is_some() {
                         true => {
                             _ = self.yielded_counter.fetch_and_increment();
@@ -152,11 +177,13 @@ where
         self.progress_and_get_begin_idx(n).and_then(|begin_idx| {
             // SAFETY: no other thread has the valid condition to iterate, they are waiting
             let iter = unsafe { self.mut_iter() };
+            let guard = self.complete_on_unwind();
             let buffer = (0..n)
                 .map(|_| iter.next())
                 .take_while(|x| x.is_some())
                 .map(|x| x.expect("is_some is checked"))
                 .collect::<Vec<_>>();
+            guard.disarm();
 
             if buffer.len() < n {
                 // the wrapped iterator must not be used after it reports the end
-- 
2.43.0


From b23c8693c67df220b5ee597e0fa0b65f92b7a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:45 +0000
Subject: [PATCH 13/16] fix: exact size hint of the buffered chunks of a
 wrapped iterator

ExactSizeIterator requires size_hint to be exact; the default hint made the
length of adaptors over the chunk wrong (or panic).
---
 src/iter/buffered/iter.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index b0ff54a..97648c0 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -99,6 +99,12 @@ impl<'a, T> Iterator for BufferedIter<'a, T> {
             None
         }
     }
+
+    #[inline]
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        let len = self.len();
+        (len, Some(len))
+    }
 }
 
 impl<'a, T> ExactSizeIterator for BufferedIter<'a, T> {
-- 
2.43.0


From 9292f230a3fcd5a536d89416b3044a51bd04b677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:57 +0000
Subject: [PATCH 14/16] fix: get and store of the low level traits are unsafe

Safe code could move the same element of a consumed vector or array out twice,
by AtomicIter::get or by rewinding the counter through counter().store: two
owners of one element.
---
 src/iter/atomic_counter.rs     |  7 ++++++-
 src/iter/atomic_iter.rs        | 10 ++++++++--
 src/iter/cloned.rs             |  2 +-
 src/iter/copied.rs             |  2 +-
 src/iter/implementors/array.rs |  2 +-
 src/iter/implementors/iter.rs  |  5 +++--
 src/iter/implementors/range.rs |  5 +++--
 src/iter/implementors/slice.rs |  5 +++--
 src/iter/implementors/vec.rs   |  2 +-
 9 files changed, 27 insertions(+), 13 deletions(-)

diff --git a/src/iter/atomic_counter.rs b/src/iter/atomic_counter.rs
index 758352c..72c2df6 100644
--- a/src/iter/atomic_counter.rs
+++ b/src/iter/atomic_counter.rs
@@ -48,8 +48,13 @@ impl AtomicCounter {
     }
 
     /// Updates the value of the current value of the counter as the given `new_value`.
+    ///
+    /// # Safety
+    ///
+    /// The counter of a concurrent iterator must not be moved back to a position which is already reserved.
+    /// Otherwise, elements which are already delivered would be delivered again.
     #[inline(always)]
-    pub fn store(&self, new_value: usize) {
+    pub unsafe fn store(&self, new_value: usize) {
         self.current.store(new_value, Ordering::SeqCst)
     }
 }
diff --git a/src/iter/atomic_iter.rs b/src/iter/atomic_iter.rs
index 8ddef85..7c44ffc 100644
--- a/src/iter/atomic_iter.rs
+++ b/src/iter/atomic_iter.rs
@@ -15,13 +15,19 @@ pub trait AtomicIter<T: Send + Sync>: Send + Sync {
     fn progress_and_get_begin_idx(&self, number_to_fetch: usize) -> Option<usize>;
 
     /// Returns the `item_idx`-th item that the iterator yields; returns None if the iterator completes before.
-    fn get(&self, item_idx: usize) -> Option<T>;
+    ///
+    /// # Safety
+    ///
+    /// The caller must have reserved the `item_idx`-th position by progressing the counter, and must not have got the item before.
+    /// Consuming iterators move the item out; getting the same item twice would lead to two owners of the item.
+    unsafe fn get(&self, item_idx: usize) -> Option<T>;
 
     /// Returns the next item that the iterator yields; returns None if the iteration has completed.
     #[inline(always)]
     fn fetch_one(&self) -> Option<Next<T>> {
         let idx = self.counter().fetch_and_increment();
-        self.get(idx).map(|value| Next { idx, value })
+        // SAFETY: position idx is reserved by this call and used only once
+        unsafe { self.get(idx) }.map(|value| Next { idx, value })
     }
 
     /// Returns an iterator of the next `n` **consecutive items** that the iterator yields.
diff --git a/src/iter/cloned.rs b/src/iter/cloned.rs
index 4977889..73195c8 100644
--- a/src/iter/cloned.rs
+++ b/src/iter/cloned.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).cloned()
     }
 
diff --git a/src/iter/copied.rs b/src/iter/copied.rs
index 35f7841..95d0db5 100644
--- a/src/iter/copied.rs
+++ b/src/iter/copied.rs
@@ -53,7 +53,7 @@ where
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         self.iter.get(item_idx).copied()
     }
 
diff --git a/src/iter/implementors/array.rs b/src/iter/implementors/array.rs
index 5ac710e..11a82d4 100644
--- a/src/iter/implementors/array.rs
+++ b/src/iter/implementors/array.rs
@@ -80,7 +80,7 @@ impl<const N: usize, T: Send + Sync> AtomicIter<T> for ConIterOfArray<N, T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&N) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
diff --git a/src/iter/implementors/iter.rs b/src/iter/implementors/iter.rs
index 07eba5c..d19acc0 100644
--- a/src/iter/implementors/iter.rs
+++ b/src/iter/implementors/iter.rs
@@ -134,7 +134,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         loop {
             let yielded_count = self.yielded_counter.current();
             match item_idx.cmp(&yielded_count) {
@@ -207,7 +207,8 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(usize::MAX);
+        // SAFETY: no position is reserved again since the counter saturates at usize::MAX
+        unsafe { self.counter().store(usize::MAX) };
         self.completed.store(true, atomic::Ordering::SeqCst);
     }
 }
diff --git a/src/iter/implementors/range.rs b/src/iter/implementors/range.rs
index c1d63e2..cd72f6c 100644
--- a/src/iter/implementors/range.rs
+++ b/src/iter/implementors/range.rs
@@ -104,7 +104,7 @@ where
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<Idx> {
+    unsafe fn get(&self, item_idx: usize) -> Option<Idx> {
         match item_idx.cmp(&self.initial_len()) {
             Ordering::Less => Some(self.range.start + item_idx.into()),
             _ => None,
@@ -129,7 +129,8 @@ where
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.range.end.into())
+        // SAFETY: none of the delivered positions is at or after the end of the range
+        unsafe { self.counter().store(self.range.end.into()) }
     }
 }
 
diff --git a/src/iter/implementors/slice.rs b/src/iter/implementors/slice.rs
index 039b02c..0e03a10 100644
--- a/src/iter/implementors/slice.rs
+++ b/src/iter/implementors/slice.rs
@@ -65,7 +65,7 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     #[inline(always)]
-    fn get(&self, item_idx: usize) -> Option<&'a T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<&'a T> {
         self.slice.get(item_idx)
     }
 
@@ -89,7 +89,8 @@ impl<'a, T: Send + Sync> AtomicIter<&'a T> for ConIterOfSlice<'a, T> {
     }
 
     fn early_exit(&self) {
-        self.counter().store(self.slice.len())
+        // SAFETY: none of the delivered positions is at or after the end of the slice
+        unsafe { self.counter().store(self.slice.len()) }
     }
 }
 
diff --git a/src/iter/implementors/vec.rs b/src/iter/implementors/vec.rs
index d6fbf40..678653e 100644
--- a/src/iter/implementors/vec.rs
+++ b/src/iter/implementors/vec.rs
@@ -107,7 +107,7 @@ impl<T: Send + Sync> AtomicIter<T> for ConIterOfVec<T> {
         }
     }
 
-    fn get(&self, item_idx: usize) -> Option<T> {
+    unsafe fn get(&self, item_idx: usize) -> Option<T> {
         match item_idx.cmp(&self.vec_len) {
             // SAFETY: only one thread can access the `item_idx`-th position and `item_idx` is in bounds
             Ordering::Less => Some(unsafe { self.take_one(item_idx) }),
-- 
2.43.0


From 19f51041264c0780a42c64eb556299cedd0b7cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:53 +0000
Subject: [PATCH 15/16] hook: guarded std facade for verification builds

---
 src/lib.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 32238c4..5bd1d70 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -342,6 +342,14 @@
     clippy::missing_panics_doc,
     clippy::todo
 )]
+#![allow(unexpected_cfgs)]
+
+// Verification builds (`--cfg orx_concurrent_iter_verif`) replace the standard library paths of
+// this crate by a facade which reports atomic operations to a scheduler; off by default.
+#[cfg(orx_concurrent_iter_verif)]
+extern crate orx_verif_std as std;
+#[cfg(orx_concurrent_iter_verif)]
+extern crate orx_verif_std as core;
 
 mod has_more;
 /// Module defining concurrent iterator traits and implementations.
-- 
2.43.0


From 107ba35e76f577d3c0e8ab7478a74cece420e20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:18 +0000
Subject: [PATCH 16/16] fix: buffered chunks of a wrapped iterator do not
 preallocate huge buffers

---
 src/iter/buffered/iter.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/iter/buffered/iter.rs b/src/iter/buffered/iter.rs
index 97648c0..abeef0e 100644
--- a/src/iter/buffered/iter.rs
+++ b/src/iter/buffered/iter.rs
@@ -8,6 +8,7 @@ where
     T: Send + Sync,
     Iter: Iterator<Item = T>,
 {
+    chunk_size: usize,
     values: Vec<Option<T>>,
     phantom: PhantomData<Iter>,
 }
@@ -21,13 +22,15 @@ where
 
     fn new(chunk_size: usize) -> Self {
         Self {
-            values: (0..chunk_size).map(|_| None).collect(),
+            chunk_size,
+            // grows with the elements which are actually pulled; chunk_size might be arbitrarily large
+            values: Vec::new(),
             phantom: PhantomData,
         }
     }
 
     fn chunk_size(&self) -> usize {
-        self.values.len()
+        self.chunk_size
     }
 
     fn pull(
@@ -41,7 +44,10 @@ where
         let mut i = 0;
         loop {
             match core_iter.next() {
-                Some(x) => self.values[i] = Some(x),
+                Some(x) => match self.values.get_mut(i) {
+                    Some(value) => *value = Some(x),
+                    None => self.values.push(Some(x)),
+                },
                 None => break,
             }
 
-- 
2.43.0

