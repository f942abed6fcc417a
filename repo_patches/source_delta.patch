From 0a366b9df12c6de2952744a7769a9012449c070d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 01/17] fix: Chunk: no double drop when an element's destructor
 panics in clear/drop_left/drop_right

---
 src/sized_chunk/mod.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index c269655..4061288 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -406,8 +406,11 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_left(&mut self, index: usize) {
         if index > 0 {
-            unsafe { ptr::drop_in_place(&mut self[..index]) }
+            // Give up ownership first: if a destructor panics, the discarded
+            // items must not be reachable (and dropped) again.
+            let items: *mut [A] = &mut self[..index];
             self.left += index;
+            unsafe { ptr::drop_in_place(items) }
         }
     }
 
@@ -418,8 +421,11 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items dropped
     pub fn drop_right(&mut self, index: usize) {
         if index != self.len() {
-            unsafe { ptr::drop_in_place(&mut self[index..]) }
+            // Give up ownership first: if a destructor panics, the discarded
+            // items must not be reachable (and dropped) again.
+            let items: *mut [A] = &mut self[index..];
             self.right = self.left + index;
+            unsafe { ptr::drop_in_place(items) }
         }
     }
 
@@ -673,9 +679,12 @@ impl<A, const N: usize> Chunk<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        unsafe { ptr::drop_in_place(self.as_mut_slice()) }
+        // Give up ownership first: if a destructor panics, the discarded items
+        // must not be reachable (and dropped) again.
+        let items: *mut [A] = self.as_mut_slice();
         self.left = 0;
         self.right = 0;
+        unsafe { ptr::drop_in_place(items) }
     }
 
     /// Get a reference to the contents of the chunk as a slice.
-- 
2.43.0


From 940b678b2c4c599afc715ce7d150c28364bbd5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 02/17] fix: RingBuffer: no double drop when an element's
 destructor panics in clear/drop_left/drop_right

---
 src/ring_buffer/mod.rs | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index a6f2071..481c705 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -467,11 +467,14 @@ impl<A, const N: usize> RingBuffer<A, N> {
             if index > self.len() {
                 panic!("RingBuffer::drop_left: index out of bounds");
             }
-            for i in self.range().take(index) {
-                unsafe { self.force_drop(i) }
-            }
+            // Give up ownership first: if a destructor panics, the discarded
+            // items must not be reachable (and dropped) again.
+            let items = self.range().take(index);
             self.origin += index;
             self.length -= index;
+            for i in items {
+                unsafe { self.force_drop(i) }
+            }
         }
     }
 
@@ -487,10 +490,13 @@ impl<A, const N: usize> RingBuffer<A, N> {
         if index == self.len() {
             return;
         }
-        for i in self.range().skip(index) {
+        // Give up ownership first: if a destructor panics, the discarded items
+        // must not be reachable (and dropped) again.
+        let items = self.range().skip(index);
+        self.length = index;
+        for i in items {
             unsafe { self.force_drop(i) }
         }
-        self.length = index;
     }
 
     /// Split a buffer into two, the original buffer containing
@@ -750,11 +756,14 @@ impl<A, const N: usize> RingBuffer<A, N> {
     ///
     /// Time: O(n)
     pub fn clear(&mut self) {
-        for i in self.range() {
-            unsafe { self.force_drop(i) };
-        }
+        // Give up ownership first: if a destructor panics, the discarded items
+        // must not be reachable (and dropped) again.
+        let items = self.range();
         self.origin = 0.into();
         self.length = 0;
+        for i in items {
+            unsafe { self.force_drop(i) };
+        }
     }
 }
 
-- 
2.43.0


From 813c1587c740150b8b0eebb6ece2b344decc2e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 03/17] fix: InlineArray: no double drop when an element's
 destructor panics in clear

---
 src/inline_array/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 4fea8f1..e92eeae 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -395,8 +395,11 @@ impl<A, T> InlineArray<A, T> {
     /// Time: O(n)
     pub fn clear(&mut self) {
         unsafe {
-            self.drop_contents();
+            // Give up ownership first: if a destructor panics, the discarded
+            // items must not be reachable (and dropped) again.
+            let items: *mut [A] = &mut **self;
             *self.len_mut() = 0;
+            ptr::drop_in_place(items);
         }
     }
 
-- 
2.43.0


From c2401cd4bd2027825d75b71b0e48330dd6ca088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 04/17] fix: Chunk::insert_from: ask the iterator for its
 length only once

The hole is made for the first answer; a second, different answer wrote
outside it (and outside the chunk), or exposed uninitialised slots.
---
 src/sized_chunk/mod.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 4061288..075c47f 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -271,7 +271,7 @@ impl<A, const N: usize> Chunk<A, N> {
         }
     }
 
-    /// Write values from iterator into range starting at write_index.
+    /// Write `len` values from iterator into range starting at write_index.
     ///
     /// Will overwrite values at the relevant range without dropping even in case the values were
     /// already initialized (it is expected they are empty). Does not update the left or right
@@ -286,7 +286,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// If the iterator panics, the chunk becomes conceptually empty and will leak any previous
     /// elements (even the ones outside the range).
     #[inline]
-    unsafe fn write_from_iter<I>(mut write_index: usize, iter: I, chunk: &mut Self)
+    unsafe fn write_from_iter<I>(mut write_index: usize, len: usize, iter: I, chunk: &mut Self)
     where
         I: ExactSizeIterator<Item = A>,
     {
@@ -299,7 +299,6 @@ impl<A, const N: usize> Chunk<A, N> {
         // Should we worry about some better panic recovery than this?
         let left = replace(&mut chunk.left, 0);
         let right = replace(&mut chunk.right, 0);
-        let len = iter.len();
         let expected_end = write_index + len;
         for value in iter.take(len) {
             Chunk::force_write(write_index, value, chunk);
@@ -621,14 +620,14 @@ impl<A, const N: usize> Chunk<A, N> {
             unsafe {
                 Chunk::force_copy(self.left, self.left - insert_size, left_size, self);
                 let write_index = real_index - insert_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.left -= insert_size;
         } else if self.left == 0 || (self.right + insert_size <= Self::CAPACITY) {
             unsafe {
                 Chunk::force_copy(real_index, real_index + insert_size, right_size, self);
                 let write_index = real_index;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.right += insert_size;
         } else {
@@ -636,7 +635,7 @@ impl<A, const N: usize> Chunk<A, N> {
                 Chunk::force_copy(self.left, 0, left_size, self);
                 Chunk::force_copy(real_index, left_size + insert_size, right_size, self);
                 let write_index = left_size;
-                Chunk::write_from_iter(write_index, iter, self);
+                Chunk::write_from_iter(write_index, insert_size, iter, self);
             }
             self.right -= self.left;
             self.right += insert_size;
-- 
2.43.0


From 81284137bfb69aeed11f9c5b0e749060ab2d8b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 05/17] fix: Chunk::insert_from: an enormous reported length
 must not overflow the room check

---
 src/sized_chunk/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 075c47f..65108e7 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -604,7 +604,7 @@ impl<A, const N: usize> Chunk<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From 5be3330fc186668213ced671dc8af667b3f67351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 06/17] fix: RingBuffer::insert_from: an enormous reported
 length must not overflow the room check

---
 src/ring_buffer/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 481c705..3abaff1 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -658,7 +658,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
     {
         let iter = iter.into_iter();
         let insert_size = iter.len();
-        if self.len() + insert_size > Self::CAPACITY {
+        if insert_size > Self::CAPACITY - self.len() {
             panic!(
                 "Chunk::insert_from: chunk cannot fit {} elements",
                 insert_size
-- 
2.43.0


From 67ef83c79442da6cc314fb125409abc8a7797e1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 07/17] fix: Chunk::from_front/from_back: check the count in
 optimised builds too

Both are safe functions and moved uninitialised or foreign memory when
asked for more items than the source holds.
---
 src/sized_chunk/mod.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index 65108e7..b5e8a84 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -199,7 +199,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_front(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.left, 0, count, other, &mut chunk) };
         chunk.right = count;
@@ -213,7 +213,7 @@ impl<A, const N: usize> Chunk<A, N> {
     /// Time: O(n) for the number of items moved
     pub fn from_back(other: &mut Self, count: usize) -> Self {
         let other_len = other.len();
-        debug_assert!(count <= other_len);
+        assert!(count <= other_len);
         let mut chunk = Self::new();
         unsafe { Chunk::force_copy_to(other.right - count, 0, count, other, &mut chunk) };
         chunk.right = count;
-- 
2.43.0


From 0910fd89715613a1efffb4d3e35f95b67b74e9f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 08/17] fix: ring_buffer::Slice/SliceMut: indexing must not
 reach past the end of the slice

---
 src/ring_buffer/slice.rs | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index a54bb7a..d2dcc52 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -164,6 +164,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for Slice<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -442,6 +449,13 @@ impl<'a, A: 'a, const N: usize> Index<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index(&self, index: usize) -> &Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index(self.range.start + index)
     }
 }
@@ -450,6 +464,13 @@ impl<'a, A: 'a, const N: usize> IndexMut<usize> for SliceMut<'a, A, N> {
     #[inline]
     #[must_use]
     fn index_mut(&mut self, index: usize) -> &mut Self::Output {
+        if index >= self.len() {
+            panic!(
+                "Slice::index_mut: index out of bounds {} >= {}",
+                index,
+                self.len()
+            );
+        }
         self.buffer.index_mut(self.range.start + index)
     }
 }
-- 
2.43.0


From dfb79a73a62272b23c9b6a69473591281d54273c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 09/17] fix: RingBuffer: io::Write must not fail a debug
 assertion when the write wraps

---
 src/ring_buffer/mod.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 3abaff1..1d0ac13 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -189,7 +189,6 @@ impl<A, const N: usize> RingBuffer<A, N> {
     #[allow(dead_code)]
     unsafe fn copy_from_slice(&mut self, source: &[A], to: RawIndex<N>) {
         let count = source.len();
-        debug_assert!(to.to_usize() + count <= Self::CAPACITY);
         if to.to_usize() + count > Self::CAPACITY {
             let first_length = Self::CAPACITY - to.to_usize();
             let first_slice = &source[..first_length];
-- 
2.43.0


From 285829b4af17ec3d80b988037213eefe49b7b4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 10/17] fix: InlineArray::clone: do not leak the clones already
 made when a later clone panics

---
 src/inline_array/mod.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index e92eeae..8d469a5 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -433,11 +433,10 @@ where
         for i in 0..self.len() {
             unsafe {
                 copy.write_at(i, self.get_unchecked(i).clone());
+                // Panic safety: own each clone as soon as it is made.
+                *copy.len_mut() = i + 1;
             }
         }
-        unsafe {
-            *copy.len_mut() = self.len();
-        }
         copy
     }
 }
-- 
2.43.0


From 38f3bdbd872fd1b4b6b47ae616ac6c8d56d6bab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 11/17] fix: RingBuffer: a zero capacity buffer must not panic
 or loop forever

---
 src/ring_buffer/index.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/index.rs b/src/ring_buffer/index.rs
index 2190aae..e88db19 100644
--- a/src/ring_buffer/index.rs
+++ b/src/ring_buffer/index.rs
@@ -46,7 +46,7 @@ impl<const N: usize> From<usize> for RawIndex<N> {
     #[inline]
     #[must_use]
     fn from(index: usize) -> Self {
-        debug_assert!(index < N);
+        debug_assert!(index < N || (N == 0 && index == 0));
         RawIndex(index)
     }
 }
@@ -76,7 +76,7 @@ impl<const N: usize> Add<usize> for RawIndex<N> {
     #[must_use]
     fn add(self, other: usize) -> Self::Output {
         let mut result = self.0 + other;
-        while result >= N {
+        while result >= N && N > 0 {
             result -= N;
         }
         result.into()
@@ -87,7 +87,7 @@ impl<const N: usize> AddAssign<usize> for RawIndex<N> {
     #[inline]
     fn add_assign(&mut self, other: usize) {
         self.0 += other;
-        while self.0 >= N {
+        while self.0 >= N && N > 0 {
             self.0 -= N;
         }
     }
-- 
2.43.0


From 750250116621d550436b3a6d3a0b255c8ef2beeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:25 +0000
Subject: [PATCH 12/17] fix: RingBuffer ranges: an enormous inclusive end must
 be refused, not wrap around to an empty range

---
 src/ring_buffer/mod.rs   |  2 +-
 src/ring_buffer/slice.rs | 16 ++++++++++------
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 1d0ac13..0908812 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -350,7 +350,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
-                Bound::Included(index) => *index + 1,
+                Bound::Included(index) => index.saturating_add(1),
                 Bound::Excluded(index) => *index,
             },
         };
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index d2dcc52..19d1059 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -76,13 +76,15 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
@@ -364,13 +366,15 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
         let new_range = Range {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
-                Bound::Included(index) => self.range.start + index,
+                Bound::Included(index) => self.range.start.saturating_add(*index),
                 Bound::Excluded(_) => unimplemented!(),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-                Bound::Included(index) => self.range.start + index + 1,
-                Bound::Excluded(index) => self.range.start + index,
+                Bound::Included(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
+                Bound::Excluded(index) => self.range.start.saturating_add(*index),
             },
         };
         if new_range.start < self.range.start
-- 
2.43.0


From 5ab7d3fed6f356f233777eab6e67ac68d9270c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:28 +0000
Subject: [PATCH 13/17] fix: RingBuffer/SliceMut: sorting must not fail on
 empty buffers or equal elements

ArrayMut's default quicksort indexes out of bounds in both cases.
---
 src/ring_buffer/mod.rs   | 45 ++++++++++++++++++++++++++++++++++++++++
 src/ring_buffer/slice.rs |  8 +++++++
 2 files changed, 53 insertions(+)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 0908812..58d09d6 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -105,6 +105,51 @@ impl<A, const N: usize> ArrayMut for RingBuffer<A, N> {
             Some(unsafe { self.get_unchecked_mut(index) })
         }
     }
+
+    /// Sort the elements of the ring buffer using a comparator function.
+    fn sort_unstable_by<F>(&mut self, compare: F)
+    where
+        F: FnMut(&A, &A) -> Ordering,
+    {
+        heapsort(self, compare)
+    }
+}
+
+/// Sort an array in place.
+///
+/// The quicksort `ArrayMut` provides by default fails on empty arrays, and on
+/// arrays containing elements that compare equal.
+fn heapsort<Arr, A, F>(array: &mut Arr, mut compare: F)
+where
+    Arr: ArrayMut + Index<usize, Output = A>,
+    F: FnMut(&A, &A) -> Ordering,
+{
+    let length = array.len();
+    // First make the array a heap, then move its largest element to the end
+    // until there's nothing left of the heap.
+    for step in (1..length + length / 2).rev() {
+        let (mut root, end) = if step >= length {
+            (step - length, length)
+        } else {
+            array.swap(0, step);
+            (0, step)
+        };
+        // Sift down the element at `root`.
+        loop {
+            let mut child = 2 * root + 1;
+            if child >= end {
+                break;
+            }
+            if child + 1 < end && compare(&array[child], &array[child + 1]) == Ordering::Less {
+                child += 1;
+            }
+            if compare(&array[root], &array[child]) != Ordering::Less {
+                break;
+            }
+            array.swap(root, child);
+            root = child;
+        }
+    }
 }
 
 impl<A, const N: usize> RingBuffer<A, N> {
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 19d1059..63c843e 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -299,6 +299,14 @@ impl<'a, A: 'a, const N: usize> ArrayMut for SliceMut<'a, A, N> {
             Some(unsafe { self.get_unchecked_mut(index) })
         }
     }
+
+    /// Sort the elements of the slice using a comparator function.
+    fn sort_unstable_by<F>(&mut self, compare: F)
+    where
+        F: FnMut(&A, &A) -> Ordering,
+    {
+        super::heapsort(self, compare)
+    }
 }
 
 impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
-- 
2.43.0


From 2232ea4e1ab5742303e5cffbbdcd6607980b2e45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:58 +0000
Subject: [PATCH 14/17] fix: Chunk/InlineArray: hash like the slice they can be
 borrowed as, so that maps keyed by them can be searched by slice

---
 src/inline_array/mod.rs | 5 ++---
 src/sized_chunk/mod.rs  | 5 ++---
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index 8d469a5..a2a4402 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -525,9 +525,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Must agree with the hash of the slice we can be borrowed as.
+        self.deref().hash(hasher)
     }
 }
 
diff --git a/src/sized_chunk/mod.rs b/src/sized_chunk/mod.rs
index b5e8a84..b7ade7a 100644
--- a/src/sized_chunk/mod.rs
+++ b/src/sized_chunk/mod.rs
@@ -750,9 +750,8 @@ where
     where
         H: Hasher,
     {
-        for item in self {
-            item.hash(hasher)
-        }
+        // Must agree with the hash of the slice we can be borrowed as.
+        self.as_slice().hash(hasher)
     }
 }
 
-- 
2.43.0


From 0ecac63654a7abc3bc7787ba39a78b8820e76b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:00 +0000
Subject: [PATCH 15/17] fix: Arbitrary: the size hint of a container must allow
 for the byte in front of each element and not overflow

---
 src/arbitrary.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/arbitrary.rs b/src/arbitrary.rs
index f82b7a8..1798d33 100644
--- a/src/arbitrary.rs
+++ b/src/arbitrary.rs
@@ -11,6 +11,13 @@ use crate::{Chunk, InlineArray, SparseChunk};
 #[cfg(feature = "ringbuffer")]
 use crate::RingBuffer;
 
+/// Size hint for up to `capacity` elements: each of them takes one more byte, which tells that
+/// there is another element.
+fn elements_hint(element: (usize, Option<usize>), capacity: usize) -> (usize, Option<usize>) {
+    let upper = element.1.and_then(|upper| upper.checked_add(1));
+    (0, upper.and_then(|upper| upper.checked_mul(capacity)))
+}
+
 impl<'a, A, const N: usize> Arbitrary<'a> for Chunk<A, N>
 where
     A: Arbitrary<'a>,
@@ -26,8 +33,7 @@ where
 
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
-            let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            elements_hint(A::size_hint(depth), Self::CAPACITY)
         })
     }
 }
@@ -48,8 +54,7 @@ where
 
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
-            let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            elements_hint(A::size_hint(depth), Self::CAPACITY)
         })
     }
 }
@@ -70,8 +75,7 @@ where
 
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
-            let (_, upper) = Option::<A>::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            elements_hint(Option::<A>::size_hint(depth), Self::CAPACITY)
         })
     }
 }
@@ -91,8 +95,7 @@ where
 
     fn size_hint(depth: usize) -> (usize, Option<usize>) {
         size_hint::recursion_guard(depth, |depth| {
-            let (_, upper) = A::size_hint(depth);
-            (0, upper.map(|upper| upper * Self::CAPACITY))
+            elements_hint(A::size_hint(depth), Self::CAPACITY)
         })
     }
 }
-- 
2.43.0


From 52905f3aecd33138db9e1da8607495d916a95be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:26:29 +0000
Subject: [PATCH 16/17] fix: RingBuffer ranges: an excluded start bound must be
 accepted, not panic as unimplemented

---
 src/ring_buffer/mod.rs   | 2 +-
 src/ring_buffer/slice.rs | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/ring_buffer/mod.rs b/src/ring_buffer/mod.rs
index 58d09d6..f6cfa02 100644
--- a/src/ring_buffer/mod.rs
+++ b/src/ring_buffer/mod.rs
@@ -391,7 +391,7 @@ impl<A, const N: usize> RingBuffer<A, N> {
             start: match range.start_bound() {
                 Bound::Unbounded => 0,
                 Bound::Included(index) => *index,
-                Bound::Excluded(_) => unimplemented!(),
+                Bound::Excluded(index) => index.saturating_add(1),
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.len(),
diff --git a/src/ring_buffer/slice.rs b/src/ring_buffer/slice.rs
index 63c843e..9be57c4 100644
--- a/src/ring_buffer/slice.rs
+++ b/src/ring_buffer/slice.rs
@@ -77,7 +77,9 @@ impl<'a, A: 'a, const N: usize> Slice<'a, A, N> {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
                 Bound::Included(index) => self.range.start.saturating_add(*index),
-                Bound::Excluded(_) => unimplemented!(),
+                Bound::Excluded(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
@@ -375,7 +377,9 @@ impl<'a, A: 'a, const N: usize> SliceMut<'a, A, N> {
             start: match range.start_bound() {
                 Bound::Unbounded => self.range.start,
                 Bound::Included(index) => self.range.start.saturating_add(*index),
-                Bound::Excluded(_) => unimplemented!(),
+                Bound::Excluded(index) => {
+                    self.range.start.saturating_add(*index).saturating_add(1)
+                }
             },
             end: match range.end_bound() {
                 Bound::Unbounded => self.range.end,
-- 
2.43.0


From 9161d74b03961b75c6503e536c381053198a9cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:10 +0000
Subject: [PATCH 17/17] fix: an inline array in a host of one machine word has
 no capacity but is not an error

---
 src/inline_array/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/inline_array/mod.rs b/src/inline_array/mod.rs
index a2a4402..21aba7d 100644
--- a/src/inline_array/mod.rs
+++ b/src/inline_array/mod.rs
@@ -258,7 +258,7 @@ impl<A, T> InlineArray<A, T> {
     #[inline]
     #[must_use]
     pub fn new() -> Self {
-        assert!(Self::HOST_SIZE > Self::HEADER_SIZE);
+        assert!(Self::HOST_SIZE >= Self::HEADER_SIZE);
         assert!(
             (Self::CAPACITY == 0) || (mem::align_of::<Self>() % mem::align_of::<A>() == 0),
             "InlineArray can't satisfy alignment of {}",
-- 
2.43.0

