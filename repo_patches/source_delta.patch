From 9bf1d85940d8cec799b8e12394a99740e4889dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 1/6] fix: derive block offset pointers from the whole offset
 buffer

The pointers into the offset buffers were created from the first element
only and then advanced over the whole buffer, which is out of the borrow's
provenance. The Miri-only branch working around it does not compile anymore
since the unstable helper it used has been removed.
---
 src/lib.rs           |  1 -
 src/par/partition.rs | 18 ++----------------
 src/partition.rs     | 18 ++----------------
 3 files changed, 4 insertions(+), 33 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index b5ba6de..92ab8f4 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -76,7 +76,6 @@
 )]
 #![cfg_attr(not(feature = "std"), no_std)]
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
-#![cfg_attr(miri, feature(maybe_uninit_slice))]
 
 #[inline(always)]
 fn maybe_grow<R, F: FnOnce() -> R>(callback: F) -> R {
diff --git a/src/par/partition.rs b/src/par/partition.rs
index 5309cce..9dde185 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -588,14 +588,7 @@ where
 
 		if start_l == end_l {
 			// Trace `block_l` elements from the left side.
-			#[cfg(miri)]
-			{
-				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
-			}
-			#[cfg(not(miri))]
-			{
-				start_l = offsets_l[0].as_mut_ptr();
-			}
+			start_l = offsets_l.as_mut_ptr().cast();
 			end_l = start_l;
 			let mut elem = l;
 
@@ -621,14 +614,7 @@ where
 
 		if start_r == end_r {
 			// Trace `block_r` elements from the right side.
-			#[cfg(miri)]
-			{
-				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
-			}
-			#[cfg(not(miri))]
-			{
-				start_r = offsets_r[0].as_mut_ptr();
-			}
+			start_r = offsets_r.as_mut_ptr().cast();
 			end_r = start_r;
 			let mut elem = r;
 
diff --git a/src/partition.rs b/src/partition.rs
index 5b9a689..3093972 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -562,14 +562,7 @@ where
 
 		if start_l == end_l {
 			// Trace `block_l` elements from the left side.
-			#[cfg(miri)]
-			{
-				start_l = MaybeUninit::slice_as_mut_ptr(&mut offsets_l);
-			}
-			#[cfg(not(miri))]
-			{
-				start_l = offsets_l[0].as_mut_ptr();
-			}
+			start_l = offsets_l.as_mut_ptr().cast();
 			end_l = start_l;
 			let mut elem = l;
 
@@ -595,14 +588,7 @@ where
 
 		if start_r == end_r {
 			// Trace `block_r` elements from the right side.
-			#[cfg(miri)]
-			{
-				start_r = MaybeUninit::slice_as_mut_ptr(&mut offsets_r);
-			}
-			#[cfg(not(miri))]
-			{
-				start_r = offsets_r[0].as_mut_ptr();
-			}
+			start_r = offsets_r.as_mut_ptr().cast();
 			end_r = start_r;
 			let mut elem = r;
 
-- 
2.43.0


From 047a71d3c0fc59f451e080f60a6201faa483527e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 2/6] fix: accept an empty slice of ninther medians in debug
 builds

Selecting the median of eleven elements with the deterministic fallback
recurses with an empty slice, which failed a debug assertion and panicked
although the selection handles it.
---
 src/par/partition.rs | 5 +++--
 src/partition.rs     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 9dde185..2d45bd5 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -224,8 +224,9 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 	is_less: &F,
 	mut k: usize,
 ) {
-	// Since this function isn't public, it should never be called with an out-of-bounds index.
-	debug_assert!(k < v.len());
+	// Since this function isn't public, it should never be called with an out-of-bounds index. The
+	// slice of ninther medians is empty though, if there are too few elements for a single ninther.
+	debug_assert!(k < v.len() || v.is_empty());
 
 	// If T is as ZST, `partition_at_index` will already return early.
 	debug_assert!(mem::size_of::<T>() != 0);
diff --git a/src/partition.rs b/src/partition.rs
index 3093972..c644a88 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -185,8 +185,9 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 	is_less: &mut F,
 	mut k: usize,
 ) {
-	// Since this function isn't public, it should never be called with an out-of-bounds index.
-	debug_assert!(k < v.len());
+	// Since this function isn't public, it should never be called with an out-of-bounds index. The
+	// slice of ninther medians is empty though, if there are too few elements for a single ninther.
+	debug_assert!(k < v.len() || v.is_empty());
 
 	// If T is as ZST, `partition_at_index` will already return early.
 	debug_assert!(mem::size_of::<T>() != 0);
-- 
2.43.0


From d003974e5a67ba4e9a6af27975d89d71e2621b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:37 +0000
Subject: [PATCH 3/6] fix: limit bad pivot choices when parallel unstable sort
 forks

---
 src/par/quick_sort.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/par/quick_sort.rs b/src/par/quick_sort.rs
index 7f897a5..46606b7 100644
--- a/src/par/quick_sort.rs
+++ b/src/par/quick_sort.rs
@@ -115,8 +115,8 @@ fn recurse<'a, T, F>(
 		was_partitioned = was_p;
 
 		// Split the slice into `left`, `pivot`, and `right`.
-		let (left, right) = v.split_at(Axis(0), mid);
-		let (pivot, right) = right.split_at(Axis(0), 1);
+		let (mut left, right) = v.split_at(Axis(0), mid);
+		let (pivot, mut right) = right.split_at(Axis(0), 1);
 		let pivot = pivot.index(0);
 
 		if cmp::max(left.len(), right.len()) <= MAX_SEQUENTIAL {
@@ -132,6 +132,17 @@ fn recurse<'a, T, F>(
 				v = left;
 			}
 		} else {
+			// Both calls below start out assuming balance. Account for an imbalanced partition here as
+			// the sequential loop would, otherwise bad pivot choices are never limited on long slices.
+			if !was_balanced {
+				if left.len() < right.len() {
+					break_patterns(right.view_mut());
+				} else {
+					break_patterns(left.view_mut());
+				}
+				limit -= 1;
+			}
+
 			// Sort the left and right half in parallel.
 			rayon::join(
 				|| maybe_grow(|| recurse(left, is_less, pred, limit)),
-- 
2.43.0


From 9fe856722885e4a2a2e11a936092838734722559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:12 +0000
Subject: [PATCH 4/6] fix: sort cached keys in parallel with the bounded sort
 of this crate

---
 src/lib.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 92ab8f4..2eff828 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -1754,10 +1754,7 @@ where
 		S: DataMut,
 	{
 		use core::mem;
-		use rayon::{
-			iter::{ParallelBridge, ParallelIterator},
-			slice::ParallelSliceMut,
-		};
+		use rayon::iter::{ParallelBridge, ParallelIterator};
 
 		//let slice = self.as_parallel_slice_mut();
 		let len = self.len();
@@ -1776,8 +1773,9 @@ where
 					.collect();
 				// The elements of `indices` are unique, as they are indexed, so any sort will be
 				// stable with respect to the original slice. We use `sort_unstable` here because
-				// it requires less memory allocation.
-				indices.par_sort_unstable();
+				// it requires less memory allocation. The one of this crate guarantees the documented
+				// worst case also for long arrays.
+				par_quick_sort(ArrayViewMut1::from(indices.as_mut_slice()), |a, b| a.lt(b));
 				for i in 0..len {
 					let mut index = indices[i].1;
 					while (index as usize) < i {
-- 
2.43.0


From c5ec2b3c5d8bb0c6330066e6b0c61586c11e02ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:53 +0000
Subject: [PATCH 5/6] fix: skip ties at once in the deterministic selection
 fallback

---
 src/par/partition.rs | 14 ++++++++++++++
 src/partition.rs     | 14 ++++++++++++++
 2 files changed, 28 insertions(+)

diff --git a/src/par/partition.rs b/src/par/partition.rs
index 2d45bd5..5ca5146 100644
--- a/src/par/partition.rs
+++ b/src/par/partition.rs
@@ -264,6 +264,20 @@ fn median_of_medians<T, F: Fn(&T, &T) -> bool>(
 				let (left, _right) = v.split_at(Axis(0), p);
 				v = left;
 			}
+			Less if p == 0 => {
+				// No element is less than the pivot. Skip all elements equal to it at once, otherwise
+				// many of them would take O(n^2) time.
+				let mid = partition_equal(v.view_mut(), p, is_less);
+
+				// If we've passed our index, then we're good.
+				if mid > k {
+					return;
+				}
+
+				let (_left, right) = v.split_at(Axis(0), mid);
+				v = right;
+				k -= mid;
+			}
 			Less => {
 				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
 				// a valid index into the slice.
diff --git a/src/partition.rs b/src/partition.rs
index c644a88..73982c0 100644
--- a/src/partition.rs
+++ b/src/partition.rs
@@ -225,6 +225,20 @@ fn median_of_medians<T, F: FnMut(&T, &T) -> bool>(
 				let (left, _right) = v.split_at(Axis(0), p);
 				v = left;
 			}
+			Less if p == 0 => {
+				// No element is less than the pivot. Skip all elements equal to it at once, otherwise
+				// many of them would take O(n^2) time.
+				let mid = partition_equal(v.view_mut(), p, is_less);
+
+				// If we've passed our index, then we're good.
+				if mid > k {
+					return;
+				}
+
+				let (_left, right) = v.split_at(Axis(0), mid);
+				v = right;
+				k -= mid;
+			}
 			Less => {
 				// Since `p < k < v.len()`, `p + 1` doesn't overflow and is
 				// a valid index into the slice.
-- 
2.43.0


From b72695cae3644d432b68141c28bee87faea0af95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:11:02 +0000
Subject: [PATCH 6/6] fix: deallocate run stack with its layout if growing it
 fails

Doubling the capacity before the allocation had dropping the run stack release the old
allocation with the layout of the failed one.
---
 src/merge_sort.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/merge_sort.rs b/src/merge_sort.rs
index 519ad7b..4e4c358 100644
--- a/src/merge_sort.rs
+++ b/src/merge_sort.rs
@@ -399,8 +399,10 @@ pub fn merge_sort<T, CmpF, ElemAllocF, ElemDeallocF, RunAllocF, RunDeallocF>(
 				let old_capacity = self.capacity;
 				let old_buf_ptr = self.buf_ptr.as_ptr();
 
-				self.capacity *= 2;
-				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(self.capacity)).unwrap();
+				// Set with `buf_ptr` only as the old one is deallocated by `drop` if this panics.
+				let capacity = old_capacity * 2;
+				self.buf_ptr = ptr::NonNull::new((self.run_alloc_fn)(capacity)).unwrap();
+				self.capacity = capacity;
 
 				// SAFETY: buf_ptr new and old were correctly allocated and old_buf_ptr has
 				// old_capacity valid elements.
-- 
2.43.0

