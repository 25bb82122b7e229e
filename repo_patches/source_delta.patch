From 2c59a0bde9243d061aaca5548f4677e2dc892fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 01/22] fix: write_array must not write past the end of the
 array

With more data than the array holds, the surplus items overwrote whatever
follows the array in the slab.
---
 crates/crabslab/src/slab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b31d1c1..b39fd76 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -96,7 +96,7 @@ pub trait Slab {
         if array.len() > data.len() {
             return;
         }
-        let _ = self.write_indexed_slice(data, array.starting_index());
+        let _ = self.write_indexed_slice(&data[..array.len()], array.starting_index());
     }
 }
 
-- 
2.43.0


From 13f68f3b061590dff419980a52d1625452f61e21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 02/22] fix: reserve_capacity on Vec<u32> must reserve the
 requested capacity

Vec::reserve counts from the length, not from the current capacity, so too
little was reserved; asking for less than the current capacity underflowed.
---
 crates/crabslab/src/slab.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab/src/slab.rs b/crates/crabslab/src/slab.rs
index b39fd76..7925afb 100644
--- a/crates/crabslab/src/slab.rs
+++ b/crates/crabslab/src/slab.rs
@@ -296,7 +296,7 @@ impl GrowableSlab for Vec<u32> {
     }
 
     fn reserve_capacity(&mut self, capacity: usize) {
-        Vec::reserve(self, capacity - self.capacity());
+        Vec::reserve(self, capacity.saturating_sub(self.len()));
     }
 
     fn increment_len(&mut self, n: usize) -> usize {
-- 
2.43.0


From b5bfe4465aa1833809685d0be479092414950673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 03/22] fix: sub_slab of an empty array is the empty slice

The null array starts at u32::MAX, so slicing the slab panicked.
---
 crates/crabslab/src/array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/crabslab/src/array.rs b/crates/crabslab/src/array.rs
index b2fdc8b..8ba63f7 100644
--- a/crates/crabslab/src/array.rs
+++ b/crates/crabslab/src/array.rs
@@ -177,6 +177,9 @@ impl<T> Array<T> {
     where
         T: SlabItem,
     {
+        if self.is_empty() {
+            return &[];
+        }
         let arr = self.into_u32_array();
         &slab[arr.index as usize..(arr.index + arr.len) as usize]
     }
-- 
2.43.0


From e60c072791235afb297ef225fc43fea985ab3cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 04/22] fix: removing zero elements from a RangeManager must
 not make up a range

Allocating a zero-sized item with a free range starting at 0 underflowed.
---
 crates/craballoc/src/range.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 0d83dfc..b5272eb 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -130,6 +130,9 @@ impl<R: IsRange> RangeManager<R> {
 impl RangeManager<Range> {
     /// Removes a range of `count` elements, if possible.
     pub fn remove(&mut self, count: u32) -> Option<Range> {
+        if count == 0 {
+            return None;
+        }
         let mut remove_index = usize::MAX;
         for (i, range) in self.ranges.iter_mut().enumerate() {
             // This is potentially a hot path, so use the `if` even
-- 
2.43.0


From 9ac860d03bbdda9455d08648f0eea20fef64f8d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 05/22] fix: a Range of one element is not empty

---
 crates/craballoc/src/range.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index b5272eb..9912c30 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -33,7 +33,7 @@ impl Range {
     }
 
     pub fn is_empty(&self) -> bool {
-        self.last_index == self.first_index
+        self.len() == 0
     }
 
     pub fn intersects(&self, other: &Range) -> bool {
-- 
2.43.0


From 1d71c0b4cb61cc362a1f7dbcd99746a0c0997918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 06/22] fix: add_range must merge with every range the merged
 range reaches

Otherwise two overlapping updates are kept and the older one can be written
over the newer one.
---
 crates/craballoc/src/range.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/range.rs b/crates/craballoc/src/range.rs
index 9912c30..190c69a 100644
--- a/crates/craballoc/src/range.rs
+++ b/crates/craballoc/src/range.rs
@@ -117,13 +117,19 @@ impl<R: IsRange> RangeManager<R> {
     }
 
     pub fn add_range(&mut self, input_range: R) {
-        for range in self.ranges.iter_mut() {
-            if range.should_merge_with(&input_range) {
-                range.union(input_range);
-                return;
-            }
+        let mut merged = input_range;
+        // Merging grows the range, after which it may need merging with ranges that were
+        // already passed over.
+        while let Some(i) = self
+            .ranges
+            .iter()
+            .position(|range| range.should_merge_with(&merged))
+        {
+            let mut range = self.ranges.swap_remove(i);
+            range.union(merged);
+            merged = range;
         }
-        self.ranges.push(input_range);
+        self.ranges.push(merged);
     }
 }
 
-- 
2.43.0


From c1cbbb5168042f0b3ff0b09270bfb575442497e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 07/22] fix: an empty array has nothing to write

Its null array pointed the queued update at slot u32::MAX, so the next commit
panicked.
---
 crates/craballoc/src/value.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index fd5e8ce..9c71ebc 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -437,7 +437,12 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
             notifier_index,
             notifier: mngr.notifier.0.clone(),
             array,
-            updates: Arc::new(Mutex::new(vec![update])),
+            // An empty array has no slots to write to.
+            updates: Arc::new(Mutex::new(if array.is_empty() {
+                vec![]
+            } else {
+                vec![update]
+            })),
         };
         mngr.insert_update_source(notifier_index, WeakGpuRef::from_gpu_array(&g));
         g
-- 
2.43.0


From cf9955db1c7d9fbd836edd94843b096301276531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 08/22] fix: setting an array item out of bounds must not queue
 a write

The update was addressed to slot u32::MAX and the next commit panicked.
---
 crates/craballoc/src/value.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 9c71ebc..8e6cbe3 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -466,6 +466,9 @@ impl<T: SlabItem + Clone + Send + Sync + 'static> GpuArray<T> {
 
     pub fn set_item(&self, index: usize, value: &T) {
         let id = self.array.at(index);
+        if id.is_none() {
+            return;
+        }
         let array = Array::<u32>::new(id.inner(), T::SLAB_SIZE as u32);
         let mut elements = vec![0u32; T::SLAB_SIZE];
         elements.write(0u32.into(), value);
-- 
2.43.0


From 2ea6bba476cd6f56afbe97bc49f0d6d0be92839a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 09/22] fix: release a handle's reference before notifying of
 its drop

A commit running between the notification and the release saw a live value
and leaked its slots forever.
---
 crates/craballoc/src/value.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/crates/craballoc/src/value.rs b/crates/craballoc/src/value.rs
index 8e6cbe3..3cd8348 100644
--- a/crates/craballoc/src/value.rs
+++ b/crates/craballoc/src/value.rs
@@ -336,6 +336,9 @@ pub struct Gpu<T> {
 
 impl<T> Drop for Gpu<T> {
     fn drop(&mut self) {
+        // Release our reference before notifying, otherwise a concurrent commit may consume
+        // the notification while the value still looks alive, and never recycle it.
+        drop(std::mem::take(&mut self.update));
         let _ = self.notify.try_send(self.notifier_index);
     }
 }
@@ -406,6 +409,9 @@ pub struct GpuArray<T> {
 
 impl<T> Drop for GpuArray<T> {
     fn drop(&mut self) {
+        // Release our reference before notifying, otherwise a concurrent commit may consume
+        // the notification while the array still looks alive, and never recycle it.
+        drop(std::mem::take(&mut self.updates));
         let _ = self.notifier.try_send(self.notifier_index);
     }
 }
-- 
2.43.0


From bf504b3b06820a8e5ca307a49a7840c2d3147afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 10/22] fix: register an update source before notifying of it

A commit running between the two dropped the notification, and with it the
initial value.
---
 crates/craballoc/src/slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 4d09fb1..652d483 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -303,9 +303,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     pub(crate) fn insert_update_source(&self, k: usize, source: WeakGpuRef) {
         log::trace!("slab insert_update_source {k}",);
-        let _ = self.notifier.0.try_send(k);
         // UNWRAP: panic on purpose
         self.update_sources.write().unwrap().insert(k, source);
+        // Notify after inserting, so that a concurrent commit cannot consume the notification
+        // of a source it does not know yet.
+        let _ = self.notifier.0.try_send(k);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 36a83950d569f338a626dc6ad6110238bb2974f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 11/22] fix: read and reset the update queue under one lock

Ids that get_updated_source_ids moved into the queue between the clone and the
reset were lost.
---
 crates/craballoc/src/slab.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 652d483..f9e8ae6 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock},
+    sync::{atomic::AtomicBool, Arc, RwLock, RwLockWriteGuard},
 };
 
 use crate::{
@@ -437,12 +437,17 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Return the ids of all sources that require updating.
     pub fn get_updated_source_ids(&self) -> FxHashSet<usize> {
+        self.lock_updated_source_ids().clone()
+    }
+
+    /// Move all notifications into the `update_queue` and return it, locked.
+    fn lock_updated_source_ids(&self) -> RwLockWriteGuard<'_, FxHashSet<usize>> {
         // UNWRAP: panic on purpose
         let mut update_set = self.update_queue.write().unwrap();
         while let Ok(source_index) = self.notifier.1.try_recv() {
             update_set.insert(source_index);
         }
-        update_set.clone()
+        update_set
     }
 
     /// Build the set of sources that require updates, draining the source
@@ -450,9 +455,8 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// This also places recycled items into the recycle bin.
     fn drain_updated_sources(&self) -> RangeManager<SlabUpdate> {
-        let update_set = self.get_updated_source_ids();
-        // UNWRAP: panic on purpose
-        *self.update_queue.write().unwrap() = Default::default();
+        // Read and reset in one go, otherwise ids queued in between would be lost.
+        let update_set = std::mem::take(&mut *self.lock_updated_source_ids());
         // Prepare all of our GPU buffer writes
         let mut writes = RangeManager::<SlabUpdate>::default();
         {
-- 
2.43.0


From 3d08e4979374fabefaa63049afb6c4cad0531816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 12/22] fix: serialize allocations

Two threads allocating at once could both find the capacity sufficient, or
lower a capacity the other had just raised, so that the buffer was too small.
---
 crates/craballoc/src/slab.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index f9e8ae6..640233d 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -315,8 +315,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
     }
 
     pub(crate) fn allocate<T: SlabItem>(&self) -> Id<T> {
+        // Held until the allocation is done, because checking and growing the capacity must
+        // not interleave with other allocations.
         // UNWRAP: we want to panic
-        let may_range = self.recycles.write().unwrap().remove(T::SLAB_SIZE as u32);
+        let mut recycles = self.recycles.write().unwrap();
+        let may_range = recycles.remove(T::SLAB_SIZE as u32);
         if let Some(range) = may_range {
             let id = Id::<T>::new(range.first_index);
             log::trace!(
@@ -340,12 +343,11 @@ impl<R: IsRuntime> SlabAllocator<R> {
             return Array::default();
         }
 
+        // Held until the allocation is done, because checking and growing the capacity must
+        // not interleave with other allocations.
         // UNWRAP: we want to panic
-        let may_range = self
-            .recycles
-            .write()
-            .unwrap()
-            .remove((T::SLAB_SIZE * len) as u32);
+        let mut recycles = self.recycles.write().unwrap();
+        let may_range = recycles.remove((T::SLAB_SIZE * len) as u32);
         if let Some(range) = may_range {
             let array = Array::<T>::new(range.first_index, len as u32);
             log::trace!(
-- 
2.43.0


From 1675808f8ca6f21ee74627266c310b5462f88322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 13/22] fix: invalidate old buffers only while the new one is
 being put in place

update_if_invalid on another thread could see the invalidation and then pick
up the old buffer again.
---
 crates/craballoc/src/slab.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 640233d..a213f6d 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -403,13 +403,16 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     /// Recreate the internal buffer, writing the contents of the previous buffer (if it
     /// exists) to the new one, then return the new buffer.
-    fn recreate_buffer(&self) -> SlabBuffer<R::Buffer> {
+    fn recreate_buffer(&self, invocation_k: usize) -> SlabBuffer<R::Buffer> {
         let new_buffer = self.runtime.buffer_create(
             self.capacity(),
             self.label.as_deref(),
             self.buffer_usages.clone(),
         );
         let mut guard = self.buffer.write().unwrap();
+        // Invalidate old buffers only now that they have to wait for the new one.
+        self.invalidation_k
+            .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
         if let Some(old_buffer) = guard.take() {
             self.runtime
                 .buffer_copy(&old_buffer, &new_buffer, self.label.as_deref());
@@ -532,9 +535,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
-            self.invalidation_k
-                .store(invocation_k, std::sync::atomic::Ordering::Relaxed);
-            self.recreate_buffer()
+            self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
-- 
2.43.0


From 640277ee2cb383464b4ad2b48f7b92e004f26143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 14/22] fix: collect updates before expanding the buffer

A value created on another thread after the expansion but before the drain was
written out of bounds.
---
 crates/craballoc/src/slab.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index a213f6d..9368852 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -534,13 +534,15 @@ impl<R: IsRuntime> SlabAllocator<R> {
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
             + 1;
+        // Drain before expanding. Every drained update was allocated before, so the expansion
+        // makes room for it. The other way around, values created in between would not fit.
+        let writes = self.drain_updated_sources();
         let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
             self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
             self.get_buffer().unwrap()
         };
-        let writes = self.drain_updated_sources();
         if !writes.is_empty() {
             self.runtime
                 .buffer_write(writes.ranges.into_iter(), &buffer);
-- 
2.43.0


From 2c26e6a1e7c09955799f4c0838953e51a095b124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 15/22] fix: serialize commits

Concurrent commits could panic on the missing buffer or write older updates
over newer ones.
---
 crates/craballoc/src/slab.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index 9368852..bc2a6b6 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -5,7 +5,7 @@ use rustc_hash::{FxHashMap, FxHashSet};
 use snafu::prelude::*;
 use std::{
     ops::Deref,
-    sync::{atomic::AtomicBool, Arc, RwLock, RwLockWriteGuard},
+    sync::{atomic::AtomicBool, Arc, Mutex, RwLock, RwLockWriteGuard},
 };
 
 use crate::{
@@ -235,6 +235,8 @@ pub struct SlabAllocator<Runtime: IsRuntime> {
     invalidation_k: Arc<AtomicUsize>,
     // The next monotonically increasing commit invocation identifier
     invocation_k: Arc<AtomicUsize>,
+    // Held during commit
+    commit_lock: Arc<Mutex<()>>,
     // The next monotonically increasing update identifier
     pub(crate) update_k: Arc<AtomicUsize>,
     // Weak references to all values that can write updates into this slab
@@ -258,6 +260,7 @@ impl<R: IsRuntime> Clone for SlabAllocator<R> {
             buffer_usages: self.buffer_usages.clone(),
             invalidation_k: self.invalidation_k.clone(),
             invocation_k: self.invocation_k.clone(),
+            commit_lock: self.commit_lock.clone(),
             update_k: self.update_k.clone(),
             update_sources: self.update_sources.clone(),
             update_queue: self.update_queue.clone(),
@@ -294,6 +297,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
             buffer_usages: default_buffer_usages,
             invalidation_k: Default::default(),
             invocation_k: Default::default(),
+            commit_lock: Default::default(),
         }
     }
 
@@ -530,6 +534,10 @@ impl<R: IsRuntime> SlabAllocator<R> {
     ///
     /// Returns a [`SlabBuffer`] wrapping the internal buffer that is currently in use by the allocator.
     pub fn commit(&self) -> SlabBuffer<R::Buffer> {
+        // Commits must not interleave, or the later one may find no buffer yet, a buffer that is
+        // too small, or have its writes overwritten by older ones.
+        // UNWRAP: panic on purpose
+        let _commit_guard = self.commit_lock.lock().unwrap();
         let invocation_k = self
             .invocation_k
             .fetch_add(1, std::sync::atomic::Ordering::Relaxed)
-- 
2.43.0


From 89e22672c8cde4f51bbe2a5e81e90940ae04655a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 16/22] fix: derive SlabItem for structs without fields

The empty sum was not a usize, so the derive did not compile.
---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 4b37d1d..7687f1b 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -524,7 +524,7 @@ fn derive_from_slab_struct(
         impl #impl_generics crabslab::SlabItem for #name #ty_generics #where_clause
         {
             const SLAB_SIZE: usize = {
-                #( <#field_tys as crabslab::SlabItem>::SLAB_SIZE )+*
+                #( <#field_tys as crabslab::SlabItem>::SLAB_SIZE + )* 0
             };
 
             fn read_slab(mut index: usize, slab: &[u32]) -> Self {
-- 
2.43.0


From 6ca8d244b1166342784563910383859a62aa25af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 17/22] fix: derive offsets for structs with a where clause

---
 crates/crabslab-derive/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 7687f1b..470075f 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -511,7 +511,7 @@ fn derive_from_slab_struct(
         quote! {
             #[automatically_derived]
             /// Offsets into the slab buffer for each field.
-            impl #impl_generics #name #ty_generics {
+            impl #impl_generics #name #ty_generics #where_clause {
                 #(#offsets)*
             }
         }
-- 
2.43.0


From cbc289b404394793536a82837cf9809632e9943d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:27 +0000
Subject: [PATCH 18/22] fix: derive must not confuse an enum field with the
 variant's tag

A field named __hash was shadowed, and the tag was stored in its place.
---
 crates/crabslab-derive/src/lib.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 470075f..94da5dc 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -368,8 +368,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
             };
             quote! {
                 #pat_match => {
-                    let __hash: u32 = #hash;
-                    let index = __hash.write_slab(index, slab);
+                    let index = <u32 as crabslab::SlabItem>::write_slab(&#hash, index, slab);
                     #write
                     original_index + slab_size
                 }
-- 
2.43.0


From ba0cffa52b5864fce6ef4ace5b8a17888d7272d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 19/22] fix: derive must accept enum fields of any name

Fields named index, slab, slab_size or original_index clashed with variables
of the generated code.
---
 crates/crabslab-derive/src/lib.rs | 63 ++++++++++++++-----------------
 1 file changed, 29 insertions(+), 34 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index 94da5dc..d2da5e8 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -10,6 +10,15 @@ enum FieldName {
     Ident(Ident),
 }
 
+impl quote::ToTokens for FieldName {
+    fn to_tokens(&self, tokens: &mut proc_macro2::TokenStream) {
+        match self {
+            FieldName::Index(i) => i.to_tokens(tokens),
+            FieldName::Ident(i) => i.to_tokens(tokens),
+        }
+    }
+}
+
 struct FieldParams {
     field_tys: Vec<Type>,
     field_names: Vec<FieldName>,
@@ -39,6 +48,14 @@ impl FieldParams {
             field_names,
         }
     }
+
+    /// Names of variables to bind the fields to, which cannot clash with the names of
+    /// other variables in the generated code.
+    fn variables(&self) -> Vec<Ident> {
+        let tys = self.field_tys.iter().enumerate();
+        tys.map(|(i, ty)| Ident::new(&format!("__{i}"), ty.span()))
+            .collect()
+    }
 }
 
 fn get_struct_params(ds: &DataStruct) -> FieldParams {
@@ -251,18 +268,11 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
 
     let variant_reads = variants.iter().map(|variant| {
         let ident = &variant.variant.ident;
-        let field_names = variant
-            .fields
-            .field_names
-            .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
-            .collect::<Vec<_>>();
+        let field_vars = variant.fields.variables();
+        let field_names = &variant.fields.field_names;
         let field_tys = &variant.fields.field_tys;
-        let num_fields = field_names.len();
-        let reads = field_names
+        let num_fields = field_vars.len();
+        let reads = field_vars
             .iter()
             .zip(field_tys.iter())
             .enumerate()
@@ -289,7 +299,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                      #name::#ident {
-                         #(#field_names),*
+                         #(#field_names: #field_vars),*
                      }
                 }}
             }
@@ -297,7 +307,7 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
                 quote! {{
                     #(#reads)*
                     #name::#ident(
-                        #(#field_names),*
+                        #(#field_vars),*
                     )
                 }}
             }
@@ -318,17 +328,9 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         })
         .collect();
     let variant_writes = variants.iter().map(|variant| {
-        let field_names = variant
-            .fields
-            .field_names
-            .iter()
-            .map(|name| match name {
-                FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                FieldName::Ident(field) => field.clone(),
-            })
-            .collect::<Vec<_>>();
+        let field_vars = variant.fields.variables();
         quote! {
-            #(let index = #field_names.write_slab(index, slab);)*
+            #(let index = #field_vars.write_slab(index, slab);)*
         }
     });
     let write_variants_matches: Vec<proc_macro2::TokenStream> = variants
@@ -337,28 +339,21 @@ fn derive_from_slab_enum(input: DeriveInput, params: EnumParams) -> proc_macro::
         .zip(variant_writes)
         .map(|((i, variant), write)| {
             let hash = syn::LitInt::new(&i.to_string(), variant.variant.span());
-            let field_names = variant
-                .fields
-                .field_names
-                .iter()
-                .map(|name| match name {
-                    FieldName::Index(i) => Ident::new(&format!("__{}", i.index), i.span),
-                    FieldName::Ident(field) => field.clone(),
-                })
-                .collect::<Vec<_>>();
+            let field_vars = variant.fields.variables();
+            let field_names = &variant.fields.field_names;
             let ident = &variant.variant.ident;
             let pat_match = match variant.variant.fields {
                 Fields::Named(_) => {
                     quote! {
                         #name::#ident {
-                            #(#field_names,)*
+                            #(#field_names: #field_vars,)*
                         }
                     }
                 }
                 Fields::Unnamed(_) => {
                     quote! {
                         #name::#ident(
-                            #(#field_names,)*
+                            #(#field_vars,)*
                         )
                     }
                 }
-- 
2.43.0


From 0033c7832d3484783d239ae4413d69dd362feb3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:05 +0000
Subject: [PATCH 20/22] fix: derive offsets of fields with raw identifiers

---
 crates/crabslab-derive/src/lib.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/crates/crabslab-derive/src/lib.rs b/crates/crabslab-derive/src/lib.rs
index d2da5e8..2dc3cd9 100644
--- a/crates/crabslab-derive/src/lib.rs
+++ b/crates/crabslab-derive/src/lib.rs
@@ -1,8 +1,8 @@
 //! Provides derive macros for `crabslab`.
 use quote::quote;
 use syn::{
-    spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed, FieldsUnnamed,
-    Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
+    ext::IdentExt, spanned::Spanned, Data, DataEnum, DataStruct, DeriveInput, Fields, FieldsNamed,
+    FieldsUnnamed, Ident, Index, Type, TypeTuple, WhereClause, WherePredicate,
 };
 
 enum FieldName {
@@ -478,11 +478,11 @@ fn derive_from_slab_struct(
             ),
             FieldName::Ident(field) => (
                 Ident::new(
-                    &format!("OFFSET_OF_{}", field.to_string().to_uppercase()),
+                    &format!("OFFSET_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
                 Ident::new(
-                    &format!("SLAB_SIZE_OF_{}", field.to_string().to_uppercase()),
+                    &format!("SLAB_SIZE_OF_{}", field.unraw().to_string().to_uppercase()),
                     field.span(),
                 ),
             ),
-- 
2.43.0


From 6f0185f4a28cf8d1f82dfec0e8d83ea0f080ee4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:01 +0000
Subject: [PATCH 21/22] fix: publish a grown capacity before asking for a new
 buffer

With relaxed orderings a commit could see the request for expansion without the capacity it was made for, create a buffer of the old capacity and clear the request, so that the next commit wrote past the end of the buffer.
---
 crates/craballoc/src/slab.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index bc2a6b6..cfbac9c 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -376,7 +376,9 @@ impl<R: IsRuntime> SlabAllocator<R> {
 
     fn reserve_capacity(&self, capacity: usize) {
         self.capacity.store(capacity, Ordering::Relaxed);
-        self.needs_expansion.store(true, Ordering::Relaxed);
+        // Release the capacity, so that the commit that finds the flag set also finds the
+        // capacity it was set for.
+        self.needs_expansion.store(true, Ordering::Release);
     }
 
     fn increment_len(&self, n: usize) -> usize {
@@ -545,7 +547,7 @@ impl<R: IsRuntime> SlabAllocator<R> {
         // Drain before expanding. Every drained update was allocated before, so the expansion
         // makes room for it. The other way around, values created in between would not fit.
         let writes = self.drain_updated_sources();
-        let buffer = if self.needs_expansion.swap(false, Ordering::Relaxed) {
+        let buffer = if self.needs_expansion.swap(false, Ordering::Acquire) {
             self.recreate_buffer(invocation_k)
         } else {
             // UNWRAP: Safe because we know it exists or else it would need expansion
-- 
2.43.0


From ea9c6551a39c85ebac3d8510fca18016505a8c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:20 +0000
Subject: [PATCH 22/22] fix: check a synchronised buffer's validity before
 another commit can replace it

Otherwise the debug assertion fails when a concurrent commit replaces the buffer right after it was read.
---
 crates/craballoc/src/slab.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/crates/craballoc/src/slab.rs b/crates/craballoc/src/slab.rs
index cfbac9c..fe05eb5 100644
--- a/crates/craballoc/src/slab.rs
+++ b/crates/craballoc/src/slab.rs
@@ -199,9 +199,12 @@ impl<T> SlabBuffer<T> {
             // is created, source_slab_buffer will always be Some.
             let updated_buffer = {
                 let guard = self.source_slab_buffer.read().unwrap();
-                guard.as_ref().unwrap().clone()
+                let updated_buffer = guard.as_ref().unwrap().clone();
+                // Checked with the lock held, because as soon as it is released a commit may
+                // replace the buffer again.
+                debug_assert!(updated_buffer.is_valid());
+                updated_buffer
             };
-            debug_assert!(updated_buffer.is_valid());
             *self = updated_buffer;
             true
         } else {
-- 
2.43.0

