From 56bab75be6f275f1ce93ada2094e21ef341375fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:49 +0000
Subject: [PATCH 1/5] fix: cloning a parts iterator keeps the capacity its
 deque needs

The derived Clone clones the VecDeque, which only reserves enough capacity for
the items currently in it. Iterating the clone then re-allocated, contrary to
the iterator's own debug assertion, so that cloning split_into_parts(s, 4) before the
first call to next() gave an iterator that panics in debug builds.
---
 src/internal/bin_parts_iter.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/internal/bin_parts_iter.rs b/src/internal/bin_parts_iter.rs
index e9b8871..578746a 100644
--- a/src/internal/bin_parts_iter.rs
+++ b/src/internal/bin_parts_iter.rs
@@ -17,7 +17,6 @@ pub trait BinarySplitOff {
 
 /// An iterator over parts of an initial whole. Parts are obtained by repeatedly
 /// splitting off left or right halves.
-#[derive(Clone)]
 pub struct BinaryPartsIter<S> {
     num_parts: usize,
     num_yielded_front: usize,
@@ -312,6 +311,22 @@ fn greatest_power_of_2_factor(mut n: usize) -> usize {
 
 impl<S: BinarySplitOff> FusedIterator for BinaryPartsIter<S> { }
 
+impl<S: Clone> Clone for BinaryPartsIter<S> {
+    fn clone(&self) -> Self {
+        // Not derived b/c VecDeque's Clone impl only reserves enough capacity
+        // for the items currently in the deque, whereas next() and next_back()
+        // rely on the deque keeping the capacity that new() gave it.
+        let mut deque = VecDeque::with_capacity(self.deque.capacity());
+        deque.extend(self.deque.iter().cloned());
+        Self {
+            num_parts: self.num_parts,
+            num_yielded_front: self.num_yielded_front,
+            num_yielded_back: self.num_yielded_back,
+            deque,
+        }
+    }
+}
+
 #[cfg(test)]
 mod test {
     use std::string::String;
-- 
2.43.0


From 72b407b52fcb0c6de4e5656529c138fb490a11a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:50 +0000
Subject: [PATCH 2/5] fix: ArcSlice::get_mut synchronizes with handles dropped
 by other threads

Arc::strong_count and Arc::weak_count are relaxed loads, so observing that no
other handles are left didn't order the reads made through those handles, on
other threads, before the mutations made through the returned reference.
---
 src/arc/arc_slice.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 78c7ca9..6226095 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -5,7 +5,7 @@ use core::{
     ops::Deref,
     ptr::{self, NonNull},
     slice,
-    sync::atomic::{AtomicPtr, Ordering},
+    sync::atomic::{fence, AtomicPtr, Ordering},
 };
 use alloc::{
     boxed::Box,
@@ -371,6 +371,10 @@ impl<T> ArcSlice<T> {
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
+                            // Arc::strong_count and Arc::weak_count are relaxed loads. Synchronize
+                            // with the release of the other handles whose absence we just observed,
+                            // so that all their uses of these items happen before our mutations.
+                            fence(Ordering::Acquire);
                             // Safe to mutate
                             unsafe { Some(slice::from_raw_parts_mut((*this.data).ptr.as_ptr(), (*this.data).len)) }
                         } else {
-- 
2.43.0


From cc7724e14a0a4fe0c01ef4048b162a9cb7ee40de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:08 +0000
Subject: [PATCH 3/5] fix: ArcSlice frees the memory that tracks its data
 guards

The Box<Weak<DataGuard>> an ArcSliceData points at was never freed, and nor was
the box it replaced each time a new guard succeeded a dead one, so every
ArcSlice leaked. Free the box along with the ArcSliceData. And replace the weak
ref in place, with exclusive access to it, instead of swapping in a new box.
---
 src/arc/arc_slice.rs | 68 +++++++++++++++++++++++++-------------------
 1 file changed, 39 insertions(+), 29 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index 6226095..b147089 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -40,6 +40,7 @@ pub (in crate::arc) struct ArcSliceData<T> {
     // Obtained via Box<Weak<DataGuard>>::into_raw(). Could instead do this
     // as an AtomicPtr<DataGuard> obtained via Weak<DataGuard>::into_raw(),
     // but avoiding using of unstable Weak::into_raw.
+    // Null while some thread is accessing the Weak. See with_guard.
     guard: AtomicPtr<Weak<DataGuard>>,
     phantom_item: PhantomData<T>,
     phantom_child: PhantomData<Self>,
@@ -107,6 +108,22 @@ impl<T> ArcSliceData<T> {
         }
     }
 
+    /// Access the weak ref to our current DataGuard, waiting for our turn. We need
+    /// exclusive access to be able to replace a weak ref to a dead guard w/o leaking
+    /// it and w/o pulling it out from under some other thread that's upgrading it.
+    /// f mustn't run any code that might want to access the same guard again.
+    fn with_guard<R>(&self, f: impl FnOnce(&mut Weak<DataGuard>) -> R) -> R {
+        loop {
+            let guard_ptr = self.guard.swap(ptr::null_mut(), Ordering::Acquire);
+            if !guard_ptr.is_null() {
+                let res = f(unsafe { &mut *guard_ptr });
+                self.guard.store(guard_ptr, Ordering::Release);
+                return res;
+            }
+            while self.guard.load(Ordering::Relaxed).is_null() {}
+        }
+    }
+
     fn clone_left(self: &Arc<Self>) -> Arc<Self> {
         if self.len == 0 {
             self.clone()
@@ -229,6 +246,7 @@ impl<T> ArcSliceData<T> {
 
 impl<T> Drop for ArcSliceData<T> {
     fn drop(&mut self) {
+        drop(unsafe { Box::from_raw(*self.guard.get_mut()) });
         // Move the children out to decrement their strong counts and
         // also to figure out what range of items to drop, if any.
         let left = self.take_left();
@@ -284,36 +302,28 @@ impl<T> Deref for ArcSliceData<T> {
 
 impl DataGuard {
     fn guard<T>(data: &ArcSliceData<T>) -> Arc<Self> {
-        let mut existing_guard_ptr = data.guard.load(Ordering::Acquire);
-        // We guarantee that ArcSliceData.guard is always a valid pointer
-        let mut existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-        while existing_guard.is_none() {
-            // No reference to a live existing guard. We'll try constructing
-            // a new guard as we do for RcSliceData and then atomically
-            // swapping the new guard into place.
-            let parent_guard = data.parent.upgrade()
-                .map(|parent_data| Self::guard(&parent_data));
-            let guard = Arc::new(Self {
-                _parent: parent_guard,
-                clone_child_gate: Gate::new(),
-                downgrade_gate: Gate::new(),
-            });
-            let guard_ptr = Box::into_raw(Box::new(Arc::downgrade(&guard)));
-            let prev_guard_ptr = data.guard.compare_and_swap(existing_guard_ptr, guard_ptr, Ordering::AcqRel);
-            if prev_guard_ptr == existing_guard_ptr {
-                // Swap succeeded. Set existing_guard to the guard we just
-                // successfully created to exit the loop.
-                existing_guard = Some(guard);
-            } else {
-                // Uh oh! Swap failed. We must've just lost a race to guard this
-                // slice data. Reconstitue our guard_ptr to drop it, then keep
-                // looping until we manage to observe a live existing guard.
-                unsafe { Box::from_raw(guard_ptr); }
-                existing_guard_ptr = prev_guard_ptr;
-                existing_guard = unsafe { (*existing_guard_ptr).upgrade() };
-            }
+        if let Some(existing_guard) = data.with_guard(|weak_guard| weak_guard.upgrade()) {
+            return existing_guard;
         }
-        existing_guard.unwrap_or_else(|| unreachable!())
+        // No reference to a live existing guard. We'll try constructing
+        // a new guard as we do for RcSliceData and then moving the new
+        // guard into place.
+        let parent_guard = data.parent.upgrade()
+            .map(|parent_data| Self::guard(&parent_data));
+        let guard = Arc::new(Self {
+            _parent: parent_guard,
+            clone_child_gate: Gate::new(),
+            downgrade_gate: Gate::new(),
+        });
+        data.with_guard(|weak_guard| match weak_guard.upgrade() {
+            // Uh oh! We must've just lost a race to guard this slice data.
+            // Use the guard that won the race.
+            Some(existing_guard) => existing_guard,
+            None => {
+                *weak_guard = Arc::downgrade(&guard);
+                guard
+            }
+        })
     }
 }
 
-- 
2.43.0


From 8ae7f2266aec98d26ac2ba7bb1862de50ff2b96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:35 +0000
Subject: [PATCH 4/5] fix: whoever closes an ArcSlice's gate sees the handles
 made before it was closed

---
 src/internal/gate.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/internal/gate.rs b/src/internal/gate.rs
index b91bc2e..8ea25aa 100644
--- a/src/internal/gate.rs
+++ b/src/internal/gate.rs
@@ -1,4 +1,4 @@
-use core::sync::atomic::{AtomicBool, Ordering};
+use core::sync::atomic::{fence, AtomicBool, Ordering};
 
 /// A simple syncrhonization primitive.
 pub struct Gate {
@@ -13,6 +13,10 @@ impl Gate {
     }
 
     pub fn wait_till_open(&self) {
+        // Pairs with the fence in try_close: Either we observe that the gate is
+        // closed, or whoever closes it observes everything we did before this
+        // (in particular, that we exist), even by relaxed loads.
+        fence(Ordering::SeqCst);
         while self.is_closed.load(Ordering::SeqCst) {}
     }
 
@@ -20,6 +24,7 @@ impl Gate {
         if self.is_closed.swap(true, Ordering::SeqCst) {
             None
         } else {
+            fence(Ordering::SeqCst);
             Some(Latch(self))
         }
     }
-- 
2.43.0


From ba2e79432de02e399c7cefd3d56016ca4b42537a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:44 +0000
Subject: [PATCH 5/5] fix: ArcSlice::get_mut sees weak refs made while it
 closed the gate

---
 src/arc/arc_slice.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/arc/arc_slice.rs b/src/arc/arc_slice.rs
index b147089..c341285 100644
--- a/src/arc/arc_slice.rs
+++ b/src/arc/arc_slice.rs
@@ -375,9 +375,14 @@ impl<T> ArcSlice<T> {
         // TODO: Ack! Descendant WeakSlices create unsoundness here for the same
         // reason they do w/ RcSlice::get_mut. Refactor!
 
-        // Check for no weak refs first.
+        // Check for no weak refs first. Some other handle may have passed the gate before we
+        // closed it and still be downgrading, so make sure that there is no such handle.
         this.downgrade_gate().try_close().and_then(|_downgrade_latch|
-            if 1 == Arc::weak_count(&this.data_guard) {
+            if 1 == Arc::strong_count(&this.data_guard) && {
+                // If there was such a handle, then we have to observe the weak ref it left behind.
+                fence(Ordering::Acquire);
+                1 == Arc::weak_count(&this.data_guard)
+            } {
                 this.clone_child_gate().try_close().and_then(|_clone_child_latch|
                     if 1 == Arc::strong_count(&this.data_guard) {
                         if 1 == Arc::strong_count(&this.data) {
-- 
2.43.0

