From 3cea521d6551fdb7ebbb1c17577829163f67bba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:36 +0000
Subject: [PATCH 1/9] hook: cfg(gecs_verif) preset of the starting
 slot/archetype versions

---
 src/version.rs | 36 ++++++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/version.rs b/src/version.rs
index 1149a9b..86814c5 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -1,3 +1,5 @@
+#![allow(unexpected_cfgs)] // For the verification-only `gecs_verif` cfg
+
 use std::num::NonZeroU32;
 
 // Starting version number. Must convert to a NonZeroU32.
@@ -15,6 +17,34 @@ pub struct ArchetypeVersion {
     version: NonZeroU32,
 }
 
+/// Verification hook, compiled only with `--cfg gecs_verif`: lets a test harness choose the number
+/// that fresh slot and archetype versions start from on the current thread, so that histories close
+/// to a counter's overflow can be explored without performing billions of operations first.
+#[cfg(gecs_verif)]
+#[doc(hidden)]
+pub mod verif {
+    use std::cell::Cell;
+    use std::num::NonZeroU32;
+
+    thread_local! {
+        static PRESET: Cell<(NonZeroU32, NonZeroU32)> =
+            const { Cell::new((super::VERSION_START, super::VERSION_START)) };
+    }
+
+    /// Sets the starting versions of subsequently initialized slots and archetypes.
+    pub fn set_version_start(slot: NonZeroU32, archetype: NonZeroU32) {
+        PRESET.with(|preset| preset.set((slot, archetype)));
+    }
+
+    pub(super) fn slot_start() -> NonZeroU32 {
+        PRESET.with(|preset| preset.get().0)
+    }
+
+    pub(super) fn archetype_start() -> NonZeroU32 {
+        PRESET.with(|preset| preset.get().1)
+    }
+}
+
 impl SlotVersion {
     #[inline(always)]
     pub(crate) fn new(version: NonZeroU32) -> Self {
@@ -26,6 +56,9 @@ impl SlotVersion {
     #[inline(always)]
     pub(crate) fn start() -> Self {
         Self {
+            #[cfg(gecs_verif)]
+            version: verif::slot_start(),
+            #[cfg(not(gecs_verif))]
             version: VERSION_START,
         }
     }
@@ -50,6 +83,9 @@ impl ArchetypeVersion {
     #[inline(always)]
     pub(crate) fn start() -> Self {
         Self {
+            #[cfg(gecs_verif)]
+            version: verif::archetype_start(),
+            #[cfg(not(gecs_verif))]
             version: VERSION_START,
         }
     }
-- 
2.43.0


From 2a276e7138d39cf99db7f6b46d48c50d6fe138f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 2/9] fix: advance versions before removing an entity so an
 overflow panic leaves storage intact

A slot or archetype version overflow during destroy panicked after the
components had already been moved out and before len was decremented,
leaving a moved-out (duplicated) row behind: double drops and reads of
freed data on any later use or drop of the world.
---
 src/archetype/slot.rs    |  8 ++++----
 src/archetype/storage.rs | 13 +++++++++++--
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..c9be8e8 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -150,13 +150,13 @@ impl Slot {
         // NOTE: We increment the version on release, not assignment.
     }
 
-    /// Releases a slot and increments its version, invalidating all handles.
-    /// Returns an `EcsError::VersionOverflow` if the version increment overflows.
+    /// Releases a slot and advances its version, invalidating all handles.
+    /// The version to advance to is always the `next` of the slot's current version.
     #[inline(always)]
-    pub(crate) fn release(&mut self, index_next_free: SlotIndex) {
+    pub(crate) fn release(&mut self, index_next_free: SlotIndex, next_version: SlotVersion) {
         debug_assert!(self.is_free() == false);
         self.index = index_next_free;
-        self.version = self.version.next();
+        self.version = next_version;
     }
 }
 
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..f56f2b5 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -559,6 +559,15 @@ macro_rules! declare_storage_n {
                             entities[dense_index_usize].version(),
                             self.slots.slice(self.capacity())[slot_index_usize].version());
 
+                        // Advance both versions up front, before touching anything. These may
+                        // panic on overflow, and must not leave us in a partially removed state.
+                        let next_version = self.version.next();
+                        let next_slot_version = self.slots
+                            .slice(self.capacity())
+                            .get_unchecked(slot_index_usize) // SAFETY: See declaration.
+                            .version()
+                            .next();
+
                         #[cfg(feature = "events")]
                         {
                             self.destroyed.push(*entities.get_unchecked(dense_index_usize));
@@ -589,10 +598,10 @@ macro_rules! declare_storage_n {
                         // Return the target slot to the free list
                         slots
                             .get_unchecked_mut(slot_index_usize) // SAFETY: See declaration.
-                            .release(self.free_head);
+                            .release(self.free_head, next_slot_version);
 
                         // Advance this storage's overall version (for add/removes).
-                        self.version = self.version.next();
+                        self.version = next_version;
 
                         result
                     };
-- 
2.43.0


From 762f6861a9d50f433e3fa72cd941b88b35e81803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 3/9] fix: hand out current direct handles in ecs_iter_destroy

The archetype version was sampled once before the loop, so every direct
handle given to the closure after the first destroy was already stale.
---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..ee1756c 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // The version changes whenever we destroy an entity, so update it each time.
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From a5e259a81ec6d4bfd3bae570481065f95046d56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:26 +0000
Subject: [PATCH 4/9] fix: to_direct rejects stale direct handles

to_direct echoed back any direct handle it was given, including ones
invalidated by a removal, while every other lookup path rejects them.
---
 src/archetype/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index f56f2b5..9b25cb1 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -671,7 +671,8 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    self.resolve_direct(entity)?; // Fail if this is stale or invalid
+                    Some(entity) // Otherwise return, as we're already an EntityDirect
                 }
 
                 #[inline]
-- 
2.43.0


From 75ea6ea04b4bde3a8640995962950c21d7fe98c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:20 +0000
Subject: [PATCH 5/9] fix: don't leak cloned components if a component's Clone
 panics

Cloning a storage wrote into bare allocations that nothing owned until the
clone was complete, so a panic leaked every component cloned before it.
---
 src/archetype/storage.rs | 45 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9b25cb1..3f5e931 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -727,9 +727,22 @@ macro_rules! declare_storage_n {
                 fn clone(&self) -> Self {
                     #(let ref_d~I = self.d~I.borrow();)*
 
-                    let mut new_slots = DataPtr::with_capacity(self.capacity);
-                    let mut new_entities = DataPtr::with_capacity(self.capacity);
-                    #(let mut new_d~I = DataPtr::with_capacity(self.capacity);)*
+                    // Start with no entities and add each once all of its components are cloned.
+                    // If a component panics on clone, this will drop everything cloned so far.
+                    let mut new = Self {
+                        version: self.version,
+                        len: 0,
+                        capacity: self.capacity,
+                        free_head: self.free_head,
+                        slots: DataPtr::with_capacity(self.capacity),
+                        entities: DataPtr::with_capacity(self.capacity),
+                        #(d~I: RefCell::new(DataPtr::with_capacity(self.capacity)),)*
+
+                        #[cfg(feature = "events")]
+                        created: self.created.clone(),
+                        #[cfg(feature = "events")]
+                        destroyed: self.destroyed.clone(),
+                    };
 
                     unsafe {
 
@@ -741,31 +754,21 @@ macro_rules! declare_storage_n {
                         for idx in 0..self.capacity {
                             // SAFETY: We know that the slot storage is valid up to our capacity,
                             // and the new storage has no data that needs to be dropped first.
-                            new_slots.write(idx, old_slots.get_unchecked(idx).clone());
+                            new.slots.write(idx, old_slots.get_unchecked(idx).clone());
                         }
 
                         for idx in 0..self.len {
+                            #(let new_~I = old_~I.get_unchecked(idx).clone();)*
+
                             // SAFETY: We know that the slot storage is valid up to our len,
                             // and the new storage has no data that needs to be dropped first.
-                            new_entities.write(idx, old_entities.get_unchecked(idx).clone());
-                            #(new_d~I.write(idx, old_~I.get_unchecked(idx).clone());)*
-                        }
-
-                        Self {
-                            len: self.len,
-                            version: self.version,
-                            capacity: self.capacity,
-                            free_head: self.free_head,
-                            slots: new_slots,
-                            entities: new_entities,
-                            #(d~I: RefCell::new(new_d~I),)*
-
-                            #[cfg(feature = "events")]
-                            created: self.created.clone(),
-                            #[cfg(feature = "events")]
-                            destroyed: self.destroyed.clone(),
+                            new.entities.write(idx, old_entities.get_unchecked(idx).clone());
+                            #(new.d~I.get_mut().write(idx, new_~I);)*
+                            new.len = idx + 1;
                         }
                     }
+
+                    new
                 }
             }
 
-- 
2.43.0


From 651f7ff2232d320c5a7b556183b557725e1b9178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:46 +0000
Subject: [PATCH 6/9] fix: drop all remaining components if a component's Drop
 panics

Dropping a storage stopped at the first component that panicked when
dropped, leaking every component after it and all of the allocations.
---
 src/archetype/storage.rs | 56 +++++++++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 6 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 3f5e931..66a1365 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -691,13 +691,20 @@ macro_rules! declare_storage_n {
                 fn drop(&mut self) {
                     // SAFETY: We guarantee that the storage is valid up to self.len.
                     unsafe {
-                        #(self.d~I.get_mut().drop_to(self.len);)*
+                        // Drop and deallocate each column in order. We use guards for this so that
+                        // if a component panics when dropped, the remaining ones still get dropped.
+                        let _columns = (
+                            #(DropGuard {
+                                data: self.d~I.get_mut(),
+                                len: self.len,
+                                capacity: self.capacity,
+                            },)*
+                        );
                         // We don't need to drop the other stuff since it's all trivial.
 
                         // For dynamic storage we need to deallocate when dropping.
                         self.slots.dealloc(self.capacity);
                         self.entities.dealloc(self.capacity);
-                        #(self.d~I.get_mut().dealloc(self.capacity);)*
                     };
                 }
             }
@@ -1069,16 +1076,53 @@ impl<T> DataPtr<T> {
     #[inline(always)]
     unsafe fn drop_to(&mut self, len: usize) {
         unsafe {
+            // SAFETY: The caller guarantees that these elements are valid. Note that dropping
+            // them as a slice drops all of them, even if one of them panics when dropped.
+            ptr::drop_in_place(self.slice_mut(len));
+
             for i in 0..len {
-                let i_ptr = self.0.as_ptr().add(i);
-                // SAFETY: The caller guarantees this element is valid.
-                ptr::drop_in_place(i_ptr as *mut T);
-                ptr::write(i_ptr, MaybeUninit::uninit()); // Hint for Miri
+                ptr::write(self.0.as_ptr().add(i), MaybeUninit::uninit()); // Hint for Miri
             }
         };
     }
 }
 
+/// Drops all elements in the range `0..len` of a data array, and then deallocates it.
+/// Both will happen when this guard goes out of scope, even if we are unwinding.
+///
+/// # Safety
+///
+/// It is up to the creator to guarantee the following:
+/// - This array has exactly `capacity` elements allocated
+/// - All elements in the range `0..len` are valid
+struct DropGuard<'a, T> {
+    data: &'a mut DataPtr<T>,
+    len: usize,
+    capacity: usize,
+}
+
+impl<T> Drop for DropGuard<'_, T> {
+    #[inline(always)]
+    fn drop(&mut self) {
+        // SAFETY: The creator of this guard guarantees that the array is allocated with this
+        // capacity, and that it is valid up to len. We only drop its elements once, since the
+        // inner guard has none left to drop and is only there to deallocate in case of a panic.
+        unsafe {
+            match self.len {
+                0 => self.data.dealloc(self.capacity),
+                len => {
+                    let guard = DropGuard {
+                        data: &mut *self.data,
+                        len: 0,
+                        capacity: self.capacity,
+                    };
+                    guard.data.drop_to(len);
+                }
+            }
+        }
+    }
+}
+
 #[inline(always)]
 fn new_layout<T>(capacity: usize) -> Layout {
     let layout = Layout::array::<T>(capacity).unwrap();
-- 
2.43.0


From c3823975ba1b2dc6d364199526aa9bc3b2ff80a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 7/9] fix: support cfg attributes on OneOf query parameters

These were rejected at compile time, while cfg is supported on every other
kind of query parameter. A disabled OneOf now behaves as if absent.
---
 macros/src/generate/query.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index ee1756c..e1907dc 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -670,14 +670,14 @@ fn bind_query_params(
                     }
                 }
                 ParseQueryParamType::OneOf(args) => {
-                    if param.cfgs.len() > 0 {
-                        return Err(syn::Error::new(
-                            param.name.span(),
-                            "cfg attributes not currently supported on OneOf",
-                        ));
-                    }
-
-                    if let Some(found) = bind_one_of(archetype, args)? {
+                    if param.is_cfg_enabled == false {
+                        // This parameter will be stripped by its cfg attribute in the generated
+                        // code, so it always matches and its type doesn't matter beyond parsing.
+                        bound.push(ParseQueryParam {
+                            param_type: ParseQueryParamType::EntityAny,
+                            ..param.clone()
+                        });
+                    } else if let Some(found) = bind_one_of(archetype, args)? {
                         // Convert this to a new Component type
                         bound.push(ParseQueryParam {
                             cfgs: param.cfgs.clone(),
-- 
2.43.0


From 63421acf405e26b501a16d22a9ba360d5e423cfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:30 +0000
Subject: [PATCH 8/9] fix: reject handles converted unchecked from another
 archetype on lookup

from_any_unchecked (with debug assertions off) and the &mut EntityAny view
of a typed handle can put another archetype's key into a typed handle. Any
lookup of it would then silently reach an unrelated entity whose position
and version happened to match.
---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 66a1365..b3c9735 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -344,6 +344,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // Handles can be converted from other archetypes without being checked.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // Get the index into the slot array from the entity.
                     let slot_index = entity.slot_index();
 
@@ -400,6 +405,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // Handles can be converted from other archetypes without being checked.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // For direct entities, we compare against the storage version
                     if entity.version() != self.version() {
                         return None;
-- 
2.43.0


From 8e080ca4c737e3a128436cf68df98d1ea3ec6b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:56 +0000
Subject: [PATCH 9/9] hook: don't depend on private items

---
 src/version.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/version.rs b/src/version.rs
index 86814c5..f544970 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -28,7 +28,7 @@ pub mod verif {
 
     thread_local! {
         static PRESET: Cell<(NonZeroU32, NonZeroU32)> =
-            const { Cell::new((super::VERSION_START, super::VERSION_START)) };
+            const { Cell::new((NonZeroU32::MIN, NonZeroU32::MIN)) };
     }
 
     /// Sets the starting versions of subsequently initialized slots and archetypes.
-- 
2.43.0

