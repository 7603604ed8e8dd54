From 940ed389c183273dbae60a719bf54a044b952eed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 1/8] fix: leave storage untouched when a destroy panics on
 version overflow

force_destroy moved the components out, pushed the destroyed event and
relinked the slots before the slot or archetype version overflow panic
could be raised, and only updated len afterwards. Unwinding out of it left
the removed components inside 0..len (use after free / double drop on the
next access). Check both versions before changing anything.
---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 9f331fd..3efc991 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -550,6 +550,16 @@ macro_rules! declare_storage_n {
                         debug_assert!(slot_index_usize <= self.capacity());
                         debug_assert!(dense_index_usize < self.len);
 
+                        // Either of these may panic if a version overflows, so we need to check
+                        // them here, before we've changed anything, to stay valid if we unwind.
+                        // SAFETY: We know that the slot storage is valid up to our capacity.
+                        let slots = self.slots.slice(self.capacity());
+                        slots
+                            .get_unchecked(slot_index_usize) // SAFETY: See declaration.
+                            .version()
+                            .next();
+                        self.version.next();
+
                         let entities = self.entities.slice(self.len);
                         debug_assert!(entities.len() == self.len);
 
-- 
2.43.0


From 98a7a9470f33f472a357061baa21f1eb44f1e738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 2/8] fix: reject stale direct handles in to_direct

to_direct(EntityDirect) returned its argument unconditionally, so a direct
handle invalidated by a removal was still accepted by this lookup path.
---
 src/archetype/storage.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 3efc991..3357cff 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -672,7 +672,8 @@ macro_rules! declare_storage_n {
 
                 #[inline(always)]
                 fn resolve_direct(&self, entity: EntityDirect<A>) -> Option<EntityDirect<A>> {
-                    Some(entity) // Trivially return, as we're already an EntityDirect
+                    self.resolve_direct(entity)?; // Make sure that this direct entity isn't stale
+                    Some(entity)
                 }
 
                 #[inline]
-- 
2.43.0


From 825238f0309bcbfa1a5d70b3cfb1fce685085d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 3/8] fix: hand out current direct handles in ecs_iter_destroy!

The archetype version was read once before the loop, but it advances with
every destroyed entity, so each direct handle passed to the closure after
the first removal was already stale when issued.
---
 macros/src/generate/query.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index 800635b..d79c7e3 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -439,12 +439,13 @@ pub fn generate_query_iter_destroy(
                     let mut closure = |#(#attrs #arg: &#maybe_mut #Type),*| #body;
 
                     let archetype = #get_archetype;
-                    let version = archetype.version();
                     let len = archetype.len();
 
                     // Iterate in reverse order to still visit each entity once.
                     // Note: This assumes that we remove entities by swapping.
                     for idx in (0..len).rev() {
+                        // This changes with each entity we destroy, so it can't be cached.
+                        let version = archetype.version();
                         let slices = #get_slices;
                         match closure(#(#attrs #bind),*).into() {
                             EcsStepDestroy::Continue => {
-- 
2.43.0


From 8b7ad798ab008f645776026b3928b6d655447e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:42 +0000
Subject: [PATCH 4/8] fix: never resolve a handle that belongs to another
 archetype

In release builds from_any_unchecked produces an Entity<B> carrying the key
of archetype A; lookups only compared position and version, so such a
handle matched whichever entity of B shared them. Compare the archetype id
stored in the key too.
---
 src/archetype/storage.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 3357cff..2c020f7 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -344,6 +344,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // Handles converted with from_any_unchecked may be from another archetype.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // Get the index into the slot array from the entity.
                     let slot_index = entity.slot_index();
 
@@ -400,6 +405,11 @@ macro_rules! declare_storage_n {
                         return None;
                     }
 
+                    // Handles converted with from_any_unchecked may be from another archetype.
+                    if entity.into_any().archetype_id() != A::ARCHETYPE_ID {
+                        return None;
+                    }
+
                     // For direct entities, we compare against the storage version
                     if entity.version() != self.version() {
                         return None;
-- 
2.43.0


From ab28acb2d724c9bcb6f7377b2a83c9e2cffa825d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 5/8] fix: don't leak the partial clone when a component's
 Clone panics

The new columns were raw allocations without an owner until the clone was
complete, so a panicking Clone leaked every component cloned so far along
with the allocations. Build the clone in place, keeping len in step.
---
 src/archetype/storage.rs | 45 +++++++++++++++++++++-------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 2c020f7..81a55a2 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -738,9 +738,22 @@ macro_rules! declare_storage_n {
                 fn clone(&self) -> Self {
                     #(let ref_d~I = self.d~I.borrow();)*
 
-                    let mut new_slots = DataPtr::with_capacity(self.capacity);
-                    let mut new_entities = DataPtr::with_capacity(self.capacity);
-                    #(let mut new_d~I = DataPtr::with_capacity(self.capacity);)*
+                    // Cloning a component may panic, so we build up the clone with its len always
+                    // matching what was written. That way it drops properly if we need to unwind.
+                    let mut result = Self {
+                        len: 0,
+                        version: self.version,
+                        capacity: self.capacity,
+                        free_head: self.free_head,
+                        slots: DataPtr::with_capacity(self.capacity),
+                        entities: DataPtr::with_capacity(self.capacity),
+                        #(d~I: RefCell::new(DataPtr::with_capacity(self.capacity)),)*
+
+                        #[cfg(feature = "events")]
+                        created: self.created.clone(),
+                        #[cfg(feature = "events")]
+                        destroyed: self.destroyed.clone(),
+                    };
 
                     unsafe {
 
@@ -752,31 +765,21 @@ macro_rules! declare_storage_n {
                         for idx in 0..self.capacity {
                             // SAFETY: We know that the slot storage is valid up to our capacity,
                             // and the new storage has no data that needs to be dropped first.
-                            new_slots.write(idx, old_slots.get_unchecked(idx).clone());
+                            result.slots.write(idx, old_slots.get_unchecked(idx).clone());
                         }
 
                         for idx in 0..self.len {
+                            #(let new_~I = old_~I.get_unchecked(idx).clone();)*
+
                             // SAFETY: We know that the slot storage is valid up to our len,
                             // and the new storage has no data that needs to be dropped first.
-                            new_entities.write(idx, old_entities.get_unchecked(idx).clone());
-                            #(new_d~I.write(idx, old_~I.get_unchecked(idx).clone());)*
-                        }
-
-                        Self {
-                            len: self.len,
-                            version: self.version,
-                            capacity: self.capacity,
-                            free_head: self.free_head,
-                            slots: new_slots,
-                            entities: new_entities,
-                            #(d~I: RefCell::new(new_d~I),)*
-
-                            #[cfg(feature = "events")]
-                            created: self.created.clone(),
-                            #[cfg(feature = "events")]
-                            destroyed: self.destroyed.clone(),
+                            result.entities.write(idx, old_entities.get_unchecked(idx).clone());
+                            #(result.d~I.get_mut().write(idx, new_~I);)*
+                            result.len = idx + 1;
                         }
                     }
+
+                    result
                 }
             }
 
-- 
2.43.0


From 005022113a147e1f42ad2d0ed252d44d27e57c41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:01 +0000
Subject: [PATCH 6/8] fix: drop every remaining component when a component's
 Drop panics

A panic in one component's Drop while dropping an archetype leaked every
component after it, all later columns and the column allocations. Own the
columns while dropping so that unwinding finishes the job.
---
 src/archetype/storage.rs | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 81a55a2..8e36f94 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -700,15 +700,15 @@ macro_rules! declare_storage_n {
             {
                 #[inline(always)]
                 fn drop(&mut self) {
-                    // SAFETY: We guarantee that the storage is valid up to self.len.
                     unsafe {
-                        #(self.d~I.get_mut().drop_to(self.len);)*
-                        // We don't need to drop the other stuff since it's all trivial.
-
-                        // For dynamic storage we need to deallocate when dropping.
+                        // We don't need to drop this stuff since it's all trivial, just deallocate.
                         self.slots.dealloc(self.capacity);
                         self.entities.dealloc(self.capacity);
-                        #(self.d~I.get_mut().dealloc(self.capacity);)*
+
+                        // Hand the columns over to something that owns them, so that if dropping
+                        // a component panics, the others are still dropped and deallocated.
+                        // SAFETY: We guarantee that the storage is valid up to self.len.
+                        drop((#(self.d~I.get_mut().take_vec(self.len, self.capacity),)*));
                     };
                 }
             }
@@ -1070,23 +1070,23 @@ impl<T> DataPtr<T> {
         }
     }
 
-    /// Drops all elements in the range `0..len`.
+    /// Moves this array's data block, with all elements in the range `0..len`, into a `Vec`.
     ///
     /// # Safety
     ///
     /// It is up to the caller to guarantee the following:
+    /// - This array has exactly `capacity` elements allocated
     /// - All elements in the range `0..len` are valid
-    /// - `len <= N`
+    /// - `len <= capacity`
+    /// - This array is treated as having a capacity of 0 from here on
     #[inline(always)]
-    unsafe fn drop_to(&mut self, len: usize) {
+    unsafe fn take_vec(&mut self, len: usize, capacity: usize) -> Vec<T> {
+        // SAFETY: The caller guarantees the length and capacity. If we have an allocation, then it
+        // was made by the global allocator with the same layout that a `Vec<T>` would use.
         unsafe {
-            for i in 0..len {
-                let i_ptr = self.0.as_ptr().add(i);
-                // SAFETY: The caller guarantees this element is valid.
-                ptr::drop_in_place(i_ptr as *mut T);
-                ptr::write(i_ptr, MaybeUninit::uninit()); // Hint for Miri
-            }
-        };
+            let data = mem::replace(&mut self.0, NonNull::dangling());
+            Vec::from_raw_parts(data.as_ptr() as *mut T, len, capacity)
+        }
     }
 }
 
-- 
2.43.0


From 869862aef05e496473c950f6c56d21c2348b60e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:30 +0000
Subject: [PATCH 7/8] fix: support cfg attributes on OneOf query parameters

A #[cfg]-decorated OneOf parameter was always rejected, even though every
other kind of parameter supports it. A disabled one now behaves as absent
and an enabled one as if it had no attribute.
---
 macros/src/generate/query.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/macros/src/generate/query.rs b/macros/src/generate/query.rs
index d79c7e3..b6f933a 100644
--- a/macros/src/generate/query.rs
+++ b/macros/src/generate/query.rs
@@ -670,11 +670,13 @@ fn bind_query_params(
                     }
                 }
                 ParseQueryParamType::OneOf(args) => {
-                    if param.cfgs.len() > 0 {
-                        return Err(syn::Error::new(
-                            param.name.span(),
-                            "cfg attributes not currently supported on OneOf",
-                        ));
+                    if param.is_cfg_enabled == false {
+                        // Will be stripped with its cfg, so we only need some valid placeholder
+                        bound.push(ParseQueryParam {
+                            param_type: ParseQueryParamType::EntityAny,
+                            ..param.clone()
+                        });
+                        continue; // Always matches
                     }
 
                     if let Some(found) = bind_one_of(archetype, args)? {
-- 
2.43.0


From 224bc95e750969f5e338848c298620108076ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:18 +0000
Subject: [PATCH 8/8] verif: hook to preset version counters of an empty
 storage (cfg gecs_verif)

---
 src/archetype/slot.rs          |  7 +++++++
 src/archetype/storage.rs       |  4 ++++
 src/archetype/storage_verif.rs | 38 ++++++++++++++++++++++++++++++++++
 src/lib.rs                     |  1 +
 src/version.rs                 |  7 +++++++
 5 files changed, 57 insertions(+)
 create mode 100644 src/archetype/storage_verif.rs

diff --git a/src/archetype/slot.rs b/src/archetype/slot.rs
index 366a052..8c5d2ab 100644
--- a/src/archetype/slot.rs
+++ b/src/archetype/slot.rs
@@ -160,6 +160,13 @@ impl Slot {
     }
 }
 
+#[cfg(gecs_verif)]
+impl Slot {
+    pub(crate) fn verif_preset_version(&mut self, version: std::num::NonZeroU32) {
+        self.version = SlotVersion::new(version);
+    }
+}
+
 // Need to enforce this invariant here just in case.
 // If this isn't true, then we can't trust the FREE_LIST_END value.
 #[test]
diff --git a/src/archetype/storage.rs b/src/archetype/storage.rs
index 8e36f94..1f6ed83 100644
--- a/src/archetype/storage.rs
+++ b/src/archetype/storage.rs
@@ -18,6 +18,10 @@ use crate::traits::{Archetype, EntityKey, StorageCanResolve};
 use crate::util::{debug_checked_assume, num_assert_leq};
 use crate::version::ArchetypeVersion;
 
+#[cfg(gecs_verif)]
+#[path = "storage_verif.rs"]
+mod verif;
+
 macro_rules! declare_storage_n {
     (
         $name:ident,
diff --git a/src/archetype/storage_verif.rs b/src/archetype/storage_verif.rs
new file mode 100644
index 0000000..ad00c15
--- /dev/null
+++ b/src/archetype/storage_verif.rs
@@ -0,0 +1,38 @@
+//! Verification hooks, only built with `--cfg gecs_verif`. Never part of a normal build.
+
+use std::num::NonZeroU32;
+
+use super::*;
+
+macro_rules! declare_storage_verif_n {
+    ($name:ident, $components:ident, $n:literal) => {
+        seq!(I in 0..$n {
+            impl<A: Archetype, #(T~I,)*> $name<A, #(T~I,)*>
+            where
+                A::Components: $components<#(T~I,)*>,
+            {
+                /// Fast-forwards an empty storage to the state it would have after its slots
+                /// were each reused until reaching the given slot version, and its archetype
+                /// version was advanced to the given archetype version.
+                pub fn verif_preset_versions(&mut self, slot: NonZeroU32, arch: NonZeroU32) {
+                    assert!(self.len == 0);
+                    let capacity = self.capacity;
+                    // SAFETY: The slot storage is valid up to our capacity.
+                    for s in unsafe { self.slots.slice_mut(capacity) } {
+                        s.verif_preset_version(slot);
+                    }
+                    self.version = ArchetypeVersion::verif_new(arch);
+                }
+            }
+        });
+    };
+}
+
+seq!(N in 1..=16 {
+    declare_storage_verif_n!(Storage~N, Components~N, N);
+});
+
+#[cfg(feature = "32_components")]
+seq!(N in 17..=32 {
+    declare_storage_verif_n!(Storage~N, Components~N, N);
+});
diff --git a/src/lib.rs b/src/lib.rs
index e9a2920..dfe5aaf 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -3,6 +3,7 @@
 #![allow(clippy::needless_doctest_main)] // this has false positives with gecs's macros
 #![allow(clippy::bool_comparison)] // using "== false" is easier to read in some cases
 #![allow(clippy::len_zero)] // using "len() > 0" is easier to read in some cases
+#![allow(unexpected_cfgs)] // for gecs_verif, set with RUSTFLAGS by verification harnesses
 
 #![cfg_attr(docsrs, feature(doc_auto_cfg))]
 
diff --git a/src/version.rs b/src/version.rs
index 1149a9b..2550303 100644
--- a/src/version.rs
+++ b/src/version.rs
@@ -69,3 +69,10 @@ impl ArchetypeVersion {
         }
     }
 }
+
+#[cfg(gecs_verif)]
+impl ArchetypeVersion {
+    pub(crate) fn verif_new(version: NonZeroU32) -> Self {
+        Self { version }
+    }
+}
-- 
2.43.0

