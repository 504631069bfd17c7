From 1819674fb53b40930cd9bd0e6b3b8817b51f1869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 01/15] fix: UntypedVec::pop returns false for an empty vec of
 zero-sized elements

---
 untyped_vec/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 96c5f89..480feca 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -207,7 +207,7 @@ impl UntypedVec {
                 drop_fn(ptr);
             }
             true
-        } else if self.len >= self.type_info.layout.size() {
+        } else if self.len > 0 {
             self.len -= self.type_info.layout.size();
             let ptr = self.data.as_ptr();
             // Safe because we're offsetting inside of the allocation
-- 
2.43.0


From 14cad04300f5ba261169e2d71ff999cf4ed61a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 02/15] fix: UntypedVec drops its zero-sized elements when it
 is dropped

---
 untyped_vec/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 480feca..568fec2 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -362,9 +362,9 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        if self.cap > 0 {
-            while self.pop() {}
+        while self.pop() {}
 
+        if self.cap > 0 {
             let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
             let ptr = self.data.as_ptr();
 
-- 
2.43.0


From 67969ff99943b80aec8d48956681bda8a08b85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:51 +0000
Subject: [PATCH 03/15] fix: UntypedVec slice views of zero-sized elements no
 longer divide by zero

---
 untyped_vec/src/lib.rs | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 568fec2..fd04052 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -309,13 +309,9 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice<'a, T: 'static>(&'a self) -> &'a [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        // `len` handles zero-sized elements, for which `self.len` is not in bytes
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
@@ -330,13 +326,9 @@ impl UntypedVec {
     #[allow(unused_unsafe)]
     pub unsafe fn as_slice_mut<'a, T: 'static>(&'a mut self) -> &'a mut [T] {
         assert!(self.type_info.layout == core::alloc::Layout::new::<T>());
-        assert!(self.len % self.type_info.layout.size() == 0);
 
-        let slice_len = if self.type_info.layout.size() == 0 {
-            self.len
-        } else {
-            self.len / self.type_info.layout.size()
-        };
+        // `len` handles zero-sized elements, for which `self.len` is not in bytes
+        let slice_len = self.len();
 
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
-- 
2.43.0


From e05bcae87aacbddf94e5dc4b7a38158ea20336c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:04 +0000
Subject: [PATCH 04/15] fix: UntypedVec hands out aligned pointers when it
 holds no allocation

---
 untyped_vec/src/lib.rs | 23 ++++++++++++++++-------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index fd04052..890a474 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -68,6 +68,15 @@ impl UntypedVec {
         self.len / self.type_info.layout.size()
     }
 
+    /// Pointer to the first element. Unlike `self.data` this is aligned for the element type even if nothing is allocated
+    fn element_ptr(&self) -> *mut u8 {
+        if self.cap == 0 {
+            self.type_info.layout.align() as *mut u8
+        } else {
+            self.data.as_ptr()
+        }
+    }
+
     /// Length in bytes
     pub fn raw_len(&self) -> usize {
         self.len
@@ -149,7 +158,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.element_ptr())
             } else {
                 None
             }
@@ -176,7 +185,7 @@ impl UntypedVec {
 
         if self.type_info.layout.size() == 0 {
             if element < self.len {
-                Some(self.data.as_ptr())
+                Some(self.element_ptr())
             } else {
                 None
             }
@@ -200,7 +209,7 @@ impl UntypedVec {
     pub fn pop(&mut self) -> bool {
         if self.type_info.layout.size() == 0 && self.len > 0 {
             self.len -= 1;
-            let ptr = self.data.as_ptr();
+            let ptr = self.element_ptr();
             let ptr = ptr as *mut MaybeUninit<u8>;
 
             if let Some(drop_fn) = self.type_info.drop_fn {
@@ -316,7 +325,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts(self.data.as_ptr() as *const T, slice_len)
+            std::slice::from_raw_parts(self.element_ptr() as *const T, slice_len)
         }
     }
 
@@ -333,7 +342,7 @@ impl UntypedVec {
         unsafe {
             // Safe because we've really failed our job as an untyped vec if the data isnt aligned to T and size of T
             // The size of len * mem::size_of::<T>() cannot be > isize::MAX as we limit the capacity of our vec to less than isize::MAX
-            std::slice::from_raw_parts_mut(self.data.as_ptr() as *mut T, slice_len)
+            std::slice::from_raw_parts_mut(self.element_ptr() as *mut T, slice_len)
         }
     }
 
@@ -341,14 +350,14 @@ impl UntypedVec {
     ///
     /// Must not mutate through this ptr or use it after it has been invalidated
     pub unsafe fn as_immut_ptr(&self) -> *const u8 {
-        self.data.as_ptr()
+        self.element_ptr()
     }
 
     /// # Safety
     ///
     /// Must not use this ptr after it has been invalidated
     pub unsafe fn as_mut_ptr(&mut self) -> *mut u8 {
-        self.data.as_ptr()
+        self.element_ptr()
     }
 }
 
-- 
2.43.0


From 321d092568b7554e46dfa804398b56444bc05831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 05/15] fix: UntypedVec refuses to move an out-of-range
 zero-sized element

---
 untyped_vec/src/lib.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index 890a474..d18b2b9 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -242,9 +242,7 @@ impl UntypedVec {
     ) {
         assert!(self.type_info == other.type_info);
         assert!(self.len > 0);
-        assert!(
-            self.type_info.layout.size() == 0 || element < self.len / self.type_info.layout.size()
-        );
+        assert!(element < self.len());
 
         let data: *mut MaybeUninit<u8> = self.data.as_ptr() as *mut MaybeUninit<u8>;
 
-- 
2.43.0


From 16277128f268072ab16e06b0f6f113645f5e4a41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 06/15] fix: get_component_mut_dynamic returns None when the
 entity lacks the component

---
 arche_tape/src/world.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 6381270..dbddb94 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -866,7 +866,7 @@ impl World {
         };
         let archetype = &mut self.archetypes[archetype_idx.0];
 
-        let component_storage_idx = archetype.comp_lookup[&comp_id];
+        let component_storage_idx = *archetype.comp_lookup.get(&comp_id)?;
 
         Some(
             archetype.component_storages[component_storage_idx]
-- 
2.43.0


From f5ef2bc2651123c9321c469abefcd3189ab8afb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:22 +0000
Subject: [PATCH 07/15] fix: a typed query of a registered but never used
 component yields nothing instead of panicking

---
 arche_tape/src/static_query.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index 9496b25..db32a25 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -237,6 +237,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static mut T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // A registered component that has never been in an archetype has no lock, and no entity can have it
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Mut(id))
     }
 
@@ -259,6 +261,8 @@ impl<'a, T: Component> QueryParam<'a> for &'static T {
 
     fn fetch_type(world: &World) -> Option<FetchType> {
         let id = *world.type_id_to_ecs_id.get(&TypeId::of::<T>())?;
+        // A registered component that has never been in an archetype has no lock, and no entity can have it
+        world.lock_lookup.get(&id)?;
         Some(FetchType::Immut(id))
     }
 
-- 
2.43.0


From df357ceecf1a2538695ba3c1c77c3a53223ebcdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:25 +0000
Subject: [PATCH 08/15] fix: EntityBuilder::build consumes the builder so that
 an entity cannot be built twice

---
 arche_tape/src/entity_builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 707178d..3f789a3 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -226,7 +226,7 @@ impl<'a> EntityBuilder<'a> {
         unsafe { self.with_dynamic_with_data(&mut component as *mut _ as *mut _, component_id) }
     }
 
-    pub fn build(&mut self) -> EcsId {
+    pub fn build(mut self) -> EcsId {
         use crate::world::{ArchIndex, EntityMeta, InstanceMeta};
         if let Some(arch_index) = self.world.find_archetype_dynamic(&self.comp_ids) {
             self.world.archetypes[arch_index.0]
-- 
2.43.0


From 3dd4e8d817165a02bab035f560841381c2da8a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:07 +0000
Subject: [PATCH 09/15] fix: EntityBuilder refuses a duplicate component before
 touching the world

---
 arche_tape/src/entity_builder.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 3f789a3..3784878 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -160,11 +160,20 @@ impl<'a> EntityBuilder<'a> {
         }
     }
 
+    // This has to be checked before anything is changed, `find_archetype_dynamic` can't handle duplicate ids
+    fn assert_not_added(&self, component_id: EcsId) {
+        assert!(
+            !self.comp_ids.contains(&component_id),
+            "Attempted to add the same component twice in EntityBuilder"
+        );
+    }
+
     /// Adds an entity as a dataless component
     ///
     /// This method will panic if a component with the ID of component_id expects data. Entities by default expect no data.
     #[must_use]
     pub fn with_dynamic(mut self, component_id: EcsId) -> Self {
+        self.assert_not_added(component_id);
         assert!(
             self.world
                 .get_entity_meta(component_id)
@@ -191,7 +200,7 @@ impl<'a> EntityBuilder<'a> {
         component: *mut u8,
         component_id: EcsId,
     ) -> Self {
-        self.comp_ids.push(component_id);
+        self.assert_not_added(component_id);
         let component_size = self
             .world
             .get_entity_meta(component_id)
@@ -214,6 +223,7 @@ impl<'a> EntityBuilder<'a> {
             );
         }
         self.len += component_size;
+        self.comp_ids.push(component_id);
         self.num_components += 1;
 
         self
-- 
2.43.0


From 5a53959491ac3534a3af1c0ccb58cc2da7b117c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:08 +0000
Subject: [PATCH 10/15] fix: an abandoned EntityBuilder drops its components
 and releases its entity

---
 arche_tape/src/entity_builder.rs | 21 +++++++++++++++++++++
 arche_tape/src/world.rs          |  2 +-
 2 files changed, 22 insertions(+), 1 deletion(-)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 3784878..9f9e6e3 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -27,6 +27,27 @@ pub struct EntityBuilder<'a> {
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
+        // Metadata is only set by building, without it we still own the components and nobody has the id of the entity
+        if self.world.get_entity_meta(self.entity).is_none() {
+            let mut data_ptr = self.data.as_ptr();
+            for &comp_id in &self.comp_ids {
+                let ComponentMeta { layout, drop_fn } = self
+                    .world
+                    .get_entity_meta(comp_id)
+                    .unwrap()
+                    .component_meta
+                    .clone();
+
+                // `self.data` is not aligned for the component, so move it somewhere that is in order to drop it
+                unsafe {
+                    let mut component = UntypedVec::new_from_raw(TypeInfo::new(layout, drop_fn));
+                    component.push_raw(data_ptr.cast());
+                    data_ptr = data_ptr.add(layout.size());
+                }
+            }
+            self.world.entities.despawn(self.entity);
+        }
+
         // If it never allocated, don't drop
         if self.cap != 0 {
             if let None = self.world.entity_builder_reuse {
diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index dbddb94..3232fba 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -263,7 +263,7 @@ pub struct World {
     pub(crate) archetype_bitset: Bitsetsss,
     pub(crate) entities_bitvec: Bitvec,
 
-    entities: Entities,
+    pub(crate) entities: Entities,
 
     ecs_id_meta: Vec<Option<EntityMeta>>,
     pub(crate) type_id_to_ecs_id: HashMap<TypeId, EcsId, crate::utils::TypeIdHasherBuilder>,
-- 
2.43.0


From bf42b066d152b159ff5eadf12b2cdd68c82a953f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:09 +0000
Subject: [PATCH 11/15] fix: despawning an entity removes it as a component
 instead of panicking

Its type, if it stood for one, is forgotten too: the id left in the type lookup
made adding the component do nothing and building with it panic.
---
 arche_tape/src/world.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index 3232fba..f7cba40 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -341,12 +341,18 @@ impl World {
             return false;
         }
 
-        // TODO: Remove `entity` component from all entities
-        for arch in &self.archetypes {
-            if let Some(_) = arch.comp_lookup.get(&entity) {
-                todo!();
+        // Remove the `entity` component from all entities. Archetypes with it are left empty, clearing their bit makes sure
+        // they are never found again, bits are per index so they would be by an entity that reuses the index of this one
+        for idx in 0..self.archetypes.len() {
+            if self.archetypes[idx].comp_lookup.contains_key(&entity) {
+                while let Some(&holder) = self.archetypes[idx].entities.last() {
+                    self.remove_component_dynamic(holder, entity);
+                }
+                self.archetype_bitset.set_bit(entity, idx, false);
             }
         }
+        self.lock_lookup.remove(&entity);
+        self.type_id_to_ecs_id.retain(|_, id| *id != entity);
 
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
-- 
2.43.0


From a307bb3d8ea5026da44febe84c4619b64475e09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:10 +0000
Subject: [PATCH 12/15] fix: C10 a panic while a mutating query exists refuses
 the component to every later query

---
 arche_tape/src/dyn_query.rs    |  4 ++--
 arche_tape/src/lib.rs          | 16 ++++++++++++++--
 arche_tape/src/static_query.rs |  4 ++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/arche_tape/src/dyn_query.rs b/arche_tape/src/dyn_query.rs
index 28e305b..c5c788d 100644
--- a/arche_tape/src/dyn_query.rs
+++ b/arche_tape/src/dyn_query.rs
@@ -171,8 +171,8 @@ impl<'a, const N: usize> DynQuery<'a, N> {
             if let Some(&idx) = world.lock_lookup.get(ecs_id) {
                 let lock = &world.locks[idx];
                 match fetch {
-                    FetchType::Mut(_) => *guard = EitherGuard::Write(lock.write().unwrap()),
-                    FetchType::Immut(_) => *guard = EitherGuard::Read(lock.read().unwrap()),
+                    FetchType::Mut(_) => *guard = EitherGuard::write(lock),
+                    FetchType::Immut(_) => *guard = EitherGuard::read(lock),
                     _ => (),
                 }
             } else {
diff --git a/arche_tape/src/lib.rs b/arche_tape/src/lib.rs
index 140d04c..6f0ac6c 100644
--- a/arche_tape/src/lib.rs
+++ b/arche_tape/src/lib.rs
@@ -43,8 +43,8 @@ mod tests {
 
 pub(crate) mod utils {
     use std::hash::Hasher;
-    use std::{convert::TryInto, sync::RwLockReadGuard};
-    use std::{hash::BuildHasher, sync::RwLockWriteGuard};
+    use std::sync::{PoisonError, RwLock, RwLockReadGuard, RwLockWriteGuard};
+    use std::{convert::TryInto, hash::BuildHasher};
 
     pub enum EitherGuard<'a> {
         Read(RwLockReadGuard<'a, ()>),
@@ -52,6 +52,18 @@ pub(crate) mod utils {
         None,
     }
 
+    // The locks guard no data of their own, a panic while one was held leaves nothing behind that would be a reason to
+    // refuse every later query over the component
+    impl<'a> EitherGuard<'a> {
+        pub fn read(lock: &'a RwLock<()>) -> Self {
+            Self::Read(lock.read().unwrap_or_else(PoisonError::into_inner))
+        }
+
+        pub fn write(lock: &'a RwLock<()>) -> Self {
+            Self::Write(lock.write().unwrap_or_else(PoisonError::into_inner))
+        }
+    }
+
     #[derive(Default)]
     pub struct TypeIdHasher(u64);
 
diff --git a/arche_tape/src/static_query.rs b/arche_tape/src/static_query.rs
index db32a25..4097505 100644
--- a/arche_tape/src/static_query.rs
+++ b/arche_tape/src/static_query.rs
@@ -62,8 +62,8 @@ macro_rules! impl_query_tuple {
                     Some([$($T,)*]) => {
                         [$(
                             match $T {
-                                FetchType::Mut(id) => EitherGuard::Write(world.locks[world.lock_lookup[id]].write().unwrap()),
-                                FetchType::Immut(id) => EitherGuard::Read(world.locks[world.lock_lookup[id]].read().unwrap()),
+                                FetchType::Mut(id) => EitherGuard::write(&world.locks[world.lock_lookup[id]]),
+                                FetchType::Immut(id) => EitherGuard::read(&world.locks[world.lock_lookup[id]]),
                                 FetchType::EcsId => EitherGuard::None,
                             },
                         )*]
-- 
2.43.0


From cff29f3a4b843e1d7888ba3f0983f7ef2d94294f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 13/15] fix: a destructor that panics during despawn or
 remove_component left the columns of its group at different lengths

---
 arche_tape/src/world.rs | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/arche_tape/src/world.rs b/arche_tape/src/world.rs
index f7cba40..d3d453b 100644
--- a/arche_tape/src/world.rs
+++ b/arche_tape/src/world.rs
@@ -178,13 +178,6 @@ impl Archetype {
     ) -> bool {
         assert!(self.entities[entity_idx] == entity);
         self.entities.swap_remove(entity_idx);
-        for storage in self
-            .component_storages
-            .iter_mut()
-            .map(|(_, cell)| cell.get_mut())
-        {
-            storage.swap_remove(entity_idx);
-        }
         entity_metas[entity.uindex()] = None;
 
         if let Some(&swapped_entity) = self.entities.get(entity_idx) {
@@ -195,6 +188,22 @@ impl Archetype {
                 .index = entity_idx;
         }
 
+        // Last, and for every storage even if a destructor panics: all of them always have as many elements as there are entities
+        struct RemoveRow<'a>(core::slice::IterMut<'a, (EcsId, UnsafeCell<UntypedVec>)>, usize);
+        impl RemoveRow<'_> {
+            fn run(&mut self) {
+                while let Some((_, cell)) = self.0.next() {
+                    cell.get_mut().swap_remove(self.1);
+                }
+            }
+        }
+        impl Drop for RemoveRow<'_> {
+            fn drop(&mut self) {
+                self.run();
+            }
+        }
+        RemoveRow(self.component_storages.iter_mut(), entity_idx).run();
+
         false
     }
 
@@ -357,8 +366,8 @@ impl World {
         let InstanceMeta { archetype, index } =
             self.get_entity_meta(entity).unwrap().instance_meta.clone();
 
-        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         self.entities.despawn(entity);
+        self.archetypes[archetype.0].despawn(entity, index, &mut self.ecs_id_meta);
         true
     }
 
@@ -831,11 +840,6 @@ impl World {
             skipped_storage = Some(current_archetype.component_storages.len() - 1);
         }
 
-        current_archetype.component_storages[skipped_storage.unwrap()]
-            .1
-            .get_mut()
-            .swap_remove(entity_idx);
-
         target_archetype.entities.push(entity);
         self.ecs_id_meta[entity.uindex()]
             .as_mut()
@@ -853,6 +857,12 @@ impl World {
                 .instance_meta
                 .index = entity_idx;
         }
+
+        // Last, the destructor of the component could panic
+        current_archetype.component_storages[skipped_storage.unwrap()]
+            .1
+            .get_mut()
+            .swap_remove(entity_idx);
     }
 
     pub fn get_component_mut_dynamic(&mut self, entity: EcsId, comp_id: EcsId) -> Option<*mut u8> {
-- 
2.43.0


From 680a91c8f8cc73d328aacd53ba64929f4bec7531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 14/15] fix: a destructor that panics during the drop of an
 EntityBuilder leaked the other components and the entity

---
 arche_tape/src/entity_builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/arche_tape/src/entity_builder.rs b/arche_tape/src/entity_builder.rs
index 9f9e6e3..7e967fe 100644
--- a/arche_tape/src/entity_builder.rs
+++ b/arche_tape/src/entity_builder.rs
@@ -27,6 +27,9 @@ pub struct EntityBuilder<'a> {
 
 impl<'a> Drop for EntityBuilder<'a> {
     fn drop(&mut self) {
+        // Dropped after everything else, their destructors could panic
+        let mut components = Vec::new();
+
         // Metadata is only set by building, without it we still own the components and nobody has the id of the entity
         if self.world.get_entity_meta(self.entity).is_none() {
             let mut data_ptr = self.data.as_ptr();
@@ -42,6 +45,7 @@ impl<'a> Drop for EntityBuilder<'a> {
                 unsafe {
                     let mut component = UntypedVec::new_from_raw(TypeInfo::new(layout, drop_fn));
                     component.push_raw(data_ptr.cast());
+                    components.push(component);
                     data_ptr = data_ptr.add(layout.size());
                 }
             }
-- 
2.43.0


From 65597d24ffd9cde821b65995c4ee21d1e51df8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:11 +0000
Subject: [PATCH 15/15] fix: a destructor that panics during the drop of an
 UntypedVec leaked the other elements and the allocation

---
 untyped_vec/src/lib.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/untyped_vec/src/lib.rs b/untyped_vec/src/lib.rs
index d18b2b9..fb3c60d 100644
--- a/untyped_vec/src/lib.rs
+++ b/untyped_vec/src/lib.rs
@@ -361,17 +361,28 @@ impl UntypedVec {
 
 impl Drop for UntypedVec {
     fn drop(&mut self) {
-        while self.pop() {}
-
-        if self.cap > 0 {
-            let layout = Layout::from_size_align(self.cap, self.type_info.layout.align()).unwrap();
-            let ptr = self.data.as_ptr();
-
-            // Safe because we allocate this memory ourself so it must be from this allocator.
-            // Safe because when we allocate memory we set cap to the size we used in the layout and
-            // the align we use for the allocation is always self.type_info.layout.align()
-            unsafe { dealloc(ptr, layout) }
+        // Goes on with the other elements when a destructor panics
+        struct Rest<'a>(&'a mut UntypedVec);
+        impl Drop for Rest<'_> {
+            fn drop(&mut self) {
+                while self.0.pop() {}
+
+                if self.0.cap > 0 {
+                    let layout =
+                        Layout::from_size_align(self.0.cap, self.0.type_info.layout.align())
+                            .unwrap();
+                    let ptr = self.0.data.as_ptr();
+
+                    // Safe because we allocate this memory ourself so it must be from this allocator.
+                    // Safe because when we allocate memory we set cap to the size we used in the layout and
+                    // the align we use for the allocation is always self.type_info.layout.align()
+                    unsafe { dealloc(ptr, layout) }
+                }
+            }
         }
+
+        let rest = Rest(self);
+        while rest.0.pop() {}
     }
 }
 
-- 
2.43.0

