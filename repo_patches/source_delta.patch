From 572fb5826282f3f0a381f367fffc0758793b2228 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 1/8] fix: detaching a component an entity never had must
 return None

SparseSet::remove compared the id with the sparse array length using '<',
so the first id past the end indexed out of bounds and panicked.
---
 src/sparse_set.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index 20eafc6..d3d789c 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -67,7 +67,7 @@ impl<E,T> SparseSet<E,T>
 
     pub fn remove(&mut self,entity : E) -> Option<T> {
         let entity : usize = entity.into();
-        if self.indices.len() < entity {
+        if self.indices.len() <= entity {
             return None;
         }
         if let Some(index) = self.indices[entity] {
-- 
2.43.0


From fedcd47f8f7e4f974edae087aeb9074a8835183a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 2/8] fix: asking about an id that was never allocated must not
 panic

World::exist, World::entity and remove_entity indexed the flag table with
any id the caller passed, so an id beyond the table panicked with an index
error instead of being reported as non-existent.
---
 src/entity.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 9c5ff3f..b05a6e9 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -266,7 +266,7 @@ impl EntityManager {
     // Do nothing if entity_id not exist
     pub(in crate) fn remove(&mut self,entity_id : EntityId) {
         let entity_id_ = entity_id.get();
-        if let EntityFlag::Unavailable(index) = self.entity_flags[entity_id_] {
+        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
             // unwrap safe: in this branch, we must have one entity at least
             let the_last_one_id = self.entities.last().unwrap();
             // move this entity to the end of entities
@@ -279,7 +279,7 @@ impl EntityManager {
     }
 
     pub(in crate) fn has(&self,entity_id : EntityId) -> bool {
-        if let EntityFlag::Unavailable(_) = self.entity_flags[entity_id.get()] {
+        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
             true
         } else {
             false
-- 
2.43.0


From 96a71f6e684375e774d0aefe892f4883d2eaf460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 3/8] fix: a removed entity must no longer exist

The free chain was terminated with EntityFlag::Unavailable(0), so the first
removed id kept a flag that means 'in use': exist() stayed true for it and
removing it again corrupted the entity table. The end of the chain is now
Available(None).
---
 src/entity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index b05a6e9..1a5ac8d 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -194,8 +194,8 @@ impl<'a> Entities<'a> {
 
 #[derive(Debug,Copy,Clone)]
 enum EntityFlag{
-    /// store the next available EntityID
-    Available(EntityId),
+    /// store the next available EntityID, None at the end of the chain
+    Available(Option<EntityId>),
     /// store the index of EntityID in entities array
     Unavailable(usize)
 }
@@ -204,8 +204,8 @@ enum EntityFlag{
 pub(in crate) struct EntityManager {
     // entity_flags[0] : Because the ID 0 is not a valid ID,
     //     so the first one can be used to store the last removed ID
-    //     Unavailable(_)      -> there is no entityID for reuse
-    //     Available(EntityID) -> the EntityID
+    //     Available(None)           -> there is no entityID for reuse
+    //     Available(Some(EntityID)) -> the EntityID
     entity_flags : Vec<EntityFlag>,
     entities : Vec<EntityId>,
 }
@@ -213,7 +213,7 @@ pub(in crate) struct EntityManager {
 impl EntityManager {
     pub(in crate) fn new() -> EntityManager {
         EntityManager {
-            entity_flags: vec![EntityFlag::Unavailable(0)],
+            entity_flags: vec![EntityFlag::Available(None)],
             entities: vec![]
         }
     }
@@ -221,7 +221,7 @@ impl EntityManager {
     pub(in crate) fn allocate(&mut self) -> EntityId {
         //safe here:
         // the entity_flags[0] cannot be removed
-        if let EntityFlag::Available(last_id) = self.entity_flags.first().unwrap() {
+        if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {
             let last_id = *last_id;
             //we got an id can be reused
             let new_id = self.entity_flags[last_id.get()];
@@ -274,7 +274,7 @@ impl EntityManager {
             self.entities.swap_remove(index);
             // keep these destroyed ids being a chain
             self.entity_flags[entity_id_] = self.entity_flags[0];
-            self.entity_flags[0] = EntityFlag::Available(entity_id);
+            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
         }
     }
 
-- 
2.43.0


From 0f4100cc8e6e5ab613547a6559f9f4d373f77f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 4/8] fix: batch attach must overwrite components that already
 exist

SparseSet::add_batch appended to the dense arrays without looking at the
sparse array, so attaching the same component type to a batch twice left
duplicate, partly unreachable dense entries behind.
---
 src/sparse_set.rs | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/src/sparse_set.rs b/src/sparse_set.rs
index d3d789c..ac0c213 100644
--- a/src/sparse_set.rs
+++ b/src/sparse_set.rs
@@ -45,23 +45,11 @@ impl<E,T> SparseSet<E,T>
         }
     }
 
-    pub fn add_batch(&mut self,entities : &[E],mut data : Vec<T>) {
+    pub fn add_batch(&mut self,entities : &[E],data : Vec<T>) {
         assert_eq!(entities.len(),data.len());
-        let start_index = self.entities.len();
-        // copy data to dense
-        self.entities.extend_from_slice(entities);
-        self.data.append(&mut data);
-        // store data in sparse
-        for (index,entity) in entities.iter().enumerate() {
-            let entity_ : usize = (*entity).into();
-            // enlarge sparse
-            while self.indices.len() <= entity_ {
-                self.indices.push(None);
-            }
-            // store index to sparse
-            self.indices[entity_] = Some(unsafe {
-                NonZeroUsize::new_unchecked(start_index + index + 1)
-            });
+        for (entity,data) in entities.iter().zip(data) {
+            // an entity may already be in here, add() overwrites its data
+            self.add(*entity,data);
         }
     }
 
-- 
2.43.0


From 23cd38bbc15c2c99ac012f2957e0936c54311381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 5/8] fix: removing an entity must take it out of every group
 it is in

World::remove_entity removed the components of an owning group's member
before the remaining groups were updated. A second group sharing one of the
components then no longer saw the entity as a member and kept it.
---
 src/world.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/world.rs b/src/world.rs
index ad3bcc7..b83573f 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -111,7 +111,9 @@ impl World {
                 groups.push(group.write());
             };
         }
-        // remove entity in group and its storages
+        // remove entity in groups
+        // its components are removed after it left all groups,
+        // because a group looks it up in both storages
         for mut group in groups {
             match &mut *group{
                 Group::FullOwning(data) => {
@@ -119,15 +121,12 @@ impl World {
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let mut comp_b = self.raw_storage_write(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&mut comp_b);
-                    comp_a.remove(entity_id);
-                    comp_b.remove(entity_id);
                 },
                 Group::PartialOwning(data) => {
                     let (type_a,type_b) = data.types();
                     let mut comp_a = self.raw_storage_write(type_a).unwrap();
                     let comp_b = self.raw_storage_read(type_b).unwrap();
                     data.remove(entity_id,&mut comp_a,&comp_b);
-                    comp_a.remove(entity_id);
                 }
                 Group::NonOwning(data) => {
                     let (type_a,type_b) = data.types();
@@ -137,7 +136,7 @@ impl World {
                 },
             }
         }
-        // remove entity in other storages
+        // remove entity in storages
         let mut storages = vec![];
         for storage in self.components.values() {
             let need_remove = {
-- 
2.43.0


From fb4bd000b4061153492f4bcebe9ded71141d474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:30 +0000
Subject: [PATCH 6/8] fix: a rejected make_group must leave no group behind

make_group pushed the group before it found out that a component was not
registered. After that panic the world kept a group without storages and
every later remove_entity panicked.
---
 src/world.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/world.rs b/src/world.rs
index b83573f..ece2269 100644
--- a/src/world.rs
+++ b/src/world.rs
@@ -255,11 +255,15 @@ impl World {
     /// Make a [group](crate::group) to accelerate the iteration.
     /// ## Panics
     /// * Panic if ```group``` is the same as another group in [World](crate::world::World).
+    /// * Panic if component is not registered.
     /// * Panic if component is owned by another group.
     pub fn make_group<G : Into<Group> + 'static + Copy>(&mut self, group: G) {
         assert!(!self.has_group(group),
                 "World: Cannot make group because world has a same group");
         let group = group.into();
+        let (type_a,type_b) = group.types();
+        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),
+                "World: Cannot make group because component was not registered in world");
         assert!(
             {
                 let mut ok = true;
-- 
2.43.0


From 8a43dec5520150d9c28f9e79ac692e665e56a197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:45 +0000
Subject: [PATCH 7/8] fix: batch attach must maintain the groups

Entities::attach filled the storage but never told the groups of that
component, so entities created in a batch were missing from every existing
group and its queries.
---
 src/entity.rs | 46 ++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/entity.rs b/src/entity.rs
index 1a5ac8d..4dbf02e 100644
--- a/src/entity.rs
+++ b/src/entity.rs
@@ -166,20 +166,50 @@ impl<'a> Entities<'a> {
         let components : Vec<T> = components.into();
         assert_eq!(components.len(),count);
         let type_id = TypeId::of::<T>();
-        let mut sparse_set = self.world.raw_storage_write(type_id)
-            .expect("Entities:Cannot attach component because components has not been registered.");
-        // Safety:
-        // sparse_set is SparseSet<EntityId,T>
-        let sparse_set = unsafe {
-            sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
-        };
         // create Id slice
         let ids = (self.ids.start.get()..self.ids.end.get())
             // Safety:
             // Safe here id cannot be zero 
             .map(|id|unsafe{EntityId::new_unchecked(id)})
             .collect::<Vec<_>>();
-        sparse_set.add_batch(&ids,components);
+        {
+            let mut sparse_set = self.world.raw_storage_write(type_id)
+                .expect("Entities:Cannot attach component because components has not been registered.");
+            // Safety:
+            // sparse_set is SparseSet<EntityId,T>
+            let sparse_set = unsafe {
+                sparse_set.downcast_mut::<SparseSet<EntityId,T>>()
+            };
+            sparse_set.add_batch(&ids,components);
+        }
+        for mut group in self.world.groups(type_id) {
+            match &mut *group {
+                Group::FullOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                    let mut comp_b = self.world.raw_storage_write(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&mut comp_b);
+                    }
+                },
+                Group::PartialOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
+                    let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&mut comp_a,&comp_b);
+                    }
+                },
+                Group::NonOwning(data) => {
+                    let (type_a,type_b) = data.types();
+                    let comp_a = self.world.raw_storage_read(type_a).unwrap();
+                    let comp_b = self.world.raw_storage_read(type_b).unwrap();
+                    for id in &ids {
+                        data.add(*id,&comp_a,&comp_b);
+                    }
+                }
+            }
+        }
         self
     }
 
-- 
2.43.0


From 11fe64fbde3722f89aac53841284d5b0b0779ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:08 +0000
Subject: [PATCH 8/8] fix: a non-owning group must follow components that move

---
 src/group/non_owning/mod.rs   |  17 ++-
 src/group/non_owning/query.rs | 188 ++++++++++++----------------------
 2 files changed, 70 insertions(+), 135 deletions(-)

diff --git a/src/group/non_owning/mod.rs b/src/group/non_owning/mod.rs
index b4db15f..411f6ab 100644
--- a/src/group/non_owning/mod.rs
+++ b/src/group/non_owning/mod.rs
@@ -13,7 +13,7 @@ pub use query::{
 
 
 pub struct NonOwningData {
-    sparse_set : SparseSet<EntityId,(usize,usize)>,
+    sparse_set : SparseSet<EntityId,()>,
     type_a : TypeId,
     type_b : TypeId
 }
@@ -67,12 +67,7 @@ impl NonOwningData {
             return;
         }
 
-        // get index in component storage
-        // This unwrap never fails because the in_components() ensures that it's already in components.
-        let index_a = comp_a.index(id).unwrap();
-        let index_b = comp_b.index(id).unwrap();
-
-        self.sparse_set.add(id,(index_a,index_b));
+        self.sparse_set.add(id,());
     }
 
     pub(in crate) fn remove(&mut self,
@@ -101,8 +96,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_a.id(index_a).unwrap();
-                if let Some(index_b) = comp_b.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_b.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         } else {
@@ -110,8 +105,8 @@ impl NonOwningData {
                 // Unwrap here never fails
                 // the for loop ensures this
                 let entity_id = comp_b.id(index_b).unwrap();
-                if let Some(index_a) = comp_a.index(entity_id) {
-                    self.sparse_set.add(entity_id,(index_a,index_b));
+                if comp_a.has(entity_id) {
+                    self.sparse_set.add(entity_id,());
                 }
             }
         }
diff --git a/src/group/non_owning/query.rs b/src/group/non_owning/query.rs
index 9203f23..f712100 100644
--- a/src/group/non_owning/query.rs
+++ b/src/group/non_owning/query.rs
@@ -5,7 +5,7 @@ use super::NonOwning;
 
 pub struct IterRefRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -70,8 +70,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -79,14 +79,10 @@ impl<'a,A: Component,B : Component> Iterator for IterRefRef<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -111,15 +107,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -138,23 +130,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -170,7 +155,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefRef<'a,A,B> {
 
 pub struct IterRefMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *const SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -235,8 +220,8 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -244,14 +229,10 @@ impl<'a,A: Component,B : Component> Iterator for IterRefMut<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -276,15 +257,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &*self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -303,23 +280,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &*self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data().get_unchecked(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -335,7 +305,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterRefMut<'a,A,B> {
 
 pub struct IterMutRef<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *const SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -400,8 +370,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -409,14 +379,10 @@ impl<'a,A: Component,B : Component> Iterator for IterMutRef<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -441,15 +407,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &*self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -468,23 +430,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &*self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data().get_unchecked(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
@@ -501,7 +456,7 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutRef<'a,A,B> {
 
 pub struct IterMutMut<'a,A,B> {
     index: usize,
-    sparse_set_group: *const SparseSet<EntityId,(usize,usize)>,
+    sparse_set_group: *const SparseSet<EntityId,()>,
     sparse_set_a: *mut SparseSet<EntityId,A>,
     sparse_set_b: *mut SparseSet<EntityId,B>,
     #[allow(unused)]
@@ -566,8 +521,8 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
         if self.index < group.len() {
             // Safety:
             // we checked in if condition
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
+            let id = *unsafe {
+                group.entities().get_unchecked(self.index)
             };
             // Safety:
             // Safe here, because self.sparse_set is 
@@ -575,14 +530,10 @@ impl<'a,A: Component,B : Component> Iterator for IterMutMut<'a,A,B> {
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((data_a,data_b))
         } else {
@@ -607,15 +558,11 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
         let group = unsafe { &*self.sparse_set_group };
         let sparse_set_a = unsafe { &mut *self.sparse_set_a };
         let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-        if let Some((index_a,index_b)) = group.get(id) {
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+        if group.exist(id) {
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             Some((data_a,data_b))
         } else {
             None
@@ -634,23 +581,16 @@ impl<'a,A : Component,B : Component> QueryIterator for IterMutMut<'a,A,B> {
             let id = *unsafe {
                 group.entities().get_unchecked(self.index)
             };
-            let (index_a,index_b) = unsafe {
-                group.data().get_unchecked(self.index)
-            };
             // Safety:
             // Safe here, because these are
             // pointers from borrow,
             // This pointer is valid now.
             let sparse_set_a = unsafe { &mut *self.sparse_set_a };
             let sparse_set_b = unsafe { &mut *self.sparse_set_b };
-            // Safety:
-            // Safe here, because the index stored in group is valid.
-            let data_a = unsafe {
-                sparse_set_a.data_mut().get_unchecked_mut(*index_a)
-            };
-            let data_b = unsafe {
-                sparse_set_b.data_mut().get_unchecked_mut(*index_b)
-            };
+            // Unwrap here
+            // An entity in the group always has both components.
+            let data_a = sparse_set_a.get_mut(id).unwrap();
+            let data_b = sparse_set_b.get_mut(id).unwrap();
             self.index += 1;
             Some((id,(data_a,data_b)))
         } else {
-- 
2.43.0

