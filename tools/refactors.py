#!/usr/bin/env python3
"""developer tool: edits of /repo that keep the behaviour; the deductive part should stay quiet, and preferably still prove.
usage: refactors.py [name ...]   (works on scratch copies; with --check also runs check.py's whole verdict is left to runbugs-like use)"""
import sys, os, subprocess, tempfile, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
R = {}
def ref(name, file, *subs): R[name] = [(file, a, b) for a, b in subs]
E, S, W = 'src/entity.rs', 'src/sparse_set.rs', 'src/world.rs'
FO, PO, NO = ('src/group/%s/mod.rs' % k for k in ('full_owning', 'partial_owning', 'non_owning'))
ref('alloc-helper', E, ('''            //full
            let id = self.entity_flags.len();
            // safe here because id cannot be zero
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
            self.entity_flags.push(EntityFlag::Unavailable(self.entities.len() - 1));
            //safe here because this id can't be 0
            id
        }
    }
''', '''            self.allocate_fresh()
        }
    }

    fn allocate_fresh(&mut self) -> EntityId {
        let id = self.entity_flags.len();
        let id = unsafe { EntityId::new_unchecked(id) };
        self.entities.push(id);
        self.entity_flags.push(EntityFlag::Unavailable(self.entities.len() - 1));
        id
    }
'''))
ref('alloc-match', E, ('if let EntityFlag::Available(Some(last_id)) = self.entity_flags.first().unwrap() {\n            let last_id = *last_id;', 'if let EntityFlag::Available(Some(last_id)) = self.entity_flags[0] {'))
ref('alloc-order', E, ('''            self.entities.push(last_id);
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len() - 1);
            self.entity_flags[0] = new_id;
''', '''            self.entity_flags[0] = new_id;
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len());
            self.entities.push(last_id);
'''))
ref('allocn-one-loop', E, ('''        for i in start_index..end_index {
            self.entity_flags.push(EntityFlag::Unavailable(i));
        }
        for id in start_id..end_id {
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
        }
''', '''        for k in 0..n {
            self.entity_flags.push(EntityFlag::Unavailable(start_index + k));
            let id = unsafe { EntityId::new_unchecked(start_id + k) };
            self.entities.push(id);
        }
'''), ('        let end_index = start_index + n;\n', ''))
ref('allocn-swap-loops', E, ('''        for i in start_index..end_index {
            self.entity_flags.push(EntityFlag::Unavailable(i));
        }
        for id in start_id..end_id {
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
        }
''', '''        for id in start_id..end_id {
            let id = unsafe { EntityId::new_unchecked(id) };
            self.entities.push(id);
        }
        for i in start_index..end_index {
            self.entity_flags.push(EntityFlag::Unavailable(i));
        }
'''))
ref('em-remove-helper', E, ('''            // keep these destroyed ids being a chain
            self.entity_flags[entity_id_] = self.entity_flags[0];
            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
        }
    }
''', '''            self.chain(entity_id);
        }
    }

    /// keep these destroyed ids being a chain
    fn chain(&mut self,id : EntityId) {
        self.entity_flags[id.get()] = self.entity_flags[0];
        self.entity_flags[0] = EntityFlag::Available(Some(id));
    }
'''))
ref('em-remove-early', E, ('''        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
            // unwrap safe: in this branch, we must have one entity at least
            let the_last_one_id = self.entities.last().unwrap();
            // move this entity to the end of entities
            self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
            self.entities.swap_remove(index);
            // keep these destroyed ids being a chain
            self.entity_flags[entity_id_] = self.entity_flags[0];
            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
        }
''', '''        let index = match self.entity_flags.get(entity_id_) {
            Some(EntityFlag::Unavailable(index)) => *index,
            _ => return,
        };
        let last = self.entities[self.entities.len() - 1];
        self.entity_flags[last.get()] = EntityFlag::Unavailable(index);
        self.entities.swap_remove(index);
        self.entity_flags[entity_id_] = self.entity_flags[0];
        self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
'''))
ref('ss-add-grow-helper', S, ('''        while self.indices.len() <= entity_ {
            self.indices.push(None);
        }
        if let Some(index) = self.indices[entity_] {
            //already''', '''        self.grow_to(entity_);
        if let Some(index) = self.indices[entity_] {
            //already'''), ('    pub fn add_batch(', '''    fn grow_to(&mut self,n : usize) {
        while self.indices.len() <= n {
            self.indices.push(None);
        }
    }

    pub fn add_batch('''))
ref('ss-add-match', S, ('''        if let Some(index) = self.indices[entity_] {
            //already exists
            //overwrite
            self.data[index.get() - 1] = data;
        }else{
            //not yet exist
            self.indices[entity_] = NonZeroUsize::new(self.entities.len() + 1);
            self.entities.push(entity);
            self.data.push(data);
        }
''', '''        match self.indices[entity_] {
            None => {
                self.entities.push(entity);
                self.data.push(data);
                self.indices[entity_] = NonZeroUsize::new(self.entities.len());
            }
            Some(index) => {
                let slot = index.get() - 1;
                self.data[slot] = data;
            }
        }
'''))
ref('ss-add-loop', S, ('''        while self.indices.len() <= entity_ {
            self.indices.push(None);
        }
''', '''        loop {
            if self.indices.len() > entity_ { break; }
            self.indices.push(None);
        }
'''))
ref('ss-add-resize', S, ('''        while self.indices.len() <= entity_ {
            self.indices.push(None);
        }
''', '''        if self.indices.len() <= entity_ {
            self.indices.resize(entity_ + 1,None);
        }
'''))
ref('ss-remove-rewrite', S, ('''        if self.indices.len() <= entity {
            return None;
        }
        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));
        }
        None
''', '''        let index = match self.indices.get(entity) {
            Some(Some(index)) => index.get() - 1,
            _ => return None,
        };
        let last : usize = self.entities[self.entities.len() - 1].into();
        self.indices.swap(entity,last);
        self.indices[entity] = None;
        self.entities.swap_remove(index);
        let data = self.data.swap_remove(index);
        Some(data)
'''))
ref('ss-remove-question', S, ('''        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));
        }
        None
''', '''        let index = self.indices[entity]?.get() - 1;
        self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
        self.indices[entity] = None;
        self.entities.swap_remove(index);
        Some(self.data.swap_remove(index))
'''))
ref('ss-remove-map', S, ('''        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));
        }
        None
''', '''        self.indices[entity].map(|index| {
            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            self.data.swap_remove(index)
        })
'''))
ref('ss-batch-helper', S, ('''        for (entity,data) in entities.iter().zip(data) {
            // an entity may already be in here, add() overwrites its data
            self.add(*entity,data);
        }
    }
''', '''        self.add_each(entities,data);
    }

    fn add_each(&mut self,entities : &[E],data : Vec<T>) {
        for (entity,data) in entities.iter().zip(data) {
            self.add(*entity,data);
        }
    }
'''))
ref('ss-batch-rename', S, ('''        for (entity,data) in entities.iter().zip(data) {
            // an entity may already be in here, add() overwrites its data
            self.add(*entity,data);
        }
''', '''        for (e,d) in entities.iter().zip(data.into_iter()) {
            let e = *e;
            self.add(e,d);
        }
'''))
ref('ss-swap-asserts', S, ('''        if index_a == index_b { return; }
        if index_a >= self.len() {
            panic!("index_a={} is out of range",index_a);
        }
        if index_b >= self.len() {
            panic!("index_b={} is out of range",index_b);
        }
''', '''        assert!(index_a < self.len() || index_a == index_b,"index_a={} is out of range",index_a);
        assert!(index_b < self.len() || index_a == index_b,"index_b={} is out of range",index_b);
        if index_a == index_b { return; }
'''))
ref('w-remove-helper', W, ('''        // remove entity in storages
        let mut storages = vec![];
        for storage in self.components.values() {
            let need_remove = {
                let storage = storage.read();
                storage.has(entity_id)
            };
            if need_remove {
                storages.push(storage.write());
            }
        }
        for mut storage in storages {
            storage.remove(entity_id);
        }
        // remove entity from manager
''', '''        self.drop_components(entity_id);
        // remove entity from manager
'''), ('    pub fn remove_entity(&self, entity_id: EntityId) {', '''    pub fn remove_entity(&self, entity_id: EntityId) {'''), ('    pub(in crate) fn groups(', '''    fn drop_components(&self,entity_id : EntityId) {
        let mut storages = vec![];
        for storage in self.components.values() {
            let need_remove = {
                let storage = storage.read();
                storage.has(entity_id)
            };
            if need_remove {
                storages.push(storage.write());
            }
        }
        for mut storage in storages {
            storage.remove(entity_id);
        }
    }

    pub(in crate) fn groups('''))
ref('w-remove-if', W, ('''            let need_remove = {
                let storage = storage.read();
                storage.has(entity_id)
            };
            if need_remove {
                storages.push(storage.write());
            }
''', '''            if storage.read().has(entity_id) {
                storages.push(storage.write());
            }
'''))
ref('w-remove-noop', W, ('        // remove entity in storages\n', '        let _unused = self.components.len();\n'))
ref('w-groups-over', W, ('''            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
''', '''            let (a,b) = group.read().types();
            if a == type_id || b == type_id {
                groups.push(group.write());
            }
'''))
ref('w-groups-neg', W, ('''            if need_add {
                groups.push(group.write())
            }
''', '''            if !need_add {
                continue;
            }
            groups.push(group.write())
'''))
ref('w-make-helper', W, ('''        assert!(
            {
                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok
            },
''', '''        assert!(
            self.nothing_owned_twice(&group),
'''), ('    pub(in crate) fn groups(', '''    fn nothing_owned_twice(&self,group : &Group) -> bool {
        let mut ok = true;
        'outer: for world_group in &self.groups {
            let world_group = world_group.read();
            for owning_type in world_group.owning() {
                if group.owned(owning_type) {
                    ok = false;
                    break 'outer;
                }
            }
        }
        ok
    }

    pub(in crate) fn groups('''))
ref('w-make-return', W, ('''        assert!(
            {
                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok
            },
''', '''        assert!(
            self.free_to_own(&group),
'''), ('    pub(in crate) fn groups(', '''    fn free_to_own(&self,group : &Group) -> bool {
        for world_group in &self.groups {
            let world_group = world_group.read();
            for owning_type in world_group.owning() {
                if group.owned(owning_type) {
                    return false;
                }
            }
        }
        true
    }

    pub(in crate) fn groups('''))
ref('w-make-two-asserts', W, ("        assert!(self.components.contains_key(&type_a) && self.components.contains_key(&type_b),\n", "        assert!(self.components.contains_key(&type_b),\"World: not registered\");\n        assert!(self.components.contains_key(&type_a),\n"))
ref('w-make-panic', W, ('''        assert!(!self.has_group(group),
                "World: Cannot make group because world has a same group");
''', '''        if self.has_group(group) {
            panic!("World: Cannot make group because world has a same group");
        }
'''))
ref('fo-add-helper', FO, ('''        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);

        self.length += 1;
    }

''', '''        self.bring_in(index_a,index_b,comp_a,comp_b);
    }

    fn bring_in(&mut self,a : usize,b : usize,comp_a : &mut Box<dyn ComponentStorage>,comp_b : &mut Box<dyn ComponentStorage>) {
        comp_a.swap_by_index(a,self.length);
        comp_b.swap_by_index(b,self.length);
        self.length += 1;
    }

'''))
ref('fo-add-or', FO, ('''        if !self.in_components(id,&comp_a,&comp_b) {
            return;
        }
        if self.in_group(id,&comp_a,&comp_b) {
            return;
        }
        
''', '''        if self.in_group(id,&comp_a,&comp_b) || !self.in_components(id,&comp_a,&comp_b) { return; }
'''))
ref('fo-add-nest', FO, ('''        if !self.in_components(id,&comp_a,&comp_b) {
            return;
        }
        if self.in_group(id,&comp_a,&comp_b) {
            return;
        }
        
        // get indexes in both component storages
        // This unwrap never fails because the in_components() ensures that it's already in components
        let index_a = comp_a.index(id).unwrap();
        let index_b = comp_b.index(id).unwrap();

        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);

        self.length += 1;
''', '''        if let (Some(index_a),Some(index_b)) = (comp_a.index(id),comp_b.index(id)) {
            if !self.in_group(id,&comp_a,&comp_b) {
                let at = self.length;
                comp_b.swap_by_index(index_b,at);
                comp_a.swap_by_index(index_a,at);
                self.length = at + 1;
            }
        }
'''))
ref('fo-make-while', FO, ('''            for index_a in 0..len_a {
                    // Unwrap here never fails
                    // the for loop ensure this
                    let id = comp_a.id(index_a).unwrap();
                    if let Some(index_b) = comp_b.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,self.length);
                        self.length += 1;
                    }
                }
''', '''            let mut index_a = 0;
            while index_a < len_a {
                    let id = comp_a.id(index_a).unwrap();
                    if let Some(index_b) = comp_b.index(id) {
                        comp_a.swap_by_index(index_a,self.length);
                        comp_b.swap_by_index(index_b,self.length);
                        self.length += 1;
                    }
                    index_a += 1;
                }
'''))
ref('with-loop', 'src/query/with.rs', ('''        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((id,(a,b)))
            }
        }
        None
''', '''        loop {
            let (id,a) = match self.iter_a.next_with_id() {
                Some(x) => x,
                None => return None,
            };
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((id,(a,b)));
            }
        }
'''))
ref('with-question', 'src/query/with.rs', ('''        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((id,(a,b)))
            }
        }
        None
''', '''        loop {
            let (id,a) = self.iter_a.next_with_id()?;
            if let Some(b) = self.iter_b.from_id(id) {
                return Some((id,(a,b)))
            }
        }
'''))
ref('ent-attach-helper', E, ('''        for mut group in self.world.groups(type_id) {
            match &mut *group {
                Group::FullOwning(data) => {
                    let (type_a,type_b) = data.types();
                    let mut comp_a = self.world.raw_storage_write(type_a).unwrap();
                    let mut comp_b = self.world.raw_storage_write(type_b).unwrap();
                    for id in &ids {
                        data.add(*id,&mut comp_a,&mut comp_b);
                    }
                },
''', '''        for mut group in self.world.groups(type_id) {
            match &mut *group {
                Group::FullOwning(group_data) => {
                    let (first,second) = group_data.types();
                    let mut storage_a = self.world.raw_storage_write(first).unwrap();
                    let mut storage_b = self.world.raw_storage_write(second).unwrap();
                    for id in &ids {
                        group_data.add(*id,&mut storage_a,&mut storage_b);
                    }
                },
'''))

Q = 'src/query/mod.rs'; WO = 'src/query/without.rs'; WI = 'src/query/with.rs'; FQ = 'src/group/full_owning/query.rs'; G = 'src/group/mod.rs'; CO = 'src/component.rs'
ref('po-ingroup-direct', PO, ('''        if index_a < self.length {
            true
        } else {
            false
        }''', '''        index_a < self.length'''))
ref('po-ingroup-match', PO, ('''        if !self.in_components(id,comp_a,comp_b) {
            return false;
        }

        // get index in component storage
        // This unwrap never failed because the in_components() ensures that it's already in components
        let index_a = comp_a.index(id).unwrap();

        if index_a < self.length {
            true
        } else {
            false
        }''', '''        match comp_a.index(id) {
            Some(index_a) if comp_b.has(id) => index_a < self.length,
            _ => false,
        }'''))
ref('po-ingroup-map', PO, ('''        if !self.in_components(id,comp_a,comp_b) {
            return false;
        }

        // get index in component storage
        // This unwrap never failed because the in_components() ensures that it's already in components
        let index_a = comp_a.index(id).unwrap();

        if index_a < self.length {
            true
        } else {
            false
        }''', '''        comp_b.has(id) & comp_a.index(id).map_or(false, |index_a| index_a < self.length)'''))
ref('em-has-matches', E, ('''        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
            true
        } else {
            false
        }''', '''        matches!(self.entity_flags.get(entity_id.get()), Some(EntityFlag::Unavailable(_)))'''))
ref('em-has-index', E, ('''        if let Some(EntityFlag::Unavailable(_)) = self.entity_flags.get(entity_id.get()) {
            true
        } else {
            false
        }''', '''        let id = entity_id.get();
        if id >= self.entity_flags.len() {
            return false;
        }
        match self.entity_flags[id] {
            EntityFlag::Unavailable(_) => true,
            EntityFlag::Available(_) => false,
        }'''))
ref('em-remove-letelse', E, ('''        if let Some(&EntityFlag::Unavailable(index)) = self.entity_flags.get(entity_id_) {
            // unwrap safe: in this branch, we must have one entity at least
            let the_last_one_id = self.entities.last().unwrap();
            // move this entity to the end of entities
            self.entity_flags[the_last_one_id.get()] = EntityFlag::Unavailable(index);
            self.entities.swap_remove(index);
            // keep these destroyed ids being a chain
            self.entity_flags[entity_id_] = self.entity_flags[0];
            self.entity_flags[0] = EntityFlag::Available(Some(entity_id));
        }''', '''        let index = match self.entity_flags.get(entity_id_) {
            Some(EntityFlag::Unavailable(index)) => *index,
            _ => return,
        };
        self.entities.swap_remove(index);
        if index < self.entities.len() {
            // another entity took the place
            let moved = self.entities[index];
            self.entity_flags[moved.get()] = EntityFlag::Unavailable(index);
        }
        let head = std::mem::replace(&mut self.entity_flags[0], EntityFlag::Available(Some(entity_id)));
        self.entity_flags[entity_id_] = head;'''))
ref('w-hasreg-get', W, ('''        self.components.contains_key(&type_id)
    }''', '''        self.components.get(&type_id).is_some()
    }'''))
ref('w-entity-then', W, ('''        if lock.has(id) {
            Some(Entity::new(&self, lock, id))
        } else {
            None
        }''', '''        if !lock.has(id) {
            return None;
        }
        let entity = Entity::new(self, lock, id);
        Some(entity)'''))
ref('w-res-match', W, ('''        let lock = self.resources.get(&type_id)?
            .read();
        Some(ResourceRead::new(lock))''', '''        match self.resources.get(&type_id) {
            Some(cell) => Some(ResourceRead::new(cell.read())),
            None => None,
        }'''))
ref('w-res-map', W, ('''        let lock = self.resources.get(&type_id)?
            .write();
        Some(ResourceWrite::new(lock))''', '''        self.resources.get(&type_id).map(|cell| ResourceWrite::new(cell.write()))'''))
ref('w-storage-map', W, ('''        let lock = self.raw_storage_read(type_id)?;
        Some(StorageRead::from_lock(lock))''', '''        self.raw_storage_read(type_id).map(|lock| StorageRead::from_lock(lock))'''))
ref('w-storage-path', W, ('''        let lock = self.raw_storage_read(type_id)?;
        Some(StorageRead::from_lock(lock))''', '''        self.raw_storage_read(type_id).map(StorageRead::from_lock)'''))
ref('w-compread-filter', W, ('''        let lock = self.components_read::<T>()?;
        if lock.exist(id) {
            Some(unsafe {
                ComponentRead::new(id,lock)
            })
        } else {
            None
        }''', '''        let lock = self.components_read::<T>().filter(|lock| lock.exist(id))?;
        Some(unsafe { ComponentRead::new(id,lock) })'''))
ref('w-create-inline', W, ('''        let id = {
            let mut entity_manager = self.entity_manager.write();
            entity_manager.allocate()
        };
        self.entity(id).unwrap()''', '''        let id = self.entity_manager.write().allocate();
        self.entity(id).expect("World: a fresh entity exists")'''))
ref('w-register-order', W, ('''        assert!(!self.has_registered::<T>(),
                "World:Cannot register a component twice");
        let type_id = TypeId::of::<T>();
        self.components.insert(''', '''        let type_id = TypeId::of::<T>();
        if self.components.contains_key(&type_id) {
            panic!("World:Cannot register a component twice");
        }
        self.components.insert('''))
ref('w-has-group-any', W, ('''        for world_group in &self.groups {
            let world_group = world_group.read();
            if world_group.eq(&group) {
                return true;
            }
        }
        false
    }''', '''        self.groups.iter().any(|world_group| world_group.read().eq(&group))
    }'''))
ref('w-has-group-op', W, ('''            if world_group.eq(&group) {
                return true;
            }''', '''            if *world_group == group {
                return true;
            }'''))
ref('w-group-loop', W, ('''        self.groups
            .iter()
            .find(|world_group| {
                let world_group = world_group.read();
                world_group.eq(&group)
            })
            // unwrap here
            // existence will be ensured by an outside function
            .unwrap()
            .read()''', '''        for world_group in &self.groups {
            if world_group.read().eq(&group) {
                return world_group.read();
            }
        }
        unreachable!("existence is ensured by the caller")'''))
ref('w-make-conflict-helper', W, ('''                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok
            },''', '''                !self.conflicts(&group)
            },'''), ('''    /// Check if (group)[crate::group] exists in''', '''    fn conflicts(&self, group: &Group) -> bool {
        for world_group in &self.groups {
            let world_group = world_group.read();
            for owning_type in world_group.owning() {
                if group.owned(owning_type) {
                    return true;
                }
            }
        }
        false
    }

    /// Check if (group)[crate::group] exists in'''))
ref('w-make-any', W, ('''                let mut ok = true;
                'outer: for world_group in &self.groups {
                    let world_group = world_group.read();
                    for owning_type in world_group.owning() {
                        if group.owned(owning_type) {
                            ok = false;
                            break 'outer;
                        }
                    }
                }
                ok
            },''', '''                !self.groups.iter().any(|world_group| world_group.read().owning().into_iter().any(|t| group.owned(t)))
            },'''))
ref('w-make-shadow', W, ('''        self.groups.push(RwLock::new(group));
        let group = self.groups.last().unwrap();
        let mut group = group.write();
        match &mut *group{''', '''        self.groups.push(RwLock::new(group));
        let mut group = self.groups[self.groups.len() - 1].write();
        match &mut *group{'''))
ref('w-remove-vec-names', W, ('''            if need_remove {
                groups.push(group.write());
            };
        }''', '''            if !need_remove {
                continue;
            }
            groups.push(group.write());
        }'''))
ref('w-remove-em', W, ('''        {
            let mut entity_manager = self.entity_manager.write();
            entity_manager.remove(entity_id);
        }''', '''        self.entity_manager.write().remove(entity_id);'''))
ref('it-next-early', Q, ('''        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }''', '''        if self.index >= self.borrow.count() {
            return None;
        }
        let sparse_set = unsafe { &*self.sparse_set };
        let index = self.index;
        self.index = index + 1;
        Some(unsafe { sparse_set.data().get_unchecked(index) })'''))
ref('it-next-get', Q, ('''        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }''', '''        let sparse_set = unsafe { &*self.sparse_set };
        let data = sparse_set.data().get(self.index)?;
        self.index += 1;
        Some(data)'''))
ref('it-next-helper', Q, ('''    fn next(&mut self) -> Option<Self::Item> {
        if self.index < self.borrow.count() {
            // Safety:
            // Safe here, because self.sparse_set is 
            // a pointer from borrow,
            // This pointer is valid now.
            let sparse_set = unsafe { &*self.sparse_set };
            // Safety:
            // Safe here, because we checked before.
            let data = unsafe {
                sparse_set.data().get_unchecked(self.index)
            };
            self.index += 1;
            Some(data)
        } else {
            None
        }
    }
''', '''    fn next(&mut self) -> Option<Self::Item> {
        self.next_with_id().map(|(_,data)| data)
    }
'''))
ref('it-hint-let', Q, ('''        let rem = self.borrow.count() - self.index;
        (rem,Some(rem))
    }
}
impl<'a,T : Component> ExactSizeIterator for IterRef''', '''        let total = self.borrow.count();
        let done = self.index;
        let lower = total - done;
        (lower, Some(lower))
    }
}
impl<'a,T : Component> ExactSizeIterator for IterRef'''))
ref('wo-isnone', WO, ('''        if let None = self.iter_a.from_id(id) {
            if let Some(b) = self.iter_b.from_id(id) {
                return Some(b)
            }
        }
        None''', '''        if self.iter_a.from_id(id).is_some() {
            return None;
        }
        self.iter_b.from_id(id)'''))
ref('wo-loop-isnone', WO, ('''            if let None = self.iter_b.from_id(id) {
                return Some((id,a));
            }
        }
        None''', '''            let excluded = self.iter_b.from_id(id).is_some();
            if excluded {
                continue;
            }
            return Some((id,a));
        }
        None'''))
ref('wo-loop-match', WO, ('''            if let None = self.iter_b.from_id(id) {
                return Some((id,a));
            }
        }
        None''', '''            match self.iter_b.from_id(id) {
                Some(_) => {}
                None => return Some((id,a)),
            }
        }
        None'''))
ref('wi-fromid-and', WI, ('''fn next(&mut self) -> Option<Self::Item> {''', '''fn next(&mut self) -> Option<Self::Item> {
        let _unused = 0;'''))
ref('fq-length-inline', FQ, ('''        let length = group.len();
        Box::new(IterRefRef{
            index: 0,
            length,''', '''        Box::new(IterRefRef{
            index: 0,
            length: group.len(),'''))
ref('fq-asserts-first', FQ, ('''        let ptr_a = &*sparse_set_a;
        let ptr_b = &*sparse_set_b;
        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
        let group = world.group(full_owning::<A,B>());''', '''        assert!(world.has_group(full_owning::<A,B>()),"Queryable for FullOwning: Group is not in world");
        let group = world.group(full_owning::<A,B>());
        let ptr_a = &*sparse_set_a;
        let ptr_b = &*sparse_set_b;'''))
ref('ss-remove-take', S, ('''        if self.indices.len() <= entity {
            return None;
        }
        if let Some(index) = self.indices[entity] {
            let index = index.get() - 1;
            self.indices.swap(self.entities[index].into(),(*self.entities.last().unwrap()).into());
            self.indices[entity] = None;
            self.entities.swap_remove(index);
            return Some(self.data.swap_remove(index));
        }
        None''', '''        let index = self.indices.get_mut(entity)?.take()?.get() - 1;
        self.entities.swap_remove(index);
        if let Some(moved) = self.entities.get(index) {
            let moved : usize = (*moved).into();
            self.indices[moved] = NonZeroUsize::new(index + 1);
        }
        Some(self.data.swap_remove(index))'''))
ref('ss-add-entry', S, ('''            self.data[index.get() - 1] = data;
        }else{''', '''            let slot = &mut self.data[index.get() - 1];
            *slot = data;
        }else{'''))
ref('ss-add-replace', S, ('''            self.data[index.get() - 1] = data;
        }else{''', '''            drop(std::mem::replace(&mut self.data[index.get() - 1],data));
        }else{'''))
ref('ss-swap-index-ret', S, ('''        if index_a == index_b { return; }''', '''        if index_a == index_b {
            // nothing to do
            return;
        }'''))
ref('no-remove-if', NO, ('''        if !self.in_group(id,&comp_a,&comp_b) {
            return;
        }

        // Unwrap here
        // This never fails because in_group ensures that it's already in group.
        self.sparse_set.remove(id).unwrap();''', '''        if self.in_group(id,comp_a,comp_b) {
            let removed = self.sparse_set.remove(id);
            assert!(removed.is_some());
        }'''))
ref('no-add-simple', NO, ('''        if !self.in_components(id,&comp_a,&comp_b) {
            return;
        }
        if self.in_group(id,&comp_a,&comp_b) {
            return;
        }

        self.sparse_set.add(id,());''', '''        if self.in_components(id,comp_a,comp_b) && !self.in_group(id,comp_a,comp_b) {
            self.sparse_set.add(id,());
        }'''))
ref('no-make-swap-helper', NO, ('''    pub(in crate) fn make(&mut self,
            comp_a : &Box<dyn ComponentStorage>,
            comp_b : &Box<dyn ComponentStorage>) {
        self.sparse_set.clear();

        let len_a = comp_a.count();
        let len_b = comp_b.count();

        if len_a < len_b {
            for index_a in 0..len_a {
                // Unwrap here never fails
                // the for loop ensures this
                let entity_id = comp_a.id(index_a).unwrap();
                if comp_b.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
        } else {
            for index_b in 0..len_b {
                // Unwrap here never fails
                // the for loop ensures this
                let entity_id = comp_b.id(index_b).unwrap();
                if comp_a.has(entity_id) {
                    self.sparse_set.add(entity_id,());
                }
            }
        }
    }''', '''    pub(in crate) fn make(&mut self,
            comp_a : &Box<dyn ComponentStorage>,
            comp_b : &Box<dyn ComponentStorage>) {
        self.sparse_set.clear();

        if comp_a.count() < comp_b.count() {
            self.collect(comp_a,comp_b);
        } else {
            self.collect(comp_b,comp_a);
        }
    }

    fn collect(&mut self,small : &Box<dyn ComponentStorage>,large : &Box<dyn ComponentStorage>) {
        for index in 0..small.count() {
            let entity_id = small.id(index).unwrap();
            if large.has(entity_id) {
                self.sparse_set.add(entity_id,());
            }
        }
    }'''))
ref('fo-swap-helper', FO, ('''        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);

        self.length += 1;
    }''', '''        self.swap_to_end(index_a,index_b,comp_a,comp_b);
        self.length += 1;
    }

    fn swap_to_end(&self,index_a : usize,index_b : usize,comp_a : &mut Box<dyn ComponentStorage>,comp_b : &mut Box<dyn ComponentStorage>) {
        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);
    }'''))
ref('fo-remove-last-let', FO, ('''        self.length -= 1;

        comp_a.swap_by_index(index_a,self.length);
        comp_b.swap_by_index(index_b,self.length);''', '''        let last = self.length - 1;
        comp_b.swap_by_index(index_b,last);
        comp_a.swap_by_index(index_a,last);
        self.length = last;'''))
ref('ent-detach-early', E, ('''        sparse_set.remove(self.id)
    }''', '''        let removed = sparse_set.remove(self.id);
        removed
    }'''))
ref('ent-detach-ids', E, ('''                    data.remove(self.id,&mut comp_a,&mut comp_b);''', '''                    let id = self.id;
                    data.remove(id,&mut comp_a,&mut comp_b);'''))
ref('ent-batch-count', E, ('''        let count = self.ids.end.get() - self.ids.start.get();
        let components : Vec<T> = components.into();
        assert_eq!(components.len(),count);''', '''        let components : Vec<T> = components.into();
        assert!(components.len() == self.ids.end.get() - self.ids.start.get());'''))
ref('g-types-deref', G, ('''        match &self {
            Group::FullOwning(data) => data.types(),''', '''        match self {
            Group::FullOwning(data) => data.types(),'''))
ref('co-count-deref', CO, ('''        let sparse_set = unsafe { &*self.ptr };
        sparse_set.len()''', '''        unsafe { (*self.ptr).len() }'''))

ref('rn-need', W, ('''            let need_remove = {
                let group = group.read();''', '''            let member = {
                let group = group.read();'''), ('''            if need_remove {
                groups.push(group.write());
            };''', '''            if member {
                groups.push(group.write());
            };'''))
ref('rn-groups', W, ('''        let mut groups = vec![];
        for group in &self.groups {
            let need_add = {
                let group = group.read();
                let (type_id_a,type_id_b) = group.types();
                type_id_a == type_id || type_id_b == type_id
            };
            if need_add {
                groups.push(group.write())
            }
        }
        groups''', '''        let mut found = vec![];
        for group in &self.groups {
            let concerned = {
                let group = group.read();
                let (first,second) = group.types();
                first == type_id || second == type_id
            };
            if concerned {
                found.push(group.write())
            }
        }
        found'''))
ref('rn-param', S, ('''    pub fn add(&mut self,entity : E,data : T) {
        let entity_ : usize = entity.into();''', '''    pub fn add(&mut self,id : E,value : T) {
        let entity_ : usize = id.into();'''), ('self.data[index.get() - 1] = data;', 'self.data[index.get() - 1] = value;'), ('''            self.entities.push(entity);
            self.data.push(data);''', '''            self.entities.push(id);
            self.data.push(value);'''))
ref('rn-em', E, ('''            let last_id = *last_id;
            //we got an id can be reused
            let new_id = self.entity_flags[last_id.get()];
            self.entities.push(last_id);
            self.entity_flags[last_id.get()] = EntityFlag::Unavailable(self.entities.len() - 1);
            self.entity_flags[0] = new_id;
            last_id''', '''            let recycled = *last_id;
            let next = self.entity_flags[recycled.get()];
            self.entities.push(recycled);
            self.entity_flags[recycled.get()] = EntityFlag::Unavailable(self.entities.len() - 1);
            self.entity_flags[0] = next;
            recycled'''))

# whole bodies replaced: (header, which occurrence, new body, text put in front)
def refb(name, file, *subs): R[name] = [(file, h, n, b, pre) for h, n, b, pre in subs]
def swap_body(s, h, n, b, pre):
    i = -1
    for _ in range(n):
        i = s.index(h, i + 1)
    o = s.index('{', i + len(h)); d, k = 0, o
    while True:
        d += (s[k] == '{') - (s[k] == '}')
        if d == 0: break
        k += 1
    l = s.rindex('\n', 0, i) + 1
    return s[:l] + pre + s[l:o] + '{\n' + b + '\n    }' + s[k + 1:]
C, G, EN, Q = 'src/component.rs', 'src/group/mod.rs', 'src/entity.rs', 'src/query/mod.rs'
FQ, PQ, NQ = ('src/group/%s/query.rs' % k for k in ('full_owning', 'partial_owning', 'non_owning'))
WI, WO = 'src/query/with.rs', 'src/query/without.rs'
refb('sw-helper', C, ('pub fn count(&self) -> usize', 2, 'self.sparse_set().len()', """    fn sparse_set(&self) -> &SparseSet<EntityId,T> {
        unsafe { &*self.ptr }
    }

"""), ('pub fn exist(&self,id : EntityId) -> bool', 2, 'self.sparse_set().exist(id)', ''), ('pub fn get(&self,id : EntityId) -> Option<&T>', 2, 'self.sparse_set().get(id)', ''), ('pub fn data(&self) -> &[T]', 2, 'self.sparse_set().data()', ''))
refb('sr-helper', C, ('pub fn count(&self) -> usize', 1, 'self.sparse_set().len()', """    fn sparse_set(&self) -> &SparseSet<EntityId,T> {
        unsafe { &*self.ptr }
    }

"""), ('pub fn exist(&self,id : EntityId) -> bool', 1, 'self.sparse_set().exist(id)', ''), ('pub unsafe fn get_unchecked(&self,id : EntityId) -> &T', 1, 'self.sparse_set().get_unchecked(id)', ''))
refb('sr-exist-get', C, ('pub fn exist(&self,id : EntityId) -> bool', 1, 'self.get(id).is_some()', ''))
refb('sr-count-data', C, ('pub fn count(&self) -> usize', 1, 'self.data().len()', ''), ('pub fn is_empty(&self) -> bool', 1, 'self.count() == 0', ''))
refb('sw-getmut-if', C, ('pub fn get_mut(&mut self,id : EntityId) -> Option<&mut T>', 1, """        if self.exist(id) {
            Some(unsafe { self.get_unchecked_mut(id) })
        } else {
            None
        }""", ''))
refb('it-next-viaid', Q, ('fn next(&mut self) -> Option<Self::Item>', 1, 'self.next_with_id().map(|(_,data)|data)', ''))
refb('it-next-viaid2', Q, ('fn next(&mut self) -> Option<Self::Item>', 2, '''        let (_,data) = self.next_with_id()?;
        Some(data)''', ''))
refb('it-next-index', Q, ('fn next(&mut self) -> Option<Self::Item>', 1, """        let index = self.index;
        if index >= self.borrow.count() {
            return None;
        }
        self.index = index + 1;
        let sparse_set = unsafe { &*self.sparse_set };
        Some(unsafe { sparse_set.data().get_unchecked(index) })""", ''))
refb('it-id-index', Q, ('fn next_with_id(&mut self) -> Option<(EntityId,Self::Item)>', 3, """        let sparse_set = unsafe { &*self.sparse_set };
        let id = *sparse_set.entities().get(self.index)?;
        let data = unsafe { sparse_set.data().get_unchecked(self.index) };
        self.index += 1;
        Some((id,data))""", ''))
refb('it-rem-helper', Q, ('fn size_hint(&self) -> (usize, Option<usize>)', 1, """        let rem = remaining(self.borrow.count(),self.index);
        (rem,Some(rem))""", ''), ('fn size_hint(&self) -> (usize, Option<usize>)', 2, """        let rem = remaining(self.borrow.count(),self.index);
        (rem,Some(rem))""", ''), ("impl<'a,T : Component> ExactSizeIterator for IterRef<'a,T>", 1, '', """fn remaining(count : usize,index : usize) -> usize {
    count - index
}
"""))
refb('it-query-short', Q, ("fn query(world : &'a World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'a)>", 2, """        assert!(world.has_registered::<T>(),
                "Queryable for &'a T: Component was not registered in world");
        let borrow = world.raw_storage_read(TypeId::of::<T>()).unwrap();
        let sparse_set = unsafe { borrow.downcast_ref::<SparseSet<EntityId,T>>() } as *const _;
        Box::new(IterRef{ sparse_set, borrow, index : 0 })""", ''))
refb('it-query-match', Q, ("fn query(world : &'a World) -> Box<(dyn QueryIterator<Item = Self::Item> + 'a)>", 2, """        match world.raw_storage_read(TypeId::of::<T>()) {
            Some(storage) => {
                let sparse_set = unsafe {
                    storage.downcast_ref::<SparseSet<EntityId,T>>()
                };
                let ptr = &*sparse_set;
                Box::new(IterRef{
                    index : 0,
                    sparse_set : ptr,
                    borrow : storage
                })
            }
            None => panic!("Queryable for &'a T: Component was not registered in world")
        }""", ''))
FROM = 'fn from_id(&mut self,id : EntityId) -> Option<Self::Item>'
WITHID = 'fn next_with_id(&mut self) -> Option<(EntityId,Self::Item)>'
NEXT = 'fn next(&mut self) -> Option<Self::Item>'
AB = """        let sparse_set_a = unsafe { &*self.sparse_set_a };
        let sparse_set_b = unsafe { &*self.sparse_set_b };
"""
refb('fq-fromid-q', FQ, (FROM, 1, AB + """        let a = sparse_set_a.get(id)?;
        let b = sparse_set_b.get(id)?;
        Some((a,b))""", ''))
refb('fq-fromid-match', FQ, (FROM, 1, AB + """        match (sparse_set_a.get(id),sparse_set_b.get(id)) {
            (Some(a),Some(b)) => Some((a,b)),
            _ => None
        }""", ''))
refb('fq-fromid-zip', FQ, (FROM, 1, AB + '        sparse_set_a.get(id).zip(sparse_set_b.get(id))', ''))
refb('fq-fromid-map', FQ, (FROM, 1, AB + '        sparse_set_a.get(id).and_then(|a| sparse_set_b.get(id).map(|b| (a,b)))', ''))
refb('fq-next-viaid', FQ, (NEXT, 1, '        self.next_with_id().map(|(_,item)| item)', ''))
refb('fq-next-early', FQ, (NEXT, 1, """        if self.index >= self.length {
            return None;
        }
        let index = self.index;
        self.index += 1;
""" + AB + """        let data_a = unsafe { sparse_set_a.data().get_unchecked(index) };
        let data_b = unsafe { sparse_set_b.data().get_unchecked(index) };
        Some((data_a,data_b))""", ''))
refb('fq-next-swap', FQ, (NEXT, 1, """        if self.index == self.length {
            None
        } else {
""" + AB + """            let data_b = unsafe { sparse_set_b.data().get_unchecked(self.index) };
            let data_a = unsafe { sparse_set_a.data().get_unchecked(self.index) };
            self.index += 1;
            Some((data_a,data_b))
        }""", ''))
refb('fq-next-helper', FQ, (NEXT, 1, """        if self.index < self.length {
            let item = unsafe { self.item(self.index) };
            self.index += 1;
            Some(item)
        } else {
            None
        }""", ''), ("impl<'a,A : Component,B : Component> ExactSizeIterator for IterRefRef<'a,A,B>", 1, '', """impl<'a,A : Component,B : Component> IterRefRef<'a,A,B> {
    unsafe fn item(&self,index : usize) -> (&'a A,&'a B) {
        let sparse_set_a = &*self.sparse_set_a;
        let sparse_set_b = &*self.sparse_set_b;
        (sparse_set_a.data().get_unchecked(index),sparse_set_b.data().get_unchecked(index))
    }
}
"""))
refb('fq-next-then', FQ, (NEXT, 1, """        let index = self.index;
        (index < self.length).then(|| {
            self.index += 1;
            let sparse_set_a = unsafe { &*self.sparse_set_a };
            let sparse_set_b = unsafe { &*self.sparse_set_b };
            unsafe { (sparse_set_a.data().get_unchecked(index),sparse_set_b.data().get_unchecked(index)) }
        })""", ''))
refb('nq-next-get', NQ, (NEXT, 1, """        let group = unsafe { &*self.sparse_set_group };
        let id = *group.entities().get(self.index)?;
        self.index += 1;
""" + AB + """        Some((sparse_set_a.get(id).unwrap(),sparse_set_b.get(id).unwrap()))""", ''))
refb('nq-next-viaid', NQ, (NEXT, 1, """        match self.next_with_id() {
            Some((_,item)) => Some(item),
            None => None
        }""", ''))
FROMN = 'fn from_id(&mut self, id : EntityId) -> Option<Self::Item>'
refb('nq-fromid-early', NQ, (FROMN, 1, """        let group = unsafe { &*self.sparse_set_group };
        if !group.exist(id) {
            return None;
        }
""" + AB + """        let data_a = sparse_set_a.get(id).unwrap();
        let data_b = sparse_set_b.get(id).unwrap();
        Some((data_a,data_b))""", ''))
refb('nq-fromid-q', NQ, (FROMN, 1, """        let group = unsafe { &*self.sparse_set_group };
        group.get(id)?;
""" + AB + """        Some((sparse_set_a.get(id)?,sparse_set_b.get(id)?))""", ''))
refb('nq-fromid-unch', NQ, (FROMN, 1, """        let group = unsafe { &*self.sparse_set_group };
""" + AB + """        if group.exist(id) {
            Some(unsafe { (sparse_set_a.get_unchecked(id),sparse_set_b.get_unchecked(id)) })
        } else {
            None
        }""", ''))
refb('nq-hint', NQ, ('fn size_hint(&self) -> (usize, Option<usize>)', 1, """        let group = unsafe { &*self.sparse_set_group };
        let rem = group.len() - self.index;
        (rem,Some(rem))""", ''))
refb('wi-fromid-q', WI, (FROM, 1, """        let a = self.iter_a.from_id(id)?;
        let b = self.iter_b.from_id(id)?;
        Some((a,b))""", ''), (FROM, 2, """        let a = self.iter_a.from_id(id)?;
        let b = self.iter_b.from_id(id)?;
        let c = self.iter_c.from_id(id)?;
        Some((a,b,c))""", ''))
refb('wi-next-viaid', WI, (NEXT, 1, '        self.next_with_id().map(|(_,item)| item)', ''), (NEXT, 2, '        self.next_with_id().map(|(_,item)| item)', ''))
refb('wi-next-continue', WI, (NEXT, 1, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            let b = match self.iter_b.from_id(id) {
                Some(b) => b,
                None => continue
            };
            return Some((a,b));
        }
        None""", ''))
refb('wi3-letelse', WI, (NEXT, 2, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            let Some(b) = self.iter_b.from_id(id) else { continue };
            let Some(c) = self.iter_c.from_id(id) else { continue };
            return Some((a,b,c));
        }
        None""", ''))
refb('wi3-andthen', WI, (NEXT, 2, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.iter_b.from_id(id) {
                match self.iter_c.from_id(id) {
                    Some(c) => return Some((a,b,c)),
                    None => ()
                }
            }
        }
        None""", ''))
refb('wi-helper', WI, (NEXT, 1, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.second(id) {
                return Some((a,b))
            }
        }
        None""", ''), ("impl<A : QueryIterator,B : QueryIterator> QueryIterator for WithIter<A,B>", 1, """    fn from_id(&mut self,id : EntityId) -> Option<Self::Item>{
        if let Some(a) = self.iter_a.from_id(id) {
            if let Some(b) = self.second(id) {
                return Some((a,b))
            }
        }
        None
    }

    fn next_with_id(&mut self) -> Option<(EntityId,Self::Item)> {
        while let Some((id,a)) = self.iter_a.next_with_id() {
            if let Some(b) = self.second(id) {
                return Some((id,(a,b)))
            }
        }
        None
    }
""", """impl<A : QueryIterator,B : QueryIterator> WithIter<A,B> {
    fn second(&mut self,id : EntityId) -> Option<B::Item> {
        self.iter_b.from_id(id)
    }
}
"""))
refb('wo-fromid-if', WO, (FROM, 1, """        if self.iter_a.from_id(id).is_some() {
            return None;
        }
        self.iter_b.from_id(id)""", ''), (FROM, 2, """        match self.iter_b.from_id(id) {
            Some(_) => None,
            None => self.iter_a.from_id(id)
        }""", ''))
refb('wo-next-some', WO, (NEXT, 1, """        while let Some((id,b)) = self.iter_b.next_with_id() {
            if self.iter_a.from_id(id).is_some() {
                continue;
            }
            return Some(b);
        }
        None""", ''))
refb('wo-next-viaid', WO, (NEXT, 1, '        self.next_with_id().map(|(_,b)| b)', ''), (NEXT, 2, '        self.next_with_id().map(|(_,a)| a)', ''))
refb('wo-helper', WO, (NEXT, 2, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            if !self.excluded(id) {
                return Some(a);
            }
        }
        None""", ''), (WITHID, 2, """        while let Some((id,a)) = self.iter_a.next_with_id() {
            if !self.excluded(id) {
                return Some((id,a));
            }
        }
        None""", ''), ("impl<'a,A : QueryIterator,B : QueryIterator> Iterator for WithoutIterRight<A,B>", 1, """    type Item = A::Item;

    fn next(&mut self) -> Option<Self::Item> {
        while let Some((id,a)) = self.iter_a.next_with_id() {
            if !self.excluded(id) {
                return Some(a);
            }
        }
        None
    }""", """impl<A : QueryIterator,B : QueryIterator> WithoutIterRight<A,B> {
    fn excluded(&mut self,id : EntityId) -> bool {
        self.iter_b.from_id(id).is_some()
    }
}
"""))
refb('g-owned-contains', G, ('pub fn owned(&self,type_id : TypeId) -> bool', 1, '        self.owning().contains(&type_id)', ''))
refb('g-len-ref', G, ('pub fn len(&self) -> usize', 1, """        match *self {
            Group::FullOwning(ref data) => data.len(),
            Group::PartialOwning(ref data) => data.len(),
            Group::NonOwning(ref data) => data.len(),
        }""", ''))
refb('w-create-chain', W, ("pub fn create_entity(&self) -> Entity<'_>", 1, """        let id = self.entity_manager.write().allocate();
        self.entity(id).unwrap()""", ''))
refb('w-create-new', W, ("pub fn create_entity(&self) -> Entity<'_>", 1, """        let id = {
            let mut entity_manager = self.entity_manager.write();
            entity_manager.allocate()
        };
        Entity::new(self,self.entity_manager.read(),id)""", ''))
refb('w-creates-chain', W, ("pub fn create_entities(&self,count: usize) -> Entities<'_>", 1, """        let ids = self.entity_manager.write().allocate_n(count);
        Entities::new(self,ids,self.entity_manager.read())""", ''))
RS = "pub(in crate) fn raw_storage_read(&self,id : TypeId) \n        -> Option<RwLockReadGuard<'_,Box<dyn ComponentStorage>>>"
refb('w-raw-match', W, (RS, 1, """        match self.components.get(&id) {
            Some(rwlock) => Some(rwlock.read()),
            None => None
        }""", ''))
refb('w-raw-q', W, (RS, 1, """        let rwlock = self.components.get(&id)?;
        Some(rwlock.read())""", ''))
refb('w-raw-path', W, (RS, 1, "        self.components.get(&id).map(RwLock::read)", ''))
refb('w-attach-match', W, ('pub fn attach_component<T: Component>(&self, entity_id: EntityId,component: T)', 1, """        match self.entity(entity_id) {
            Some(entity) => { entity.attach(component); }
            None => panic!("World: Cannot attach component to a non-existence entity")
        }""", ''))
refb('w-detach-let', W, ('pub fn detach_component<T: Component>(&self, entity_id: EntityId) -> Option<T>', 1, """        let entity = self.entity(entity_id)
            .expect("World: Cannot detach component to a non-existence entity");
        let component = entity.detach::<T>();
        component""", ''))
refb('w-exist-chain', W, ('pub fn exist(&self, entity_id: EntityId) -> bool', 1, '        self.entity_manager.read().has(entity_id)', ''))
refb('w-exist-entity', W, ('pub fn exist(&self, entity_id: EntityId) -> bool', 1, '        self.entity(entity_id).is_some()', ''))
refb('w-has-group-eqop', W, ("pub(in crate) fn has_group<G : Into<Group> + 'static>(&self, group: G) -> bool", 1, """        let group = group.into();
        let mut found = false;
        for world_group in &self.groups {
            let world_group = world_group.read();
            if world_group.eq(&group) {
                found = true;
                break;
            }
        }
        found""", ''))
refb('w-register-early', W, ('pub fn register<T: Component>(&mut self) -> &mut Self', 1, """        if self.has_registered::<T>() {
            panic!("World:Cannot register a component twice");
        }
        let storage : Box<dyn ComponentStorage> = Box::new(SparseSet::<EntityId, T>::new());
        self.components.insert(TypeId::of::<T>(),RwLock::new(storage));
        self""", ''))
refb('w-res-box', W, ('pub fn register_resource<R : Resource>(&mut self,resource : R)', 1, """        let lock : RwLock<Box<dyn Resource>> = RwLock::new(Box::new(resource));
        self.resources.insert(TypeId::of::<R>(),lock);""", ''))
refb('ss-exist-get', S, ('pub fn exist(&self,entity : E) -> bool', 1, """        let entity : usize = entity.into();
        entity < self.indices.len() && self.indices[entity].is_some()""", ''))
refb('ss-exist-index', S, ('pub fn exist(&self,entity : E) -> bool', 1, '        self.get_index(entity).is_some()', ''))
refb('ss-exist-matches', S, ('pub fn exist(&self,entity : E) -> bool', 1, """        let entity : usize = entity.into();
        matches!(self.indices.get(entity),Some(Some(_)))""", ''))
refb('ss-get-index', S, ('pub fn get(&self,entity : E) -> Option<&T>', 1, """        let index = self.get_index(entity)?;
        Some(&self.data[index])""", ''), ('pub fn get_mut(&mut self,entity : E) -> Option<&mut T>', 1, """        let index = self.get_index(entity)?;
        Some(&mut self.data[index])""", ''))
refb('ss-get-map', S, ('pub fn get(&self,entity : E) -> Option<&T>', 1, """        self.get_index(entity).map(|index| &self.data[index])""", ''))
refb('ss-getmut-match', S, ('pub fn get_mut(&mut self,entity : E) -> Option<&mut T>', 1, """        match self.get_index(entity) {
            Some(index) => self.data.get_mut(index),
            None => None
        }""", ''))
refb('ss-index-copied', S, ('pub fn get_index(&self,entity : E) -> Option<usize>', 1, """        let entity : usize = entity.into();
        self.indices.get(entity).copied().flatten().map(|index| index.get() - 1)""", ''))
refb('ss-index-q', S, ('pub fn get_index(&self,entity : E) -> Option<usize>', 1, """        let entity : usize = entity.into();
        let slot = *self.indices.get(entity)?;
        slot.map(|index| index.get() - 1)""", ''))
refb('ss-index-early', S, ('pub fn get_index(&self,entity : E) -> Option<usize>', 1, """        let entity : usize = entity.into();
        if entity >= self.indices.len() {
            return None;
        }
        match self.indices[entity] {
            Some(index) => Some(index.get() - 1),
            None => None
        }""", ''))
refb('ss-unch-index', S, ('pub unsafe fn get_unchecked(&self,entity : E) -> &T', 1, """        let index = self.get_index(entity).unwrap();
        self.data.get_unchecked(index)""", ''))
refb('ss-empty', S, ('pub fn is_empty(&self) -> bool', 1, '        self.entities.is_empty()', ''), ('pub fn len(&self) -> usize', 1, '        self.data.len()', ''))

# --- third batch
AB = 'comp_a : &mut Box<dyn ComponentStorage>,'
refb('fo-ingroup-expr', FO, ('fn in_group(', 1, '''        self.in_components(id,comp_a,comp_b)
            && comp_a.index(id).unwrap() < self.length
            && comp_b.index(id).unwrap() < self.length''', ''))
refb('fo-ingroup-match', FO, ('fn in_group(', 1, '''        match (comp_a.index(id), comp_b.index(id)) {
            (Some(index_a), Some(index_b)) => index_a < self.length && index_b < self.length,
            _ => false
        }''', ''))
refb('fo-ingroup-iflet', FO, ('fn in_group(', 1, '''        if let Some(index_a) = comp_a.index(id) {
            if let Some(index_b) = comp_b.index(id) {
                return index_a < self.length && index_b < self.length;
            }
        }
        false''', ''))
refb('fo-ingroup-filter', FO, ('fn in_group(', 1, '''        let inside = |comp: &Box<dyn ComponentStorage>| comp.index(id).map_or(false, |index| index < self.length);
        inside(comp_a) && inside(comp_b)''', ''))
refb('fo-ingroup-half', FO, ('fn in_group(', 1, '''        // both lie at the same position
        if !self.in_components(id,comp_a,comp_b) {
            return false;
        }
        let index_a = comp_a.index(id).unwrap();
        let index_b = comp_b.index(id).unwrap();
        index_a.max(index_b) < self.length''', ''))
refb('fo-incomp-nest', FO, ('fn in_components(', 1, '''        if comp_a.has(id) { comp_b.has(id) } else { false }''', ''))
refb('fo-incomp-index', FO, ('fn in_components(', 1, '''        comp_a.index(id).is_some() && comp_b.index(id).is_some()''', ''))
refb('fo-incomp-swap', FO, ('fn in_components(', 1, '''        let in_b = comp_b.has(id);
        let in_a = comp_a.has(id);
        in_a & in_b''', ''))
refb('fo-owning-push', FO, ('fn owning(', 1, '''        let mut types = Vec::with_capacity(2);
        types.push(self.type_a);
        types.push(self.type_b);
        types''', ''))
refb('fo-remove-match', FO, ('fn remove(', 1, '''        if self.in_group(id,&comp_a,&comp_b) {
            let last = self.length - 1;
            let index_a = comp_a.index(id).unwrap();
            let index_b = comp_b.index(id).unwrap();
            comp_a.swap_by_index(index_a,last);
            comp_b.swap_by_index(index_b,last);
            self.length = last;
        }''', ''))
refb('fo-remove-order', FO, ('fn remove(', 1, '''        if !self.in_group(id,&comp_a,&comp_b) {
            return;
        }
        self.length -= 1;
        let index_b = comp_b.index(id).unwrap();
        comp_b.swap_by_index(index_b,self.length);
        let index_a = comp_a.index(id).unwrap();
        comp_a.swap_by_index(index_a,self.length);''', ''))
refb('fo-add-iflet', FO, ('fn add(', 1, '''        if let (Some(index_a), Some(index_b)) = (comp_a.index(id), comp_b.index(id)) {
            if index_a < self.length && index_b < self.length {
                return;
            }
            comp_a.swap_by_index(index_a,self.length);
            comp_b.swap_by_index(index_b,self.length);
            self.length += 1;
        }''', ''))
refb('fo-add-tail', FO, ('fn add(', 1, '''        if !self.in_components(id,&comp_a,&comp_b) || self.in_group(id,&comp_a,&comp_b) {
            return;
        }
        let tail = self.length;
        self.length = tail + 1;
        comp_b.swap_by_index(comp_b.index(id).unwrap(),tail);
        comp_a.swap_by_index(comp_a.index(id).unwrap(),tail);''', ''))
refb('fo-make-viaadd', FO, ('fn make(', 1, '''        self.length = 0;
        let len_a = comp_a.count();
        let len_b = comp_b.count();
        if len_a < len_b {
            for index in 0..len_a {
                let id = comp_a.id(index).unwrap();
                self.add(id,comp_a,comp_b);
            }
        } else {
            for index in 0..len_b {
                let id = comp_b.id(index).unwrap();
                self.add(id,comp_a,comp_b);
            }
        }''', ''))
refb('fo-make-flip', FO, ('fn make(', 1, '''        self.length = 0;
        let len_a = comp_a.count();
        let len_b = comp_b.count();
        if len_b <= len_a {
            for index_b in 0..len_b {
                let id = comp_b.id(index_b).unwrap();
                if let Some(index_a) = comp_a.index(id) {
                    comp_a.swap_by_index(index_a,self.length);
                    comp_b.swap_by_index(index_b,self.length);
                    self.length += 1;
                }
            }
        } else {
            for index_a in 0..len_a {
                let id = comp_a.id(index_a).unwrap();
                if let Some(index_b) = comp_b.index(id) {
                    comp_a.swap_by_index(index_a,self.length);
                    comp_b.swap_by_index(index_b,self.length);
                    self.length += 1;
                }
            }
        }''', ''))
refb('fo-make-local', FO, ('fn make(', 1, '''        let mut length = 0;
        let len_a = comp_a.count();
        let len_b = comp_b.count();
        if len_a < len_b {
            for index_a in 0..len_a {
                let id = comp_a.id(index_a).unwrap();
                if let Some(index_b) = comp_b.index(id) {
                    comp_a.swap_by_index(index_a,length);
                    comp_b.swap_by_index(index_b,length);
                    length += 1;
                }
            }
        } else {
            for index_b in 0..len_b {
                let id = comp_b.id(index_b).unwrap();
                if let Some(index_a) = comp_a.index(id) {
                    comp_a.swap_by_index(index_a,length);
                    comp_b.swap_by_index(index_b,length);
                    length += 1;
                }
            }
        }
        self.length = length;''', ''))
refb('po-make-has', PO, ('fn make(', 1, '''        self.length = 0;
        for index in 0..comp_a.count() {
            let entity_id = comp_a.id(index).unwrap();
            if !comp_b.has(entity_id) {
                continue;
            }
            comp_a.swap_by_index(index,self.length);
            self.length += 1;
        }''', ''))
refb('po-make-local', PO, ('fn make(', 1, '''        let mut length = 0;
        for index in 0..comp_a.count() {
            let entity_id = comp_a.id(index).unwrap();
            if comp_b.has(entity_id) {
                comp_a.swap_by_index(index,length);
                length += 1;
            }
        }
        self.length = length;''', ''))
refb('po-make-count', PO, ('fn make(', 1, '''        self.length = 0;
        let count = comp_a.count();
        for index in 0..count {
            if let Some(entity_id) = comp_a.id(index) {
                if comp_b.has(entity_id) {
                    comp_a.swap_by_index(index,self.length);
                    self.length += 1;
                }
            }
        }''', ''))
refb('po-make-guard', PO, ('fn make(', 1, '''        self.length = 0;
        for index in 0..comp_a.count() {
            let entity_id = comp_a.id(index).unwrap();
            if comp_b.has(entity_id) {
                if index != self.length {
                    comp_a.swap_by_index(index,self.length);
                }
                self.length += 1;
            }
        }''', ''))
refb('po-make-while', PO, ('fn make(', 1, '''        self.length = 0;
        let mut index = 0;
        while index < comp_a.count() {
            let entity_id = comp_a.id(index).unwrap();
            if comp_b.has(entity_id) {
                comp_a.swap_by_index(index,self.length);
                self.length += 1;
            }
            index += 1;
        }''', ''))
refb('po-add-iflet', PO, ('fn add(', 1, '''        if !comp_b.has(id) {
            return;
        }
        if let Some(index_a) = comp_a.index(id) {
            if index_a >= self.length {
                comp_a.swap_by_index(index_a,self.length);
                self.length += 1;
            }
        }''', ''))
refb('po-add-short', PO, ('fn add(', 1, '''        if self.in_components(id,&comp_a,&comp_b) && !self.in_group(id,&comp_a,&comp_b) {
            let index_a = comp_a.index(id).unwrap();
            comp_a.swap_by_index(index_a,self.length);
            self.length += 1;
        }''', ''))
refb('po-remove-let', PO, ('fn remove(', 1, '''        if self.in_group(id,&comp_a,&comp_b) {
            let index_a = comp_a.index(id).unwrap();
            let last = self.length - 1;
            comp_a.swap_by_index(index_a,last);
            self.length = last;
        }''', ''))
refb('po-remove-wrap', PO, ('fn remove(', 1, '''        if !self.in_group(id,&comp_a,&comp_b) {
            return;
        }
        if let Some(index_a) = comp_a.index(id) {
            self.length = self.length - 1;
            let last = self.length;
            comp_a.swap_by_index(index_a,last);
        }''', ''))
refb('no-ingroup-and', NO, ('fn in_group(', 1, '''        self.in_components(id,comp_a,comp_b) && self.sparse_set.exist(id)''', ''))
refb('no-ingroup-index', NO, ('fn in_group(', 1, '''        if self.in_components(id,comp_a,comp_b) {
            self.sparse_set.get_index(id).is_some()
        } else {
            false
        }''', ''))
refb('no-add-and', NO, ('fn add(', 1, '''        if self.in_components(id,&comp_a,&comp_b) && !self.in_group(id,&comp_a,&comp_b) {
            self.sparse_set.add(id,());
        }''', ''))
refb('no-add-always', NO, ('fn add(', 1, '''        // adding a member again changes nothing
        if self.in_components(id,&comp_a,&comp_b) {
            self.sparse_set.add(id,());
        }''', ''))
refb('no-remove-let', NO, ('fn remove(', 1, '''        if self.in_group(id,&comp_a,&comp_b) {
            let _ = self.sparse_set.remove(id);
        }''', ''))
refb('no-remove-plain', NO, ('fn remove(', 1, '''        // nothing happens to an id that is not in the group
        self.sparse_set.remove(id);''', ''))
refb('no-make-iflet', NO, ('fn make(', 1, '''        self.sparse_set.clear();
        let len_a = comp_a.count();
        let len_b = comp_b.count();
        if len_b <= len_a {
            for index in 0..len_b {
                if let Some(entity_id) = comp_b.id(index) {
                    if comp_a.has(entity_id) {
                        self.sparse_set.add(entity_id,());
                    }
                }
            }
        } else {
            for index in 0..len_a {
                if let Some(entity_id) = comp_a.id(index) {
                    if comp_b.has(entity_id) {
                        self.sparse_set.add(entity_id,());
                    }
                }
            }
        }''', ''))
refb('no-make-fresh', NO, ('fn make(', 1, '''        self.sparse_set = SparseSet::new();
        for index_a in 0..comp_a.count() {
            let entity_id = comp_a.id(index_a).unwrap();
            if comp_b.has(entity_id) {
                self.sparse_set.add(entity_id,());
            }
        }''', ''))
refb('no-owning-new', NO, ('fn owning(', 1, '''        Vec::new()''', ''))
refb('g-len-arms', G, ('fn len(', 1, '''        match *self {
            Group::FullOwning(ref data) => data.len(),
            Group::PartialOwning(ref data) => data.len(),
            Group::NonOwning(ref data) => data.len(),
        }''', ''))
refb('g-owned-iter', G, ('fn owned(', 1, '''        self.owning().iter().any(|owned| *owned == type_id)''', ''))
refb('g-ingroup-let', G, ('fn in_group(', 1, '''        let found = match self {
            Group::FullOwning(data) => data.in_group(id, comp_a, comp_b),
            Group::PartialOwning(data) => data.in_group(id, comp_a, comp_b),
            Group::NonOwning(data) => data.in_group(id, comp_a, comp_b),
        };
        found''', ''))
refb('po-owned-ne', PO, ('fn owned(', 1, '''        !(self.type_a != type_id)''', ''))
refb('fo-owned-or', FO, ('fn owned(', 1, '''        if type_id == self.type_a { return true; }
        type_id == self.type_b''', ''))
refb('fo-owned-any', FO, ('fn owned(', 1, '''        self.owning().contains(&type_id)''', ''))
refb('sw-getmut-match', C, ('pub fn get_mut(', 1, '''        match unsafe { self.ptr.as_mut() } {
            Some(sparse_set) => sparse_set.get_mut(id),
            None => None
        }''', ''))
refb('sr-isempty-count', C, ('pub fn is_empty(', 1, '''        self.count() == 0''', ''))
refb('sw-exist-get', C, ('pub fn exist(', 2, '''        self.get(id).is_some()''', ''))
refb('cs-remove-let', C, ('fn remove(&mut self, entity_id: EntityId)', 1, '''        let removed = self.remove(entity_id);
        assert!(removed.is_some());''', ''))
refb('cs-remove-expect', C, ('fn remove(&mut self, entity_id: EntityId)', 1, '''        self.remove(entity_id).expect("component is not in storage");''', ''))
refb('cs-id-copied', C, ('fn id(&self, index : usize)', 1, '''        self.entities().get(index).copied()''', ''))
refb('cs-id-if', C, ('fn id(&self, index : usize)', 1, '''        if index < self.len() { Some(self.entities()[index]) } else { None }''', ''))
refb('cs-has-get', C, ('fn has(&self, entity_id: EntityId)', 1, '''        self.get_index(entity_id).is_some()''', ''))
refb('cw-deref-get', C, ('fn deref(', 2, '''        self.storage.get(self.id).unwrap()''', ''))
refb('cw-derefmut-get', C, ('fn deref_mut(', 1, '''        let id = self.id;
        unsafe { self.storage.get_unchecked_mut(id) }''', ''))
RS = 'src/resource.rs'
refb('rs-deref-let', RS, ('fn deref(', 1, '''        let resource : &dyn Resource = &**self.lock;
        unsafe { resource.downcast_ref::<T>() }''', ''))
refb('rs-derefmut-let', RS, ('fn deref_mut(', 1, '''        let value = unsafe { self.lock.downcast_mut::<T>() };
        value''', ''))

def run(name):
    w = tempfile.mkdtemp(prefix='xecs-ref-')
    try:
        rp = os.path.join(w, 'repo'); shutil.copytree(os.environ.get('FROM', '/repo'), rp, ignore=shutil.ignore_patterns('target', '.git'))
        for f, a, b, *more in R[name]:
            p = os.path.join(rp, f); s = open(p).read()
            if more:
                open(p, 'w').write(swap_body(s, a, b, *more)); continue
            if a not in s: return f'{name}: text not found: {a[:60]!r}'
            open(p, 'w').write(s.replace(a, b, 1))
        c = subprocess.run(['cargo', 'test', '--offline', '-q', '--lib'], cwd=rp, env=dict(os.environ, CARGO_TARGET_DIR='/verif/.build/reftest'), stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        t = 'tests ok' if c.returncode == 0 else 'TESTS FAIL ' + c.stdout.decode()[-300:]
        check.REPO = rp
        v = check.verify(w)
        exp = __import__('json').load(open(os.path.join(check.HERE, 'contracts', 'expected.json')))
        touched = {a.split(' ')[0] for a, _ in v.get('structure', [])} | {a.split(': ')[0] for a in v.get('renamed', [])}
        helper = any(b == 'function without a contract' for _, b in v.get('structure', []))
        hard = [f for f in v['failed'] if f not in touched and not helper]
        if os.environ.get('VERBOSE'): print(v.get('structure'))
        return f"{name}: {t}; {v['status']}{' ALARM ' + str(hard) if hard else ''} failed={ {f: [x['obligation'][:50] for x in e][:2] for f, e in v['failed'].items()} } {v['limited']} {v.get('renamed', [])} {[x[:230] for x in v['reasons']]}"
    finally: shutil.rmtree(w, ignore_errors=True)
if __name__ == '__main__':
    for n in sys.argv[1:] or [k for k in R]: print(run(n), flush=True)
