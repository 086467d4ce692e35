@items component
impl<T: 'static> Component for T { }
@impl component::ComponentStorage
    spec fn ids(&self) -> Seq<Id>;
    spec fn vals(&self) -> Seq<AnyVal>;
    spec fn tag(&self) -> TypeId;
    spec fn wf(&self) -> bool;
@impl component::SparseSet<EntityId,T>@ComponentStorage
    open spec fn ids(&self) -> Seq<Id> { self.entities@ }
    open spec fn vals(&self) -> Seq<AnyVal> { self.avals() }
    open spec fn tag(&self) -> TypeId { tid::<T>() }
    open spec fn wf(&self) -> bool { SparseSet::wf(self) }
@fn component::ComponentStorage::has
@requires
self.wf()
@ensures
r == self.ids().contains(entity_id), r ==> entity_id.v() < usize::MAX, self.ids().len() < usize::MAX
@fn component::ComponentStorage::index
@requires
self.wf()
@ensures
r is Some <==> self.ids().contains(entity_id), r is Some ==> r->Some_0 < self.ids().len() && self.ids()[r->Some_0 as int] == entity_id && entity_id.v() < usize::MAX, self.ids().len() < usize::MAX
@fn component::ComponentStorage::id
@requires
self.wf()
@ensures
r is Some <==> index < self.ids().len(), r is Some ==> r->Some_0 == self.ids()[index as int] && r->Some_0.v() < usize::MAX
@fn component::ComponentStorage::remove
@requires
old(self).wf(), old(self).ids().contains(entity_id)
@ensures
final(self).wf(), final(self).tag() == old(self).tag(),
final(self).ids() == swap_rem(old(self).ids(), find(old(self).ids(), entity_id)), final(self).vals() == swap_rem(old(self).vals(), find(old(self).ids(), entity_id))
@fn component::ComponentStorage::swap_by_index
@requires
old(self).wf(), index_a < old(self).ids().len(), index_b < old(self).ids().len()
@ensures
final(self).wf(), final(self).tag() == old(self).tag(),
final(self).ids() == swapped(old(self).ids(), index_a as int, index_b as int), final(self).vals() == swapped(old(self).vals(), index_a as int, index_b as int),
@fn component::ComponentStorage::count
@requires
self.wf()
@ensures
r == self.ids().len()
@fn component::ComponentStorage::is_empty
@requires
self.wf()
@ensures
r == (self.ids().len() == 0)
@fn component::SparseSet<EntityId,T>@ComponentStorage::has
@start
proof { broadcast use shim_axioms; self.lemma_all(); assert(self.indices@.len() <= usize::MAX); }
@fn component::SparseSet<EntityId,T>@ComponentStorage::index
@start
proof { broadcast use shim_axioms; self.lemma_all(); assert(self.entities@.len() <= usize::MAX); }
@fn component::SparseSet<EntityId,T>@ComponentStorage::id
@start
proof { broadcast use shim_axioms; self.lemma_all(); assert(self.indices@.len() <= usize::MAX); }
@fn component::SparseSet<EntityId,T>@ComponentStorage::remove
@start
proof { self.lemma_all(); }
@end
proof { assert(self.avals() =~= swap_rem(old(self).avals(), find(old(self).ids(), entity_id))); }
@fn component::SparseSet<EntityId,T>@ComponentStorage::swap_by_index
@end
proof { assert(self.avals() =~= swapped(old(self).avals(), index_a as int, index_b as int)); }
@fn component::SparseSet<EntityId,T>@ComponentStorage::count
@items resource
pub uninterp spec fn res_val<T>(t: T) -> AnyVal;
impl<T: 'static> Resource for T { open spec fn res_val(&self) -> AnyVal { embed(*self) } open spec fn res_tag(&self) -> TypeId { tid::<T>() } }
@impl resource::Resource
    spec fn res_val(&self) -> AnyVal;
    spec fn res_tag(&self) -> TypeId;
