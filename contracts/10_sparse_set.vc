@items sparse_set
impl<T> SparseSet<crate::entity::EntityId, T> {
    pub open spec fn ids(&self) -> Seq<Id> { self.entities@ }
    pub open spec fn vals(&self) -> Seq<T> { self.data@ }
    pub open spec fn avals(&self) -> Seq<AnyVal> { self.data@.map_values(|t: T| embed(t)) }
    pub open spec fn pos(&self, e: Id) -> int { self.indices@[e.v()]->Some_0.v() - 1 }
    pub open spec fn has(&self, e: Id) -> bool { e.v() < self.indices@.len() && self.indices@[e.v()] is Some }
    pub open spec fn wf(&self) -> bool {
        &&& self.entities@.len() == self.data@.len()
        &&& forall|i: int| #![trigger self.entities@[i]] 0 <= i < self.entities@.len() ==>
            self.entities@[i].v() < self.indices@.len() && self.indices@[self.entities@[i].v()] is Some && self.indices@[self.entities@[i].v()]->Some_0.v() == i + 1
        &&& forall|k: int| #![trigger self.indices@[k]] 0 <= k < self.indices@.len() && self.indices@[k] is Some ==>
            self.indices@[k]->Some_0.v() <= self.entities@.len() && self.entities@[self.indices@[k]->Some_0.v() - 1].v() == k
    }
    pub proof fn lemma_all(&self)
        requires self.wf()
        ensures self.ids().no_duplicates(), self.ids().len() == self.vals().len(),
            forall|i: Id| #[trigger] self.has(i) <==> self.ids().contains(i),
            forall|i: Id| self.has(i) ==> 0 <= #[trigger] self.pos(i) < self.ids().len() && self.ids()[self.pos(i)] == i && self.pos(i) == find(self.ids(), i),
            forall|k: int| 0 <= k < self.ids().len() ==> self.has(#[trigger] self.ids()[k]) && self.pos(self.ids()[k]) == k,
    {
        broadcast use shim_axioms;
        assert forall|e: Id| #[trigger] self.has(e) <==> self.ids().contains(e) by {
            if self.ids().contains(e) { let i = choose|i: int| 0 <= i < self.ids().len() && self.ids()[i] == e; assert(self.entities@[i] == e); }
            if self.has(e) { assert(self.entities@[self.pos(e)] == e); }
        }
        assert forall|i: int, j: int| 0 <= i < self.ids().len() && 0 <= j < self.ids().len() && i != j implies self.ids()[i] != self.ids()[j] by {
            assert(self.indices@[self.entities@[i].v()]->Some_0.v() == i + 1);
            assert(self.indices@[self.entities@[j].v()]->Some_0.v() == j + 1);
        }
    }
}
@fn sparse_set::SparseSet::new
@ensures
r.wf(), r.ids() == Seq::<Id>::empty(), r.vals() == Seq::<T>::empty()
@fn sparse_set::SparseSet::clear
@ensures
final(self).wf(), final(self).ids() == Seq::<Id>::empty(), final(self).vals() == Seq::<T>::empty()
@fn sparse_set::SparseSet::add
@requires
old(self).wf(), entity.v() < usize::MAX
@ensures
final(self).wf(),
!old(self).has(entity) ==> final(self).ids() == old(self).ids().push(entity) && final(self).vals() == old(self).vals().push(data),
old(self).has(entity) ==> final(self).ids() == old(self).ids() && final(self).vals() == old(self).vals().update(old(self).pos(entity), data),
@start
proof { broadcast use shim_axioms; }
@loop 1
invariant self.wf(), self.ids() == old(self).ids(), self.vals() == old(self).vals(), entity_ == entity.v(),
    self.indices@.len() >= old(self).indices@.len(),
    forall|k: int| 0 <= k < old(self).indices@.len() ==> self.indices@[k] == old(self).indices@[k],
    forall|k: int| old(self).indices@.len() <= k < self.indices@.len() ==> self.indices@[k] is None,
decreases entity_ + 1 - self.indices@.len()
@fn sparse_set::SparseSet::add_batch
@requires
old(self).wf(), entities@.len() == data@.len(), forall|i: int| 0 <= i < entities@.len() ==> (#[trigger] entities@[i]).v() < usize::MAX,
@ensures
final(self).wf(),
(final(self).ids(), final(self).vals()) == add_all((old(self).ids(), old(self).vals()), entities@, data@, entities@.len() as int),
@start
let ghost es = entities@; let ghost ds = data@;
@loop 1
invariant
    self.wf(), es.len() == ds.len(), forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).v() < usize::MAX, vx_z.xs().len() == vx_z.ys().len() <= es.len(),
    vx_z.xs() == es.skip(es.len() - vx_z.xs().len()), vx_z.ys() == ds.skip(es.len() - vx_z.xs().len()),
    (self.ids(), self.vals()) == add_all((old(self).ids(), old(self).vals()), es, ds, es.len() - vx_z.xs().len()),
ensures vx_z.xs().len() == 0
decreases vx_z.xs().len()
@loop-start 1
proof { self.lemma_all(); assert(vx_z.xs() =~= es.skip(es.len() - vx_z.xs().len())); assert(vx_z.ys() =~= ds.skip(es.len() - vx_z.xs().len())); }
@fn sparse_set::SparseSet::remove
@requires
old(self).wf()
@ensures
final(self).wf(),
r is Some <==> old(self).has(entity),
r is None ==> final(self).ids() == old(self).ids() && final(self).vals() == old(self).vals(),
r is Some ==> r->Some_0 == old(self).vals()[old(self).pos(entity)]
    && final(self).ids() == swap_rem(old(self).ids(), old(self).pos(entity)) && final(self).vals() == swap_rem(old(self).vals(), old(self).pos(entity)),
@start
proof { broadcast use shim_axioms; self.lemma_all(); }
@fn sparse_set::SparseSet::swap_by_index
@attr #[verifier::rlimit(40)]
@requires
old(self).wf(), index_a < old(self).ids().len(), index_b < old(self).ids().len()
@ensures
final(self).wf(), final(self).ids() == swapped(old(self).ids(), index_a as int, index_b as int), final(self).vals() == swapped(old(self).vals(), index_a as int, index_b as int),
@start
proof { broadcast use shim_axioms; self.lemma_all(); assert(self.entities@[index_a as int] == self.ids()[index_a as int]); assert(self.entities@[index_b as int] == self.ids()[index_b as int]);
 assert(swapped(self.ids(), index_a as int, index_a as int) =~= self.ids()); assert(swapped(self.vals(), index_a as int, index_a as int) =~= self.vals()); }
@fn sparse_set::SparseSet::swap_by_entity
@requires
old(self).wf(), old(self).has(entity_a), old(self).has(entity_b)
@ensures
final(self).wf(), final(self).ids() == swapped(old(self).ids(), old(self).pos(entity_a), old(self).pos(entity_b)), final(self).vals() == swapped(old(self).vals(), old(self).pos(entity_a), old(self).pos(entity_b)),
@start
proof { broadcast use shim_axioms; self.lemma_all(); let a = self.pos(entity_a);
 assert(swapped(self.ids(), a, a) =~= self.ids()); assert(swapped(self.vals(), a, a) =~= self.vals()); }
@fn sparse_set::SparseSet::len
@requires
self.wf()
@ensures
r == self.ids().len(), r == self.vals().len()
@fn sparse_set::SparseSet::exist
@requires
self.wf()
@ensures
r == self.has(entity)
@start
proof { broadcast use shim_axioms; }
@fn sparse_set::SparseSet::get
@requires
self.wf()
@ensures
r is Some <==> self.has(entity), r is Some ==> *r->Some_0 == self.vals()[self.pos(entity)]
@start
proof { broadcast use shim_axioms; self.lemma_all(); }
@fn sparse_set::SparseSet::get_unchecked
@requires
self.wf(), self.has(entity)
@ensures
*r == self.vals()[self.pos(entity)]
@start
proof { broadcast use shim_axioms; self.lemma_all(); }
@fn sparse_set::SparseSet::get_mut
@requires
old(self).wf()
@ensures
final(self).wf(), final(self).ids() == old(self).ids(),
r is Some <==> old(self).has(entity),
r is None ==> final(self).vals() == old(self).vals(),
r is Some ==> *r->Some_0 == old(self).vals()[old(self).pos(entity)] && final(self).vals() == old(self).vals().update(old(self).pos(entity), *final(r->Some_0)),
forall|i: Id| final(self).has(i) == old(self).has(i) && final(self).pos(i) == old(self).pos(i),
@start
proof { broadcast use shim_axioms; self.lemma_all(); }
@fn sparse_set::SparseSet::get_unchecked_mut
@requires
old(self).wf(), old(self).has(entity)
@ensures
final(self).wf(), final(self).ids() == old(self).ids(),
*r == old(self).vals()[old(self).pos(entity)], final(self).vals() == old(self).vals().update(old(self).pos(entity), *final(r)),
forall|i: Id| final(self).has(i) == old(self).has(i) && final(self).pos(i) == old(self).pos(i),
@start
proof { broadcast use shim_axioms; self.lemma_all(); }
@fn sparse_set::SparseSet::get_index
@requires
self.wf()
@ensures
r is Some <==> self.has(entity), r is Some ==> r->Some_0 == self.pos(entity)
@start
proof { broadcast use shim_axioms; self.lemma_all(); }
@fn sparse_set::SparseSet::is_empty
@requires
self.wf()
@ensures
r == (self.ids().len() == 0)
@fn sparse_set::SparseSet::indices
@ensures
r@ == self.indices@
@fn sparse_set::SparseSet::entities
@ensures
r@ == self.ids()
@fn sparse_set::SparseSet::entities_mut
@ensures
r@ == old(self).ids(), final(self).ids() == final(r)@, final(self).vals() == old(self).vals(), final(self).indices@ == old(self).indices@
@fn sparse_set::SparseSet::data
@ensures
r@ == self.vals()
@fn sparse_set::SparseSet::data_mut
@requires
old(self).wf()
@ensures
r@ == old(self).vals(), final(self).vals() == final(r)@, final(self).ids() == old(self).ids(), final(r)@.len() == r@.len() ==> final(self).wf(),
forall|i: Id| final(self).has(i) == old(self).has(i) && final(self).pos(i) == old(self).pos(i),
