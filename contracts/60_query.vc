@impl query::QueryIterator
    /* every remaining id satisfies the query and none comes twice */
    proof fn lemma_good(&self)
        requires self.inv()
        ensures self.rem().no_duplicates(), forall|i: Id| self.rem().contains(i) ==> self.dom().contains(i);
@fn query::QueryIterator::from_id
@requires
old(self).inv(),
@ensures
final(self).inv(), final(self).dom() == old(self).dom(), final(self).rem() == old(self).rem(), final(self).exact() == old(self).exact(),
final(self).stamp() == old(self).stamp(), forall|i: Id| #[trigger] final(self).last(i) == old(self).last(i),
r is Some <==> old(self).dom().contains(id),
r is None ==> forall|i: Id| old(self).dom().contains(i) ==> #[trigger] final(self).val(i) == old(self).val(i),
r is Some ==> Self::ival(r->Some_0) == old(self).val(id) && Self::fval(r->Some_0) == final(self).val(id)
    && forall|i: Id| old(self).dom().contains(i) && i != id ==> #[trigger] final(self).val(i) == old(self).val(i),
@fn query::QueryIterator::next_with_id
@requires
old(self).inv(),
@ensures
final(self).inv(), final(self).dom() == old(self).dom(), final(self).exact() == old(self).exact(),
final(self).stamp() == old(self).stamp(), forall|i: Id| #[trigger] final(self).last(i) == old(self).last(i),
r is Some <==> old(self).rem().len() > 0,
r is None ==> final(self).rem() == old(self).rem() && forall|i: Id| old(self).dom().contains(i) ==> #[trigger] final(self).val(i) == old(self).val(i),
r is Some ==> r->Some_0.0 == old(self).rem()[0] && final(self).rem() == old(self).rem().drop_first()
    && Self::ival(r->Some_0.1) == old(self).val(old(self).rem()[0]) && Self::fval(r->Some_0.1) == final(self).val(old(self).rem()[0])
    && forall|i: Id| old(self).dom().contains(i) && i != old(self).rem()[0] ==> #[trigger] final(self).val(i) == old(self).val(i),
@items query
impl<T: QueryIterator + ?Sized> Iterator for Box<T> {
    type Item = T::Item;
    open spec fn inv(&self) -> bool { (**self).inv() }
    open spec fn rem(&self) -> Seq<Id> { (**self).rem() }
    open spec fn dom(&self) -> ISet<Id> { (**self).dom() }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { (**self).val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { T::ival(i) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { T::fval(i) }
    open spec fn exact(&self) -> bool { (**self).exact() }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { (**self).last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { (**self).stamp() }
    fn next(&mut self) -> Option<Self::Item> { (**self).next() }
    fn size_hint(&self) -> (usize, Option<usize>) { (**self).size_hint() }
}
@impl query::Box@QueryIterator
    proof fn lemma_good(&self) { (**self).lemma_good(); }
@fn query::Box@QueryIterator::from_id
@fn query::Box@QueryIterator::next_with_id
@impl query::IdIter@Iterator
    open spec fn inv(&self) -> bool { self.iter.inv() }
    open spec fn rem(&self) -> Seq<Id> { self.iter.rem() }
    open spec fn dom(&self) -> ISet<Id> { self.iter.dom() }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { A::ival(i.1) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { A::fval(i.1) }
    open spec fn exact(&self) -> bool { self.iter.exact() }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.iter.last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { self.iter.stamp() }
@fn query::IdIter@Iterator::next
@ensures
r is Some ==> r->Some_0.0 == old(self).rem()[0],
@fn query::IdIter@Iterator::size_hint
@fn query::WithId::with_id
@fn query::A@WithId::with_id
@ensures
r.iter == self,

@impl query::IterRef@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set.wf() && self.borrow.wf() && self.borrow.ids() == self.sparse_set.ids() && self.index <= self.sparse_set.ids().len() }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set.ids().skip(self.index as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set.ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set.vals()[self.sparse_set.pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i)] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.val(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { Seq::empty() }
@impl query::IterRef@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_skip_nodup(self.sparse_set.ids(), self.index as int); }
@fn query::IterRef@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@fn query::IterRef@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@fn query::IterRef@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@fn query::IterRef@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@impl query::IterMut@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set.cur().wf() && self.borrow.wf() && self.borrow.ids() == self.sparse_set.cur().ids() && self.index <= self.sparse_set.cur().ids().len() && self.sparse_set.fin().ids() == self.sparse_set.cur().ids() }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set.cur().ids().skip(self.index as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set.cur().ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set.cur().vals()[self.sparse_set.cur().pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*final(i))] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set.fin().vals()[self.sparse_set.fin().pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set.fin(), self.sparse_set.cur().ids(), *self.borrow, *final(self.borrow)))] }
@impl query::IterMut@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_skip_nodup(self.sparse_set.cur().ids(), self.index as int); }
@fn query::IterMut@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@fn query::IterMut@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@fn query::IterMut@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@fn query::IterMut@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, shim_axioms; }
@impl group::full_owning::query::IterRefRef@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.wf() && self.sparse_set_b.wf() && self.index <= self.length && full_ok(self.length as int, self.sparse_set_a.ids(), self.sparse_set_b.ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.ids().contains(i) && self.sparse_set_b.ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.val(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { Seq::empty() }
@impl group::full_owning::query::IterRefRef@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.ids(), self.index as int, self.length as int); }
@fn group::full_owning::query::IterRefRef@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterRefRef@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterRefRef@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterRefRef@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::full_owning::query::IterRefMut@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.wf() && self.sparse_set_b.cur().wf() && self.sparse_set_b.fin().ids() == self.sparse_set_b.cur().ids() && self.index <= self.length && full_ok(self.length as int, self.sparse_set_a.ids(), self.sparse_set_b.cur().ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.ids().contains(i) && self.sparse_set_b.cur().ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.cur().vals()[self.sparse_set_b.cur().pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*final(i.1))] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.fin().vals()[self.sparse_set_b.fin().pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_b.fin(), self.sparse_set_b.cur().ids(), *self.borrow_b, *final(self.borrow_b)))] }
@impl group::full_owning::query::IterRefMut@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.ids(), self.index as int, self.length as int); }
@fn group::full_owning::query::IterRefMut@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterRefMut@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterRefMut@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterRefMut@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::full_owning::query::IterMutRef@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.cur().wf() && self.sparse_set_b.wf() && self.sparse_set_a.fin().ids() == self.sparse_set_a.cur().ids() && self.index <= self.length && full_ok(self.length as int, self.sparse_set_a.cur().ids(), self.sparse_set_b.ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.cur().ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.cur().ids().contains(i) && self.sparse_set_b.ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.cur().vals()[self.sparse_set_a.cur().pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*final(i.0)), embed(*i.1)] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.fin().vals()[self.sparse_set_a.fin().pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_a.fin(), self.sparse_set_a.cur().ids(), *self.borrow_a, *final(self.borrow_a)))] }
@impl group::full_owning::query::IterMutRef@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.cur().ids(), self.index as int, self.length as int); }
@fn group::full_owning::query::IterMutRef@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterMutRef@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterMutRef@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterMutRef@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::full_owning::query::IterMutMut@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.cur().wf() && self.sparse_set_b.cur().wf() && self.sparse_set_a.fin().ids() == self.sparse_set_a.cur().ids() && self.sparse_set_b.fin().ids() == self.sparse_set_b.cur().ids() && self.index <= self.length && full_ok(self.length as int, self.sparse_set_a.cur().ids(), self.sparse_set_b.cur().ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.cur().ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.cur().ids().contains(i) && self.sparse_set_b.cur().ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.cur().vals()[self.sparse_set_a.cur().pos(id)]), embed(self.sparse_set_b.cur().vals()[self.sparse_set_b.cur().pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*final(i.0)), embed(*final(i.1))] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.fin().vals()[self.sparse_set_a.fin().pos(id)]), embed(self.sparse_set_b.fin().vals()[self.sparse_set_b.fin().pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_a.fin(), self.sparse_set_a.cur().ids(), *self.borrow_a, *final(self.borrow_a))), embed((self.sparse_set_b.fin(), self.sparse_set_b.cur().ids(), *self.borrow_b, *final(self.borrow_b)))] }
@impl group::full_owning::query::IterMutMut@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.cur().ids(), self.index as int, self.length as int); }
@fn group::full_owning::query::IterMutMut@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterMutMut@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterMutMut@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::full_owning::query::IterMutMut@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::partial_owning::query::IterRefRef@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.wf() && self.sparse_set_b.wf() && self.index <= self.length && partial_ok(self.length as int, self.sparse_set_a.ids(), self.sparse_set_b.ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.ids().contains(i) && self.sparse_set_b.ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.val(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { Seq::empty() }
@impl group::partial_owning::query::IterRefRef@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.ids(), self.index as int, self.length as int); }
@fn group::partial_owning::query::IterRefRef@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterRefRef@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterRefRef@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterRefRef@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::partial_owning::query::IterRefMut@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.wf() && self.sparse_set_b.cur().wf() && self.sparse_set_b.fin().ids() == self.sparse_set_b.cur().ids() && self.index <= self.length && partial_ok(self.length as int, self.sparse_set_a.ids(), self.sparse_set_b.cur().ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.ids().contains(i) && self.sparse_set_b.cur().ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.cur().vals()[self.sparse_set_b.cur().pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*final(i.1))] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.fin().vals()[self.sparse_set_b.fin().pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_b.fin(), self.sparse_set_b.cur().ids(), *self.borrow_b, *final(self.borrow_b)))] }
@impl group::partial_owning::query::IterRefMut@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.ids(), self.index as int, self.length as int); }
@fn group::partial_owning::query::IterRefMut@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterRefMut@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterRefMut@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterRefMut@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::partial_owning::query::IterMutRef@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.cur().wf() && self.sparse_set_b.wf() && self.sparse_set_a.fin().ids() == self.sparse_set_a.cur().ids() && self.index <= self.length && partial_ok(self.length as int, self.sparse_set_a.cur().ids(), self.sparse_set_b.ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.cur().ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.cur().ids().contains(i) && self.sparse_set_b.ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.cur().vals()[self.sparse_set_a.cur().pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*final(i.0)), embed(*i.1)] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.fin().vals()[self.sparse_set_a.fin().pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_a.fin(), self.sparse_set_a.cur().ids(), *self.borrow_a, *final(self.borrow_a)))] }
@impl group::partial_owning::query::IterMutRef@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.cur().ids(), self.index as int, self.length as int); }
@fn group::partial_owning::query::IterMutRef@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterMutRef@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterMutRef@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterMutRef@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::partial_owning::query::IterMutMut@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.cur().wf() && self.sparse_set_b.cur().wf() && self.sparse_set_a.fin().ids() == self.sparse_set_a.cur().ids() && self.sparse_set_b.fin().ids() == self.sparse_set_b.cur().ids() && self.index <= self.length && partial_ok(self.length as int, self.sparse_set_a.cur().ids(), self.sparse_set_b.cur().ids(), ISet::empty()) }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_a.cur().ids().subrange(self.index as int, self.length as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.cur().ids().contains(i) && self.sparse_set_b.cur().ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.cur().vals()[self.sparse_set_a.cur().pos(id)]), embed(self.sparse_set_b.cur().vals()[self.sparse_set_b.cur().pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*final(i.0)), embed(*final(i.1))] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.fin().vals()[self.sparse_set_a.fin().pos(id)]), embed(self.sparse_set_b.fin().vals()[self.sparse_set_b.fin().pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_a.fin(), self.sparse_set_a.cur().ids(), *self.borrow_a, *final(self.borrow_a))), embed((self.sparse_set_b.fin(), self.sparse_set_b.cur().ids(), *self.borrow_b, *final(self.borrow_b)))] }
@impl group::partial_owning::query::IterMutMut@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; lemma_sub_nodup(self.sparse_set_a.cur().ids(), self.index as int, self.length as int); }
@fn group::partial_owning::query::IterMutMut@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterMutMut@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterMutMut@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::partial_owning::query::IterMutMut@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::non_owning::query::IterRefRef@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.wf() && self.sparse_set_b.wf() && self.sparse_set_group.wf() && self.index <= self.sparse_set_group.ids().len() && non_ok(self.sparse_set_group.ids(), self.sparse_set_a.ids(), self.sparse_set_b.ids(), ISet::empty()) && self.borrow_group is NonOwning && self.borrow_group->NonOwning_0.sparse_set.ids() == self.sparse_set_group.ids() && self.borrow_group->NonOwning_0.sparse_set.wf() }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_group.ids().skip(self.index as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.ids().contains(i) && self.sparse_set_b.ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.val(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { Seq::empty() }
@impl group::non_owning::query::IterRefRef@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; self.sparse_set_group.lemma_all(); lemma_skip_nodup(self.sparse_set_group.ids(), self.index as int); }
@fn group::non_owning::query::IterRefRef@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterRefRef@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterRefRef@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterRefRef@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::non_owning::query::IterRefMut@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.wf() && self.sparse_set_b.cur().wf() && self.sparse_set_b.fin().ids() == self.sparse_set_b.cur().ids() && self.sparse_set_group.wf() && self.index <= self.sparse_set_group.ids().len() && non_ok(self.sparse_set_group.ids(), self.sparse_set_a.ids(), self.sparse_set_b.cur().ids(), ISet::empty()) && self.borrow_group is NonOwning && self.borrow_group->NonOwning_0.sparse_set.ids() == self.sparse_set_group.ids() && self.borrow_group->NonOwning_0.sparse_set.wf() }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_group.ids().skip(self.index as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.ids().contains(i) && self.sparse_set_b.cur().ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.cur().vals()[self.sparse_set_b.cur().pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*final(i.1))] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.vals()[self.sparse_set_a.pos(id)]), embed(self.sparse_set_b.fin().vals()[self.sparse_set_b.fin().pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_b.fin(), self.sparse_set_b.cur().ids(), *self.borrow_b, *final(self.borrow_b)))] }
@impl group::non_owning::query::IterRefMut@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; self.sparse_set_group.lemma_all(); lemma_skip_nodup(self.sparse_set_group.ids(), self.index as int); }
@fn group::non_owning::query::IterRefMut@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterRefMut@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterRefMut@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterRefMut@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::non_owning::query::IterMutRef@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.cur().wf() && self.sparse_set_b.wf() && self.sparse_set_a.fin().ids() == self.sparse_set_a.cur().ids() && self.sparse_set_group.wf() && self.index <= self.sparse_set_group.ids().len() && non_ok(self.sparse_set_group.ids(), self.sparse_set_a.cur().ids(), self.sparse_set_b.ids(), ISet::empty()) && self.borrow_group is NonOwning && self.borrow_group->NonOwning_0.sparse_set.ids() == self.sparse_set_group.ids() && self.borrow_group->NonOwning_0.sparse_set.wf() }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_group.ids().skip(self.index as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.cur().ids().contains(i) && self.sparse_set_b.ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.cur().vals()[self.sparse_set_a.cur().pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*final(i.0)), embed(*i.1)] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.fin().vals()[self.sparse_set_a.fin().pos(id)]), embed(self.sparse_set_b.vals()[self.sparse_set_b.pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_a.fin(), self.sparse_set_a.cur().ids(), *self.borrow_a, *final(self.borrow_a)))] }
@impl group::non_owning::query::IterMutRef@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; self.sparse_set_group.lemma_all(); lemma_skip_nodup(self.sparse_set_group.ids(), self.index as int); }
@fn group::non_owning::query::IterMutRef@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterMutRef@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterMutRef@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterMutRef@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl group::non_owning::query::IterMutMut@Iterator
    open spec fn inv(&self) -> bool { self.sparse_set_a.cur().wf() && self.sparse_set_b.cur().wf() && self.sparse_set_a.fin().ids() == self.sparse_set_a.cur().ids() && self.sparse_set_b.fin().ids() == self.sparse_set_b.cur().ids() && self.sparse_set_group.wf() && self.index <= self.sparse_set_group.ids().len() && non_ok(self.sparse_set_group.ids(), self.sparse_set_a.cur().ids(), self.sparse_set_b.cur().ids(), ISet::empty()) && self.borrow_group is NonOwning && self.borrow_group->NonOwning_0.sparse_set.ids() == self.sparse_set_group.ids() && self.borrow_group->NonOwning_0.sparse_set.wf() }
    open spec fn rem(&self) -> Seq<Id> { self.sparse_set_group.ids().skip(self.index as int) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.sparse_set_a.cur().ids().contains(i) && self.sparse_set_b.cur().ids().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.cur().vals()[self.sparse_set_a.cur().pos(id)]), embed(self.sparse_set_b.cur().vals()[self.sparse_set_b.cur().pos(id)])] }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { seq![embed(*i.0), embed(*i.1)] }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { seq![embed(*final(i.0)), embed(*final(i.1))] }
    open spec fn exact(&self) -> bool { true }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { seq![embed(self.sparse_set_a.fin().vals()[self.sparse_set_a.fin().pos(id)]), embed(self.sparse_set_b.fin().vals()[self.sparse_set_b.fin().pos(id)])] }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { seq![embed((self.sparse_set_a.fin(), self.sparse_set_a.cur().ids(), *self.borrow_a, *final(self.borrow_a))), embed((self.sparse_set_b.fin(), self.sparse_set_b.cur().ids(), *self.borrow_b, *final(self.borrow_b)))] }
@impl group::non_owning::query::IterMutMut@QueryIterator
    proof fn lemma_good(&self) { broadcast use lemma_ss_all; self.sparse_set_group.lemma_all(); lemma_skip_nodup(self.sparse_set_group.ids(), self.index as int); }
@fn group::non_owning::query::IterMutMut@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterMutMut@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterMutMut@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@fn group::non_owning::query::IterMutMut@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { broadcast use lemma_ss_all, lemma_skip_first, lemma_sub_first, shim_axioms; }
@impl query::with::WithIter@Iterator
    open spec fn inv(&self) -> bool { self.iter_a.inv() && self.iter_b.inv() }
    open spec fn rem(&self) -> Seq<Id> { keep(self.iter_a.rem(), self.iter_b.dom()) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.iter_a.dom().contains(i) && self.iter_b.dom().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter_a.val(id) + self.iter_b.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { A::ival(i.0) + B::ival(i.1) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { A::fval(i.0) + B::fval(i.1) }
    open spec fn exact(&self) -> bool { false }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.iter_a.last(id) + self.iter_b.last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { self.iter_a.stamp() + self.iter_b.stamp() }
@impl query::with::WithIter@QueryIterator
    proof fn lemma_good(&self) { self.iter_a.lemma_good(); lemma_keep_good(self.iter_a.rem(), self.iter_b.dom()); }
@fn query::with::WithIter@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom()); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom()); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter@Iterator::next
@fn query::with::WithIter@QueryIterator::next_with_id
@impl query::with::WithIter3@Iterator
    open spec fn inv(&self) -> bool { self.iter_a.inv() && self.iter_b.inv() && self.iter_c.inv() }
    open spec fn rem(&self) -> Seq<Id> { keep(self.iter_a.rem(), self.iter_b.dom().intersect(self.iter_c.dom())) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.iter_a.dom().contains(i) && self.iter_b.dom().contains(i) && self.iter_c.dom().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter_a.val(id) + self.iter_b.val(id) + self.iter_c.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { A::ival(i.0) + B::ival(i.1) + C::ival(i.2) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { A::fval(i.0) + B::fval(i.1) + C::fval(i.2) }
    open spec fn exact(&self) -> bool { false }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.iter_a.last(id) + self.iter_b.last(id) + self.iter_c.last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { self.iter_a.stamp() + self.iter_b.stamp() + self.iter_c.stamp() }
@impl query::with::WithIter3@QueryIterator
    proof fn lemma_good(&self) { self.iter_a.lemma_good(); lemma_keep_good(self.iter_a.rem(), self.iter_b.dom().intersect(self.iter_c.dom())); }
@fn query::with::WithIter3@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_c.dom() == old(self).iter_c.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i), self.iter_c.stamp() == old(self).iter_c.stamp(), forall|i: Id| #[trigger] self.iter_c.last(i) == old(self).iter_c.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_c.val(i) == old(self).iter_c.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom().intersect(self.iter_c.dom())); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter3@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter3@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter3@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_c.dom() == old(self).iter_c.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i), self.iter_c.stamp() == old(self).iter_c.stamp(), forall|i: Id| #[trigger] self.iter_c.last(i) == old(self).iter_c.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_c.val(i) == old(self).iter_c.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom().intersect(self.iter_c.dom())); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter3@Iterator::next
@fn query::with::WithIter3@QueryIterator::next_with_id
@impl query::with::WithIter4@Iterator
    open spec fn inv(&self) -> bool { self.iter_a.inv() && self.iter_b.inv() && self.iter_c.inv() && self.iter_d.inv() }
    open spec fn rem(&self) -> Seq<Id> { keep(self.iter_a.rem(), self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom()))) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.iter_a.dom().contains(i) && self.iter_b.dom().contains(i) && self.iter_c.dom().contains(i) && self.iter_d.dom().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter_a.val(id) + self.iter_b.val(id) + self.iter_c.val(id) + self.iter_d.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { A::ival(i.0) + B::ival(i.1) + C::ival(i.2) + D::ival(i.3) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { A::fval(i.0) + B::fval(i.1) + C::fval(i.2) + D::fval(i.3) }
    open spec fn exact(&self) -> bool { false }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.iter_a.last(id) + self.iter_b.last(id) + self.iter_c.last(id) + self.iter_d.last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { self.iter_a.stamp() + self.iter_b.stamp() + self.iter_c.stamp() + self.iter_d.stamp() }
@impl query::with::WithIter4@QueryIterator
    proof fn lemma_good(&self) { self.iter_a.lemma_good(); lemma_keep_good(self.iter_a.rem(), self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom()))); }
@fn query::with::WithIter4@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_c.dom() == old(self).iter_c.dom(), self.iter_d.dom() == old(self).iter_d.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i), self.iter_c.stamp() == old(self).iter_c.stamp(), forall|i: Id| #[trigger] self.iter_c.last(i) == old(self).iter_c.last(i), self.iter_d.stamp() == old(self).iter_d.stamp(), forall|i: Id| #[trigger] self.iter_d.last(i) == old(self).iter_d.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_c.val(i) == old(self).iter_c.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_d.val(i) == old(self).iter_d.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom()))); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter4@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter4@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter4@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_c.dom() == old(self).iter_c.dom(), self.iter_d.dom() == old(self).iter_d.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i), self.iter_c.stamp() == old(self).iter_c.stamp(), forall|i: Id| #[trigger] self.iter_c.last(i) == old(self).iter_c.last(i), self.iter_d.stamp() == old(self).iter_d.stamp(), forall|i: Id| #[trigger] self.iter_d.last(i) == old(self).iter_d.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_c.val(i) == old(self).iter_c.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_d.val(i) == old(self).iter_d.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom()))); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter4@Iterator::next
@fn query::with::WithIter4@QueryIterator::next_with_id
@impl query::with::WithIter5@Iterator
    open spec fn inv(&self) -> bool { self.iter_a.inv() && self.iter_b.inv() && self.iter_c.inv() && self.iter_d.inv() && self.iter_e.inv() }
    open spec fn rem(&self) -> Seq<Id> { keep(self.iter_a.rem(), self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom().intersect(self.iter_e.dom())))) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.iter_a.dom().contains(i) && self.iter_b.dom().contains(i) && self.iter_c.dom().contains(i) && self.iter_d.dom().contains(i) && self.iter_e.dom().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter_a.val(id) + self.iter_b.val(id) + self.iter_c.val(id) + self.iter_d.val(id) + self.iter_e.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { A::ival(i.0) + B::ival(i.1) + C::ival(i.2) + D::ival(i.3) + E::ival(i.4) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { A::fval(i.0) + B::fval(i.1) + C::fval(i.2) + D::fval(i.3) + E::fval(i.4) }
    open spec fn exact(&self) -> bool { false }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.iter_a.last(id) + self.iter_b.last(id) + self.iter_c.last(id) + self.iter_d.last(id) + self.iter_e.last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { self.iter_a.stamp() + self.iter_b.stamp() + self.iter_c.stamp() + self.iter_d.stamp() + self.iter_e.stamp() }
@impl query::with::WithIter5@QueryIterator
    proof fn lemma_good(&self) { self.iter_a.lemma_good(); lemma_keep_good(self.iter_a.rem(), self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom().intersect(self.iter_e.dom())))); }
@fn query::with::WithIter5@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_c.dom() == old(self).iter_c.dom(), self.iter_d.dom() == old(self).iter_d.dom(), self.iter_e.dom() == old(self).iter_e.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i), self.iter_c.stamp() == old(self).iter_c.stamp(), forall|i: Id| #[trigger] self.iter_c.last(i) == old(self).iter_c.last(i), self.iter_d.stamp() == old(self).iter_d.stamp(), forall|i: Id| #[trigger] self.iter_d.last(i) == old(self).iter_d.last(i), self.iter_e.stamp() == old(self).iter_e.stamp(), forall|i: Id| #[trigger] self.iter_e.last(i) == old(self).iter_e.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_c.val(i) == old(self).iter_c.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_d.val(i) == old(self).iter_d.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_e.val(i) == old(self).iter_e.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom().intersect(self.iter_e.dom())))); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter5@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter5@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::with::WithIter5@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_c.dom() == old(self).iter_c.dom(), self.iter_d.dom() == old(self).iter_d.dom(), self.iter_e.dom() == old(self).iter_e.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i), self.iter_c.stamp() == old(self).iter_c.stamp(), forall|i: Id| #[trigger] self.iter_c.last(i) == old(self).iter_c.last(i), self.iter_d.stamp() == old(self).iter_d.stamp(), forall|i: Id| #[trigger] self.iter_d.last(i) == old(self).iter_d.last(i), self.iter_e.stamp() == old(self).iter_e.stamp(), forall|i: Id| #[trigger] self.iter_e.last(i) == old(self).iter_e.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_c.val(i) == old(self).iter_c.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_d.val(i) == old(self).iter_d.val(i), forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_e.val(i) == old(self).iter_e.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_keep_first(g_rem, self.iter_b.dom().intersect(self.iter_c.dom().intersect(self.iter_d.dom().intersect(self.iter_e.dom())))); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::with::WithIter5@Iterator::next
@fn query::with::WithIter5@QueryIterator::next_with_id
@impl query::without::WithoutIterLeft@Iterator
    open spec fn inv(&self) -> bool { self.iter_a.inv() && self.iter_b.inv() }
    open spec fn rem(&self) -> Seq<Id> { drop_in(self.iter_b.rem(), self.iter_a.dom()) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.iter_b.dom().contains(i) && !self.iter_a.dom().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter_b.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { B::ival(i) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { B::fval(i) }
    open spec fn exact(&self) -> bool { false }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.iter_b.last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { self.iter_a.stamp() + self.iter_b.stamp() }
@impl query::without::WithoutIterLeft@QueryIterator
    proof fn lemma_good(&self) { self.iter_b.lemma_good(); lemma_drop_good(self.iter_b.rem(), self.iter_a.dom()); }
@fn query::without::WithoutIterLeft@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_b.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_b.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_b.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_a.dom() == old(self).iter_a.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i),
ensures self.rem().len() == 0
decreases self.iter_b.rem().len()
@loop-start 1
proof { lemma_drop_first(g_rem, self.iter_a.dom()); assert(g_rem.contains(g_rem[0])); assert(self.iter_b.dom().contains(g_rem[0])); g_rem = self.iter_b.rem(); self.iter_b.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_b.rem();
@fn query::without::WithoutIterLeft@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_b.lemma_good(); }
@fn query::without::WithoutIterLeft@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_b.lemma_good(); }
@fn query::without::WithoutIterLeft@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_b.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_b.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_b.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_b.dom() == old(self).iter_b.dom(), self.iter_a.dom() == old(self).iter_a.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_b.val(i) == old(self).iter_b.val(i),
ensures self.rem().len() == 0
decreases self.iter_b.rem().len()
@loop-start 1
proof { lemma_drop_first(g_rem, self.iter_a.dom()); assert(g_rem.contains(g_rem[0])); assert(self.iter_b.dom().contains(g_rem[0])); g_rem = self.iter_b.rem(); self.iter_b.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_b.rem();
@impl query::without::WithoutIterRight@Iterator
    open spec fn inv(&self) -> bool { self.iter_a.inv() && self.iter_b.inv() }
    open spec fn rem(&self) -> Seq<Id> { drop_in(self.iter_a.rem(), self.iter_b.dom()) }
    open spec fn dom(&self) -> ISet<Id> { ISet::new(|i: Id| self.iter_a.dom().contains(i) && !self.iter_b.dom().contains(i)) }
    open spec fn val(&self, id: Id) -> Seq<AnyVal> { self.iter_a.val(id) }
    open spec fn ival(i: Self::Item) -> Seq<AnyVal> { A::ival(i) }
    #[verifier::prophetic] open spec fn fval(i: Self::Item) -> Seq<AnyVal> { A::fval(i) }
    open spec fn exact(&self) -> bool { false }
    open spec fn last(&self, id: Id) -> Seq<AnyVal> { self.iter_a.last(id) }
    #[verifier::prophetic] open spec fn stamp(&self) -> Seq<AnyVal> { self.iter_a.stamp() + self.iter_b.stamp() }
@impl query::without::WithoutIterRight@QueryIterator
    proof fn lemma_good(&self) { self.iter_a.lemma_good(); lemma_drop_good(self.iter_a.rem(), self.iter_b.dom()); }
@fn query::without::WithoutIterRight@Iterator::next
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_drop_first(g_rem, self.iter_b.dom()); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
@fn query::without::WithoutIterRight@Iterator::size_hint
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::without::WithoutIterRight@QueryIterator::from_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@fn query::without::WithoutIterRight@QueryIterator::next_with_id
@attr #[verifier::rlimit(60)] #[verifier::spinoff_prover]
@start
proof { self.iter_a.lemma_good(); }
@loop 1
invariant
    g_rem == self.iter_a.rem(), forall|i: Id| g_rem.contains(i) ==> #[trigger] self.iter_a.dom().contains(i),
    self.inv(), self.rem() == old(self).rem(), self.dom() == old(self).dom(), self.iter_a.dom() == old(self).iter_a.dom(), self.iter_b.dom() == old(self).iter_b.dom(),
    self.iter_a.stamp() == old(self).iter_a.stamp(), forall|i: Id| #[trigger] self.iter_a.last(i) == old(self).iter_a.last(i), self.iter_b.stamp() == old(self).iter_b.stamp(), forall|i: Id| #[trigger] self.iter_b.last(i) == old(self).iter_b.last(i),
    forall|i: Id| old(self).dom().contains(i) ==> #[trigger] self.iter_a.val(i) == old(self).iter_a.val(i),
ensures self.rem().len() == 0
decreases self.iter_a.rem().len()
@loop-start 1
proof { lemma_drop_first(g_rem, self.iter_b.dom()); assert(g_rem.contains(g_rem[0])); assert(self.iter_a.dom().contains(g_rem[0])); g_rem = self.iter_a.rem(); self.iter_a.lemma_good(); }
@loop-before 1
let ghost mut g_rem = self.iter_a.rem();
