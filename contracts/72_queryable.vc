@impl query::Queryable
    type It: QueryIterator<Item = Self::Item>;
    /* the entities that satisfy the query, and what the query yields for them */
    spec fn sat(v: WV) -> ISet<Id>;
    spec fn vals(v: WV, i: Id) -> Seq<AnyVal>;
    /* the component types it looks at, and those it hands out mutably */
    spec fn uses() -> ISet<TypeId>;
    spec fn writes() -> ISet<TypeId>;
    /* no part hands out mutably what another part looks at */
    spec fn fine() -> bool;
    /* a type is not registered or the group is not declared */
    spec fn bad(v: WV) -> bool;
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>)
        requires revalued(v, w, ws), apart_types(Self::uses(), ws), wok(v)
        ensures Self::bad(w) == Self::bad(v), !Self::bad(v) ==> Self::sat(w) == Self::sat(v), forall|i: Id| !Self::bad(v) && Self::sat(v).contains(i) ==> #[trigger] Self::vals(w, i) == Self::vals(v, i);
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>)
        requires revalued(v, w, ws), wok(v)
        ensures Self::bad(w) == Self::bad(v), !Self::bad(v) ==> Self::sat(w) == Self::sat(v);
    proof fn lemma_uses() ensures forall|t: TypeId| #[trigger] Self::writes().contains(t) ==> Self::uses().contains(t);
@fn query::Queryable::query
@ret_type Box<Self::It>
@heap
@panics
Self::bad(wv(*world, h@))
@panics_old
Self::bad(wv(*world, old(h)@))
@requires
winv(*world, old(h)@), Self::fine()
@ensures
winv(*world, final(h)@), revalued(wv(*world, old(h)@), wv(*world, final(h)@), Self::writes()),
r.inv(), r.dom() == Self::sat(wv(*world, old(h)@)), forall|i: Id| #[trigger] r.rem().contains(i) <==> Self::sat(wv(*world, old(h)@)).contains(i),
forall|i: Id| Self::sat(wv(*world, old(h)@)).contains(i) ==> #[trigger] r.val(i) == Self::vals(wv(*world, old(h)@), i),
forall|i: Id| Self::sat(wv(*world, old(h)@)).contains(i) ==> #[trigger] r.last(i) == Self::vals(wv(*world, final(h)@), i)
@impl query::&T@Queryable
    type It = IterRef<'a, T>;
    open spec fn sat(v: WV) -> ISet<Id> { has(v, tid::<T>()) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<T>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<T>()) }
    open spec fn writes() -> ISet<TypeId> { ISet::empty() }
    open spec fn fine() -> bool { true }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<T>()) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(one(tid::<T>()).contains(tid::<T>())); let s = w.st[tid::<T>()]; }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = w.st[tid::<T>()]; }
    proof fn lemma_uses() { }
@fn query::&T@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, t) = (wv(*world, h@), tid::<T>());
proof { if !Self::bad(v0) { assert(st_ok(v0, t)); } }
@post
proof {
    lemma_ss_all(*r.sparse_set);
    assert(r.rem() =~= v0.st[t].ids()); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.sparse_set.has(i)); }
}
@impl query::&mut T@Queryable
    type It = IterMut<'a, T>;
    open spec fn sat(v: WV) -> ISet<Id> { has(v, tid::<T>()) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<T>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<T>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<T>()) }
    open spec fn fine() -> bool { true }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<T>()) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(one(tid::<T>()).contains(tid::<T>())); let s = w.st[tid::<T>()]; }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = w.st[tid::<T>()]; }
    proof fn lemma_uses() { }
@fn query::&mut T@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, t) = (wv(*world, h@), tid::<T>());
proof { if !Self::bad(v0) { assert(st_ok(v0, t)); } }
@post
proof {
    assume(given_back(r.sparse_set, r.borrow));
    let v1 = wv(*world, h@);
    lemma_ss_all(r.sparse_set.cur()); lemma_ss_all(r.sparse_set.fin());
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(r.rem() =~= v0.st[t].ids()); assert(r.dom() =~= Self::sat(v0));
    assert(st_ok(v1, t));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.sparse_set.cur().has(i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.sparse_set.fin().has(i)); }
}
@impl group::full_owning::query::FullOwning<&A,&B>@Queryable
    type It = IterRefRef<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { ISet::empty() }
    open spec fn fine() -> bool { true }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (0int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::full_owning::query::FullOwning<&A,&B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(*r.sparse_set_a, v0.st[ta]); lemma_item(*r.sparse_set_b, v0.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::full_owning::query::FullOwning<&A,&mut B>@Queryable
    type It = IterRefMut<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<B>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (0int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::full_owning::query::FullOwning<&A,&mut B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_b, r.borrow_b));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(*r.sparse_set_a, v0.st[ta]); lemma_item(r.sparse_set_b.cur(), v0.st[tb]);
    lemma_item(r.sparse_set_b.fin(), v1.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::full_owning::query::FullOwning<&mut A,&B>@Queryable
    type It = IterMutRef<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<A>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (0int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::full_owning::query::FullOwning<&mut A,&B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_a, r.borrow_a));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(r.sparse_set_a.cur(), v0.st[ta]); lemma_item(*r.sparse_set_b, v0.st[tb]);
    lemma_item(r.sparse_set_a.fin(), v1.st[ta]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::full_owning::query::FullOwning<&mut A,&mut B>@Queryable
    type It = IterMutMut<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (0int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::full_owning::query::FullOwning<&mut A,&mut B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_a, r.borrow_a));
    assume(given_back(r.sparse_set_b, r.borrow_b));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(r.sparse_set_a.cur(), v0.st[ta]); lemma_item(r.sparse_set_b.cur(), v0.st[tb]);
    lemma_item(r.sparse_set_a.fin(), v1.st[ta]);
    lemma_item(r.sparse_set_b.fin(), v1.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::partial_owning::query::PartialOwning<&A,&B>@Queryable
    type It = IterRefRef<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { ISet::empty() }
    open spec fn fine() -> bool { true }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (1int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::partial_owning::query::PartialOwning<&A,&B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(*r.sparse_set_a, v0.st[ta]); lemma_item(*r.sparse_set_b, v0.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::partial_owning::query::PartialOwning<&A,&mut B>@Queryable
    type It = IterRefMut<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<B>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (1int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::partial_owning::query::PartialOwning<&A,&mut B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_b, r.borrow_b));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(*r.sparse_set_a, v0.st[ta]); lemma_item(r.sparse_set_b.cur(), v0.st[tb]);
    lemma_item(r.sparse_set_b.fin(), v1.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::partial_owning::query::PartialOwning<&mut A,&B>@Queryable
    type It = IterMutRef<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<A>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (1int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::partial_owning::query::PartialOwning<&mut A,&B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_a, r.borrow_a));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(r.sparse_set_a.cur(), v0.st[ta]); lemma_item(*r.sparse_set_b, v0.st[tb]);
    lemma_item(r.sparse_set_a.fin(), v1.st[ta]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::partial_owning::query::PartialOwning<&mut A,&mut B>@Queryable
    type It = IterMutMut<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (1int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::partial_owning::query::PartialOwning<&mut A,&mut B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_a, r.borrow_a));
    assume(given_back(r.sparse_set_b, r.borrow_b));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(r.sparse_set_a.cur(), v0.st[ta]); lemma_item(r.sparse_set_b.cur(), v0.st[tb]);
    lemma_item(r.sparse_set_a.fin(), v1.st[ta]);
    lemma_item(r.sparse_set_b.fin(), v1.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::non_owning::query::NonOwning<&A,&B>@Queryable
    type It = IterRefRef<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { ISet::empty() }
    open spec fn fine() -> bool { true }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (2int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::non_owning::query::NonOwning<&A,&B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(*r.sparse_set_a, v0.st[ta]); lemma_item(*r.sparse_set_b, v0.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::non_owning::query::NonOwning<&A,&mut B>@Queryable
    type It = IterRefMut<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<B>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (2int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::non_owning::query::NonOwning<&A,&mut B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_b, r.borrow_b));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(*r.sparse_set_a, v0.st[ta]); lemma_item(r.sparse_set_b.cur(), v0.st[tb]);
    lemma_item(r.sparse_set_b.fin(), v1.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::non_owning::query::NonOwning<&mut A,&B>@Queryable
    type It = IterMutRef<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<A>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (2int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::non_owning::query::NonOwning<&mut A,&B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_a, r.borrow_a));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(r.sparse_set_a.cur(), v0.st[ta]); lemma_item(*r.sparse_set_b, v0.st[tb]);
    lemma_item(r.sparse_set_a.fin(), v1.st[ta]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl group::non_owning::query::NonOwning<&mut A,&mut B>@Queryable
    type It = IterMutMut<'a, A, B>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| v.st[tid::<A>()].ids().contains(i) && v.st[tid::<B>()].ids().contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { seq![comp(v, tid::<A>(), i)->Some_0, comp(v, tid::<B>(), i)->Some_0] }
    open spec fn uses() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn writes() -> ISet<TypeId> { one(tid::<A>()).insert(tid::<B>()) }
    open spec fn fine() -> bool { tid::<A>() != tid::<B>() }
    open spec fn bad(v: WV) -> bool { !v.st.dom().contains(tid::<A>()) || !v.st.dom().contains(tid::<B>()) || !declared(v, (2int, tid::<A>(), tid::<B>())) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { Self::lemma_sat(v, w, ws); assert(Self::uses().contains(tid::<A>())); assert(Self::uses().contains(tid::<B>())); let s = (w.st[tid::<A>()], w.st[tid::<B>()]); }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { let s = (w.st[tid::<A>()], w.st[tid::<B>()]); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { }
@fn group::non_owning::query::NonOwning<&mut A,&mut B>@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
only_guards(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom, lemma_find, lemma_ss_all; lemma_revalued_refl(wv(*world, h@)); }
let ghost (v0, ta, tb) = (wv(*world, h@), tid::<A>(), tid::<B>());
proof { if v0.st.dom().contains(ta) { assert(st_ok(v0, ta)); } if v0.st.dom().contains(tb) { assert(st_ok(v0, tb)); } }
@post
proof {
    assume(given_back(r.sparse_set_a, r.borrow_a));
    assume(given_back(r.sparse_set_b, r.borrow_b));
    let v1 = wv(*world, h@);
    assert(revalued(v0, v1, Self::writes()));
    lemma_revalued(v0, v1, Self::writes());
    assert(st_ok(v1, ta)); assert(st_ok(v1, tb));
    lemma_item(r.sparse_set_a.cur(), v0.st[ta]); lemma_item(r.sparse_set_b.cur(), v0.st[tb]);
    lemma_item(r.sparse_set_a.fin(), v1.st[ta]);
    lemma_item(r.sparse_set_b.fin(), v1.st[tb]);
    let g = *r.borrow_group;
    let k = choose|k: int| 0 <= k < v0.gr.len() && g == v0.gr[k];
    assert(gr_ok(v0, v0.gr[k], ISet::empty()));
    lemma_head(g, v0.st[ta].ids(), v0.st[tb].ids());
    assert(r.rem() =~= head(g, v0.st[ta].ids())); assert(r.dom() =~= Self::sat(v0));
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.val(i) == Self::vals(v0, i) by { assert(r.val(i) =~= Self::vals(v0, i)); }
    assert forall|i: Id| Self::sat(v0).contains(i) implies #[trigger] r.last(i) == Self::vals(v1, i) by { assert(r.last(i) =~= Self::vals(v1, i)); }
}
@impl query::with::(A,B)@Queryable
    type It = WithIter<Box<A::It>, Box<B::It>>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| A::sat(v).contains(i) && B::sat(v).contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { A::vals(v, i) + B::vals(v, i) }
    open spec fn uses() -> ISet<TypeId> { A::uses().union(B::uses()) }
    open spec fn writes() -> ISet<TypeId> { A::writes().union(B::writes()) }
    open spec fn fine() -> bool { A::fine() && B::fine() && apart_types(A::uses(), B::writes()) && apart_types(B::uses(), A::writes()) }
    open spec fn bad(v: WV) -> bool { A::bad(v) || B::bad(v) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { assert forall|t: TypeId| #[trigger] A::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } A::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] B::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } B::lemma_same(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { A::lemma_sat(v, w, ws); B::lemma_sat(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { A::lemma_uses(); B::lemma_uses(); }
@fn query::with::(A,B)@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom; lemma_revalued_refl(wv(*world, h@)); }
let ghost v0 = wv(*world, h@);
let ghost w0 = ISet::<TypeId>::empty();
@after query 1
let ghost v1 = wv(*world, h@);
let ghost w1 = w0.union(VxQ1::writes());
proof {
    lemma_revalued_trans(v0, v0, v1, w0, VxQ1::writes()); lemma_revalued(v0, v1, w1);
    VxQ2::lemma_sat(v0, v1, w1); VxQ2::lemma_same(v0, v1, w1);
}
@after query 2
let ghost v2 = wv(*world, h@);
let ghost w2 = w1.union(VxQ2::writes());
proof {
    lemma_revalued_trans(v0, v1, v2, w1, VxQ2::writes()); lemma_revalued(v0, v2, w2);
}
@post
proof {
    assert(w2 =~= Self::writes());
    assert(!Self::bad(v0));
    let u = VxQ2::writes();
    VxQ1::lemma_sat(v0, v1, w1); VxQ1::lemma_same(v1, v2, u);
    lemma_keep_good(r.iter_a.rem(), r.iter_b.dom());
    assert(r.dom() =~= Self::sat(v0));
}
@impl query::with::(A,B,C)@Queryable
    type It = WithIter3<Box<A::It>, Box<B::It>, Box<C::It>>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| A::sat(v).contains(i) && B::sat(v).contains(i) && C::sat(v).contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { A::vals(v, i) + B::vals(v, i) + C::vals(v, i) }
    open spec fn uses() -> ISet<TypeId> { A::uses().union(B::uses()).union(C::uses()) }
    open spec fn writes() -> ISet<TypeId> { A::writes().union(B::writes()).union(C::writes()) }
    open spec fn fine() -> bool { A::fine() && B::fine() && C::fine() && apart_types(A::uses(), B::writes()) && apart_types(A::uses(), C::writes()) && apart_types(B::uses(), A::writes()) && apart_types(B::uses(), C::writes()) && apart_types(C::uses(), A::writes()) && apart_types(C::uses(), B::writes()) }
    open spec fn bad(v: WV) -> bool { A::bad(v) || B::bad(v) || C::bad(v) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { assert forall|t: TypeId| #[trigger] A::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } A::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] B::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } B::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] C::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } C::lemma_same(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { A::lemma_sat(v, w, ws); B::lemma_sat(v, w, ws); C::lemma_sat(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { A::lemma_uses(); B::lemma_uses(); C::lemma_uses(); }
@fn query::with::(A,B,C)@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom; lemma_revalued_refl(wv(*world, h@)); }
let ghost v0 = wv(*world, h@);
let ghost w0 = ISet::<TypeId>::empty();
@after query 1
let ghost v1 = wv(*world, h@);
let ghost w1 = w0.union(VxQ1::writes());
proof {
    lemma_revalued_trans(v0, v0, v1, w0, VxQ1::writes()); lemma_revalued(v0, v1, w1);
    VxQ2::lemma_sat(v0, v1, w1); VxQ2::lemma_same(v0, v1, w1);
}
@after query 2
let ghost v2 = wv(*world, h@);
let ghost w2 = w1.union(VxQ2::writes());
proof {
    lemma_revalued_trans(v0, v1, v2, w1, VxQ2::writes()); lemma_revalued(v0, v2, w2);
    VxQ3::lemma_sat(v0, v2, w2); VxQ3::lemma_same(v0, v2, w2);
}
@after query 3
let ghost v3 = wv(*world, h@);
let ghost w3 = w2.union(VxQ3::writes());
proof {
    lemma_revalued_trans(v0, v2, v3, w2, VxQ3::writes()); lemma_revalued(v0, v3, w3);
}
@post
proof {
    assert(w3 =~= Self::writes());
    assert(!Self::bad(v0));
    let u = VxQ2::writes();
    lemma_revalued_trans(v1, v2, v3, u, VxQ3::writes()); let u = u.union(VxQ3::writes());
    VxQ1::lemma_sat(v0, v1, w1); VxQ1::lemma_same(v1, v3, u);
    let u = VxQ3::writes();
    VxQ2::lemma_sat(v0, v2, w2); VxQ2::lemma_same(v2, v3, u);
    lemma_keep_good(r.iter_a.rem(), r.iter_b.dom().intersect(r.iter_c.dom()));
    assert(r.dom() =~= Self::sat(v0));
}
@impl query::with::(A,B,C,D)@Queryable
    type It = WithIter4<Box<A::It>, Box<B::It>, Box<C::It>, Box<D::It>>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| A::sat(v).contains(i) && B::sat(v).contains(i) && C::sat(v).contains(i) && D::sat(v).contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { A::vals(v, i) + B::vals(v, i) + C::vals(v, i) + D::vals(v, i) }
    open spec fn uses() -> ISet<TypeId> { A::uses().union(B::uses()).union(C::uses()).union(D::uses()) }
    open spec fn writes() -> ISet<TypeId> { A::writes().union(B::writes()).union(C::writes()).union(D::writes()) }
    open spec fn fine() -> bool { A::fine() && B::fine() && C::fine() && D::fine() && apart_types(A::uses(), B::writes()) && apart_types(A::uses(), C::writes()) && apart_types(A::uses(), D::writes()) && apart_types(B::uses(), A::writes()) && apart_types(B::uses(), C::writes()) && apart_types(B::uses(), D::writes()) && apart_types(C::uses(), A::writes()) && apart_types(C::uses(), B::writes()) && apart_types(C::uses(), D::writes()) && apart_types(D::uses(), A::writes()) && apart_types(D::uses(), B::writes()) && apart_types(D::uses(), C::writes()) }
    open spec fn bad(v: WV) -> bool { A::bad(v) || B::bad(v) || C::bad(v) || D::bad(v) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { assert forall|t: TypeId| #[trigger] A::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } A::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] B::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } B::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] C::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } C::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] D::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } D::lemma_same(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { A::lemma_sat(v, w, ws); B::lemma_sat(v, w, ws); C::lemma_sat(v, w, ws); D::lemma_sat(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { A::lemma_uses(); B::lemma_uses(); C::lemma_uses(); D::lemma_uses(); }
@fn query::with::(A,B,C,D)@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom; lemma_revalued_refl(wv(*world, h@)); }
let ghost v0 = wv(*world, h@);
let ghost w0 = ISet::<TypeId>::empty();
@after query 1
let ghost v1 = wv(*world, h@);
let ghost w1 = w0.union(VxQ1::writes());
proof {
    lemma_revalued_trans(v0, v0, v1, w0, VxQ1::writes()); lemma_revalued(v0, v1, w1);
    VxQ2::lemma_sat(v0, v1, w1); VxQ2::lemma_same(v0, v1, w1);
}
@after query 2
let ghost v2 = wv(*world, h@);
let ghost w2 = w1.union(VxQ2::writes());
proof {
    lemma_revalued_trans(v0, v1, v2, w1, VxQ2::writes()); lemma_revalued(v0, v2, w2);
    VxQ3::lemma_sat(v0, v2, w2); VxQ3::lemma_same(v0, v2, w2);
}
@after query 3
let ghost v3 = wv(*world, h@);
let ghost w3 = w2.union(VxQ3::writes());
proof {
    lemma_revalued_trans(v0, v2, v3, w2, VxQ3::writes()); lemma_revalued(v0, v3, w3);
    VxQ4::lemma_sat(v0, v3, w3); VxQ4::lemma_same(v0, v3, w3);
}
@after query 4
let ghost v4 = wv(*world, h@);
let ghost w4 = w3.union(VxQ4::writes());
proof {
    lemma_revalued_trans(v0, v3, v4, w3, VxQ4::writes()); lemma_revalued(v0, v4, w4);
}
@post
proof {
    assert(w4 =~= Self::writes());
    assert(!Self::bad(v0));
    let u = VxQ2::writes();
    lemma_revalued_trans(v1, v2, v3, u, VxQ3::writes()); let u = u.union(VxQ3::writes());
    lemma_revalued_trans(v1, v3, v4, u, VxQ4::writes()); let u = u.union(VxQ4::writes());
    VxQ1::lemma_sat(v0, v1, w1); VxQ1::lemma_same(v1, v4, u);
    let u = VxQ3::writes();
    lemma_revalued_trans(v2, v3, v4, u, VxQ4::writes()); let u = u.union(VxQ4::writes());
    VxQ2::lemma_sat(v0, v2, w2); VxQ2::lemma_same(v2, v4, u);
    let u = VxQ4::writes();
    VxQ3::lemma_sat(v0, v3, w3); VxQ3::lemma_same(v3, v4, u);
    lemma_keep_good(r.iter_a.rem(), r.iter_b.dom().intersect(r.iter_c.dom().intersect(r.iter_d.dom())));
    assert(r.dom() =~= Self::sat(v0));
}
@impl query::with::(A,B,C,D,E)@Queryable
    type It = WithIter5<Box<A::It>, Box<B::It>, Box<C::It>, Box<D::It>, Box<E::It>>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| A::sat(v).contains(i) && B::sat(v).contains(i) && C::sat(v).contains(i) && D::sat(v).contains(i) && E::sat(v).contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { A::vals(v, i) + B::vals(v, i) + C::vals(v, i) + D::vals(v, i) + E::vals(v, i) }
    open spec fn uses() -> ISet<TypeId> { A::uses().union(B::uses()).union(C::uses()).union(D::uses()).union(E::uses()) }
    open spec fn writes() -> ISet<TypeId> { A::writes().union(B::writes()).union(C::writes()).union(D::writes()).union(E::writes()) }
    open spec fn fine() -> bool { A::fine() && B::fine() && C::fine() && D::fine() && E::fine() && apart_types(A::uses(), B::writes()) && apart_types(A::uses(), C::writes()) && apart_types(A::uses(), D::writes()) && apart_types(A::uses(), E::writes()) && apart_types(B::uses(), A::writes()) && apart_types(B::uses(), C::writes()) && apart_types(B::uses(), D::writes()) && apart_types(B::uses(), E::writes()) && apart_types(C::uses(), A::writes()) && apart_types(C::uses(), B::writes()) && apart_types(C::uses(), D::writes()) && apart_types(C::uses(), E::writes()) && apart_types(D::uses(), A::writes()) && apart_types(D::uses(), B::writes()) && apart_types(D::uses(), C::writes()) && apart_types(D::uses(), E::writes()) && apart_types(E::uses(), A::writes()) && apart_types(E::uses(), B::writes()) && apart_types(E::uses(), C::writes()) && apart_types(E::uses(), D::writes()) }
    open spec fn bad(v: WV) -> bool { A::bad(v) || B::bad(v) || C::bad(v) || D::bad(v) || E::bad(v) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { assert forall|t: TypeId| #[trigger] A::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } A::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] B::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } B::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] C::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } C::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] D::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } D::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] E::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } E::lemma_same(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { A::lemma_sat(v, w, ws); B::lemma_sat(v, w, ws); C::lemma_sat(v, w, ws); D::lemma_sat(v, w, ws); E::lemma_sat(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { A::lemma_uses(); B::lemma_uses(); C::lemma_uses(); D::lemma_uses(); E::lemma_uses(); }
@fn query::with::(A,B,C,D,E)@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom; lemma_revalued_refl(wv(*world, h@)); }
let ghost v0 = wv(*world, h@);
let ghost w0 = ISet::<TypeId>::empty();
@after query 1
let ghost v1 = wv(*world, h@);
let ghost w1 = w0.union(VxQ1::writes());
proof {
    lemma_revalued_trans(v0, v0, v1, w0, VxQ1::writes()); lemma_revalued(v0, v1, w1);
    VxQ2::lemma_sat(v0, v1, w1); VxQ2::lemma_same(v0, v1, w1);
}
@after query 2
let ghost v2 = wv(*world, h@);
let ghost w2 = w1.union(VxQ2::writes());
proof {
    lemma_revalued_trans(v0, v1, v2, w1, VxQ2::writes()); lemma_revalued(v0, v2, w2);
    VxQ3::lemma_sat(v0, v2, w2); VxQ3::lemma_same(v0, v2, w2);
}
@after query 3
let ghost v3 = wv(*world, h@);
let ghost w3 = w2.union(VxQ3::writes());
proof {
    lemma_revalued_trans(v0, v2, v3, w2, VxQ3::writes()); lemma_revalued(v0, v3, w3);
    VxQ4::lemma_sat(v0, v3, w3); VxQ4::lemma_same(v0, v3, w3);
}
@after query 4
let ghost v4 = wv(*world, h@);
let ghost w4 = w3.union(VxQ4::writes());
proof {
    lemma_revalued_trans(v0, v3, v4, w3, VxQ4::writes()); lemma_revalued(v0, v4, w4);
    VxQ5::lemma_sat(v0, v4, w4); VxQ5::lemma_same(v0, v4, w4);
}
@after query 5
let ghost v5 = wv(*world, h@);
let ghost w5 = w4.union(VxQ5::writes());
proof {
    lemma_revalued_trans(v0, v4, v5, w4, VxQ5::writes()); lemma_revalued(v0, v5, w5);
}
@post
proof {
    assert(w5 =~= Self::writes());
    assert(!Self::bad(v0));
    let u = VxQ2::writes();
    lemma_revalued_trans(v1, v2, v3, u, VxQ3::writes()); let u = u.union(VxQ3::writes());
    lemma_revalued_trans(v1, v3, v4, u, VxQ4::writes()); let u = u.union(VxQ4::writes());
    lemma_revalued_trans(v1, v4, v5, u, VxQ5::writes()); let u = u.union(VxQ5::writes());
    VxQ1::lemma_sat(v0, v1, w1); VxQ1::lemma_same(v1, v5, u);
    let u = VxQ3::writes();
    lemma_revalued_trans(v2, v3, v4, u, VxQ4::writes()); let u = u.union(VxQ4::writes());
    lemma_revalued_trans(v2, v4, v5, u, VxQ5::writes()); let u = u.union(VxQ5::writes());
    VxQ2::lemma_sat(v0, v2, w2); VxQ2::lemma_same(v2, v5, u);
    let u = VxQ4::writes();
    lemma_revalued_trans(v3, v4, v5, u, VxQ5::writes()); let u = u.union(VxQ5::writes());
    VxQ3::lemma_sat(v0, v3, w3); VxQ3::lemma_same(v3, v5, u);
    let u = VxQ5::writes();
    VxQ4::lemma_sat(v0, v4, w4); VxQ4::lemma_same(v4, v5, u);
    lemma_keep_good(r.iter_a.rem(), r.iter_b.dom().intersect(r.iter_c.dom().intersect(r.iter_d.dom().intersect(r.iter_e.dom()))));
    assert(r.dom() =~= Self::sat(v0));
}
@impl query::without::(Without<A>,B)@Queryable
    type It = WithoutIterLeft<Box<A::It>, Box<B::It>>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| B::sat(v).contains(i) && !A::sat(v).contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { B::vals(v, i) }
    open spec fn uses() -> ISet<TypeId> { A::uses().union(B::uses()) }
    open spec fn writes() -> ISet<TypeId> { A::writes().union(B::writes()) }
    open spec fn fine() -> bool { A::fine() && B::fine() && apart_types(A::uses(), B::writes()) && apart_types(B::uses(), A::writes()) }
    open spec fn bad(v: WV) -> bool { A::bad(v) || B::bad(v) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { assert forall|t: TypeId| #[trigger] A::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } A::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] B::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } B::lemma_same(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { A::lemma_sat(v, w, ws); B::lemma_sat(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { A::lemma_uses(); B::lemma_uses(); }
@fn query::without::(Without<A>,B)@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom; lemma_revalued_refl(wv(*world, h@)); }
let ghost v0 = wv(*world, h@);
let ghost w0 = ISet::<TypeId>::empty();
@after query 1
let ghost v1 = wv(*world, h@);
let ghost w1 = w0.union(VxQ1::writes());
proof {
    lemma_revalued_trans(v0, v0, v1, w0, VxQ1::writes()); lemma_revalued(v0, v1, w1);
    VxQ2::lemma_sat(v0, v1, w1); VxQ2::lemma_same(v0, v1, w1);
}
@after query 2
let ghost v2 = wv(*world, h@);
let ghost w2 = w1.union(VxQ2::writes());
proof {
    lemma_revalued_trans(v0, v1, v2, w1, VxQ2::writes()); lemma_revalued(v0, v2, w2);
}
@post
proof {
    assert(w2 =~= Self::writes());
    assert(!Self::bad(v0));
    let u = VxQ2::writes();
    VxQ1::lemma_sat(v0, v1, w1); VxQ1::lemma_same(v1, v2, u);
    lemma_drop_good(r.iter_b.rem(), r.iter_a.dom());
    assert(r.dom() =~= Self::sat(v0));
}
@impl query::without::(A,Without<B>)@Queryable
    type It = WithoutIterRight<Box<A::It>, Box<B::It>>;
    open spec fn sat(v: WV) -> ISet<Id> { ISet::new(|i: Id| A::sat(v).contains(i) && !B::sat(v).contains(i)) }
    open spec fn vals(v: WV, i: Id) -> Seq<AnyVal> { A::vals(v, i) }
    open spec fn uses() -> ISet<TypeId> { A::uses().union(B::uses()) }
    open spec fn writes() -> ISet<TypeId> { A::writes().union(B::writes()) }
    open spec fn fine() -> bool { A::fine() && B::fine() && apart_types(A::uses(), B::writes()) && apart_types(B::uses(), A::writes()) }
    open spec fn bad(v: WV) -> bool { A::bad(v) || B::bad(v) }
    proof fn lemma_same(v: WV, w: WV, ws: ISet<TypeId>) { assert forall|t: TypeId| #[trigger] A::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } A::lemma_same(v, w, ws); assert forall|t: TypeId| #[trigger] B::uses().contains(t) implies !ws.contains(t) by { assert(Self::uses().contains(t)); } B::lemma_same(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_sat(v: WV, w: WV, ws: ISet<TypeId>) { A::lemma_sat(v, w, ws); B::lemma_sat(v, w, ws); if !Self::bad(v) { assert(Self::sat(w) =~= Self::sat(v)); } }
    proof fn lemma_uses() { A::lemma_uses(); B::lemma_uses(); }
@fn query::without::(A,Without<B>)@Queryable::query
@ret_type Box<Self::It>
@heap
@inherit
@panics
Self::bad(wv(*world, h@))
@unchanged
revalued(wv(*world, old(h)@), wv(*world, h@), Self::writes())
@start
proof { broadcast use lemma_dom; lemma_revalued_refl(wv(*world, h@)); }
let ghost v0 = wv(*world, h@);
let ghost w0 = ISet::<TypeId>::empty();
@after query 1
let ghost v1 = wv(*world, h@);
let ghost w1 = w0.union(VxQ1::writes());
proof {
    lemma_revalued_trans(v0, v0, v1, w0, VxQ1::writes()); lemma_revalued(v0, v1, w1);
    VxQ2::lemma_sat(v0, v1, w1); VxQ2::lemma_same(v0, v1, w1);
}
@after query 2
let ghost v2 = wv(*world, h@);
let ghost w2 = w1.union(VxQ2::writes());
proof {
    lemma_revalued_trans(v0, v1, v2, w1, VxQ2::writes()); lemma_revalued(v0, v2, w2);
}
@post
proof {
    assert(w2 =~= Self::writes());
    assert(!Self::bad(v0));
    let u = VxQ2::writes();
    VxQ1::lemma_sat(v0, v1, w1); VxQ1::lemma_same(v1, v2, u);
    lemma_drop_good(r.iter_a.rem(), r.iter_b.dom());
    assert(r.dom() =~= Self::sat(v0));
}
@fn world::World::query
@ret_type Box<T::It>
@heap
@panics
T::bad(wv(*self, h@))
@panics_old
T::bad(wv(*self, old(h)@))
@requires
winv(*self, old(h)@), T::fine()
@ensures
winv(*self, final(h)@), revalued(wv(*self, old(h)@), wv(*self, final(h)@), T::writes()),
r.inv(), r.dom() == T::sat(wv(*self, old(h)@)), forall|i: Id| #[trigger] r.rem().contains(i) <==> T::sat(wv(*self, old(h)@)).contains(i),
forall|i: Id| T::sat(wv(*self, old(h)@)).contains(i) ==> #[trigger] r.val(i) == T::vals(wv(*self, old(h)@), i),
forall|i: Id| T::sat(wv(*self, old(h)@)).contains(i) ==> #[trigger] r.last(i) == T::vals(wv(*self, final(h)@), i)
