@fn group::full_owning::FullOwningData@PartialEq::eq
@ensures
r == (self.type_a == other.type_a && self.type_b == other.type_b)
@fn group::full_owning::FullOwningData::len
@ensures
r == self.length
@fn group::full_owning::FullOwningData::types
@ensures
r == (self.type_a, self.type_b)
@fn group::full_owning::FullOwningData::owned
@ensures
r == (type_id == self.type_a || type_id == self.type_b)
@start
proof { broadcast use super::lemma_seq2; }
@fn group::full_owning::FullOwningData::owning
@ensures
r@ == seq2(self.type_a, self.type_b)
@fn group::full_owning::FullOwningData::in_components
@requires
comp_a.wf(), comp_b.wf()
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id)), r ==> id.v() < usize::MAX && comp_a.ids().len() < usize::MAX && comp_b.ids().len() < usize::MAX
@fn group::full_owning::FullOwningData::in_group
@requires
swf(*comp_a), swf(*comp_b), aligned(self.length as int, comp_a.ids(), comp_b.ids())
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id) && find(comp_a.ids(), id) < self.length && find(comp_b.ids(), id) < self.length)
@start
proof { broadcast use lemma_find; let (a, b) = (comp_a.ids(), comp_b.ids());
    if a.contains(id) && find(a, id) < self.length { assert(a[find(a, id)] == b[find(a, id)]); lemma_find_at(b, find(a, id)); }
    if b.contains(id) && find(b, id) < self.length { assert(a[find(b, id)] == b[find(b, id)]); lemma_find_at(a, find(b, id)); } }
@fn group::full_owning::FullOwningData::add
@requires
swf(*old(comp_a)), swf(*old(comp_b)), aligned(old(self).length as int, old(comp_a).ids(), old(comp_b).ids())
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, reordered(*old(comp_a), *final(comp_a)), reordered(*old(comp_b), *final(comp_b)),
forall|x: ISet<Id>| #[trigger] full_ok(old(self).length as int, old(comp_a).ids(), old(comp_b).ids(), x) ==> full_ok(final(self).length as int, final(comp_a).ids(), final(comp_b).ids(), x.remove(id))
@start
proof { broadcast use lemma_find, shim_axioms; }
let ghost (n, a, b, p, q) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id), find(comp_b.ids(), id));
proof { if a.contains(id) && b.contains(id) && p >= n && q < n { lemma_find_at(a, q); } if a.contains(id) && b.contains(id) && q >= n && p < n { lemma_find_at(b, p); } }
proof { if a.contains(id) && b.contains(id) && p >= n && q >= n {
    lemma_swapped(a, comp_a.vals(), p, n); lemma_swapped(b, comp_b.vals(), q, n);
    assert forall|x: ISet<Id>| #[trigger] full_ok(n, a, b, x) implies full_ok(n + 1, swapped(a, p, n), swapped(b, q, n), x.remove(id)) by { lemma_full_add(n, a, b, id, x); } } }
@fn group::full_owning::FullOwningData::remove
@requires
swf(*old(comp_a)), swf(*old(comp_b)), aligned(old(self).length as int, old(comp_a).ids(), old(comp_b).ids())
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, reordered(*old(comp_a), *final(comp_a)), reordered(*old(comp_b), *final(comp_b)),
forall|x: ISet<Id>| #[trigger] full_ok(old(self).length as int, old(comp_a).ids(), old(comp_b).ids(), x) ==> full_ok(final(self).length as int, final(comp_a).ids(), final(comp_b).ids(), x.insert(id))
@start
proof { broadcast use lemma_find, shim_axioms; }
let ghost (n, a, b, p, q) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id), find(comp_b.ids(), id));
proof { if a.contains(id) && b.contains(id) && p < n && q < n {
    lemma_swapped(a, comp_a.vals(), p, n - 1); lemma_swapped(b, comp_b.vals(), q, n - 1);
    assert forall|x: ISet<Id>| #[trigger] full_ok(n, a, b, x) implies full_ok(n - 1, swapped(a, p, n - 1), swapped(b, q, n - 1), x.insert(id)) by { lemma_full_remove(n, a, b, id, x); } } }
@fn group::full_owning::FullOwningData::make
@requires
swf(*old(comp_a)), swf(*old(comp_b)), old(self).length == 0
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, reordered(*old(comp_a), *final(comp_a)), reordered(*old(comp_b), *final(comp_b)),
full_ok(final(self).length as int, final(comp_a).ids(), final(comp_b).ids(), ISet::empty())
@loop 1
invariant
    self.type_a == old(self).type_a, self.type_b == old(self).type_b, len_a == comp_a.ids().len(), reordered(*old(comp_a), *comp_a), reordered(*old(comp_b), *comp_b),
    aligned(self.length as int, comp_a.ids(), comp_b.ids()), self.length <= index_a,
    forall|i: int| #![trigger comp_a.ids()[i]] self.length <= i < index_a ==> !comp_b.ids().contains(comp_a.ids()[i]),
@loop-start 1
let ghost (n, a, b, va, vb) = (self.length as int, comp_a.ids(), comp_b.ids(), comp_a.vals(), comp_b.vals());
@loop-end 1
proof { broadcast use lemma_find;
    let c = a[index_a as int];
    if b.contains(c) {
        lemma_find_at(a, index_a as int);
        let q = find(b, c);
        lemma_find_at(b, q);
        if q < n { lemma_find_at(a, q); assert(false); }
    }
}
@after swap_by_index 2
proof { broadcast use lemma_find;
    let c = a[index_a as int]; let q = index_b as int; let p = index_a as int;
    if q < n { lemma_find_at(a, q); lemma_find_at(a, p); }
    lemma_swapped(a, va, index_a as int, n); lemma_swapped(b, vb, index_b as int, n);
    lemma_content_trans(old(comp_a).ids(), old(comp_a).vals(), a, va, comp_a.ids(), comp_a.vals());
    lemma_content_trans(old(comp_b).ids(), old(comp_b).vals(), b, vb, comp_b.ids(), comp_b.vals());
    assert forall|i: int| #![trigger comp_a.ids()[i]] n + 1 <= i < index_a + 1 implies !comp_b.ids().contains(comp_a.ids()[i]) by {
        if i == index_a { if p != n { assert(comp_a.ids()[i] == a[n]); } } else { assert(comp_a.ids()[i] == a[i]); }
    }
}
@before swap_by_index 1
proof { broadcast use lemma_find; let q = index_b as int; if q < n { lemma_find_at(a, q); lemma_find_at(a, index_a as int); } }
@loop-after 1
proof { broadcast use lemma_find;
    let (n, a, b) = (self.length as int, comp_a.ids(), comp_b.ids());
    assert forall|i: int| #![trigger a[i]] n <= i < a.len() implies !b.contains(a[i]) by {
        if b.contains(a[i]) { let j = find(b, a[i]); if j < n { assert(a[j] == b[j]); } else { assert(a[i] == a[i]); assert(a.contains(a[i])); } }
    } }
@loop 2
invariant
    self.type_a == old(self).type_a, self.type_b == old(self).type_b, len_b == comp_b.ids().len(), reordered(*old(comp_a), *comp_a), reordered(*old(comp_b), *comp_b),
    aligned(self.length as int, comp_a.ids(), comp_b.ids()), self.length <= index_b,
    forall|i: int| #![trigger comp_b.ids()[i]] self.length <= i < index_b ==> !comp_a.ids().contains(comp_b.ids()[i]),
@loop-start 2
let ghost (n, a, b, va, vb) = (self.length as int, comp_a.ids(), comp_b.ids(), comp_a.vals(), comp_b.vals());
@loop-end 2
proof { broadcast use lemma_find;
    let c = b[index_b as int];
    if a.contains(c) {
        lemma_find_at(b, index_b as int);
        let q = find(a, c);
        lemma_find_at(a, q);
        if q < n { lemma_find_at(b, q); assert(false); }
    }
}
@after swap_by_index 4
proof { broadcast use lemma_find;
    let c = b[index_b as int]; let q = index_a as int; let p = index_b as int;
    if q < n { lemma_find_at(b, q); lemma_find_at(b, p); }
    lemma_swapped(a, va, index_a as int, n); lemma_swapped(b, vb, index_b as int, n);
    lemma_content_trans(old(comp_a).ids(), old(comp_a).vals(), a, va, comp_a.ids(), comp_a.vals());
    lemma_content_trans(old(comp_b).ids(), old(comp_b).vals(), b, vb, comp_b.ids(), comp_b.vals());
    assert forall|i: int| #![trigger comp_b.ids()[i]] n + 1 <= i < index_b + 1 implies !comp_a.ids().contains(comp_b.ids()[i]) by {
        if i == index_b { if p != n { assert(comp_b.ids()[i] == b[n]); } } else { assert(comp_b.ids()[i] == b[i]); }
    }
}
@before swap_by_index 3
proof { broadcast use lemma_find; let q = index_a as int; if q < n { lemma_find_at(b, q); lemma_find_at(b, index_b as int); } }
@loop-after 2
proof { broadcast use lemma_find;
    let (n, a, b) = (self.length as int, comp_a.ids(), comp_b.ids());
    assert forall|i: int| #![trigger a[i]] n <= i < a.len() implies !b.contains(a[i]) by {
        if b.contains(a[i]) { let j = find(b, a[i]); if j < n { assert(a[j] == b[j]); } else { assert(b[j] == a[i]); assert(a.contains(a[i])); } }
    } }
@start
proof { lemma_content_refl(comp_a.ids(), comp_a.vals()); lemma_content_refl(comp_b.ids(), comp_b.vals()); }
@fn group::full_owning::FullOwning::new
@impl group::full_owning::FullOwning@Into
    open spec fn spec_group() -> (int, TypeId, TypeId) { (0int, tid::<A>(), tid::<B>()) }
@fn group::full_owning::FullOwning@Into::into
@fn group::partial_owning::PartialOwningData@PartialEq::eq
@ensures
r == (self.type_a == other.type_a && self.type_b == other.type_b)
@fn group::partial_owning::PartialOwningData::len
@ensures
r == self.length
@fn group::partial_owning::PartialOwningData::types
@ensures
r == (self.type_a, self.type_b)
@fn group::partial_owning::PartialOwningData::owned
@ensures
r == (type_id == self.type_a)
@start
proof { broadcast use super::lemma_seq1; }
@fn group::partial_owning::PartialOwningData::owning
@ensures
r@ == seq1(self.type_a)
@fn group::partial_owning::PartialOwningData::in_components
@requires
comp_a.wf(), comp_b.wf()
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id)), r ==> id.v() < usize::MAX && comp_a.ids().len() < usize::MAX && comp_b.ids().len() < usize::MAX
@fn group::partial_owning::PartialOwningData::in_group
@requires
swf(*comp_a), swf(*comp_b), within(self.length as int, comp_a.ids(), comp_b.ids())
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id) && find(comp_a.ids(), id) < self.length)
@start
proof { broadcast use lemma_find; let (a, b) = (comp_a.ids(), comp_b.ids());
    if a.contains(id) && find(a, id) < self.length { assert(b.contains(a[find(a, id)])); } }
@fn group::partial_owning::PartialOwningData::add
@requires
swf(*old(comp_a)), swf(*comp_b), within(old(self).length as int, old(comp_a).ids(), comp_b.ids())
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, reordered(*old(comp_a), *final(comp_a)),
forall|x: ISet<Id>| #[trigger] partial_ok(old(self).length as int, old(comp_a).ids(), comp_b.ids(), x) ==> partial_ok(final(self).length as int, final(comp_a).ids(), comp_b.ids(), x.remove(id))
@start
proof { broadcast use lemma_find, shim_axioms; }
let ghost (n, a, b, p) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id));
proof { if a.contains(id) && b.contains(id) && p >= n {
    lemma_swapped(a, comp_a.vals(), p, n);
    assert forall|x: ISet<Id>| #[trigger] partial_ok(n, a, b, x) implies partial_ok(n + 1, swapped(a, p, n), b, x.remove(id)) by { lemma_partial_add(n, a, b, id, x); } } }
@fn group::partial_owning::PartialOwningData::remove
@requires
swf(*old(comp_a)), swf(*comp_b), within(old(self).length as int, old(comp_a).ids(), comp_b.ids())
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, reordered(*old(comp_a), *final(comp_a)),
forall|x: ISet<Id>| #[trigger] partial_ok(old(self).length as int, old(comp_a).ids(), comp_b.ids(), x) ==> partial_ok(final(self).length as int, final(comp_a).ids(), comp_b.ids(), x.insert(id))
@start
proof { broadcast use lemma_find, shim_axioms; }
let ghost (n, a, b, p) = (self.length as int, comp_a.ids(), comp_b.ids(), find(comp_a.ids(), id));
proof { if a.contains(id) && p < n {
    lemma_swapped(a, comp_a.vals(), p, n - 1);
    assert forall|x: ISet<Id>| #[trigger] partial_ok(n, a, b, x) implies partial_ok(n - 1, swapped(a, p, n - 1), b, x.insert(id)) by { lemma_partial_remove(n, a, b, id, x); } } }
@fn group::partial_owning::PartialOwningData::make
@requires
swf(*old(comp_a)), swf(*comp_b), old(self).length == 0
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, reordered(*old(comp_a), *final(comp_a)),
partial_ok(final(self).length as int, final(comp_a).ids(), comp_b.ids(), ISet::empty())
@start
proof { lemma_content_refl(comp_a.ids(), comp_a.vals()); }
@loop 1 it
invariant
    self.type_a == old(self).type_a, self.type_b == old(self).type_b, it.iter.end == comp_a.ids().len(), swf(*comp_b), reordered(*old(comp_a), *comp_a),
    self.length <= index, within(self.length as int, comp_a.ids(), comp_b.ids()),
    forall|i: int| #![trigger comp_a.ids()[i]] self.length <= i < index ==> !comp_b.ids().contains(comp_a.ids()[i]),
@loop-start 1
let ghost (n, a, va) = (self.length as int, comp_a.ids(), comp_a.vals());
@after swap_by_index 1
proof { lemma_swapped(a, va, index as int, n); lemma_content_trans(old(comp_a).ids(), old(comp_a).vals(), a, va, comp_a.ids(), comp_a.vals());
    assert forall|i: int| #![trigger comp_a.ids()[i]] n + 1 <= i < index + 1 implies !comp_b.ids().contains(comp_a.ids()[i]) by {
        if i == index { if index != n { assert(comp_a.ids()[i] == a[n]); } } else { assert(comp_a.ids()[i] == a[i]); }
    }
    assert forall|i: int| 0 <= i < n + 1 implies comp_b.ids().contains(#[trigger] comp_a.ids()[i]) by { if i < n { assert(comp_a.ids()[i] == a[i]); } }
}

@fn group::partial_owning::PartialOwning::new
@impl group::partial_owning::PartialOwning@Into
    open spec fn spec_group() -> (int, TypeId, TypeId) { (1int, tid::<A>(), tid::<B>()) }
@fn group::partial_owning::PartialOwning@Into::into
@fn group::non_owning::NonOwningData@PartialEq::eq
@ensures
r == (self.type_a == other.type_a && self.type_b == other.type_b)
@fn group::non_owning::NonOwningData::len
@requires
self.sparse_set.wf()
@ensures
r == self.sparse_set.ids().len()
@fn group::non_owning::NonOwningData::types
@ensures
r == (self.type_a, self.type_b)
@fn group::non_owning::NonOwningData::owned
@ensures
r == (false)
@fn group::non_owning::NonOwningData::owning
@ensures
r@ == Seq::<TypeId>::empty()
@fn group::non_owning::NonOwningData::in_components
@requires
comp_a.wf(), comp_b.wf()
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id)), r ==> id.v() < usize::MAX && comp_a.ids().len() < usize::MAX && comp_b.ids().len() < usize::MAX
@fn group::non_owning::NonOwningData::in_group
@requires
swf(*comp_a), swf(*comp_b), self.sparse_set.wf(), inside(self.sparse_set.ids(), comp_a.ids(), comp_b.ids())
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id) && self.sparse_set.ids().contains(id))
@start
proof { broadcast use lemma_find; self.sparse_set.lemma_all(); }
@fn group::non_owning::NonOwningData::add
@requires
swf(*comp_a), swf(*comp_b), old(self).sparse_set.wf(), inside(old(self).sparse_set.ids(), comp_a.ids(), comp_b.ids())
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, final(self).sparse_set.wf(),
forall|x: ISet<Id>| #[trigger] non_ok(old(self).sparse_set.ids(), comp_a.ids(), comp_b.ids(), x) ==> non_ok(final(self).sparse_set.ids(), comp_a.ids(), comp_b.ids(), x.remove(id))
@start
proof { broadcast use lemma_find, shim_axioms; self.sparse_set.lemma_all(); }
proof { lemma_push(self.sparse_set.ids(), id); }
@fn group::non_owning::NonOwningData::remove
@requires
swf(*comp_a), swf(*comp_b), old(self).sparse_set.wf(), inside(old(self).sparse_set.ids(), comp_a.ids(), comp_b.ids())
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, final(self).sparse_set.wf(),
forall|x: ISet<Id>| #[trigger] non_ok(old(self).sparse_set.ids(), comp_a.ids(), comp_b.ids(), x) ==> non_ok(final(self).sparse_set.ids(), comp_a.ids(), comp_b.ids(), x.insert(id))
@start
proof { broadcast use lemma_find, shim_axioms; self.sparse_set.lemma_all(); }
proof { if self.sparse_set.ids().contains(id) { lemma_swap_rem(self.sparse_set.ids(), self.sparse_set.pos(id)); } }
@fn group::non_owning::NonOwningData::make
@requires
swf(*comp_a), swf(*comp_b), old(self).sparse_set.wf(), old(self).sparse_set.ids().len() == 0
@ensures
final(self).type_a == old(self).type_a, final(self).type_b == old(self).type_b, final(self).sparse_set.wf(),
non_ok(final(self).sparse_set.ids(), comp_a.ids(), comp_b.ids(), ISet::empty())
@loop 1
invariant
    self.sparse_set.wf(), self.type_a == old(self).type_a, self.type_b == old(self).type_b, len_a == comp_a.ids().len(), swf(*comp_a), swf(*comp_b),
    forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_b.ids().contains(i) && exists|k: int| 0 <= k < index_a && comp_a.ids()[k] == i,
@loop-start 1
let ghost s0 = self.sparse_set.ids();
proof { self.sparse_set.lemma_all(); lemma_push(s0, comp_a.ids()[index_a as int]); }
@loop-end 1
proof { self.sparse_set.lemma_all();
assert forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_b.ids().contains(i) && exists|k: int| 0 <= k < index_a + 1 && comp_a.ids()[k] == i by {
    let c = comp_a.ids()[index_a as int];
    assert(s0.contains(i) <==> comp_b.ids().contains(i) && exists|k: int| 0 <= k < index_a && comp_a.ids()[k] == i);
    if exists|k: int| 0 <= k < index_a + 1 && comp_a.ids()[k] == i { let k = choose|k: int| 0 <= k < index_a + 1 && comp_a.ids()[k] == i; if k < index_a { assert(comp_a.ids()[k] == i); } }
} }
@loop-after 1
proof { assert forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_a.ids().contains(i) && comp_b.ids().contains(i) by {
    if comp_a.ids().contains(i) { lemma_find(comp_a.ids(), i); }
} }
@loop 2
invariant
    self.sparse_set.wf(), self.type_a == old(self).type_a, self.type_b == old(self).type_b, len_b == comp_b.ids().len(), swf(*comp_a), swf(*comp_b),
    forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_a.ids().contains(i) && exists|k: int| 0 <= k < index_b && comp_b.ids()[k] == i,
@loop-start 2
let ghost s0 = self.sparse_set.ids();
proof { self.sparse_set.lemma_all(); lemma_push(s0, comp_b.ids()[index_b as int]); }
@loop-end 2
proof { self.sparse_set.lemma_all();
assert forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_a.ids().contains(i) && exists|k: int| 0 <= k < index_b + 1 && comp_b.ids()[k] == i by {
    let c = comp_b.ids()[index_b as int];
    assert(s0.contains(i) <==> comp_a.ids().contains(i) && exists|k: int| 0 <= k < index_b && comp_b.ids()[k] == i);
    if exists|k: int| 0 <= k < index_b + 1 && comp_b.ids()[k] == i { let k = choose|k: int| 0 <= k < index_b + 1 && comp_b.ids()[k] == i; if k < index_b { assert(comp_b.ids()[k] == i); } }
} }
@loop-after 2
proof { assert forall|i: Id| #[trigger] self.sparse_set.ids().contains(i) <==> comp_a.ids().contains(i) && comp_b.ids().contains(i) by {
    if comp_b.ids().contains(i) { lemma_find(comp_b.ids(), i); }
} }
@fn group::non_owning::NonOwning::new
@impl group::non_owning::NonOwning@Into
    open spec fn spec_group() -> (int, TypeId, TypeId) { (2int, tid::<A>(), tid::<B>()) }
@fn group::non_owning::NonOwning@Into::into
@start
proof { }
@fn group::Group::len
@requires
self is NonOwning ==> self->NonOwning_0.sparse_set.wf()
@ensures
r == glen(*self)
@fn group::Group::types
@ensures
r == gtypes(*self)
@fn group::Group::owned
@ensures
r == gowns(*self, type_id)
@fn group::Group::owning
@ensures
forall|t: TypeId| #[trigger] r@.contains(t) <==> gowns(*self, t), r@.len() <= 2
@start
proof { broadcast use lemma_seq2, lemma_seq1; }
@fn group::Group::in_components
@requires
comp_a.wf(), comp_b.wf()
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id)), r ==> id.v() < usize::MAX && comp_a.ids().len() < usize::MAX && comp_b.ids().len() < usize::MAX
@fn group::Group::in_group
@requires
swf(*comp_a), swf(*comp_b), self is NonOwning ==> self->NonOwning_0.sparse_set.wf() && inside(self->NonOwning_0.sparse_set.ids(), comp_a.ids(), comp_b.ids()),
self is FullOwning ==> aligned(self->FullOwning_0.length as int, comp_a.ids(), comp_b.ids()),
self is PartialOwning ==> within(self->PartialOwning_0.length as int, comp_a.ids(), comp_b.ids())
@ensures
r == (comp_a.ids().contains(id) && comp_b.ids().contains(id) && gmember(*self, comp_a.ids(), comp_b.ids(), id))
@fn group::Group::eq
@ensures
r == (gkind(*self) == gkind(*other) && gtypes(*self) == gtypes(*other))
@fn group::full_owning
@fn group::partial_owning
@fn group::non_owning

@items group
impl vstd::std_specs::cmp::PartialEqSpecImpl for Group {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { gkind(*self) == gkind(*o) && gtypes(*self) == gtypes(*o) }
}
/* `==` on groups is the same derived comparison */
impl PartialEq for Group { fn eq(&self, o: &Self) -> (r: bool) { Group::eq(self, o) } }
