@prelude
/* ---- trusted shim: the std types and functions the crate uses, with their documented behaviour as contracts ---- */
pub mod shim {
#[allow(unused_imports)] use vstd::prelude::*;
verus! {
pub broadcast group shim_axioms { nz_range, nz_eq, vec_id_len, vec_nz_len }

#[verifier::external_body]
pub struct NonZeroUsize { v: std::num::NonZeroUsize }
impl NonZeroUsize {
    pub uninterp spec fn v(&self) -> int;
    #[verifier::external_body] pub fn get(self) -> (r: usize) ensures r == self.v() { self.v.get() }
    #[verifier::external_body] pub fn new(n: usize) -> (r: Option<NonZeroUsize>) ensures r is Some <==> n != 0, r is Some ==> r->Some_0.v() == n { unimplemented!() }
    #[verifier::external_body] pub fn new_unchecked(n: usize) -> (r: NonZeroUsize) requires n != 0 ensures r.v() == n { unimplemented!() }
}
impl Copy for NonZeroUsize {}
impl Clone for NonZeroUsize { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
pub broadcast axiom fn nz_range(a: NonZeroUsize) ensures 0 < #[trigger] a.v() <= usize::MAX;
pub broadcast axiom fn nz_eq(a: NonZeroUsize, b: NonZeroUsize) ensures #[trigger] a.v() == #[trigger] b.v() ==> a == b;
impl vstd::std_specs::cmp::PartialEqSpecImpl for NonZeroUsize {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for NonZeroUsize { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { self.v == o.v } }
/* a Vec of non-zero-sized elements never holds more than isize::MAX bytes */
pub broadcast axiom fn vec_id_len(v: Vec<NonZeroUsize>) ensures #[trigger] v@.len() <= isize::MAX / 8;
pub broadcast axiom fn vec_nz_len(v: Vec<Option<NonZeroUsize>>) ensures #[trigger] v@.len() <= isize::MAX / 8;

pub trait VxInto<U> : Sized { spec fn spec_into(self) -> U; fn vx_into(self) -> (r: U) ensures r == self.spec_into(); }
impl VxInto<usize> for NonZeroUsize {
    open spec fn spec_into(self) -> usize { self.v() as usize }
    fn vx_into(self) -> (r: usize) { broadcast use shim_axioms; self.get() }
}

pub assume_specification<T>[core::mem::replace::<T>](dest: &mut T, src: T) -> (r: T) ensures *final(dest) == src, r == *old(dest);
pub assume_specification<T>[Option::<T>::or](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some { a } else { b });
pub assume_specification<T>[Option::<T>::replace](a: &mut Option<T>, v: T) -> (r: Option<T>) ensures r == *old(a), *final(a) == Some(v);
pub assume_specification<T: Copy>[Option::<&T>::copied](a: Option<&T>) -> (r: Option<T>) ensures r == (match a { Some(x) => Some(*x), None => None::<T> });
pub assume_specification<T, U>[Option::<T>::zip::<U>](a: Option<T>, b: Option<U>) -> (r: Option<(T, U)>) ensures r == (if a is Some && b is Some { Some((a->Some_0, b->Some_0)) } else { None });
pub assume_specification<T>[Option::<T>::xor](a: Option<T>, b: Option<T>) -> (r: Option<T>) ensures r == (if a is Some && b is None { a } else if a is None && b is Some { b } else { None });
pub assume_specification<T>[Option::<Option<T>>::flatten](a: Option<Option<T>>) -> (r: Option<T>) ensures r == (if a is Some { a->Some_0 } else { None });
pub assume_specification<T: PartialEq>[<[T]>::contains](s: &[T], x: &T) -> (r: bool)
    ensures <T as vstd::std_specs::cmp::PartialEqSpec>::obeys_eq_spec() && (forall|y: T, z: T| #[trigger] <T as vstd::std_specs::cmp::PartialEqSpec>::eq_spec(&y, &z) <==> y == z) ==> r == s@.contains(*x);
pub assume_specification<T>[<[T]>::swap](s: &mut [T], a: usize, b: usize)
    requires a < old(s)@.len(), b < old(s)@.len()
    ensures final(s)@ == old(s)@.update(a as int, old(s)@[b as int]).update(b as int, old(s)@[a as int]);

pub trait VxUnchecked<T> {
    spec fn vx_seq(&self) -> Seq<T>;
    fn vx_get_unchecked(&self, i: usize) -> (r: &T) requires i < self.vx_seq().len() ensures *r == self.vx_seq()[i as int];
    fn vx_get_unchecked_mut(&mut self, i: usize) -> (r: &mut T) requires i < old(self).vx_seq().len()
        ensures *r == old(self).vx_seq()[i as int], final(self).vx_seq() == old(self).vx_seq().update(i as int, *final(r));
}
impl<T> VxUnchecked<T> for Vec<T> {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_get_unchecked(&self, i: usize) -> &T { &self[i] }
    fn vx_get_unchecked_mut(&mut self, i: usize) -> &mut T { &mut self[i] }
}
impl<T> VxUnchecked<T> for [T] {
    open spec fn vx_seq(&self) -> Seq<T> { self@ }
    fn vx_get_unchecked(&self, i: usize) -> &T { &self[i] }
    fn vx_get_unchecked_mut(&mut self, i: usize) -> &mut T { &mut self[i] }
}
/* slice.iter().zip(vec): pairs in order, as many as the shorter has */
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(A)]
pub struct VxZip<'a, A, T> { a: &'a [A], t: Vec<T> }
impl<'a, A, T> VxZip<'a, A, T> {
    pub uninterp spec fn xs(&self) -> Seq<A>;
    pub uninterp spec fn ys(&self) -> Seq<T>;
    #[verifier::external_body] pub fn new(a: &'a [A], t: Vec<T>) -> (r: Self) ensures r.xs() == a@, r.ys() == t@ { unimplemented!() }
    #[verifier::external_body] pub fn next(&mut self) -> (r: Option<(&'a A, T)>)
        ensures r is Some <==> old(self).xs().len() > 0 && old(self).ys().len() > 0,
            r is Some ==> *(r->Some_0.0) == old(self).xs()[0] && r->Some_0.1 == old(self).ys()[0]
                && final(self).xs() == old(self).xs().drop_first() && final(self).ys() == old(self).ys().drop_first(),
            r is None ==> final(self).xs() == old(self).xs() && final(self).ys() == old(self).ys() { unimplemented!() }
}
/* a rejection (panic): only allowed where the contract says the call is misused */
#[verifier::external_body]
pub fn vx_reject<T>(Ghost(a): Ghost<bool>) -> (r: T) requires a ensures false { panic!() }
pub fn vx_drop<T>(t: T) { }

/* std::any::TypeId: equality of ids is all that is used */
#[verifier::external_body]
pub struct TypeId { t: std::any::TypeId }
pub uninterp spec fn tid<T: ?Sized>() -> TypeId;
impl TypeId {
    #[verifier::external_body] pub fn of<T: ?Sized>() -> (r: TypeId) ensures r == tid::<T>() { unimplemented!() }
}
impl Copy for TypeId {}
impl Clone for TypeId { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for TypeId {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &Self) -> bool { *self == *o }
}
impl PartialEq for TypeId { #[verifier::external_body] fn eq(&self, o: &Self) -> bool { self.t == o.t } }

/* std::collections::HashMap with TypeId keys */
#[verifier::external_body]
#[verifier::reject_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> View for HashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> HashMap<K, V> {
    #[verifier::external_body] pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body] pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v), r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None::<V> }) { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>) ensures final(self)@ == old(self)@.remove(*k), r == (if old(self)@.dom().contains(*k) { Some(old(self)@[*k]) } else { None::<V> }) { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Map::<K, V>::empty()) { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures r is Some <==> old(self)@.dom().contains(*k), r is None ==> final(self)@ == old(self)@,
            r is Some ==> *r->Some_0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->Some_0)) { unimplemented!() }
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures r is Some <==> self@.dom().contains(*k), r is Some ==> *r->Some_0 == self@[*k] { unimplemented!() }
    #[verifier::external_body] pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    /* the keys in the (unspecified) iteration order */
    pub uninterp spec fn order(&self) -> Seq<K>;
    #[verifier::external_body] pub fn values(&self) -> (r: Vec<&V>)
        ensures self.order().no_duplicates(), forall|k: K| #[trigger] self.order().contains(k) <==> self@.dom().contains(k),
            r@.len() == self.order().len(), forall|i: int| 0 <= i < r@.len() ==> *#[trigger] r@[i] == self@[self.order()[i]] { unimplemented!() }
}
pub use core::marker::PhantomData;
pub use core::ops::Range;

/* ---- the memory behind the locks: what every lock currently holds, by lock identity ---- */
#[verifier::external_body]
pub struct Hp { }
impl Hp { pub uninterp spec fn view(&self) -> HeapView; }
pub struct HeapView {
    pub em: Map<int, crate::entity::EntityManager>,
    pub st: Map<int, Box<dyn crate::component::ComponentStorage>>,
    pub gr: Map<int, crate::group::Group>,
    pub rs: Map<int, Box<dyn crate::resource::Resource>>,
}
pub trait Cell : Sized {
    spec fn cells(h: HeapView) -> Map<int, Self>;
    spec fn with(h: HeapView, m: Map<int, Self>) -> HeapView;
}
impl Cell for crate::entity::EntityManager {
    open spec fn cells(h: HeapView) -> Map<int, Self> { h.em }
    open spec fn with(h: HeapView, m: Map<int, Self>) -> HeapView { HeapView { em: m, ..h } }
}
impl Cell for Box<dyn crate::component::ComponentStorage> {
    open spec fn cells(h: HeapView) -> Map<int, Self> { h.st }
    open spec fn with(h: HeapView, m: Map<int, Self>) -> HeapView { HeapView { st: m, ..h } }
}
impl Cell for crate::group::Group {
    open spec fn cells(h: HeapView) -> Map<int, Self> { h.gr }
    open spec fn with(h: HeapView, m: Map<int, Self>) -> HeapView { HeapView { gr: m, ..h } }
}
impl Cell for Box<dyn crate::resource::Resource> {
    open spec fn cells(h: HeapView) -> Map<int, Self> { h.rs }
    open spec fn with(h: HeapView, m: Map<int, Self>) -> HeapView { HeapView { rs: m, ..h } }
}
/* parking_lot::RwLock: a guard is the reference it hands out; waiting for a lock is not modelled */
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct RwLock<T> { t: T }
impl<T: Cell> RwLock<T> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body] pub fn new(t: T, h: &mut Hp) -> (r: Self)
        ensures !T::cells(old(h)@).dom().contains(r.id()), T::cells(final(h)@).dom().contains(r.id()), T::cells(final(h)@)[r.id()] == t, T::cells(final(h)@).dom() == T::cells(old(h)@).dom().insert(r.id()), final(h)@ == T::with(old(h)@, T::cells(old(h)@).insert(r.id(), t)) { unimplemented!() }
    #[verifier::external_body] pub fn write<'a>(&'a self, h: &mut Hp) -> (r: &'a mut T)
        ensures *r == T::cells(old(h)@)[self.id()], final(h)@ == T::with(old(h)@, T::cells(old(h)@).insert(self.id(), *final(r))) { unimplemented!() }
    #[verifier::external_body] pub fn read<'a>(&'a self, h: &mut Hp) -> (r: &'a T)
        ensures *r == T::cells(old(h)@)[self.id()], final(h)@ == old(h)@ { unimplemented!() }
}
/* a raw pointer into the storage a write guard protects, kept next to that guard */
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct PtrMut<T> { p: *mut T }
impl<T> PtrMut<T> {
    pub uninterp spec fn cur(&self) -> T;
    pub uninterp spec fn fin(&self) -> T;
    #[verifier::external_body] pub fn new<'x>(r: &'x mut T) -> (p: Self) ensures p.cur() == *old(r), p.fin() == *final(r) { unimplemented!() }
    #[verifier::external_body] pub fn vx_ref<'x>(&'x self) -> (r: &'x T) ensures *r == self.cur() { unimplemented!() }
    #[verifier::external_body] pub fn vx_mut<'x, 'y>(&'x mut self) -> (r: &'y mut T)
        ensures *r == old(self).cur(), final(self).cur() == *final(r), final(self).fin() == old(self).fin() { unimplemented!() }
}
pub trait VxIntoVec<T> : Sized { spec fn vx_seq(self) -> Seq<T>; fn vx_into(self) -> (r: Vec<T>) ensures r@ == self.vx_seq(); }
/* Into<Group>: which kind of group over which types */
pub trait VxIntoGroup : Sized {
    spec fn spec_group() -> (int, TypeId, TypeId);
    fn vx_into(self) -> (r: crate::group::Group)
        ensures crate::gspec::gfresh(r), (crate::gspec::gkind(r), crate::gspec::gtypes(r).0, crate::gspec::gtypes(r).1) == Self::spec_group();
}

/* core::iter::Iterator with the contract every query iterator of the crate must meet */
pub trait Iterator {
    type Item;
    spec fn inv(&self) -> bool;
    /* ids of the entities still to come, in order */
    spec fn rem(&self) -> Seq<NonZeroUsize>;
    /* ids of all entities that satisfy the query */
    spec fn dom(&self) -> ISet<NonZeroUsize>;
    /* the item of an entity, as currently stored */
    spec fn val(&self, id: NonZeroUsize) -> Seq<AnyVal>;
    spec fn ival(i: Self::Item) -> Seq<AnyVal>;
    #[verifier::prophetic] spec fn fval(i: Self::Item) -> Seq<AnyVal>;
    spec fn exact(&self) -> bool;
    /* the item of an entity, as stored when the iterator is gone */
    spec fn last(&self, id: NonZeroUsize) -> Seq<AnyVal>;
    /* what no method changes: which components there are, and the guards */
    #[verifier::prophetic] spec fn stamp(&self) -> Seq<AnyVal>;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).inv()
        ensures final(self).inv(), final(self).dom() == old(self).dom(), final(self).exact() == old(self).exact(),
            final(self).stamp() == old(self).stamp(), forall|i: NonZeroUsize| #[trigger] final(self).last(i) == old(self).last(i),
            r is Some <==> old(self).rem().len() > 0,
            r is None ==> final(self).rem() == old(self).rem() && forall|i: NonZeroUsize| old(self).dom().contains(i) ==> #[trigger] final(self).val(i) == old(self).val(i),
            r is Some ==> final(self).rem() == old(self).rem().drop_first()
                && Self::ival(r->Some_0) == old(self).val(old(self).rem()[0]) && Self::fval(r->Some_0) == final(self).val(old(self).rem()[0])
                && forall|i: NonZeroUsize| old(self).dom().contains(i) && i != old(self).rem()[0] ==> #[trigger] final(self).val(i) == old(self).val(i);
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.inv()
        ensures r.0 <= self.rem().len(), r.1 is Some ==> self.rem().len() <= r.1->Some_0,
            self.exact() ==> r.0 == self.rem().len() && r.1 == Some(r.0);
}

/* what an observer can see of a component */
#[verifier::external_body]
pub struct AnyVal { x: u8 }
pub uninterp spec fn embed<T>(t: T) -> AnyVal;
pub broadcast axiom fn embed_inj<T>(a: T, b: T) ensures #[trigger] embed(a) == #[trigger] embed(b) ==> a == b;

/* `downcast_ref` / `downcast_mut` of the storage trait object: sound only at the storage's own type */
#[verifier::external_body]
pub fn cs_downcast_ref<'x, T: crate::component::Component>(b: &'x Box<dyn crate::component::ComponentStorage>) -> (r: &'x crate::sparse_set::SparseSet<NonZeroUsize, T>)
    requires b.tag() == tid::<T>()
    ensures r.ids() == b.ids(), r.avals() == b.vals(), r.wf() == b.wf() { unimplemented!() }
#[verifier::external_body]
pub fn cs_downcast_mut<'x, T: crate::component::Component>(b: &'x mut Box<dyn crate::component::ComponentStorage>) -> (r: &'x mut crate::sparse_set::SparseSet<NonZeroUsize, T>)
    requires old(b).tag() == tid::<T>()
    ensures r.ids() == old(b).ids(), r.avals() == old(b).vals(), r.wf() == old(b).wf(),
        final(b).tag() == old(b).tag(), final(b).ids() == final(r).ids(), final(b).vals() == final(r).avals(), final(b).wf() == final(r).wf() { unimplemented!() }
/* (a box of a resource is itself a `Resource` by the blanket impl, so the contents are named explicitly) */
pub open spec fn rtag(b: Box<dyn crate::resource::Resource>) -> TypeId { crate::resource::Resource::res_tag(&*b) }
pub open spec fn rval(b: Box<dyn crate::resource::Resource>) -> AnyVal { crate::resource::Resource::res_val(&*b) }
#[verifier::external_body]
pub fn rs_downcast_ref<'x, T: crate::resource::Resource>(b: &'x Box<dyn crate::resource::Resource>) -> (r: &'x T)
    requires rtag(*b) == tid::<T>()
    ensures embed(*r) == rval(*b) { unimplemented!() }
#[verifier::external_body]
pub fn rs_downcast_mut<'x, T: crate::resource::Resource>(b: &'x mut Box<dyn crate::resource::Resource>) -> (r: &'x mut T)
    requires rtag(*old(b)) == tid::<T>()
    ensures embed(*r) == rval(*old(b)), rtag(*final(b)) == rtag(*old(b)), embed(*final(r)) == rval(*final(b)) { unimplemented!() }
}
}
pub mod spec {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::*;
verus! {
pub type Id = NonZeroUsize;
/* where an id stands in a sequence without duplicates */
pub open spec fn find(s: Seq<Id>, e: Id) -> int { choose|k: int| 0 <= k < s.len() && s[k] == e }
pub open spec fn add_one<T>(s: (Seq<Id>, Seq<T>), e: Id, d: T) -> (Seq<Id>, Seq<T>) {
    if s.0.contains(e) { (s.0, s.1.update(find(s.0, e), d)) } else { (s.0.push(e), s.1.push(d)) }
}
/* adding the first n pairs one after the other */
pub open spec fn add_all<T>(s: (Seq<Id>, Seq<T>), es: Seq<Id>, ds: Seq<T>, n: int) -> (Seq<Id>, Seq<T>)
    decreases n
{ if n <= 0 { s } else { add_one(add_all(s, es, ds, n - 1), es[n - 1], ds[n - 1]) } }
/* removing position i the way Vec::swap_remove does */
pub open spec fn swap_rem<T>(s: Seq<T>, i: int) -> Seq<T> { s.update(i, s.last()).drop_last() }
/* ---- group invariants over the id sequences of the two storages; `x`: entities to be left out ---- */
pub open spec fn full_ok(n: int, a: Seq<Id>, b: Seq<Id>, x: ISet<Id>) -> bool {
    &&& 0 <= n <= a.len() && n <= b.len()
    &&& forall|i: int| #![trigger a[i]] 0 <= i < n ==> a[i] == b[i] && !x.contains(a[i])
    &&& forall|i: int| #![trigger a[i]] n <= i < a.len() ==> !b.contains(a[i]) || x.contains(a[i])
}
pub open spec fn partial_ok(n: int, a: Seq<Id>, b: Seq<Id>, x: ISet<Id>) -> bool {
    &&& 0 <= n <= a.len()
    &&& forall|i: int| #![trigger a[i]] 0 <= i < n ==> b.contains(a[i]) && !x.contains(a[i])
    &&& forall|i: int| #![trigger a[i]] n <= i < a.len() ==> !b.contains(a[i]) || x.contains(a[i])
}
pub open spec fn non_ok(s: Seq<Id>, a: Seq<Id>, b: Seq<Id>, x: ISet<Id>) -> bool {
    forall|i: Id| #[trigger] s.contains(i) <==> a.contains(i) && b.contains(i) && !x.contains(i)
}
pub broadcast proof fn lemma_ss_all<T>(s: crate::sparse_set::SparseSet<Id, T>)
    requires #[trigger] s.wf()
    ensures s.ids().no_duplicates(), s.ids().len() == s.vals().len(),
        forall|i: Id| #[trigger] s.has(i) <==> s.ids().contains(i),
        forall|i: Id| s.has(i) ==> 0 <= #[trigger] s.pos(i) < s.ids().len() && s.ids()[s.pos(i)] == i && s.pos(i) == find(s.ids(), i),
        forall|k: int| 0 <= k < s.ids().len() ==> s.has(#[trigger] s.ids()[k]) && s.pos(s.ids()[k]) == k,
{ s.lemma_all(); }
pub proof fn lemma_skip_nodup(s: Seq<Id>, n: int)
    requires s.no_duplicates(), 0 <= n <= s.len()
    ensures s.skip(n).no_duplicates(), forall|i: Id| s.skip(n).contains(i) ==> s.contains(i)
{ assert forall|i: Id| s.skip(n).contains(i) implies s.contains(i) by { let k = choose|k: int| 0 <= k < s.skip(n).len() && s.skip(n)[k] == i; assert(s[k + n] == i); } }
pub proof fn lemma_sub_nodup(s: Seq<Id>, n: int, m: int)
    requires s.no_duplicates(), 0 <= n <= m <= s.len()
    ensures s.subrange(n, m).no_duplicates(), forall|i: Id| s.subrange(n, m).contains(i) ==> s.contains(i) && exists|k: int| n <= k < m && s[k] == i
{ assert forall|i: Id| s.subrange(n, m).contains(i) implies s.contains(i) && exists|k: int| n <= k < m && s[k] == i by { let k = choose|k: int| 0 <= k < s.subrange(n, m).len() && s.subrange(n, m)[k] == i; assert(s[k + n] == i); } }
pub broadcast proof fn lemma_skip_first(s: Seq<Id>, n: int)
    requires 0 <= n < s.len()
    ensures (#[trigger] s.skip(n)).len() > 0, s.skip(n)[0] == s[n], s.skip(n).drop_first() == s.skip(n + 1)
{ assert(s.skip(n).drop_first() =~= s.skip(n + 1)); }
pub broadcast proof fn lemma_sub_first(s: Seq<Id>, n: int, m: int)
    requires 0 <= n < m <= s.len()
    ensures (#[trigger] s.subrange(n, m)).len() > 0, s.subrange(n, m)[0] == s[n], s.subrange(n, m).drop_first() == s.subrange(n + 1, m)
{ assert(s.subrange(n, m).drop_first() =~= s.subrange(n + 1, m)); }
/* the ids of s that are (not) in d, in order */
pub open spec fn keep(s: Seq<Id>, d: ISet<Id>) -> Seq<Id>
    decreases s.len()
{ if s.len() == 0 { s } else if d.contains(s[0]) { seq![s[0]] + keep(s.drop_first(), d) } else { keep(s.drop_first(), d) } }
pub open spec fn drop_in(s: Seq<Id>, d: ISet<Id>) -> Seq<Id>
    decreases s.len()
{ if s.len() == 0 { s } else if d.contains(s[0]) { drop_in(s.drop_first(), d) } else { seq![s[0]] + drop_in(s.drop_first(), d) } }
pub broadcast proof fn lemma_keep_none(s: Seq<Id>, d: ISet<Id>)
    ensures s.len() == 0 ==> (#[trigger] keep(s, d)).len() == 0
{ }
pub broadcast proof fn lemma_keep_first(s: Seq<Id>, d: ISet<Id>)
    ensures #![trigger keep(s, d), s.drop_first()] s.len() == 0 ==> keep(s, d).len() == 0,
        s.len() > 0 && d.contains(s[0]) ==> keep(s, d).len() > 0 && keep(s, d)[0] == s[0] && keep(s, d).drop_first() == keep(s.drop_first(), d),
        s.len() > 0 && !d.contains(s[0]) ==> keep(s, d) == keep(s.drop_first(), d)
{ reveal_with_fuel(keep, 2); if s.len() > 0 && d.contains(s[0]) { assert(keep(s, d).drop_first() =~= keep(s.drop_first(), d)); } }
pub broadcast proof fn lemma_drop_none(s: Seq<Id>, d: ISet<Id>)
    ensures s.len() == 0 ==> (#[trigger] drop_in(s, d)).len() == 0
{ }
pub broadcast proof fn lemma_drop_first(s: Seq<Id>, d: ISet<Id>)
    ensures #![trigger drop_in(s, d), s.drop_first()] s.len() == 0 ==> drop_in(s, d).len() == 0,
        s.len() > 0 && !d.contains(s[0]) ==> drop_in(s, d).len() > 0 && drop_in(s, d)[0] == s[0] && drop_in(s, d).drop_first() == drop_in(s.drop_first(), d),
        s.len() > 0 && d.contains(s[0]) ==> drop_in(s, d) == drop_in(s.drop_first(), d)
{ reveal_with_fuel(drop_in, 2); if s.len() > 0 && !d.contains(s[0]) { assert(drop_in(s, d).drop_first() =~= drop_in(s.drop_first(), d)); } }
pub proof fn lemma_cons(s: Seq<Id>)
    requires s.len() > 0
    ensures forall|i: Id| #[trigger] s.contains(i) <==> i == s[0] || s.drop_first().contains(i), s.no_duplicates() <==> s.drop_first().no_duplicates() && !s.drop_first().contains(s[0])
{
    let t = s.drop_first();
    assert forall|i: Id| #[trigger] s.contains(i) <==> i == s[0] || t.contains(i) by {
        if s.contains(i) && i != s[0] { let k = choose|k: int| 0 <= k < s.len() && s[k] == i; assert(t[k - 1] == i); }
        if t.contains(i) { let k = choose|k: int| 0 <= k < t.len() && t[k] == i; assert(s[k + 1] == i); }
    }
    if s.no_duplicates() {
        if t.contains(s[0]) { let k = choose|k: int| 0 <= k < t.len() && t[k] == s[0]; assert(s[k + 1] == s[0]); }
        assert forall|a: int, b: int| 0 <= a < t.len() && 0 <= b < t.len() && a != b implies t[a] != t[b] by { assert(s[a + 1] != s[b + 1]); }
    }
    if t.no_duplicates() && !t.contains(s[0]) {
        assert forall|a: int, b: int| 0 <= a < s.len() && 0 <= b < s.len() && a != b implies s[a] != s[b] by {
            if a > 0 { assert(t[a - 1] == s[a]); } if b > 0 { assert(t[b - 1] == s[b]); }
            if a > 0 && b > 0 { assert(t[a - 1] != t[b - 1]); }
        }
    }
}
pub proof fn lemma_keep_good(s: Seq<Id>, d: ISet<Id>)
    ensures forall|i: Id| #[trigger] keep(s, d).contains(i) <==> s.contains(i) && d.contains(i), s.no_duplicates() ==> keep(s, d).no_duplicates()
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); let u = keep(t, d);
        lemma_keep_good(t, d); lemma_cons(s);
        if d.contains(s[0]) { assert((seq![s[0]] + u).drop_first() =~= u); lemma_cons(seq![s[0]] + u); }
    }
}
pub proof fn lemma_drop_good(s: Seq<Id>, d: ISet<Id>)
    ensures forall|i: Id| #[trigger] drop_in(s, d).contains(i) <==> s.contains(i) && !d.contains(i), s.no_duplicates() ==> drop_in(s, d).no_duplicates()
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_first(); let u = drop_in(t, d);
        lemma_drop_good(t, d); lemma_cons(s);
        if !d.contains(s[0]) { assert((seq![s[0]] + u).drop_first() =~= u); lemma_cons(seq![s[0]] + u); }
    }
}
pub open spec fn swapped<T>(s: Seq<T>, i: int, j: int) -> Seq<T> { s.update(i, s[j]).update(j, s[i]) }
}
}
