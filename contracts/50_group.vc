@prelude
pub mod gspec {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::group::Group;
#[allow(unused_imports)] use crate::component::ComponentStorage;
verus! {
/* a component storage, seen from outside */
pub open spec fn swf(s: Box<dyn ComponentStorage>) -> bool { s.wf() && s.ids().no_duplicates() && s.ids().len() == s.vals().len() }
/* the same entities with the same components, possibly in another order */
pub open spec fn same_content(i0: Seq<Id>, v0: Seq<AnyVal>, i1: Seq<Id>, v1: Seq<AnyVal>) -> bool {
    &&& i1.no_duplicates() && i1.len() == v1.len()
    &&& forall|e: Id| #[trigger] i1.contains(e) <==> i0.contains(e)
    &&& forall|e: Id| i0.contains(e) ==> v1[#[trigger] find(i1, e)] == v0[find(i0, e)]
}
pub open spec fn reordered(s0: Box<dyn ComponentStorage>, s1: Box<dyn ComponentStorage>) -> bool {
    swf(s1) && s1.tag() == s0.tag() && same_content(s0.ids(), s0.vals(), s1.ids(), s1.vals()) && s1.ids().len() == s0.ids().len()
}
pub open spec fn aligned(n: int, a: Seq<Id>, b: Seq<Id>) -> bool { 0 <= n <= a.len() && n <= b.len() && forall|i: int| 0 <= i < n ==> #[trigger] a[i] == b[i] }
pub open spec fn inside(s: Seq<Id>, a: Seq<Id>, b: Seq<Id>) -> bool { forall|i: Id| #[trigger] s.contains(i) ==> a.contains(i) && b.contains(i) }
pub open spec fn within(n: int, a: Seq<Id>, b: Seq<Id>) -> bool { 0 <= n <= a.len() && forall|i: int| 0 <= i < n ==> b.contains(#[trigger] a[i]) }
pub open spec fn gtypes(g: Group) -> (TypeId, TypeId) {
    match g { Group::FullOwning(d) => (d.type_a, d.type_b), Group::PartialOwning(d) => (d.type_a, d.type_b), Group::NonOwning(d) => (d.type_a, d.type_b) }
}
pub open spec fn gowns(g: Group, t: TypeId) -> bool {
    match g { Group::FullOwning(d) => t == d.type_a || t == d.type_b, Group::PartialOwning(d) => t == d.type_a, Group::NonOwning(d) => false }
}
pub open spec fn gkind(g: Group) -> int { match g { Group::FullOwning(_) => 0, Group::PartialOwning(_) => 1, Group::NonOwning(_) => 2 } }
pub open spec fn glen(g: Group) -> int { match g { Group::FullOwning(d) => d.length as int, Group::PartialOwning(d) => d.length as int, Group::NonOwning(d) => d.sparse_set.ids().len() as int } }
/* a group nobody is a member of yet */
pub open spec fn gfresh(g: Group) -> bool { glen(g) == 0 && (g is NonOwning ==> g->NonOwning_0.sparse_set.wf()) }
pub open spec fn gmember(g: Group, a: Seq<Id>, b: Seq<Id>, id: Id) -> bool {
    match g { Group::FullOwning(d) => find(a, id) < d.length && find(b, id) < d.length, Group::PartialOwning(d) => find(a, id) < d.length, Group::NonOwning(d) => d.sparse_set.ids().contains(id) }
}
/* enough for the group's own operations to be safe */
pub open spec fn gpre(g: Group, a: Seq<Id>, b: Seq<Id>) -> bool {
    match g { Group::FullOwning(d) => aligned(d.length as int, a, b), Group::PartialOwning(d) => within(d.length as int, a, b), Group::NonOwning(d) => d.sparse_set.wf() }
}
/* the members are exactly the entities in both storages, leaving out x */
pub open spec fn gok(g: Group, a: Seq<Id>, b: Seq<Id>, x: ISet<Id>) -> bool {
    match g { Group::FullOwning(d) => full_ok(d.length as int, a, b, x), Group::PartialOwning(d) => partial_ok(d.length as int, a, b, x),
        Group::NonOwning(d) => d.sparse_set.wf() && non_ok(d.sparse_set.ids(), a, b, x) }
}
pub broadcast proof fn lemma_find(s: Seq<Id>, e: Id)
    requires #[trigger] s.contains(e)
    ensures 0 <= find(s, e) < s.len(), s[find(s, e)] == e
{ let k = choose|k: int| 0 <= k < s.len() && s[k] == e; assert(s[k] == e); }
pub proof fn lemma_find_at(s: Seq<Id>, k: int)
    requires s.no_duplicates(), 0 <= k < s.len()
    ensures find(s, s[k]) == k, s.contains(s[k])
{ assert(s.contains(s[k])); lemma_find(s, s[k]); }
pub proof fn lemma_content_refl(i: Seq<Id>, v: Seq<AnyVal>)
    requires i.no_duplicates(), i.len() == v.len()
    ensures same_content(i, v, i, v)
{ }
pub proof fn lemma_content_trans(i0: Seq<Id>, v0: Seq<AnyVal>, i1: Seq<Id>, v1: Seq<AnyVal>, i2: Seq<Id>, v2: Seq<AnyVal>)
    requires same_content(i0, v0, i1, v1), same_content(i1, v1, i2, v2)
    ensures same_content(i0, v0, i2, v2)
{ assert forall|e: Id| i0.contains(e) implies v2[#[trigger] find(i2, e)] == v0[find(i0, e)] by { assert(i1.contains(e)); assert(v1[find(i1, e)] == v0[find(i0, e)]); } }
pub proof fn lemma_swapped(i0: Seq<Id>, v0: Seq<AnyVal>, p: int, q: int)
    requires i0.no_duplicates(), i0.len() == v0.len(), 0 <= p < i0.len(), 0 <= q < i0.len()
    ensures same_content(i0, v0, swapped(i0, p, q), swapped(v0, p, q)), swapped(i0, p, q).len() == i0.len()
{
    let i1 = swapped(i0, p, q); let v1 = swapped(v0, p, q);
    assert forall|a: int, b: int| 0 <= a < i1.len() && 0 <= b < i1.len() && a != b implies i1[a] != i1[b] by { }
    assert forall|e: Id| #[trigger] i1.contains(e) <==> i0.contains(e) by {
        if i0.contains(e) { lemma_find(i0, e); let k = find(i0, e); let k2 = if k == p { q } else if k == q { p } else { k }; assert(i1[k2] == e); }
        if i1.contains(e) { lemma_find(i1, e); let k = find(i1, e); let k2 = if k == p { q } else if k == q { p } else { k }; assert(i0[k2] == e); }
    }
    assert forall|e: Id| i0.contains(e) implies v1[#[trigger] find(i1, e)] == v0[find(i0, e)] by {
        lemma_find(i0, e); let k = find(i0, e); let k2 = if k == p { q } else if k == q { p } else { k }; assert(i1[k2] == e); lemma_find_at(i1, k2);
    }
}
pub proof fn lemma_swap_rem(i0: Seq<Id>, p: int)
    requires i0.no_duplicates(), 0 <= p < i0.len()
    ensures swap_rem(i0, p).no_duplicates(), swap_rem(i0, p).len() == i0.len() - 1,
        forall|e: Id| #[trigger] swap_rem(i0, p).contains(e) <==> i0.contains(e) && e != i0[p],
        forall|k: int| 0 <= k < i0.len() - 1 && k != p ==> #[trigger] swap_rem(i0, p)[k] == i0[k],
        forall|k: int| 0 <= k < i0.len() - 1 && k == p ==> #[trigger] swap_rem(i0, p)[k] == i0.last(),
{
    let i1 = swap_rem(i0, p);
    assert forall|e: Id| #[trigger] i1.contains(e) <==> i0.contains(e) && e != i0[p] by {
        if i0.contains(e) && e != i0[p] { lemma_find(i0, e); let k = find(i0, e); let k2 = if k == i0.len() - 1 { p } else { k }; assert(i1[k2] == e); }
        if i1.contains(e) { lemma_find(i1, e); let k = find(i1, e); if k == p { assert(i0[i0.len() - 1] == e); } else { assert(i0[k] == e); } }
    }
}
/* the three ways a storage changes, seen from a group over it */
pub proof fn lemma_full_add(n: int, a: Seq<Id>, b: Seq<Id>, id: Id, x: ISet<Id>)
    requires a.no_duplicates(), b.no_duplicates(), full_ok(n, a, b, x), a.contains(id), b.contains(id), find(a, id) >= n, find(b, id) >= n
    ensures full_ok(n + 1, swapped(a, find(a, id), n), swapped(b, find(b, id), n), x.remove(id))
{
    broadcast use lemma_find;
    let p = find(a, id); let q = find(b, id);
    let a1 = swapped(a, p, n); let b1 = swapped(b, q, n);
    assert forall|i: int| #![trigger a1[i]] n + 1 <= i < a1.len() implies !b1.contains(a1[i]) || x.remove(id).contains(a1[i]) by {
        let k = if i == p { n } else { i };
        assert(a1[i] == a[k]); assert(a1[i] != id);
        if b1.contains(a1[i]) { lemma_find(b1, a1[i]); let j = find(b1, a1[i]); let j2 = if j == q { n } else if j == n { q } else { j }; assert(b[j2] == a[k]); assert(b.contains(a[k])); }
    }
}
pub proof fn lemma_partial_add(n: int, a: Seq<Id>, b: Seq<Id>, id: Id, x: ISet<Id>)
    requires a.no_duplicates(), partial_ok(n, a, b, x), a.contains(id), b.contains(id), find(a, id) >= n
    ensures partial_ok(n + 1, swapped(a, find(a, id), n), b, x.remove(id))
{
    broadcast use lemma_find;
    let p = find(a, id);
    let a1 = swapped(a, p, n);
    assert forall|i: int| #![trigger a1[i]] n + 1 <= i < a1.len() implies !b.contains(a1[i]) || x.remove(id).contains(a1[i]) by {
        let k = if i == p { n } else { i };
        assert(a1[i] == a[k]); assert(a1[i] != id);
    }
    assert forall|i: int| #![trigger a1[i]] 0 <= i < n + 1 implies b.contains(a1[i]) && !x.remove(id).contains(a1[i]) by { if i < n { assert(a1[i] == a[i]); } }
}
pub proof fn lemma_full_remove(n: int, a: Seq<Id>, b: Seq<Id>, id: Id, x: ISet<Id>)
    requires a.no_duplicates(), b.no_duplicates(), full_ok(n, a, b, x), a.contains(id), b.contains(id), find(a, id) < n, find(b, id) < n
    ensures full_ok(n - 1, swapped(a, find(a, id), n - 1), swapped(b, find(b, id), n - 1), x.insert(id))
{
    broadcast use lemma_find;
    let p = find(a, id); let q = find(b, id);
    assert(a[q] == b[q]); assert(p == q);
    let a1 = swapped(a, p, n - 1); let b1 = swapped(b, p, n - 1);
    assert forall|i: int| #![trigger a1[i]] 0 <= i < n - 1 implies a1[i] == b1[i] && !x.insert(id).contains(a1[i]) by {
        let k = if i == p { n - 1 } else { i }; assert(a1[i] == a[k]); assert(a[k] == b[k]); assert(b1[i] == b[k]);
    }
    assert forall|i: int| #![trigger a1[i]] n - 1 <= i < a1.len() implies !b1.contains(a1[i]) || x.insert(id).contains(a1[i]) by {
        if i == n - 1 { assert(a1[i] == id); } else {
            assert(a1[i] == a[i]);
            if b1.contains(a1[i]) { lemma_find(b1, a1[i]); let j = find(b1, a1[i]); let j2 = if j == p { n - 1 } else if j == n - 1 { p } else { j }; assert(b[j2] == a[i]); assert(b.contains(a[i])); }
        }
    }
}
pub proof fn lemma_partial_remove(n: int, a: Seq<Id>, b: Seq<Id>, id: Id, x: ISet<Id>)
    requires a.no_duplicates(), partial_ok(n, a, b, x), a.contains(id), find(a, id) < n
    ensures partial_ok(n - 1, swapped(a, find(a, id), n - 1), b, x.insert(id))
{
    broadcast use lemma_find;
    let p = find(a, id);
    let a1 = swapped(a, p, n - 1);
    assert forall|i: int| #![trigger a1[i]] 0 <= i < n - 1 implies b.contains(a1[i]) && !x.insert(id).contains(a1[i]) by {
        let k = if i == p { n - 1 } else { i }; assert(a1[i] == a[k]);
    }
    assert forall|i: int| #![trigger a1[i]] n - 1 <= i < a1.len() implies !b.contains(a1[i]) || x.insert(id).contains(a1[i]) by {
        if i == n - 1 { assert(a1[i] == id); } else { assert(a1[i] == a[i]); }
    }
}
pub open spec fn seq1(a: TypeId) -> Seq<TypeId> { Seq::<TypeId>::empty().push(a) }
pub open spec fn seq2(a: TypeId, b: TypeId) -> Seq<TypeId> { Seq::<TypeId>::empty().push(a).push(b) }
pub broadcast proof fn lemma_seq2(a: TypeId, b: TypeId, t: TypeId)
    ensures #[trigger] seq2(a, b).contains(t) <==> t == a || t == b
{ assert(seq2(a, b)[0] == a); assert(seq2(a, b)[1] == b); }
pub broadcast proof fn lemma_seq1(a: TypeId, t: TypeId)
    ensures #[trigger] seq1(a).contains(t) <==> t == a
{ assert(seq1(a)[0] == a); }
pub proof fn lemma_push(s: Seq<Id>, e: Id)
    ensures forall|i: Id| #[trigger] s.push(e).contains(i) <==> s.contains(i) || i == e
{ assert forall|i: Id| #[trigger] s.push(e).contains(i) <==> s.contains(i) || i == e by {
    if s.contains(i) { lemma_find(s, i); assert(s.push(e)[find(s, i)] == i); }
    if i == e { assert(s.push(e)[s.len() as int] == e); }
    if s.push(e).contains(i) && i != e { lemma_find(s.push(e), i); assert(s[find(s.push(e), i)] == i); }
} }
}
}
