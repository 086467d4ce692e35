@prelude
pub mod wspec {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::gspec::*;
#[allow(unused_imports)] use crate::group::Group;
#[allow(unused_imports)] use crate::world::World;
#[allow(unused_imports)] use crate::entity::EntityManager;
#[allow(unused_imports)] use crate::resource::Resource;
#[allow(unused_imports)] use crate::component::ComponentStorage;
verus! {
/* what the locks of a world hold */
pub struct WV { pub em: EntityManager, pub st: Map<TypeId, Box<dyn ComponentStorage>>, pub gr: Seq<Group>, pub rs: Map<TypeId, Box<dyn Resource>> }
pub open spec fn wv(w: World, h: HeapView) -> WV {
    WV { em: h.em[w.entity_manager.id()], st: w.components@.map_values(|l: RwLock<Box<dyn ComponentStorage>>| h.st[l.id()]),
        gr: w.groups@.map_values(|l: RwLock<Group>| h.gr[l.id()]), rs: w.resources@.map_values(|l: RwLock<Box<dyn Resource>>| h.rs[l.id()]) }
}
/* every lock of the world guards a cell of its own */
pub open spec fn locks(w: World, h: HeapView) -> bool {
    &&& h.em.dom().contains(w.entity_manager.id())
    &&& forall|t: TypeId| #![trigger w.components@[t]] w.components@.dom().contains(t) ==> h.st.dom().contains(w.components@[t].id())
    &&& forall|s: TypeId, t: TypeId| #![trigger w.components@[s], w.components@[t]] w.components@.dom().contains(s) && w.components@.dom().contains(t) && s != t ==> w.components@[s].id() != w.components@[t].id()
    &&& forall|k: int| #![trigger w.groups@[k]] 0 <= k < w.groups@.len() ==> h.gr.dom().contains(w.groups@[k].id())
    &&& forall|j: int, k: int| #![trigger w.groups@[j], w.groups@[k]] 0 <= j < w.groups@.len() && 0 <= k < w.groups@.len() && j != k ==> w.groups@[j].id() != w.groups@[k].id()
    &&& forall|t: TypeId| #![trigger w.resources@[t]] w.resources@.dom().contains(t) ==> h.rs.dom().contains(w.resources@[t].id())
    &&& forall|s: TypeId, t: TypeId| #![trigger w.resources@[s], w.resources@[t]] w.resources@.dom().contains(s) && w.resources@.dom().contains(t) && s != t ==> w.resources@[s].id() != w.resources@[t].id()
}
pub open spec fn st_ok(v: WV, t: TypeId) -> bool { swf(v.st[t]) && v.st[t].tag() == t && forall|e: Id| #[trigger] v.st[t].ids().contains(e) ==> v.em.live().contains(e) }
pub open spec fn sts_ok(v: WV) -> bool { forall|t: TypeId| #![trigger v.st[t]] v.st.dom().contains(t) ==> st_ok(v, t) }
pub open spec fn rs_ok(v: WV) -> bool { forall|t: TypeId| #![trigger v.rs[t]] v.rs.dom().contains(t) ==> rtag(v.rs[t]) == t }
/* which groups there are: over registered types, no two the same, no type owned twice */
pub open spec fn gr_static(v: WV) -> bool {
    &&& forall|k: int| #![trigger v.gr[k]] 0 <= k < v.gr.len() ==> v.st.dom().contains(gtypes(v.gr[k]).0) && v.st.dom().contains(gtypes(v.gr[k]).1)
        && (gkind(v.gr[k]) != 2 ==> gtypes(v.gr[k]).0 != gtypes(v.gr[k]).1)
    &&& forall|j: int, k: int| #![trigger v.gr[j], v.gr[k]] 0 <= j < v.gr.len() && 0 <= k < v.gr.len() && j != k ==> disjoint_groups(v.gr[j], v.gr[k])
}
pub open spec fn gsame(a: Group, b: Group) -> bool { gkind(a) == gkind(b) && gtypes(a) == gtypes(b) }
pub open spec fn disjoint_groups(a: Group, b: Group) -> bool { !gsame(a, b) && forall|t: TypeId| !(#[trigger] gowns(a, t) && gowns(b, t)) }
/* group k, its members the entities with both components, leaving out x */
pub open spec fn gr_ok(v: WV, g: Group, x: ISet<Id>) -> bool { gok(g, v.st[gtypes(g).0].ids(), v.st[gtypes(g).1].ids(), x) }
pub open spec fn grs_ok(v: WV) -> bool { forall|k: int| #![trigger v.gr[k]] 0 <= k < v.gr.len() ==> gr_ok(v, v.gr[k], ISet::empty()) }
pub open spec fn wok(v: WV) -> bool { v.em.wf() && sts_ok(v) && rs_ok(v) && gr_static(v) && grs_ok(v) }
pub open spec fn winv(w: World, h: HeapView) -> bool { locks(w, h) && wok(wv(w, h)) }
/* the component of type t an entity has */
pub open spec fn comp(v: WV, t: TypeId, e: Id) -> Option<AnyVal> { if v.st[t].ids().contains(e) { Some(v.st[t].vals()[find(v.st[t].ids(), e)]) } else { None } }
pub open spec fn reg(w: World, t: TypeId) -> bool { w.components@.dom().contains(t) }
pub open spec fn live(w: World, h: HeapView, e: Id) -> bool { h.em[w.entity_manager.id()].live().contains(e) }

/* what the creating and registering calls do */
pub open spec fn made(v: WV, w: WV, r: Id) -> bool {
    &&& w == (WV { em: w.em, ..v }) && !v.em.live().contains(r) && w.em.live() == v.em.live().push(r)
    &&& v.em.free().len() > 0 ==> r == v.em.free()[0] && w.em.free() == v.em.free().drop_first() && w.em.next() == v.em.next()
    &&& v.em.free().len() == 0 ==> r.v() == v.em.next() && w.em.free() == v.em.free() && w.em.next() == v.em.next() + 1
}
pub open spec fn made_many(v: WV, w: WV, n: int) -> bool {
    &&& w == (WV { em: w.em, ..v }) && w.em.next() == v.em.next() + n && w.em.free() == v.em.free()
    &&& forall|e: Id| #[trigger] w.em.live().contains(e) <==> v.em.live().contains(e) || v.em.next() <= e.v() < v.em.next() + n
}
pub open spec fn registered(v: WV, w: WV, t: TypeId) -> bool {
    w.em == v.em && w.gr == v.gr && w.rs == v.rs && w.st == v.st.insert(t, w.st[t]) && w.st[t].ids() == Seq::<Id>::empty()
}
pub open spec fn set_resource(v: WV, w: WV, t: TypeId, d: AnyVal) -> bool {
    &&& w.em == v.em && w.st == v.st && w.gr == v.gr && w.rs.dom() == v.rs.dom().insert(t) && rval(w.rs[t]) == d
    &&& forall|u: TypeId| u != t && v.rs.dom().contains(u) ==> #[trigger] w.rs[u] == v.rs[u]
}
pub broadcast proof fn lemma_dom(w: World, h: HeapView)
    ensures (#[trigger] wv(w, h)).st.dom() == w.components@.dom(), wv(w, h).rs.dom() == w.resources@.dom(), wv(w, h).gr.len() == w.groups@.len()
{ assert(wv(w, h).st.dom() =~= w.components@.dom()); assert(wv(w, h).rs.dom() =~= w.resources@.dom()); }
/* one more storage or resource, behind a lock of its own; one more group */
pub proof fn lemma_new_st(w: World, h: HeapView, t: TypeId, w2: World, s: Box<dyn ComponentStorage>, l: RwLock<Box<dyn ComponentStorage>>)
    requires locks(w, h), !reg(w, t), !h.st.dom().contains(l.id()), w2 == (World { components: w2.components, ..w }), w2.components@ == w.components@.insert(t, l)
    ensures ({ let h2 = Box::<dyn ComponentStorage>::with(h, h.st.insert(l.id(), s)); locks(w2, h2) && wv(w2, h2) == (WV { st: wv(w, h).st.insert(t, s), ..wv(w, h) }) })
{
    let h2 = Box::<dyn ComponentStorage>::with(h, h.st.insert(l.id(), s));
    assert(wv(w2, h2).st =~= wv(w, h).st.insert(t, s));
}
pub proof fn lemma_new_rs(w: World, h: HeapView, t: TypeId, w2: World, s: Box<dyn Resource>, l: RwLock<Box<dyn Resource>>)
    requires locks(w, h), !h.rs.dom().contains(l.id()), w2 == (World { resources: w2.resources, ..w }), w2.resources@ == w.resources@.insert(t, l)
    ensures ({ let h2 = Box::<dyn Resource>::with(h, h.rs.insert(l.id(), s)); locks(w2, h2) && wv(w2, h2) == (WV { rs: wv(w, h).rs.insert(t, s), ..wv(w, h) }) })
{
    let h2 = Box::<dyn Resource>::with(h, h.rs.insert(l.id(), s));
    assert(wv(w2, h2).rs =~= wv(w, h).rs.insert(t, s));
}
pub proof fn lemma_new_gr(w: World, h: HeapView, w2: World, g: Group, l: RwLock<Group>)
    requires locks(w, h), !h.gr.dom().contains(l.id()), w2 == (World { groups: w2.groups, ..w }), w2.groups@ == w.groups@.push(l)
    ensures ({ let h2 = Group::with(h, h.gr.insert(l.id(), g)); locks(w2, h2) && wv(w2, h2) == (WV { gr: wv(w, h).gr.push(g), ..wv(w, h) }) })
{
    let h2 = Group::with(h, h.gr.insert(l.id(), g));
    assert(wv(w2, h2).gr =~= wv(w, h).gr.push(g));
}
pub proof fn lemma_write_em(w: World, h: HeapView, e: EntityManager)
    requires locks(w, h)
    ensures ({ let h2 = EntityManager::with(h, h.em.insert(w.entity_manager.id(), e)); locks(w, h2) && wv(w, h2) == (WV { em: e, ..wv(w, h) }) })
{ }
pub proof fn lemma_write_st(w: World, h: HeapView, t: TypeId, s: Box<dyn ComponentStorage>)
    requires locks(w, h), reg(w, t)
    ensures ({ let h2 = Box::<dyn ComponentStorage>::with(h, h.st.insert(w.components@[t].id(), s)); locks(w, h2) && wv(w, h2) == (WV { st: wv(w, h).st.insert(t, s), ..wv(w, h) }) })
{
    let h2 = Box::<dyn ComponentStorage>::with(h, h.st.insert(w.components@[t].id(), s));
    assert(wv(w, h2).st =~= wv(w, h).st.insert(t, s));
}
pub proof fn lemma_write_gr(w: World, h: HeapView, k: int, g: Group)
    requires locks(w, h), 0 <= k < w.groups@.len()
    ensures ({ let h2 = Group::with(h, h.gr.insert(w.groups@[k].id(), g)); locks(w, h2) && wv(w, h2) == (WV { gr: wv(w, h).gr.update(k, g), ..wv(w, h) }) })
{
    let h2 = Group::with(h, h.gr.insert(w.groups@[k].id(), g));
    assert(wv(w, h2).gr =~= wv(w, h).gr.update(k, g));
}
pub proof fn lemma_write_rs(w: World, h: HeapView, t: TypeId, s: Box<dyn Resource>)
    requires locks(w, h), w.resources@.dom().contains(t)
    ensures ({ let h2 = Box::<dyn Resource>::with(h, h.rs.insert(w.resources@[t].id(), s)); locks(w, h2) && wv(w, h2) == (WV { rs: wv(w, h).rs.insert(t, s), ..wv(w, h) }) })
{
    let h2 = Box::<dyn Resource>::with(h, h.rs.insert(w.resources@[t].id(), s));
    assert(wv(w, h2).rs =~= wv(w, h).rs.insert(t, s));
}
//LEM
/* ---- how the operations change a world ---- */
pub open spec fn same_groups(v: WV, w: WV) -> bool { w.gr.len() == v.gr.len() && forall|k: int| #![trigger w.gr[k]] 0 <= k < v.gr.len() ==> gsame(v.gr[k], w.gr[k]) }
/* only the order of components changed, and only in storages `g` owns */
pub open spec fn only_order(v: WV, s: Map<TypeId, Box<dyn ComponentStorage>>, g: Group) -> bool {
    &&& s.dom() == v.st.dom()
    &&& forall|t: TypeId| #![trigger s[t]] v.st.dom().contains(t) ==> reordered(v.st[t], s[t]) && (!gowns(g, t) ==> s[t] == v.st[t])
}
pub proof fn lemma_reorder_refl(v: WV, t: TypeId)
    requires swf(v.st[t])
    ensures reordered(v.st[t], v.st[t])
{ lemma_content_refl(v.st[t].ids(), v.st[t].vals()); }
/* what is left of a group when a storage it does not own is reordered */
pub proof fn lemma_gok_reorder(g: Group, a: Seq<Id>, b: Seq<Id>, a2: Seq<Id>, b2: Seq<Id>, x: ISet<Id>)
    requires gok(g, a, b, x), forall|e: Id| #[trigger] a2.contains(e) <==> a.contains(e), forall|e: Id| #[trigger] b2.contains(e) <==> b.contains(e),
        g is FullOwning ==> a2 == a && b2 == b, g is PartialOwning ==> a2 == a
    ensures gok(g, a2, b2, x)
{ }
/* group k and the storages it owns change, the other groups keep their members */
pub proof fn lemma_step(v: WV, k: int, g: Group, s: Map<TypeId, Box<dyn ComponentStorage>>)
    requires gr_static(v), sts_ok(v), 0 <= k < v.gr.len(), gsame(v.gr[k], g), only_order(v, s, g)
    ensures ({ let v2 = WV { st: s, gr: v.gr.update(k, g), ..v };
        gr_static(v2) && sts_ok(v2) && same_groups(v, v2)
        && forall|j: int, x: ISet<Id>| #![trigger gr_ok(v2, v2.gr[j], x)] 0 <= j < v.gr.len() && j != k && gr_ok(v, v.gr[j], x) ==> gr_ok(v2, v2.gr[j], x) })
{
    let v2 = WV { st: s, gr: v.gr.update(k, g), ..v };
    assert forall|i: int, j: int| #![trigger v2.gr[i], v2.gr[j]] 0 <= i < v2.gr.len() && 0 <= j < v2.gr.len() && i != j implies disjoint_groups(v2.gr[i], v2.gr[j]) by { 
        assert(disjoint_groups(v.gr[i], v.gr[j])); lemma_owns_same(v.gr[i], v2.gr[i]); lemma_owns_same(v.gr[j], v2.gr[j]); 
    }
    assert forall|i: int| #![trigger v2.gr[i]] 0 <= i < v2.gr.len() implies v2.st.dom().contains(gtypes(v2.gr[i]).0) && v2.st.dom().contains(gtypes(v2.gr[i]).1)
        && (gkind(v2.gr[i]) != 2 ==> gtypes(v2.gr[i]).0 != gtypes(v2.gr[i]).1) by { let o = v.gr[i]; }
    assert forall|t: TypeId| #![trigger v2.st[t]] v2.st.dom().contains(t) implies st_ok(v2, t) by { assert(st_ok(v, t)); assert(reordered(v.st[t], s[t])); }
    assert forall|j: int, x: ISet<Id>| #![trigger gr_ok(v2, v2.gr[j], x)] 0 <= j < v.gr.len() && j != k && gr_ok(v, v.gr[j], x) implies gr_ok(v2, v2.gr[j], x) by {
        let (o, a, b) = (v.gr[j], gtypes(v.gr[j]).0, gtypes(v.gr[j]).1);
        lemma_owns_same(v.gr[k], g);
        assert(disjoint_groups(v.gr[j], v.gr[k]));
        assert(reordered(v.st[a], s[a])); assert(reordered(v.st[b], s[b]));
        assert(gowns(o, a) ==> !gowns(v.gr[k], a)); assert(gowns(o, b) ==> !gowns(v.gr[k], b));
        lemma_gok_reorder(o, v.st[a].ids(), v.st[b].ids(), s[a].ids(), s[b].ids(), x);
    }
}
pub proof fn lemma_owns_same(a: Group, b: Group)
    requires gsame(a, b)
    ensures forall|t: TypeId| #[trigger] gowns(a, t) == gowns(b, t)
{ }
/* components do not notice the order */
pub proof fn lemma_comp_order(v: WV, w: WV, t: TypeId)
    requires reordered(v.st[t], w.st[t])
    ensures forall|e: Id| #[trigger] comp(w, t, e) == comp(v, t, e)
{ }
/* one storage gets component d for entity e */
pub proof fn lemma_put(v: WV, t: TypeId, e: Id, d: AnyVal, s: Box<dyn ComponentStorage>)
    requires wok(v), v.st.dom().contains(t), v.em.live().contains(e), s.wf(), s.tag() == t, s.ids().no_duplicates(), (s.ids(), s.vals()) == add_one((v.st[t].ids(), v.st[t].vals()), e, d)
    ensures ({ let v2 = WV { st: v.st.insert(t, s), ..v };
        sts_ok(v2) && gr_static(v2) && rs_ok(v2) && v2.st.dom() == v.st.dom()
        && (forall|u: TypeId, i: Id| v.st.dom().contains(u) ==> #[trigger] comp(v2, u, i) == (if u == t && i == e { Some(d) } else { comp(v, u, i) }))
        && (forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() ==> gr_ok(v2, v2.gr[k], left_out(v, v2.gr[k], t, e))) })
{
    broadcast use lemma_find;
    let v2 = WV { st: v.st.insert(t, s), ..v };
    assert(v2.st.dom() =~= v.st.dom());
    let i0 = v.st[t].ids();
    assert(st_ok(v, t));
    if !i0.contains(e) { lemma_push(i0, e); }
    assert forall|u: TypeId| #![trigger v2.st[u]] v2.st.dom().contains(u) implies st_ok(v2, u) by { assert(st_ok(v, u)); }
    assert forall|u: TypeId, i: Id| v.st.dom().contains(u) implies #[trigger] comp(v2, u, i) == (if u == t && i == e { Some(d) } else { comp(v, u, i) }) by {
        if u == t { 
            if i0.contains(e) { lemma_find_at(i0, find(i0, e)); if i0.contains(i) { assert(find(i0, i) == find(i0, e) ==> i == e); } }
            else { lemma_find_at(s.ids(), i0.len() as int); if i != e && i0.contains(i) { assert(s.ids()[find(i0, i)] == i); lemma_find_at(s.ids(), find(i0, i)); } }
        }
    }
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() implies gr_ok(v2, v2.gr[k], left_out(v, v2.gr[k], t, e)) by {
        let g = v.gr[k]; let (a, b) = gtypes(g);
        assert(gr_ok(v, g, ISet::empty()));
        assert(st_ok(v, a)); assert(st_ok(v, b)); assert(st_ok(v2, a)); assert(st_ok(v2, b));
        assert(v.st.dom().contains(a));
        let x = left_out(v, g, t, e);
        if a != t && b != t { } else if i0.contains(e) { } else {
            assert forall|k: int| #![trigger s.ids()[k]] 0 <= k < i0.len() implies s.ids()[k] == i0[k] by { }
            if g is NonOwning { } else if a == t { assert(s.ids()[i0.len() as int] == e); assert(!v.st[b].ids().contains(e) ==> !v2.st[b].ids().contains(e)); } else { }
        }
    }
}
/* the group's members are right up to e, which the group has not been told about yet */
pub open spec fn left_out(v: WV, g: Group, t: TypeId, e: Id) -> ISet<Id> {
    if (gtypes(g).0 == t || gtypes(g).1 == t) && !v.st[t].ids().contains(e) { ISet::empty().insert(e) } else { ISet::empty() }
}
/* positions where p holds, in order */
pub open spec fn sel(p: Seq<bool>, n: int) -> Seq<int> decreases n
{ if n <= 0 { Seq::empty() } else if p[n - 1] { sel(p, n - 1).push(n - 1) } else { sel(p, n - 1) } }
pub proof fn lemma_sel(p: Seq<bool>, n: int)
    requires 0 <= n <= p.len()
    ensures forall|i: int| 0 <= i < sel(p, n).len() ==> 0 <= #[trigger] sel(p, n)[i] < n && p[sel(p, n)[i]],
        forall|i: int, j: int| 0 <= i < sel(p, n).len() && 0 <= j < sel(p, n).len() && i != j ==> #[trigger] sel(p, n)[i] != #[trigger] sel(p, n)[j],
        forall|k: int| 0 <= k < n && #[trigger] p[k] ==> exists|i: int| 0 <= i < sel(p, n).len() && sel(p, n)[i] == k
    decreases n
{
    if n > 0 {
        lemma_sel(p, n - 1);
        assert forall|k: int| 0 <= k < n && #[trigger] p[k] implies exists|i: int| 0 <= i < sel(p, n).len() && sel(p, n)[i] == k by {
            if k == n - 1 { assert(sel(p, n)[sel(p, n).len() - 1] == k); } else { let q = sel(p, n - 1); let i = choose|i: int| 0 <= i < q.len() && q[i] == k; assert(sel(p, n)[i] == k); }
        }
    }
}
pub open spec fn over(g: Group, t: TypeId) -> bool { gtypes(g).0 == t || gtypes(g).1 == t }
pub open spec fn overs(s: Seq<Group>, t: TypeId) -> Seq<bool> { Seq::new(s.len(), |k: int| over(s[k], t)) }
/* a guard on a group: the group now, and as it is when the guard is given back */
pub open spec fn now_at(s: Seq<&mut Group>, i: int) -> Group { *s[i] }
#[verifier::prophetic] pub open spec fn fin_at(s: Seq<&mut Group>, i: int) -> Group { *final(s[i]) }
/* more entities may exist */
pub proof fn lemma_more_live(v: WV, e: EntityManager)
    requires wok(v), e.wf(), forall|i: Id| #[trigger] v.em.live().contains(i) ==> e.live().contains(i)
    ensures wok(WV { em: e, ..v })
{
    let v2 = WV { em: e, ..v };
    assert forall|u: TypeId| #![trigger v2.st[u]] v2.st.dom().contains(u) implies st_ok(v2, u) by { assert(st_ok(v, u)); }
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() implies gr_ok(v2, v2.gr[k], ISet::empty()) by { assert(gr_ok(v, v.gr[k], ISet::empty())); }
    assert(gr_static(v2));
}
pub proof fn lemma_batch_live(m: EntityManager, e: EntityManager, n: int)
    requires n >= 0, e.live().len() == m.live().len() + n, forall|k: int| 0 <= k < m.live().len() ==> #[trigger] e.live()[k] == m.live()[k],
        forall|k: int| m.live().len() <= k < m.live().len() + n ==> (#[trigger] e.live()[k]).v() == m.next() + (k - m.live().len()),
    ensures forall|i: Id| #[trigger] e.live().contains(i) <==> m.live().contains(i) || m.next() <= i.v() < m.next() + n
{
    broadcast use shim_axioms;
    assert forall|i: Id| #[trigger] e.live().contains(i) <==> m.live().contains(i) || m.next() <= i.v() < m.next() + n by {
        if m.live().contains(i) { lemma_find(m.live(), i); assert(e.live()[find(m.live(), i)] == i); }
        if m.next() <= i.v() < m.next() + n { let k = m.live().len() + (i.v() - m.next()); assert(e.live()[k].v() == i.v()); assert(e.live()[k] == i); }
        if e.live().contains(i) { lemma_find(e.live(), i); let k = find(e.live(), i); if k < m.live().len() { assert(m.live()[k] == i); } }
    }
}
/* everything but the components of one type is as before */
pub open spec fn frame(v: WV, w: WV) -> bool { w.em == v.em && w.rs == v.rs && w.st.dom() == v.st.dom() && same_groups(v, w) }
/* entity e has component d of type t now; nothing else changed */
pub open spec fn attached(v: WV, w: WV, t: TypeId, e: Id, d: AnyVal) -> bool {
    frame(v, w) && forall|u: TypeId, i: Id| v.st.dom().contains(u) ==> #[trigger] comp(w, u, i) == (if u == t && i == e { Some(d) } else { comp(v, u, i) })
}
/* part-way through telling the groups picked by p about entity e: gc has the groups as they are now, vx what the locks will hold
   when all guards are given back; groups told so far leave out x1, those still to be told x0 */
pub open spec fn mid(v1: WV, vx: WV, gc: Seq<Group>, p: Seq<bool>, m: int, x0: ISet<Id>, x1: ISet<Id>) -> bool {
    let n = v1.gr.len() as int;
    let ss = sel(p, n);
    let vc = WV { gr: gc, ..vx };
    &&& gc.len() == n && vx.gr.len() == n && p.len() == n && 0 <= m <= ss.len()
    &&& frame(v1, vc) && gr_static(vc) && sts_ok(vc)
    &&& forall|u: TypeId| #![trigger vx.st[u]] v1.st.dom().contains(u) ==> reordered(v1.st[u], vx.st[u])
    &&& forall|k: int| #![trigger gc[k]] 0 <= k < n && !p[k] ==> vx.gr[k] == gc[k] && gr_ok(vc, gc[k], ISet::empty())
    &&& forall|i: int| #![trigger ss[i]] 0 <= i < ss.len() ==> gr_ok(vc, gc[ss[i]], if i < m { x1 } else { x0 }) && (i < m ==> vx.gr[ss[i]] == gc[ss[i]])
}
/* the guards on the groups picked by p, m of them given back */
#[verifier::prophetic]
pub open spec fn given(vx: WV, gc: Seq<Group>, ss: Seq<int>, gs: Seq<&mut Group>, m: int) -> bool {
    &&& gs.len() == ss.len()
    &&& forall|i: int| #![trigger fin_at(gs, i)] m <= i < ss.len() ==> fin_at(gs, i) == vx.gr[ss[i]]
    &&& forall|i: int| #![trigger now_at(gs, i)] m <= i < ss.len() ==> now_at(gs, i) == gc[ss[i]]
}
pub broadcast proof fn lemma_mid_start(v1: WV, vx: WV, gc: Seq<Group>, p: Seq<bool>, m: int, x0: ISet<Id>, x1: ISet<Id>)
    requires gc == v1.gr, m == 0, gr_static(v1), sts_ok(v1), p.len() == v1.gr.len(), vx.gr.len() == v1.gr.len(), vx == (WV { gr: vx.gr, ..v1 }),
        forall|k: int| #![trigger vx.gr[k]] 0 <= k < p.len() && !p[k] ==> vx.gr[k] == v1.gr[k],
        forall|k: int| #![trigger v1.gr[k]] 0 <= k < p.len() ==> gr_ok(v1, v1.gr[k], if p[k] { x0 } else { ISet::empty() })
    ensures #[trigger] mid(v1, vx, gc, p, m, x0, x1)
{
    lemma_sel(p, p.len() as int);
    assert forall|u: TypeId| #![trigger vx.st[u]] v1.st.dom().contains(u) implies reordered(v1.st[u], vx.st[u]) by { assert(st_ok(v1, u)); lemma_reorder_refl(v1, u); }
    assert(v1 == (WV { gr: v1.gr, ..vx }));
    assert forall|k: int| #![trigger v1.gr[k]] 0 <= k < p.len() && !p[k] implies vx.gr[k] == v1.gr[k] && gr_ok(v1, v1.gr[k], ISet::empty()) by { let o = vx.gr[k]; }
}
pub proof fn lemma_mid_step(v1: WV, vx: WV, gc: Seq<Group>, p: Seq<bool>, m: int, x0: ISet<Id>, x1: ISet<Id>, vy: WV, g: Group)
    requires mid(v1, vx, gc, p, m, x0, x1), m < sel(p, v1.gr.len() as int).len(), vy == (WV { st: vy.st, ..vx }),
        gsame(gc[sel(p, v1.gr.len() as int)[m]], g), only_order(vx, vy.st, g), vy.gr[sel(p, v1.gr.len() as int)[m]] == g,
        gr_ok(vy, g, x1)
    ensures mid(v1, vy, gc.update(sel(p, v1.gr.len() as int)[m], g), p, m + 1, x0, x1)
{
    let n = v1.gr.len() as int; let ss = sel(p, n); let k = ss[m]; let vc = WV { gr: gc, ..vx }; let gd = gc.update(k, g); let vd = WV { gr: gd, ..vy };
    lemma_sel(p, n);
    lemma_step(vc, k, g, vy.st);
    assert(vd == (WV { st: vy.st, gr: vc.gr.update(k, g), ..vc }));
    assert forall|u: TypeId| #![trigger vy.st[u]] v1.st.dom().contains(u) implies reordered(v1.st[u], vy.st[u]) by {
        assert(reordered(v1.st[u], vx.st[u])); assert(reordered(vx.st[u], vy.st[u]));
        lemma_content_trans(v1.st[u].ids(), v1.st[u].vals(), vx.st[u].ids(), vx.st[u].vals(), vy.st[u].ids(), vy.st[u].vals());
    }
    assert forall|j: int| #![trigger gd[j]] 0 <= j < n && !p[j] implies vy.gr[j] == gd[j] && gr_ok(vd, gd[j], ISet::empty()) by { assert(gd[j] == gc[j]); assert(gr_ok(vc, vc.gr[j], ISet::empty())); assert(gr_ok(vd, vd.gr[j], ISet::empty())); }
    assert forall|i: int| #![trigger ss[i]] 0 <= i < ss.len() implies gr_ok(vd, gd[ss[i]], if i < m + 1 { x1 } else { x0 }) && (i < m + 1 ==> vy.gr[ss[i]] == gd[ss[i]]) by {
        if i != m { let x = if i < m { x1 } else { x0 }; assert(gd[ss[i]] == gc[ss[i]]); assert(gr_ok(vc, vc.gr[ss[i]], x)); assert(gr_ok(vd, vd.gr[ss[i]], x)); }
    }
    assert forall|j: int| #![trigger vd.gr[j]] 0 <= j < n implies gsame(v1.gr[j], vd.gr[j]) by { assert(gsame(v1.gr[j], vc.gr[j])); }
}
pub proof fn lemma_mid_end(v1: WV, vx: WV, gc: Seq<Group>, p: Seq<bool>, m: int, x0: ISet<Id>, x1: ISet<Id>)
    requires mid(v1, vx, gc, p, m, x0, x1), m == sel(p, v1.gr.len() as int).len()
    ensures frame(v1, vx), gr_static(vx), sts_ok(vx), forall|u: TypeId, i: Id| v1.st.dom().contains(u) ==> #[trigger] comp(vx, u, i) == comp(v1, u, i),
        forall|u: TypeId| #![trigger vx.st[u]] v1.st.dom().contains(u) ==> reordered(v1.st[u], vx.st[u]),
        forall|k: int| #![trigger vx.gr[k]] 0 <= k < p.len() ==> gr_ok(vx, vx.gr[k], if p[k] { x1 } else { ISet::empty() })
{
    let n = v1.gr.len() as int; let ss = sel(p, n);
    lemma_sel(p, n);
    assert forall|k: int| 0 <= k < n implies vx.gr[k] == gc[k] && gr_ok(WV { gr: gc, ..vx }, gc[k], if p[k] { x1 } else { ISet::empty() }) by { let o = gc[k]; if p[k] { let i = choose|i: int| 0 <= i < ss.len() && ss[i] == k; assert(vx.gr[ss[i]] == gc[ss[i]]); } }
    assert(vx.gr =~= gc);
    assert forall|u: TypeId, i: Id| v1.st.dom().contains(u) implies #[trigger] comp(vx, u, i) == comp(v1, u, i) by { lemma_comp_order(v1, vx, u); }
}
/* taking e's component out of a storage no group has e from any more */
pub proof fn lemma_take(v: WV, t: TypeId, e: Id, s: Box<dyn ComponentStorage>)
    requires sts_ok(v), gr_static(v), v.st.dom().contains(t), s.wf(), s.tag() == t,
        s.ids() == (if v.st[t].ids().contains(e) { swap_rem(v.st[t].ids(), find(v.st[t].ids(), e)) } else { v.st[t].ids() }),
        s.vals() == (if v.st[t].ids().contains(e) { swap_rem(v.st[t].vals(), find(v.st[t].ids(), e)) } else { v.st[t].vals() }),
    ensures ({ let v2 = WV { st: v.st.insert(t, s), ..v };
        sts_ok(v2) && gr_static(v2) && v2.st.dom() == v.st.dom() && !s.ids().contains(e)
        && (forall|u: TypeId, i: Id| v.st.dom().contains(u) ==> #[trigger] comp(v2, u, i) == (if u == t && i == e { None } else { comp(v, u, i) }))
        && (forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() && !over(v2.gr[k], t) && gr_ok(v, v2.gr[k], ISet::empty()) ==> gr_ok(v2, v2.gr[k], ISet::empty()))
        && (forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() && gr_ok(v, v2.gr[k], ISet::empty().insert(e)) ==> gr_ok(v2, v2.gr[k], ISet::empty().insert(e))) })
{
    broadcast use lemma_find;
    let v2 = WV { st: v.st.insert(t, s), ..v };
    assert(v2.st.dom() =~= v.st.dom());
    let (i0, w0) = (v.st[t].ids(), v.st[t].vals()); let q = find(i0, e);
    assert(st_ok(v, t));
    if i0.contains(e) { lemma_swap_rem(i0, q); }
    assert forall|u: TypeId| #![trigger v2.st[u]] v2.st.dom().contains(u) implies st_ok(v2, u) by { assert(st_ok(v, u)); }
    assert forall|u: TypeId, i: Id| v.st.dom().contains(u) implies #[trigger] comp(v2, u, i) == (if u == t && i == e { None } else { comp(v, u, i) }) by {
        if u == t && i0.contains(e) && i != e && i0.contains(i) {
            let k = find(i0, i); let k2 = if k == i0.len() - 1 { q } else { k };
            assert(s.ids()[k2] == i); lemma_find_at(s.ids(), k2);
        }
    }
    if i0.contains(e) {
    let x = ISet::<Id>::empty().insert(e);
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() && gr_ok(v, v2.gr[k], x) implies gr_ok(v2, v2.gr[k], x) by {
        let g = v.gr[k]; let (a, b) = gtypes(g);
        assert(st_ok(v, a)); assert(st_ok(v, b)); 
        let (ia, ib, ja, jb) = (v.st[a].ids(), v.st[b].ids(), v2.st[a].ids(), v2.st[b].ids());
        let n = glen(g);
        if g is NonOwning { } else {
            if a == t { assert(ia[q] == e); assert(q >= n);
                assert forall|i: int| #![trigger ja[i]] 0 <= i < ja.len() implies ja[i] == (if i == q { ia[ia.len() - 1] } else { ia[i] }) by { }
            }
            if b == t { 
                assert forall|i: int| 0 <= i < n implies jb.contains(#[trigger] ia[i]) && ia[i] != e by { }
                if g is FullOwning { assert forall|i: int| 0 <= i < n implies #[trigger] ib[i] == ia[i] by { let o = ia[i]; } assert(ib[q] == e); assert(q >= n);
                    assert forall|i: int| #![trigger jb[i]] 0 <= i < n implies jb[i] == ib[i] by { } }
            }
        }
    }
    }
}
/* leaving out an entity that has not both components changes nothing */
pub proof fn lemma_gone(v: WV, g: Group, e: Id)
    requires gr_ok(v, g, ISet::empty().insert(e)), !v.st[gtypes(g).0].ids().contains(e) || !v.st[gtypes(g).1].ids().contains(e)
    ensures gr_ok(v, g, ISet::empty())
{
    let a = v.st[gtypes(g).0].ids();
    assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies a.contains(a[i]) by { }
}
/* entity e has no component of type t any more; nothing else changed */
pub open spec fn detached(v: WV, w: WV, t: TypeId, e: Id) -> bool {
    frame(v, w) && forall|u: TypeId, i: Id| v.st.dom().contains(u) ==> #[trigger] comp(w, u, i) == (if u == t && i == e { None } else { comp(v, u, i) })
}
/* guards taken on the groups picked by p among the first n */
#[verifier::prophetic]
pub open spec fn taking(v0: WV, vx: WV, p: Seq<bool>, n: int, gs: Seq<&mut Group>) -> bool {
    &&& vx == (WV { gr: vx.gr, ..v0 }) && vx.gr.len() == v0.gr.len() && gs.len() == sel(p, n).len()
    &&& forall|i: int| #![trigger now_at(gs, i)] #![trigger fin_at(gs, i)] 0 <= i < gs.len() ==> now_at(gs, i) == v0.gr[sel(p, n)[i]] && fin_at(gs, i) == vx.gr[sel(p, n)[i]]
    &&& forall|k: int| #![trigger vx.gr[k]] 0 <= k < v0.gr.len() && (k >= n || !p[k]) ==> vx.gr[k] == v0.gr[k]
}
pub proof fn lemma_taking(v0: WV, vx: WV, p: Seq<bool>, n: int, gs: Seq<&mut Group>, vy: WV, gt: Seq<&mut Group>)
    requires taking(v0, vx, p, n, gs), 0 <= n < p.len(), p.len() == v0.gr.len(),
        p[n] ==> gt.len() == gs.len() + 1 && (forall|i: int| 0 <= i < gs.len() ==> #[trigger] gt[i] == gs[i])
            && vy == (WV { gr: vx.gr.update(n, fin_at(gt, gs.len() as int)), ..vx }) && now_at(gt, gs.len() as int) == v0.gr[n],
        !p[n] ==> gt == gs && vy == vx
    ensures taking(v0, vy, p, n + 1, gt)
{
    lemma_sel(p, n); lemma_sel(p, n + 1);
    assert forall|i: int| #![trigger now_at(gt, i)] #![trigger fin_at(gt, i)] 0 <= i < gt.len() implies now_at(gt, i) == v0.gr[sel(p, n + 1)[i]] && fin_at(gt, i) == vy.gr[sel(p, n + 1)[i]] by {
        if i < gs.len() { assert(now_at(gt, i) == now_at(gs, i) && fin_at(gt, i) == fin_at(gs, i)); assert(sel(p, n)[i] < n); }
        else { assert(sel(p, n + 1)[i] == n); }
    }
}
/* the groups an entity is a member of */
pub open spec fn member(v: WV, g: Group, e: Id) -> bool {
    let (a, b) = (v.st[gtypes(g).0].ids(), v.st[gtypes(g).1].ids());
    a.contains(e) && b.contains(e) && gmember(g, a, b, e)
}
pub open spec fn members(v: WV, e: Id) -> Seq<bool> { Seq::new(v.gr.len(), |k: int| member(v, v.gr[k], e)) }
/* an entity outside the group can just as well be left out */
pub proof fn lemma_outside(v: WV, g: Group, e: Id)
    requires gr_ok(v, g, ISet::empty()), !member(v, g, e), v.st[gtypes(g).0].ids().no_duplicates(), v.st[gtypes(g).1].ids().no_duplicates()
    ensures gr_ok(v, g, ISet::empty().insert(e))
{
    broadcast use lemma_find;
    let (a, b) = (v.st[gtypes(g).0].ids(), v.st[gtypes(g).1].ids());
    if a.contains(e) && b.contains(e) {
        let q = find(a, e);
        assert(a[q] == e);
        if g is FullOwning { if q < glen(g) { assert(b[q] == e); lemma_find_at(b, q); } }
    } else {
        assert forall|i: int| #![trigger a[i]] 0 <= i < a.len() implies a.contains(a[i]) by { }
        assert forall|i: int| #![trigger b[i]] 0 <= i < b.len() implies b.contains(b[i]) by { }
        if g is FullOwning { assert forall|i: int| #![trigger a[i]] 0 <= i < glen(g) implies b.contains(a[i]) by { assert(b.contains(b[i])); } }
    }
}
/* what a storage guard shows now, and when it is given back */
pub open spec fn snow(s: Seq<&mut Box<dyn ComponentStorage>>, i: int) -> Box<dyn ComponentStorage> { *s[i] }
#[verifier::prophetic] pub open spec fn sfin(s: Seq<&mut Box<dyn ComponentStorage>>, i: int) -> Box<dyn ComponentStorage> { *final(s[i]) }
/* guards taken on the storages (in order o) picked by q among the first n */
#[verifier::prophetic]
pub open spec fn staking(v0: WV, vx: WV, o: Seq<TypeId>, q: Seq<bool>, n: int, gs: Seq<&mut Box<dyn ComponentStorage>>) -> bool {
    &&& vx == (WV { st: vx.st, ..v0 }) && vx.st.dom() == v0.st.dom() && gs.len() == sel(q, n).len()
    &&& forall|i: int| #![trigger snow(gs, i)] #![trigger sfin(gs, i)] 0 <= i < gs.len() ==> snow(gs, i) == v0.st[o[sel(q, n)[i]]] && sfin(gs, i) == vx.st[o[sel(q, n)[i]]]
    &&& forall|k: int| #![trigger o[k]] 0 <= k < o.len() && (k >= n || !q[k]) ==> vx.st[o[k]] == v0.st[o[k]]
}
pub proof fn lemma_staking(v0: WV, vx: WV, o: Seq<TypeId>, q: Seq<bool>, n: int, gs: Seq<&mut Box<dyn ComponentStorage>>, vy: WV, gt: Seq<&mut Box<dyn ComponentStorage>>)
    requires staking(v0, vx, o, q, n, gs), 0 <= n < q.len(), q.len() == o.len(), o.no_duplicates(), v0.st.dom().contains(o[n]),
        q[n] ==> gt.len() == gs.len() + 1 && (forall|i: int| 0 <= i < gs.len() ==> #[trigger] gt[i] == gs[i])
            && vy == (WV { st: vx.st.insert(o[n], sfin(gt, gs.len() as int)), ..vx }) && snow(gt, gs.len() as int) == v0.st[o[n]],
        !q[n] ==> gt == gs && vy == vx
    ensures staking(v0, vy, o, q, n + 1, gt)
{
    lemma_sel(q, n); lemma_sel(q, n + 1);
    assert(vy.st.dom() =~= vx.st.dom());
    assert forall|i: int| #![trigger snow(gt, i)] #![trigger sfin(gt, i)] 0 <= i < gt.len() implies snow(gt, i) == v0.st[o[sel(q, n + 1)[i]]] && sfin(gt, i) == vy.st[o[sel(q, n + 1)[i]]] by {
        if i < gs.len() { assert(snow(gt, i) == snow(gs, i) && sfin(gt, i) == sfin(gs, i)); assert(sel(q, n)[i] < n); assert(o[sel(q, n)[i]] != o[n]); }
        else { assert(sel(q, n + 1)[i] == n); }
    }
}
pub open spec fn holders(v: WV, o: Seq<TypeId>, e: Id) -> Seq<bool> { Seq::new(o.len(), |k: int| v.st[o[k]].ids().contains(e)) }
/* part-way through taking e out of the storages picked by q: sc has the storages as they are now */
pub open spec fn smid(v2: WV, vx: WV, sc: Map<TypeId, Box<dyn ComponentStorage>>, o: Seq<TypeId>, ss: Seq<int>, m: int, e: Id) -> bool {
    let vc = WV { st: sc, ..vx };
    &&& frame(v2, vc) && vx.st.dom() == v2.st.dom() && vx.gr == v2.gr && gr_static(vc) && sts_ok(vc)
    &&& forall|k: int| #![trigger vc.gr[k]] 0 <= k < vc.gr.len() ==> gr_ok(vc, vc.gr[k], ISet::empty().insert(e))
    &&& forall|u: TypeId, i: Id| v2.st.dom().contains(u) && i != e ==> #[trigger] comp(vc, u, i) == comp(v2, u, i)
    &&& forall|k: int| #![trigger o[k]] 0 <= k < o.len() && sc[o[k]] != vx.st[o[k]] ==> exists|j: int| m <= j < ss.len() && ss[j] == k
    &&& forall|k: int| #![trigger o[k]] 0 <= k < o.len() && sc[o[k]].ids().contains(e) ==> exists|j: int| m <= j < ss.len() && ss[j] == k
    &&& forall|j: int| #![trigger ss[j]] m <= j < ss.len() ==> sc[o[ss[j]]].ids().contains(e)
}
#[verifier::prophetic]
pub open spec fn sgiven(vx: WV, sc: Map<TypeId, Box<dyn ComponentStorage>>, o: Seq<TypeId>, ss: Seq<int>, gs: Seq<&mut Box<dyn ComponentStorage>>, m: int) -> bool {
    &&& gs.len() == ss.len()
    &&& forall|i: int| #![trigger sfin(gs, i)] m <= i < ss.len() ==> sfin(gs, i) == vx.st[o[ss[i]]]
    &&& forall|i: int| #![trigger snow(gs, i)] m <= i < ss.len() ==> snow(gs, i) == sc[o[ss[i]]]
}
pub proof fn lemma_smid_start(v2: WV, vx: WV, o: Seq<TypeId>, q: Seq<bool>, e: Id)
    requires vx == (WV { st: vx.st, ..v2 }), vx.st.dom() == v2.st.dom(), gr_static(v2), sts_ok(v2), q == holders(v2, o, e),
        forall|k: int| #![trigger o[k]] 0 <= k < o.len() && !q[k] ==> vx.st[o[k]] == v2.st[o[k]],
        forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() ==> gr_ok(v2, v2.gr[k], ISet::empty().insert(e)),
    ensures smid(v2, vx, v2.st, o, sel(q, o.len() as int), 0, e)
{ lemma_sel(q, o.len() as int); }
pub proof fn lemma_smid_step(v2: WV, vx: WV, sc: Map<TypeId, Box<dyn ComponentStorage>>, o: Seq<TypeId>, q: Seq<bool>, m: int, e: Id, s: Box<dyn ComponentStorage>)
    requires smid(v2, vx, sc, o, sel(q, o.len() as int), m, e), 0 <= m < sel(q, o.len() as int).len(), q.len() == o.len(), o.no_duplicates(),
        forall|t: TypeId| #[trigger] o.contains(t) <==> v2.st.dom().contains(t), vx.st[o[sel(q, o.len() as int)[m]]] == s,
        s.wf(), s.tag() == sc[o[sel(q, o.len() as int)[m]]].tag(), sc[o[sel(q, o.len() as int)[m]]].ids().contains(e),
        s.ids() == swap_rem(sc[o[sel(q, o.len() as int)[m]]].ids(), find(sc[o[sel(q, o.len() as int)[m]]].ids(), e)),
        s.vals() == swap_rem(sc[o[sel(q, o.len() as int)[m]]].vals(), find(sc[o[sel(q, o.len() as int)[m]]].ids(), e)),
    ensures smid(v2, vx, sc.insert(o[sel(q, o.len() as int)[m]], s), o, sel(q, o.len() as int), m + 1, e)
{
    let ss = sel(q, o.len() as int); let k = ss[m]; let t = o[k]; let vc = WV { st: sc, ..vx };
    lemma_sel(q, o.len() as int);
    assert(o.contains(t));
    assert(st_ok(vc, t));
    lemma_take(vc, t, e, s);
    let sd = sc.insert(t, s); let vd = WV { st: sd, ..vx };
    assert(vd == (WV { st: vc.st.insert(t, s), ..vc }));
    assert forall|j: int| #![trigger vd.gr[j]] 0 <= j < vd.gr.len() implies gr_ok(vd, vd.gr[j], ISet::empty().insert(e)) by { assert(gr_ok(vc, vc.gr[j], ISet::empty().insert(e))); }
    assert forall|u: TypeId, i: Id| v2.st.dom().contains(u) && i != e implies #[trigger] comp(vd, u, i) == comp(v2, u, i) by { assert(comp(vc, u, i) == comp(v2, u, i)); }
    assert forall|j: int| #![trigger o[j]] 0 <= j < o.len() && sd[o[j]] != vx.st[o[j]] implies exists|i: int| m + 1 <= i < ss.len() && ss[i] == j by {
        assert(sc[o[j]] != vx.st[o[j]] || o[j] == t); let i = choose|i: int| m <= i < ss.len() && ss[i] == j; assert(i != m);
    }
    assert forall|j: int| #![trigger o[j]] 0 <= j < o.len() && sd[o[j]].ids().contains(e) implies exists|i: int| m + 1 <= i < ss.len() && ss[i] == j by {
        assert(o[j] != t); let i = choose|i: int| m <= i < ss.len() && ss[i] == j; assert(i != m);
    }
    assert forall|j: int| #![trigger ss[j]] m + 1 <= j < ss.len() implies sd[o[ss[j]]].ids().contains(e) by { assert(ss[j] != ss[m]); assert(o[ss[j]] != t); }
}
pub proof fn lemma_smid_end(v2: WV, vx: WV, sc: Map<TypeId, Box<dyn ComponentStorage>>, o: Seq<TypeId>, ss: Seq<int>, m: int, e: Id)
    requires smid(v2, vx, sc, o, ss, m, e), m == ss.len(), forall|t: TypeId| #[trigger] o.contains(t) <==> v2.st.dom().contains(t)
    ensures frame(v2, vx), sc == vx.st, gr_static(vx), sts_ok(vx), grs_ok(vx), forall|u: TypeId| v2.st.dom().contains(u) ==> !(#[trigger] vx.st[u]).ids().contains(e),
        forall|u: TypeId, i: Id| v2.st.dom().contains(u) ==> #[trigger] comp(vx, u, i) == (if i == e { None } else { comp(v2, u, i) })
{
    assert forall|u: TypeId| #[trigger] v2.st.dom().contains(u) implies sc[u] == vx.st[u] && !sc[u].ids().contains(e) by { assert(o.contains(u)); let k = choose|k: int| 0 <= k < o.len() && o[k] == u; assert(o[k] == u); }
    assert(sc =~= vx.st);
    let vc = WV { st: sc, ..vx };
    assert(vc == vx);
    assert forall|k: int| #![trigger vx.gr[k]] 0 <= k < vx.gr.len() implies gr_ok(vx, vx.gr[k], ISet::empty()) by { let g = vc.gr[k]; assert(gr_ok(vx, g, ISet::empty().insert(e))); lemma_gone(vx, g, e); }
}
pub proof fn lemma_less_live(v: WV, m: EntityManager, e: Id)
    requires v.em.wf(), sts_ok(v), rs_ok(v), gr_static(v), grs_ok(v), m.wf(), v.em.live().contains(e), m.live() == swap_rem(v.em.live(), find(v.em.live(), e)), v.em.live().no_duplicates(),
        forall|u: TypeId| v.st.dom().contains(u) ==> !(#[trigger] v.st[u]).ids().contains(e),
    ensures wok(WV { em: m, ..v }), forall|i: Id| #[trigger] m.live().contains(i) <==> v.em.live().contains(i) && i != e
{
    lemma_find(v.em.live(), e); lemma_swap_rem(v.em.live(), find(v.em.live(), e));
    let v2 = WV { em: m, ..v };
    assert forall|u: TypeId| #![trigger v2.st[u]] v2.st.dom().contains(u) implies st_ok(v2, u) by { assert(st_ok(v, u)); }
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() implies gr_ok(v2, v2.gr[k], ISet::empty()) by { assert(gr_ok(v, v.gr[k], ISet::empty())); }
    assert(gr_static(v2));
}
/* entity e and all it had are gone; nothing else changed */
pub open spec fn removed(v: WV, w: WV, e: Id) -> bool {
    &&& w.rs == v.rs && w.st.dom() == v.st.dom() && same_groups(v, w)
    &&& forall|u: TypeId, i: Id| v.st.dom().contains(u) ==> #[trigger] comp(w, u, i) == (if i == e { None } else { comp(v, u, i) })
    &&& forall|i: Id| #[trigger] w.em.live().contains(i) <==> v.em.live().contains(i) && i != e
    &&& w.em.free() == seq![e] + v.em.free() && w.em.next() == v.em.next()
}
pub proof fn lemma_not_both(v: WV, g: Group, w: WV, g2: Group, e: Id)
    requires gr_ok(v, g, ISet::empty()), !member(v, g, e), swf(v.st[gtypes(g).0]), swf(v.st[gtypes(g).1]), gsame(g, g2), gr_ok(w, g2, ISet::empty()),
        reordered(v.st[gtypes(g).0], w.st[gtypes(g).0]), reordered(v.st[gtypes(g).1], w.st[gtypes(g).1])
    ensures gr_ok(w, g2, ISet::empty().insert(e))
{ 
    broadcast use lemma_find;
    let (a, b) = (v.st[gtypes(g).0].ids(), v.st[gtypes(g).1].ids());
    if a.contains(e) && b.contains(e) { let q = find(a, e); assert(a[q] == e); if g is FullOwning { if q < glen(g) { assert(b[q] == e); lemma_find_at(b, q); } } }
    lemma_outside(w, g2, e);
}
pub open spec fn same_as(g: Group, s: (int, TypeId, TypeId)) -> bool { gkind(g) == s.0 && gtypes(g).0 == s.1 && gtypes(g).1 == s.2 }
pub open spec fn declared(v: WV, s: (int, TypeId, TypeId)) -> bool { exists|k: int| 0 <= k < v.gr.len() && same_as(#[trigger] v.gr[k], s) }
/* the types a group of that kind over those types owns */
pub open spec fn sowns(s: (int, TypeId, TypeId), t: TypeId) -> bool { (s.0 == 0 || s.0 == 1) && t == s.1 || s.0 == 0 && t == s.2 }
pub open spec fn clash(v: WV, s: (int, TypeId, TypeId)) -> bool { exists|k: int, t: TypeId| #![trigger v.gr[k], sowns(s, t)] 0 <= k < v.gr.len() && gowns(v.gr[k], t) && sowns(s, t) }
/* a declaration make_group must reject */
pub open spec fn forbidden(w: World, v: WV, s: (int, TypeId, TypeId)) -> bool { declared(v, s) || !reg(w, s.1) || !reg(w, s.2) || clash(v, s) }
pub proof fn lemma_sowns(g: Group, s: (int, TypeId, TypeId))
    requires same_as(g, s)
    ensures forall|t: TypeId| #[trigger] gowns(g, t) == sowns(s, t)
{ }
pub proof fn lemma_new_group(v: WV, g: Group, s: (int, TypeId, TypeId))
    requires wok(v), same_as(g, s), !declared(v, s), !clash(v, s), v.st.dom().contains(s.1), v.st.dom().contains(s.2), s.0 != 2 ==> s.1 != s.2
    ensures ({ let v2 = WV { gr: v.gr.push(g), ..v }; gr_static(v2) && sts_ok(v2) && forall|k: int| #![trigger v2.gr[k]] 0 <= k < v.gr.len() ==> gr_ok(v2, v2.gr[k], ISet::empty()) })
{
    let v2 = WV { gr: v.gr.push(g), ..v };
    lemma_sowns(g, s);
    assert forall|u: TypeId| #![trigger v2.st[u]] v2.st.dom().contains(u) implies st_ok(v2, u) by { assert(st_ok(v, u)); }
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v.gr.len() implies gr_ok(v2, v2.gr[k], ISet::empty()) by { assert(gr_ok(v, v.gr[k], ISet::empty())); }
    assert forall|k: int| 0 <= k < v.gr.len() implies disjoint_groups(v.gr[k], g) && disjoint_groups(g, v.gr[k]) by {
        assert(!same_as(v.gr[k], s));
        assert forall|t: TypeId| !(#[trigger] gowns(v.gr[k], t) && gowns(g, t)) by { assert(!(gowns(v.gr[k], t) && sowns(s, t))); }
    }
    assert forall|i: int, j: int| #![trigger v2.gr[i], v2.gr[j]] 0 <= i < v2.gr.len() && 0 <= j < v2.gr.len() && i != j implies disjoint_groups(v2.gr[i], v2.gr[j]) by { if i < v.gr.len() && j < v.gr.len() { assert(disjoint_groups(v.gr[i], v.gr[j])); } }
    assert forall|i: int| #![trigger v2.gr[i]] 0 <= i < v2.gr.len() implies v2.st.dom().contains(gtypes(v2.gr[i]).0) && v2.st.dom().contains(gtypes(v2.gr[i]).1)
        && (gkind(v2.gr[i]) != 2 ==> gtypes(v2.gr[i]).0 != gtypes(v2.gr[i]).1) by { if i < v.gr.len() { let o = v.gr[i]; } }
}
/* one more group; nothing else changed */
pub open spec fn regrouped(v: WV, w: WV, s: (int, TypeId, TypeId)) -> bool {
    &&& w.em == v.em && w.rs == v.rs && w.st.dom() == v.st.dom() && w.gr.len() == v.gr.len() + 1 && same_as(w.gr.last(), s)
    &&& forall|k: int| #![trigger w.gr[k]] 0 <= k < v.gr.len() ==> gsame(v.gr[k], w.gr[k])
    &&& forall|u: TypeId, i: Id| v.st.dom().contains(u) ==> #[trigger] comp(w, u, i) == comp(v, u, i)
}
pub open spec fn lock_at(o: Option<&RwLock<Group>>, w: World, k: int) -> bool { 0 <= k < w.groups@.len() && *o->Some_0 == w.groups@[k] }
pub open spec fn apart(g: Group, s: (int, TypeId, TypeId)) -> bool { forall|t: TypeId| #[trigger] gowns(g, t) ==> !sowns(s, t) }
/* ---- batches ---- */
pub proof fn lemma_add_all_map<T>(i0: Seq<Id>, w0: Seq<T>, es: Seq<Id>, ds: Seq<T>, n: int)
    requires i0.len() == w0.len(), 0 <= n <= es.len(), es.len() == ds.len()
    ensures ({ let q = add_all((i0, w0), es, ds, n); q.0.len() == q.1.len()
        && add_all((i0, w0.map_values(|t: T| embed(t))), es, ds.map_values(|t: T| embed(t)), n) == (q.0, q.1.map_values(|t: T| embed(t))) })
    decreases n
{
    broadcast use lemma_find;
    if n > 0 {
        lemma_add_all_map(i0, w0, es, ds, n - 1);
        let q = add_all((i0, w0), es, ds, n - 1); let (e, d) = (es[n - 1], ds[n - 1]);
        if q.0.contains(e) { assert(q.1.update(find(q.0, e), d).map_values(|t: T| embed(t)) =~= q.1.map_values(|t: T| embed(t)).update(find(q.0, e), embed(d))); }
        else { assert(q.1.push(d).map_values(|t: T| embed(t)) =~= q.1.map_values(|t: T| embed(t)).push(embed(d))); }
    }
}
pub open spec fn among(es: Seq<Id>, n: int, i: Id) -> bool { exists|k: int| 0 <= k < n && es[k] == i }
pub proof fn lemma_add_all(i0: Seq<Id>, w0: Seq<AnyVal>, es: Seq<Id>, ds: Seq<AnyVal>, n: int)
    requires i0.no_duplicates(), i0.len() == w0.len(), es.no_duplicates(), 0 <= n <= es.len(), es.len() == ds.len()
    ensures ({ let (i1, w1) = add_all((i0, w0), es, ds, n);
        i1.no_duplicates() && i1.len() == w1.len() && i1.len() >= i0.len()
        && (forall|k: int| #![trigger i1[k]] 0 <= k < i0.len() ==> i1[k] == i0[k])
        && (forall|i: Id| #[trigger] i1.contains(i) <==> i0.contains(i) || among(es, n, i))
        && (forall|j: int| #![trigger es[j]] 0 <= j < n ==> w1[find(i1, es[j])] == ds[j])
        && (forall|i: Id| #![trigger i0.contains(i)] i0.contains(i) && !among(es, n, i) ==> w1[find(i1, i)] == w0[find(i0, i)]) })
    decreases n
{
    broadcast use lemma_find;
    if n > 0 {
        lemma_add_all(i0, w0, es, ds, n - 1);
        let (i1, w1) = add_all((i0, w0), es, ds, n - 1); let (e, d) = (es[n - 1], ds[n - 1]);
        let (i2, w2) = add_all((i0, w0), es, ds, n);
        if !i1.contains(e) { lemma_push(i1, e); assert(i2[i1.len() as int] == e); }
        assert forall|i: Id| among(es, n, i) <==> #[trigger] among(es, n - 1, i) || i == e by {
            if among(es, n, i) { let k = choose|k: int| 0 <= k < n && es[k] == i; if k < n - 1 { assert(es[k] == i); } }
            if among(es, n - 1, i) { let k = choose|k: int| 0 <= k < n - 1 && es[k] == i; assert(es[k] == i); }
            if i == e { assert(es[n - 1] == i); }
        }
        assert(i2.no_duplicates());
        assert forall|i: Id| #[trigger] i1.contains(i) implies find(i2, i) == find(i1, i) by { assert(i2[find(i1, i)] == i); lemma_find_at(i2, find(i1, i)); }
        assert(i2.contains(e));
        assert(w2[find(i2, e)] == d) by { if i1.contains(e) { } else { lemma_find_at(i2, i1.len() as int); } }
        assert forall|i: Id| #[trigger] i1.contains(i) && i != e implies w2[find(i2, i)] == w1[find(i1, i)] by { if i1.contains(e) && find(i1, i) == find(i1, e) { assert(i == e); } }
        assert forall|j: int| #![trigger es[j]] 0 <= j < n implies w2[find(i2, es[j])] == ds[j] by { if j < n - 1 { assert(among(es, n - 1, es[j])); assert(i1.contains(es[j])); assert(es[j] != es[n - 1]); } }
        assert forall|i: Id| #[trigger] i2.contains(i) <==> i0.contains(i) || among(es, n, i) by { assert(among(es, n, i) <==> among(es, n - 1, i) || i == e); assert(i1.contains(i) <==> i0.contains(i) || among(es, n - 1, i)); }
        assert forall|i: Id| #![trigger i0.contains(i)] i0.contains(i) && !among(es, n, i) implies w2[find(i2, i)] == w0[find(i0, i)] by { assert(!among(es, n - 1, i) && i != e); assert(i1.contains(i)); }
    }
}
/* those of the batch that had no component of the type */
pub open spec fn fresh_of(es: Seq<Id>, i0: Seq<Id>) -> ISet<Id> { ISet::new(|i: Id| among(es, es.len() as int, i) && !i0.contains(i)) }
/* the first j entities have been told about */
pub open spec fn cut(x: ISet<Id>, es: Seq<Id>, j: int) -> ISet<Id> decreases j { if j <= 0 { x } else { cut(x, es, j - 1).remove(es[j - 1]) } }
pub proof fn lemma_cut(x: ISet<Id>, es: Seq<Id>, j: int)
    requires 0 <= j <= es.len()
    ensures forall|i: Id| #[trigger] cut(x, es, j).contains(i) <==> x.contains(i) && !among(es, j, i)
    decreases j
{
    if j > 0 {
        lemma_cut(x, es, j - 1);
        assert forall|i: Id| #[trigger] cut(x, es, j).contains(i) <==> x.contains(i) && !among(es, j, i) by {
            assert(cut(x, es, j - 1).contains(i) <==> x.contains(i) && !among(es, j - 1, i));
            if among(es, j, i) { let k = choose|k: int| 0 <= k < j && es[k] == i; if k < j - 1 { assert(es[k] == i); } }
            if among(es, j - 1, i) { let k = choose|k: int| 0 <= k < j - 1 && es[k] == i; assert(es[k] == i); }
            if i == es[j - 1] { assert(among(es, j, i)); }
        }
    }
}
pub proof fn lemma_put_all(v: WV, t: TypeId, es: Seq<Id>, ds: Seq<AnyVal>, s: Box<dyn ComponentStorage>)
    requires wok(v), v.st.dom().contains(t), es.no_duplicates(), es.len() == ds.len(), forall|k: int| 0 <= k < es.len() ==> v.em.live().contains(#[trigger] es[k]),
        s.wf(), s.tag() == t, (s.ids(), s.vals()) == add_all((v.st[t].ids(), v.st[t].vals()), es, ds, es.len() as int)
    ensures ({ let v2 = WV { st: v.st.insert(t, s), ..v };
        sts_ok(v2) && gr_static(v2) && rs_ok(v2) && v2.st.dom() == v.st.dom()
        && (forall|u: TypeId, i: Id| v.st.dom().contains(u) && !(u == t && among(es, es.len() as int, i)) ==> #[trigger] comp(v2, u, i) == comp(v, u, i))
        && (forall|j: int| #![trigger es[j]] 0 <= j < es.len() ==> comp(v2, t, es[j]) == Some(ds[j]))
        && (forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() ==> gr_ok(v2, v2.gr[k], if over(v.gr[k], t) { fresh_of(es, v.st[t].ids()) } else { ISet::empty() })) })
{
    broadcast use lemma_find;
    let v2 = WV { st: v.st.insert(t, s), ..v };
    let n = es.len() as int; let i0 = v.st[t].ids(); let x = fresh_of(es, i0);
    assert(v2.st.dom() =~= v.st.dom());
    assert(st_ok(v, t));
    lemma_add_all(i0, v.st[t].vals(), es, ds, n);
    assert forall|u: TypeId| #![trigger v2.st[u]] v2.st.dom().contains(u) implies st_ok(v2, u) by { assert(st_ok(v, u)); 
        if u == t { assert forall|e: Id| #[trigger] v2.st[u].ids().contains(e) implies v2.em.live().contains(e) by { if !i0.contains(e) { assert(among(es, n, e)); let k = choose|k: int| 0 <= k < n && es[k] == e; assert(v.em.live().contains(es[k])); } } } }
    assert forall|j: int| #![trigger es[j]] 0 <= j < n implies comp(v2, t, es[j]) == Some(ds[j]) by { assert(among(es, n, es[j])); }
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() implies gr_ok(v2, v2.gr[k], if over(v.gr[k], t) { x } else { ISet::empty() }) by {
        let g = v.gr[k]; let (a, b) = gtypes(g);
        assert(gr_ok(v, g, ISet::empty()));
        assert(st_ok(v, a)); assert(st_ok(v, b)); assert(st_ok(v2, a)); assert(st_ok(v2, b));
        let (a0, b0, a1, b1) = (v.st[a].ids(), v.st[b].ids(), v2.st[a].ids(), v2.st[b].ids());
        if a == t || b == t {
            assert forall|i: Id| #[trigger] s.ids().contains(i) <==> i0.contains(i) || x.contains(i) by { }
            if g is FullOwning {
                assert forall|i: int| #![trigger a1[i]] glen(g) <= i < a1.len() implies !b1.contains(a1[i]) || x.contains(a1[i]) by {
                    if b1.contains(a1[i]) && !x.contains(a1[i]) { assert(a1.contains(a1[i])); assert(a0.contains(a1[i]) && b0.contains(a1[i])); let q = find(a0, a1[i]); assert(a1[q] == a0[q]); assert(q == i); }
                }
            } else if g is PartialOwning {
                assert forall|i: int| #![trigger a1[i]] glen(g) <= i < a1.len() implies !b1.contains(a1[i]) || x.contains(a1[i]) by {
                    if b1.contains(a1[i]) && !x.contains(a1[i]) { assert(a1.contains(a1[i])); assert(a0.contains(a1[i]) && b0.contains(a1[i])); let q = find(a0, a1[i]); assert(a1[q] == a0[q]); assert(q == i); }
                }
                assert forall|i: int| #![trigger a1[i]] 0 <= i < glen(g) implies b1.contains(a1[i]) && !x.contains(a1[i]) by { assert(a1[i] == a0[i]); assert(b0.contains(a0[i])); assert(a0.contains(a0[i])); }
            } else { }
        }
    }
}
/* entities start..end have components ds of type t now; nothing else changed */
pub open spec fn attached_all(v: WV, w: WV, t: TypeId, a: int, b: int, ds: Seq<AnyVal>) -> bool {
    frame(v, w) && forall|u: TypeId, i: Id| v.st.dom().contains(u) ==> #[trigger] comp(w, u, i) == (if u == t && a <= i.v() < b { Some(ds[i.v() - a]) } else { comp(v, u, i) })
}
/* the handle of a batch of entities that exist */
pub open spec fn lives(w: World, h: HeapView, a: Id, b: Id) -> bool { a.v() <= b.v() && forall|i: Id| a.v() <= i.v() < b.v() ==> #[trigger] live(w, h, i) }
pub open spec fn span(es: Seq<Id>, a: int, n: int) -> bool { es.len() == n && forall|k: int| #![trigger es[k]] 0 <= k < n ==> es[k].v() == a + k }
pub proof fn lemma_span(es: Seq<Id>, a: int, n: int)
    requires span(es, a, n)
    ensures es.no_duplicates(), forall|i: Id| #[trigger] among(es, n, i) <==> a <= i.v() < a + n
{
    broadcast use shim_axioms;
    assert forall|i: Id| #[trigger] among(es, n, i) <==> a <= i.v() < a + n by { if a <= i.v() < a + n { assert(es[i.v() - a].v() == i.v()); } }
}
/* ---- queries ---- */
/* the same entities, groups and resources, in every storage the same entities in the same order; only components of the types ws differ */
pub open spec fn revalued(v: WV, w: WV, ws: ISet<TypeId>) -> bool {
    &&& w.em == v.em && w.rs == v.rs && w.gr == v.gr && w.st.dom() == v.st.dom()
    &&& forall|t: TypeId| #![trigger w.st[t]] v.st.dom().contains(t) ==> w.st[t].ids() == v.st[t].ids() && w.st[t].tag() == v.st[t].tag() && w.st[t].wf() && w.st[t].vals().len() == v.st[t].vals().len()
        && (!ws.contains(t) ==> w.st[t] == v.st[t])
}
pub broadcast proof fn lemma_revalued(v: WV, w: WV, ws: ISet<TypeId>)
    requires wok(v), #[trigger] revalued(v, w, ws)
    ensures wok(w)
{
    assert forall|u: TypeId| #![trigger w.st[u]] w.st.dom().contains(u) implies st_ok(w, u) by { assert(st_ok(v, u)); }
    assert forall|k: int| #![trigger w.gr[k]] 0 <= k < w.gr.len() implies gr_ok(w, w.gr[k], ISet::empty()) by { let g = v.gr[k]; assert(gr_ok(v, g, ISet::empty())); let (a, b) = (w.st[gtypes(g).0], w.st[gtypes(g).1]); }
}
pub proof fn lemma_revalued_refl(v: WV)
    requires wok(v)
    ensures revalued(v, v, ISet::empty())
{ assert forall|t: TypeId| #![trigger v.st[t]] v.st.dom().contains(t) implies v.st[t].wf() by { assert(st_ok(v, t)); } }
pub proof fn lemma_revalued_trans(u: WV, v: WV, w: WV, s: ISet<TypeId>, t: ISet<TypeId>)
    requires revalued(u, v, s), revalued(v, w, t)
    ensures revalued(u, w, s.union(t))
{ assert forall|k: TypeId| #![trigger w.st[k]] u.st.dom().contains(k) implies w.st[k].ids() == u.st[k].ids() && w.st[k].tag() == u.st[k].tag() && w.st[k].vals().len() == u.st[k].vals().len() && (!s.union(t).contains(k) ==> w.st[k] == u.st[k]) by { let x = v.st[k]; } }
/* ASSUMED of every query that hands out mutable items: while it holds the guard nobody adds or removes components of the type,
   so the storage is given back with the entities it has now (`stamp` proves the iterator's own methods keep this) */
#[verifier::prophetic]
pub open spec fn given_back<T: crate::component::Component>(p: PtrMut<crate::sparse_set::SparseSet<Id, T>>, g: &mut Box<dyn ComponentStorage>) -> bool { p.fin().wf() && p.fin().ids() == p.cur().ids() && *final(g) == *g }
pub open spec fn has(v: WV, t: TypeId) -> ISet<Id> { ISet::new(|i: Id| v.st[t].ids().contains(i)) }
pub open spec fn apart_types(a: ISet<TypeId>, b: ISet<TypeId>) -> bool { forall|t: TypeId| #[trigger] a.contains(t) ==> !b.contains(t) }
pub open spec fn one(t: TypeId) -> ISet<TypeId> { ISet::empty().insert(t) }
/* nothing but guards on storages of the types ws have been taken so far */
pub open spec fn only_guards(v: WV, w: WV, ws: ISet<TypeId>) -> bool {
    w.em == v.em && w.rs == v.rs && w.gr == v.gr && w.st.dom() == v.st.dom() && forall|t: TypeId| #![trigger w.st[t]] v.st.dom().contains(t) && !ws.contains(t) ==> w.st[t] == v.st[t]
}
pub proof fn lemma_item<T>(s: crate::sparse_set::SparseSet<Id, T>, b: Box<dyn ComponentStorage>)
    requires s.wf(), s.ids() == b.ids(), s.avals() == b.vals()
    ensures forall|i: Id| b.ids().contains(i) ==> embed(s.vals()[#[trigger] s.pos(i)]) == b.vals()[find(b.ids(), i)]
{ s.lemma_all(); broadcast use lemma_find; assert forall|i: Id| b.ids().contains(i) implies embed(s.vals()[#[trigger] s.pos(i)]) == b.vals()[find(b.ids(), i)] by { assert(s.has(i)); } }
/* the members of a group, read off the storages */
pub open spec fn head(g: Group, a: Seq<Id>) -> Seq<Id> { match g { Group::FullOwning(d) => a.subrange(0, d.length as int), Group::PartialOwning(d) => a.subrange(0, d.length as int), Group::NonOwning(d) => d.sparse_set.ids() } }
pub proof fn lemma_head(g: Group, a: Seq<Id>, b: Seq<Id>)
    requires gok(g, a, b, ISet::empty()), a.no_duplicates()
    ensures forall|i: Id| #[trigger] head(g, a).contains(i) <==> a.contains(i) && b.contains(i)
{
    broadcast use lemma_find;
    let s = head(g, a);
    if !(g is NonOwning) {
        assert forall|i: Id| #[trigger] s.contains(i) <==> a.contains(i) && b.contains(i) by {
            if s.contains(i) { let k = find(s, i); assert(a[k] == i); assert(b.contains(a[k])) by { if g is FullOwning { assert(b[k] == a[k]); } } }
            if a.contains(i) && b.contains(i) { let k = find(a, i); assert(a[k] == i); assert(k < s.len()); assert(s[k] == i); }
        }
    }
}
//ENDLEM
}
}
@fn world::World::new
@heap
@ensures
winv(r, final(h)@), r.components@.dom() =~= Set::<TypeId>::empty(), r.groups@.len() == 0, r.resources@.dom() =~= Set::<TypeId>::empty(),
wv(r, final(h)@).em.live() == Seq::<Id>::empty(), wv(r, final(h)@).em.next() == 1, wv(r, final(h)@).em.free() == Seq::<Id>::empty(),
@fn world::World::has_registered
@ensures
r == reg(*self, tid::<T>())
@fn world::World::exist
@heap
@requires
winv(*self, old(h)@)
@ensures
final(h)@ == old(h)@, r == live(*self, old(h)@, entity_id)
@fn world::World::raw_storage_read
@heap
@requires
locks(*self, old(h)@)
@ensures
final(h)@ == old(h)@, r is Some <==> reg(*self, id), r is Some ==> *r->Some_0 == wv(*self, old(h)@).st[id]
@fn world::World::raw_storage_write
@heap
@requires
locks(*self, old(h)@)
@ensures
r is Some <==> reg(*self, id), r is None ==> final(h)@ == old(h)@,
r is Some ==> *r->Some_0 == wv(*self, old(h)@).st[id] && locks(*self, final(h)@)
    && wv(*self, final(h)@) == (WV { st: wv(*self, old(h)@).st.insert(id, *final(r->Some_0)), ..wv(*self, old(h)@) }),
@post
proof { if r is Some { lemma_write_st(*self, old(h)@, id, *final(r->Some_0)); } }
@fn world::World::components_read
@heap
@requires
winv(*self, old(h)@)
@ensures
final(h)@ == old(h)@, r is Some <==> reg(*self, tid::<T>()),
r is Some ==> r->Some_0.inv() && r->Some_0.ptr.ids() == wv(*self, old(h)@).st[tid::<T>()].ids() && r->Some_0.ptr.avals() == wv(*self, old(h)@).st[tid::<T>()].vals(),
@start
proof { broadcast use lemma_dom; }
let ghost v0 = wv(*self, old(h)@);
proof { if reg(*self, tid::<T>()) { assert(st_ok(v0, tid::<T>())); } }
@fn world::World::entity
@heap
@requires
winv(*self, old(h)@)
@ensures
final(h)@ == old(h)@, r is Some <==> live(*self, old(h)@, id), r is Some ==> *r->Some_0.world == *self && r->Some_0.id == id
@fn entity::Entity::new
@ensures
r.world == world, r.id == entity_id
@fn entity::Entity::into_id
@ensures
r == self.id
@fn entity::Entities::new
@ensures
r.world == world, r.ids == ids
@fn entity::Entities::into_ids
@ensures
r == self.ids
@fn world::World::components_write
@heap
@requires
winv(*self, old(h)@)
@ensures
r is Some <==> reg(*self, tid::<T>()), r is None ==> final(h)@ == old(h)@,
r is Some ==> r->Some_0.inv() && r->Some_0.ptr.cur().ids() == wv(*self, old(h)@).st[tid::<T>()].ids() && r->Some_0.ptr.cur().avals() == wv(*self, old(h)@).st[tid::<T>()].vals()
    && locks(*self, final(h)@) && wv(*self, final(h)@) == (WV { st: wv(*self, old(h)@).st.insert(tid::<T>(), *final(r->Some_0._lock)), ..wv(*self, old(h)@) }),
@start
proof { broadcast use lemma_dom; }
let ghost v0 = wv(*self, old(h)@);
proof { if reg(*self, tid::<T>()) { assert(st_ok(v0, tid::<T>())); } }
@fn world::World::entity_component_read
@heap
@requires
winv(*self, old(h)@)
@ensures
final(h)@ == old(h)@, r is Some <==> reg(*self, tid::<T>()) && comp(wv(*self, old(h)@), tid::<T>(), id) is Some,
r is Some ==> r->Some_0.storage.inv() && r->Some_0.id == id && r->Some_0.storage.ids().contains(id)
    && embed(r->Some_0.storage.at(id)) == comp(wv(*self, old(h)@), tid::<T>(), id)->Some_0,
@start
proof { broadcast use lemma_dom, lemma_find; }
let ghost v0 = wv(*self, old(h)@);
@fn world::World::entity_component_write
@heap
@requires
winv(*self, old(h)@)
@ensures
r is Some <==> reg(*self, tid::<T>()) && comp(wv(*self, old(h)@), tid::<T>(), id) is Some,
r is Some ==> r->Some_0.storage.inv() && r->Some_0.id == id && r->Some_0.storage.ids().contains(id)
    && r->Some_0.storage.ptr.cur().avals() == wv(*self, old(h)@).st[tid::<T>()].vals() && r->Some_0.storage.ids() == wv(*self, old(h)@).st[tid::<T>()].ids()
    && locks(*self, final(h)@) && wv(*self, final(h)@) == (WV { st: wv(*self, old(h)@).st.insert(tid::<T>(), *final(r->Some_0.storage._lock)), ..wv(*self, old(h)@) }),
@start
proof { broadcast use lemma_dom, lemma_find; }
let ghost v0 = wv(*self, old(h)@);
@fn world::World::register_resource
@heap
@requires
winv(*old(self), old(h)@)
@ensures
winv(*final(self), final(h)@), final(self).components == old(self).components, final(self).groups == old(self).groups, final(self).entity_manager == old(self).entity_manager,
set_resource(wv(*old(self), old(h)@), wv(*final(self), final(h)@), tid::<R>(), embed(resource)),
@start
proof { broadcast use lemma_dom; }
let ghost (v0, h0) = (wv(*self, h@), h@);
@post
proof {
    let v1 = wv(*self, h@);
    let l = self.resources@[tid::<R>()];
    lemma_new_rs(*old(self), h0, tid::<R>(), *self, h@.rs[l.id()], l);
    assert(h@.rs =~= h0.rs.insert(l.id(), h@.rs[l.id()]));
}
@fn world::World::resource_read
@heap
@requires
winv(*self, old(h)@)
@ensures
final(h)@ == old(h)@, r is Some <==> self.resources@.dom().contains(tid::<R>()),
r is Some ==> r->Some_0.inv() && r->Some_0.now() == wv(*self, old(h)@).rs[tid::<R>()],
@start
proof { broadcast use lemma_dom; }
let ghost v0 = wv(*self, old(h)@);
proof { if self.resources@.dom().contains(tid::<R>()) { assert(rtag(v0.rs[tid::<R>()]) == tid::<R>()); } }
@fn world::World::resource_write
@heap
@requires
winv(*self, old(h)@)
@ensures
r is Some <==> self.resources@.dom().contains(tid::<R>()), r is None ==> final(h)@ == old(h)@,
r is Some ==> r->Some_0.inv() && r->Some_0.now() == wv(*self, old(h)@).rs[tid::<R>()] && locks(*self, final(h)@)
    && wv(*self, final(h)@) == (WV { rs: wv(*self, old(h)@).rs.insert(tid::<R>(), *final(r->Some_0.lock)), ..wv(*self, old(h)@) }),
@start
proof { broadcast use lemma_dom; }
let ghost v0 = wv(*self, old(h)@);
proof { if self.resources@.dom().contains(tid::<R>()) { assert(rtag(v0.rs[tid::<R>()]) == tid::<R>()); } }
@post
proof { if r is Some { lemma_write_rs(*self, old(h)@, tid::<R>(), *final(r->Some_0.lock)); } }
@fn world::World::register
@heap
@panics
reg(*self, tid::<T>())
@panics_old
reg(*old(self), tid::<T>())
@requires
winv(*old(self), old(h)@)
@ensures
*final(self) == *final(r), winv(*r, final(h)@), r.resources == old(self).resources, r.groups == old(self).groups, r.entity_manager == old(self).entity_manager,
r.components@.dom() == old(self).components@.dom().insert(tid::<T>()),
registered(wv(*old(self), old(h)@), wv(*r, final(h)@), tid::<T>()),
@start
proof { broadcast use lemma_dom; }
let ghost (v0, h0, w0) = (wv(*self, h@), h@, *self);
@after insert 1
proof {
    let v1 = wv(*self, h@);
    let l = self.components@[tid::<T>()];
    lemma_new_st(w0, h0, tid::<T>(), *self, h@.st[l.id()], l);
    assert(h@.st =~= h0.st.insert(l.id(), h@.st[l.id()]));
}
