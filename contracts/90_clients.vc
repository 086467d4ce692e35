@@ the properties as lemmas over the contracts: a world of plain maps and sets, and every history of public calls follows it
@prelude
pub mod clients {
#[allow(unused_imports)] use vstd::prelude::*;
#[allow(unused_imports)] use crate::shim::*;
#[allow(unused_imports)] use crate::spec::*;
#[allow(unused_imports)] use crate::gspec::*;
#[allow(unused_imports)] use crate::wspec::*;
#[allow(unused_imports)] use crate::group::Group;
#[allow(unused_imports)] use crate::component::ComponentStorage;
#[allow(unused_imports)] use crate::component::Component;
#[allow(unused_imports)] use crate::query::{Queryable, QueryIterator};
#[allow(unused_imports)] use crate::query::without::Without;
#[allow(unused_imports)] use crate::world::World;
#[allow(unused_imports)] use crate::group::{full_owning::FullOwning, partial_owning::PartialOwning, non_owning::NonOwning};
verus! {
/* what a user thinks of: the next fresh id, removed ids (last removed first), who is alive, who has what, which groups are declared */
pub struct Model { pub next: int, pub free: Seq<Id>, pub alive: ISet<Id>, pub types: ISet<TypeId>, pub comp: spec_fn(TypeId, Id) -> Option<AnyVal>, pub groups: Seq<(int, TypeId, TypeId)>,
    pub res: spec_fn(TypeId) -> Option<AnyVal> }
/* a call that returned, with what it was given or gave */
pub enum Ev { New(Id), Batch(int), Gone(Id), Attach(TypeId, Id, AnyVal), AttachAll(TypeId, int, int, Seq<AnyVal>), Detach(TypeId, Id), Declare(int, TypeId, TypeId), Register(TypeId),
    Write(ISet<TypeId>, spec_fn(TypeId, Id) -> AnyVal), Resource(TypeId, AnyVal) }
/* the postcondition of that call */
pub open spec fn did(ev: Ev, v: WV, w: WV) -> bool {
    match ev {
        Ev::New(i) => made(v, w, i),
        Ev::Batch(n) => made_many(v, w, n),
        Ev::Gone(i) => removed(v, w, i),
        Ev::Attach(t, i, d) => attached(v, w, t, i, d),
        Ev::AttachAll(t, a, b, ds) => attached_all(v, w, t, a, b, ds),
        Ev::Detach(t, i) => detached(v, w, t, i),
        Ev::Declare(k, a, b) => regrouped(v, w, (k, a, b)),
        Ev::Register(t) => registered(v, w, t),
        Ev::Write(ws, f) => revalued(v, w, ws) && forall|t: TypeId, i: Id| ws.contains(t) && v.st.dom().contains(t) && v.st[t].ids().contains(i) ==> #[trigger] comp(w, t, i) == Some(f(t, i)),
        Ev::Resource(t, d) => set_resource(v, w, t, d),
    }
}
pub open spec fn next_model(m: Model, ev: Ev) -> Model {
    match ev {
        Ev::New(i) => if m.free.len() > 0 { Model { free: m.free.drop_first(), alive: m.alive.insert(i), ..m } } else { Model { next: m.next + 1, alive: m.alive.insert(i), ..m } },
        Ev::Batch(n) => Model { next: m.next + n, alive: ISet::new(|i: Id| m.alive.contains(i) || m.next <= i.v() < m.next + n), ..m },
        Ev::Gone(e) => Model { free: seq![e] + m.free, alive: m.alive.remove(e), comp: |u: TypeId, i: Id| if i == e { None } else { (m.comp)(u, i) }, ..m },
        Ev::Attach(t, e, d) => Model { comp: |u: TypeId, i: Id| if u == t && i == e { Some(d) } else { (m.comp)(u, i) }, ..m },
        Ev::AttachAll(t, a, b, ds) => Model { comp: |u: TypeId, i: Id| if u == t && a <= i.v() < b { Some(ds[i.v() - a]) } else { (m.comp)(u, i) }, ..m },
        Ev::Detach(t, e) => Model { comp: |u: TypeId, i: Id| if u == t && i == e { None } else { (m.comp)(u, i) }, ..m },
        Ev::Declare(k, a, b) => Model { groups: m.groups.push((k, a, b)), ..m },
        Ev::Register(t) => Model { types: m.types.insert(t), comp: |u: TypeId, i: Id| if u == t { None } else { (m.comp)(u, i) }, ..m },
        Ev::Write(ws, f) => Model { comp: |u: TypeId, i: Id| if ws.contains(u) && (m.comp)(u, i) is Some { Some(f(u, i)) } else { (m.comp)(u, i) }, ..m },
        Ev::Resource(t, d) => Model { res: |u: TypeId| if u == t { Some(d) } else { (m.res)(u) }, ..m },
    }
}
pub open spec fn agree(m: Model, v: WV) -> bool {
    &&& m.next == v.em.next() && m.free == v.em.free()
    &&& forall|i: Id| #[trigger] m.alive.contains(i) <==> v.em.live().contains(i)
    &&& forall|t: TypeId| #[trigger] m.types.contains(t) <==> v.st.dom().contains(t)
    &&& forall|t: TypeId, i: Id| v.st.dom().contains(t) ==> (m.comp)(t, i) == #[trigger] comp(v, t, i)
    &&& m.groups.len() == v.gr.len() && forall|k: int| #![trigger v.gr[k]] 0 <= k < v.gr.len() ==> same_as(v.gr[k], m.groups[k])
    &&& forall|t: TypeId| #[trigger] (m.res)(t) == (if v.rs.dom().contains(t) { Some(rval(v.rs[t])) } else { None::<AnyVal> })
}
/* one call keeps the two in step */
pub proof fn lemma_call(m: Model, v: WV, ev: Ev, w: WV)
    requires agree(m, v), wok(v), wok(w), did(ev, v, w)
    ensures agree(next_model(m, ev), w)
{
    let m2 = next_model(m, ev);
    match ev {
        Ev::New(i) => { assert forall|x: Id| #[trigger] m2.alive.contains(x) <==> w.em.live().contains(x) by { lemma_push(v.em.live(), i); } }
        Ev::Write(ws, f) => {
            assert forall|t: TypeId, i: Id| w.st.dom().contains(t) implies (m2.comp)(t, i) == #[trigger] comp(w, t, i) by {
                assert(comp(v, t, i) == (m.comp)(t, i)); assert(w.st[t].ids() == v.st[t].ids());
            }
        }
        Ev::Register(t) => {
            assert forall|u: TypeId, i: Id| w.st.dom().contains(u) implies (m2.comp)(u, i) == #[trigger] comp(w, u, i) by { if u != t { assert(v.st.dom().contains(u)); assert(comp(v, u, i) == (m.comp)(u, i)); assert(w.st[u] == v.st[u]); } }
        }
        Ev::Declare(k, a, b) => { assert forall|j: int| #![trigger w.gr[j]] 0 <= j < w.gr.len() implies same_as(w.gr[j], m2.groups[j]) by { if j < v.gr.len() { assert(same_as(v.gr[j], m.groups[j])); assert(gsame(v.gr[j], w.gr[j])); } } }
        _ => {}
    }
    assert forall|j: int| #![trigger w.gr[j]] 0 <= j < w.gr.len() && !(ev is Declare) implies same_as(w.gr[j], m2.groups[j]) by { assert(same_as(v.gr[j], m.groups[j])); }
}
pub open spec fn run(m: Model, evs: Seq<Ev>, n: int) -> Model decreases n { if n <= 0 { m } else { next_model(run(m, evs, n - 1), evs[n - 1]) } }
/* every history of returning calls, however long */
pub proof fn lemma_history(m: Model, vs: Seq<WV>, evs: Seq<Ev>, n: int)
    requires 0 <= n == evs.len(), vs.len() == n + 1, agree(m, vs[0]), forall|k: int| 0 <= k <= n ==> wok(#[trigger] vs[k]), forall|k: int| #![trigger evs[k]] 0 <= k < n ==> did(evs[k], vs[k], vs[k + 1])
    ensures agree(run(m, evs, n), vs[n])
    decreases n
{
    if n > 0 {
        let (e1, v1) = (evs.subrange(0, n - 1), vs.subrange(0, n));
        lemma_history(m, v1, e1, n - 1);
        lemma_run_prefix(m, evs, e1, n - 1);
        assert(did(evs[n - 1], vs[n - 1], vs[n - 1 + 1]));
        lemma_call(run(m, evs, n - 1), vs[n - 1], evs[n - 1], vs[n]);
    }
}
pub proof fn lemma_run_prefix(m: Model, a: Seq<Ev>, b: Seq<Ev>, n: int)
    requires 0 <= n <= a.len(), n <= b.len(), forall|k: int| 0 <= k < n ==> #[trigger] a[k] == b[k]
    ensures run(m, a, n) == run(m, b, n)
    decreases n
{ if n > 0 { lemma_run_prefix(m, a, b, n - 1); assert(a[n - 1] == b[n - 1]); } }
/* what the model says a group holds is what it holds */
pub proof fn lemma_members(m: Model, v: WV, k: int, e: Id)
    requires agree(m, v), wok(v), 0 <= k < v.gr.len()
    ensures member(v, v.gr[k], e) <==> (m.comp)(m.groups[k].1, e) is Some && (m.comp)(m.groups[k].2, e) is Some
{
    broadcast use lemma_find;
    let g = v.gr[k]; let (s, t) = gtypes(g);
    assert(gr_ok(v, g, ISet::empty())); assert(same_as(g, m.groups[k])); assert(st_ok(v, s)); assert(st_ok(v, t));
    let (a, b) = (v.st[s].ids(), v.st[t].ids());
    assert((m.comp)(s, e) == comp(v, s, e)); assert((m.comp)(t, e) == comp(v, t, e));
    if a.contains(e) && b.contains(e) {
        let p = find(a, e);
        match g { Group::FullOwning(d) => { if p < d.length { assert(a[p] == b[p]); lemma_find_at(b, p); } else { assert(a[p] == e); } } Group::PartialOwning(d) => { assert(a[p] == e); } Group::NonOwning(d) => { assert(d.sparse_set.ids().contains(e)); } }
    }
}
/* C01, C06: who is gone has nothing and is in no group */
pub proof fn c06_gone_has_nothing(m: Model, v: WV, e: Id)
    requires agree(m, v), wok(v), !m.alive.contains(e)
    ensures !v.em.live().contains(e), forall|t: TypeId| v.st.dom().contains(t) ==> #[trigger] comp(v, t, e) is None, forall|k: int| 0 <= k < v.gr.len() ==> !member(v, #[trigger] v.gr[k], e)
{
    assert forall|t: TypeId| v.st.dom().contains(t) implies #[trigger] comp(v, t, e) is None by { assert(st_ok(v, t)); }
    assert forall|k: int| 0 <= k < v.gr.len() implies !member(v, #[trigger] v.gr[k], e) by { lemma_members(m, v, k, e); let t = gtypes(v.gr[k]).0; assert(same_as(v.gr[k], m.groups[k])); assert(comp(v, t, e) is None); }
}
/* C01: a created id was not alive; C02: nor was any id of a batch ever handed out */
pub proof fn c01_fresh(m: Model, v: WV, w: WV, e: Id)
    requires agree(m, v), wok(v), made(v, w, e)
    ensures !m.alive.contains(e), next_model(m, Ev::New(e)).alive.contains(e), m.free.len() > 0 ==> e == m.free[0], m.free.len() == 0 ==> e.v() == m.next
{ }
pub proof fn c02_batch(m: Model, v: WV, w: WV, n: int, e: Id)
    requires agree(m, v), wok(v), made_many(v, w, n), 0 <= n, m.next <= e.v() < m.next + n
    ensures !m.alive.contains(e), w.em.live().contains(e), w.em.free() == m.free
{ v.em.lemma_live(); assert(m.alive.contains(e) <==> v.em.live().contains(e)); }
/* C03: the id removed last is the next one handed out, and below it the stack is as it was */
pub proof fn c03_last_removed_first(u: WV, v: WV, w: WV, e: Id, r: Id)
    requires removed(u, v, e), made(v, w, r)
    ensures r == e, w.em.free() == u.em.free(), w.em.next() == u.em.next()
{ assert(v.em.free().drop_first() =~= u.em.free()); }
/* C05: a batch is the same as one by one */
pub open spec fn ones(t: TypeId, es: Seq<Id>, ds: Seq<AnyVal>) -> Seq<Ev> { Seq::new(es.len(), |k: int| Ev::Attach(t, es[k], ds[k])) }
pub proof fn lemma_ones(m: Model, t: TypeId, es: Seq<Id>, a: int, ds: Seq<AnyVal>, n: int)
    requires span(es, a, ds.len() as int), 0 <= n <= ds.len()
    ensures ({ let r = run(m, ones(t, es, ds), n); (forall|u: TypeId, i: Id| #[trigger] (r.comp)(u, i) == (if u == t && a <= i.v() < a + n { Some(ds[i.v() - a]) } else { (m.comp)(u, i) }))
        && r.next == m.next && r.free == m.free && r.alive == m.alive && r.types == m.types && r.groups == m.groups && r.res == m.res })
    decreases n
{
    if n > 0 {
        lemma_ones(m, t, es, a, ds, n - 1);
        let (q, r) = (run(m, ones(t, es, ds), n - 1), run(m, ones(t, es, ds), n));
        assert(ones(t, es, ds)[n - 1] == Ev::Attach(t, es[n - 1], ds[n - 1]));
        assert(r == next_model(q, Ev::Attach(t, es[n - 1], ds[n - 1])));
        assert(es[n - 1].v() == a + n - 1);
        broadcast use shim_axioms;
        assert forall|u: TypeId, i: Id| #[trigger] (r.comp)(u, i) == (if u == t && a <= i.v() < a + n { Some(ds[i.v() - a]) } else { (m.comp)(u, i) }) by {
            assert((q.comp)(u, i) == (if u == t && a <= i.v() < a + n - 1 { Some(ds[i.v() - a]) } else { (m.comp)(u, i) }));
            if i.v() == es[n - 1].v() { assert(i == es[n - 1]); }
        }
    }
}
/* the world the batch leaves is, for a user, the one the single calls leave */
pub open spec fn alike(v: WV, w: WV) -> bool {
    &&& v.em.next() == w.em.next() && v.em.free() == w.em.free() && (forall|i: Id| #[trigger] v.em.live().contains(i) <==> w.em.live().contains(i))
    &&& v.st.dom() == w.st.dom() && (forall|t: TypeId, i: Id| v.st.dom().contains(t) ==> #[trigger] comp(v, t, i) == comp(w, t, i))
    &&& v.gr.len() == w.gr.len() && forall|k: int, e: Id| 0 <= k < v.gr.len() ==> #[trigger] member(v, v.gr[k], e) == member(w, w.gr[k], e)
}
pub proof fn c05_batch_as_one_by_one(v: WV, z: WV, vs: Seq<WV>, m: Model, t: TypeId, es: Seq<Id>, a: int, ds: Seq<AnyVal>)
    requires agree(m, v), vs.len() == ds.len() + 1, vs[0] == v, span(es, a, ds.len() as int), wok(z), attached_all(v, z, t, a, a + ds.len(), ds), v.st.dom().contains(t),
        forall|k: int| 0 <= k <= ds.len() ==> wok(#[trigger] vs[k]), forall|k: int| #![trigger es[k]] 0 <= k < ds.len() ==> attached(vs[k], vs[k + 1], t, es[k], ds[k])
    ensures alike(vs[ds.len() as int], z)
{
    let n = ds.len() as int; let o = ones(t, es, ds); let y = vs[n];
    assert forall|k: int| #![trigger o[k]] 0 <= k < n implies did(o[k], vs[k], vs[k + 1]) by { assert(o[k] == Ev::Attach(t, es[k], ds[k])); }
    assert(wok(vs[0])); assert(wok(vs[n]));
    lemma_history(m, vs, o, n); lemma_ones(m, t, es, a, ds, n);
    lemma_call(m, v, Ev::AttachAll(t, a, a + n, ds), z);
    let (p, q) = (run(m, o, n), next_model(m, Ev::AttachAll(t, a, a + n, ds)));
    assert(y.st.dom() =~= z.st.dom()) by { assert forall|s: TypeId| y.st.dom().contains(s) <==> z.st.dom().contains(s) by { assert(p.types.contains(s) <==> q.types.contains(s)); } }
    assert forall|i: Id| #[trigger] y.em.live().contains(i) <==> z.em.live().contains(i) by { assert(p.alive.contains(i) <==> q.alive.contains(i)); }
    assert forall|s: TypeId, i: Id| y.st.dom().contains(s) implies #[trigger] comp(y, s, i) == comp(z, s, i) by { assert((p.comp)(s, i) == comp(y, s, i)); assert((q.comp)(s, i) == comp(z, s, i)); }
    assert forall|k: int, e: Id| 0 <= k < y.gr.len() implies #[trigger] member(y, y.gr[k], e) == member(z, z.gr[k], e) by {
        lemma_members(p, y, k, e); lemma_members(q, z, k, e);
        assert((p.comp)(p.groups[k].1, e) == (q.comp)(q.groups[k].1, e)); assert((p.comp)(p.groups[k].2, e) == (q.comp)(q.groups[k].2, e));
    }
}
/* C07 to C12: what a query is over, in the model's terms */
pub proof fn c07_single<T: Component>(m: Model, v: WV, e: Id)
    requires agree(m, v), wok(v), v.st.dom().contains(tid::<T>())
    ensures <&'static T as Queryable<'static>>::sat(v).contains(e) <==> (m.comp)(tid::<T>(), e) is Some
{ assert((m.comp)(tid::<T>(), e) == comp(v, tid::<T>(), e)); }
pub proof fn c08_tuple<A: Queryable<'static>, B: Queryable<'static>>(v: WV, e: Id)
    ensures <(A, B) as Queryable<'static>>::sat(v).contains(e) <==> A::sat(v).contains(e) && B::sat(v).contains(e), <(A, B) as Queryable<'static>>::vals(v, e) == A::vals(v, e) + B::vals(v, e)
{ }
pub proof fn c09_excluded<A: Queryable<'static>, B: Queryable<'static>>(v: WV, e: Id)
    ensures <(A, Without<B>) as Queryable<'static>>::sat(v).contains(e) <==> A::sat(v).contains(e) && !B::sat(v).contains(e),
        <(Without<A>, B) as Queryable<'static>>::sat(v).contains(e) <==> !A::sat(v).contains(e) && B::sat(v).contains(e)
{ }
pub open spec fn both<A: Component, B: Component>(m: Model, e: Id) -> bool { (m.comp)(tid::<A>(), e) is Some && (m.comp)(tid::<B>(), e) is Some }
pub proof fn lemma_both<A: Component, B: Component>(m: Model, v: WV, e: Id)
    requires agree(m, v), v.st.dom().contains(tid::<A>()), v.st.dom().contains(tid::<B>())
    ensures both::<A, B>(m, e) <==> v.st[tid::<A>()].ids().contains(e) && v.st[tid::<B>()].ids().contains(e)
{ assert((m.comp)(tid::<A>(), e) == comp(v, tid::<A>(), e)); assert((m.comp)(tid::<B>(), e) == comp(v, tid::<B>(), e)); }
pub proof fn c10_group<A: Component, B: Component>(m: Model, v: WV, e: Id)
    requires agree(m, v), v.st.dom().contains(tid::<A>()), v.st.dom().contains(tid::<B>())
    ensures <FullOwning<&'static A, &'static B> as Queryable<'static>>::sat(v).contains(e) <==> both::<A, B>(m, e)
{ lemma_both::<A, B>(m, v, e); }
pub proof fn c11_group<A: Component, B: Component>(m: Model, v: WV, e: Id)
    requires agree(m, v), v.st.dom().contains(tid::<A>()), v.st.dom().contains(tid::<B>())
    ensures <PartialOwning<&'static A, &'static B> as Queryable<'static>>::sat(v).contains(e) <==> both::<A, B>(m, e)
{ lemma_both::<A, B>(m, v, e); }
pub proof fn c12_group<A: Component, B: Component>(m: Model, v: WV, e: Id)
    requires agree(m, v), v.st.dom().contains(tid::<A>()), v.st.dom().contains(tid::<B>())
    ensures <NonOwning<&'static A, &'static B> as Queryable<'static>>::sat(v).contains(e) <==> both::<A, B>(m, e)
{ lemma_both::<A, B>(m, v, e); }
/* C13: what make_group must reject, in the model's terms */
pub open spec fn owned(g: (int, TypeId, TypeId), t: TypeId) -> bool { g.0 == 0 && (t == g.1 || t == g.2) || g.0 == 1 && t == g.1 }
pub open spec fn rejected(m: Model, g: (int, TypeId, TypeId)) -> bool {
    ||| !m.types.contains(g.1) || !m.types.contains(g.2)
    ||| exists|k: int| 0 <= k < m.groups.len() && #[trigger] m.groups[k] == g
    ||| exists|k: int, t: TypeId| #![trigger m.groups[k], owned(g, t)] 0 <= k < m.groups.len() && owned(m.groups[k], t) && owned(g, t)
}
pub proof fn c13_rejected(w: World, h: HeapView, m: Model, g: (int, TypeId, TypeId))
    requires winv(w, h), agree(m, wv(w, h)), 0 <= g.0 <= 2
    ensures forbidden(w, wv(w, h), g) <==> rejected(m, g)
{
    let v = wv(w, h);
    broadcast use lemma_dom;
    assert forall|k: int| 0 <= k < v.gr.len() implies (same_as(#[trigger] v.gr[k], g) <==> m.groups[k] == g) by { assert(same_as(v.gr[k], m.groups[k])); }
    assert forall|k: int, t: TypeId| #![trigger v.gr[k], sowns(g, t)] 0 <= k < v.gr.len() implies gowns(v.gr[k], t) == owned(m.groups[k], t) && sowns(g, t) == owned(g, t) by { assert(same_as(v.gr[k], m.groups[k])); }
    assert(m.types.contains(g.1) <==> reg(w, g.1)); assert(m.types.contains(g.2) <==> reg(w, g.2));
    if declared(v, g) { let k = choose|k: int| 0 <= k < v.gr.len() && same_as(#[trigger] v.gr[k], g); assert(m.groups[k] == g); }
    if clash(v, g) { let (k, t) = choose|k: int, t: TypeId| #![trigger v.gr[k], sowns(g, t)] 0 <= k < v.gr.len() && gowns(v.gr[k], t) && sowns(g, t); assert(owned(m.groups[k], t) && owned(g, t)); }
    if rejected(m, g) {
        if exists|k: int| 0 <= k < m.groups.len() && #[trigger] m.groups[k] == g { let k = choose|k: int| 0 <= k < m.groups.len() && #[trigger] m.groups[k] == g; assert(same_as(v.gr[k], g)); assert(declared(v, g)); }
        else if exists|k: int, t: TypeId| #![trigger m.groups[k], owned(g, t)] 0 <= k < m.groups.len() && owned(m.groups[k], t) && owned(g, t) {
            let (k, t) = choose|k: int, t: TypeId| #![trigger m.groups[k], owned(g, t)] 0 <= k < m.groups.len() && owned(m.groups[k], t) && owned(g, t);
            assert(gowns(v.gr[k], t) && sowns(g, t)); assert(clash(v, g));
        }
    }
}
/* C14: a size hint brackets what is still to come */
pub fn c14_hint<I: Iterator>(it: &I) -> (r: (usize, Option<usize>))
    requires it.inv()
    ensures r.0 <= it.rem().len(), r.1 is Some ==> it.rem().len() <= r.1->Some_0, it.exact() ==> r.0 == it.rem().len() && r.1 == Some(r.0)
{ it.size_hint() }
/* C07 to C12: going through any query to its end meets every entity that satisfies it once, with its own items; C19: and a lookup at the end still agrees */
pub fn c08_visit<'a, T: Queryable<'a>>(world: &'a World, h: &mut Hp, probe: Id) -> (r: (Ghost<Seq<Id>>, bool))
    requires winv(*world, old(h)@), T::fine(), !T::bad(wv(*world, old(h)@))
    ensures winv(*world, final(h)@), r.0@.no_duplicates(), forall|i: Id| #[trigger] r.0@.contains(i) <==> T::sat(wv(*world, old(h)@)).contains(i),
        r.1 == T::sat(wv(*world, old(h)@)).contains(probe)
{
    let ghost v = wv(*world, h@);
    let mut q = world.query::<T>(Ghost(false), h);
    proof { q.lemma_good(); }
    let ghost todo = q.rem();
    let ghost mut n = 0int;
    loop
        invariant
            q.inv(), q.dom() == T::sat(v), todo.no_duplicates(), 0 <= n <= todo.len(), q.rem() == todo.skip(n), forall|i: Id| #[trigger] todo.contains(i) <==> T::sat(v).contains(i),
            forall|i: Id| T::sat(v).contains(i) && #[trigger] q.rem().contains(i) ==> q.val(i) == T::vals(v, i),
        ensures q.inv(), q.dom() == T::sat(v), n == todo.len()
        decreases q.rem().len()
    {
        let ghost (old_rem, old_q) = (q.rem(), q);
        proof { q.lemma_good(); if q.rem().len() > 0 { assert(q.rem().contains(q.rem()[0])); assert(T::sat(v).contains(q.rem()[0])); } }
        match q.next_with_id() {
            None => { assert(old_rem.len() == 0); break; }
            Some((i, item)) => {
                assert(i == todo[n]);
                assert(<T::It as Iterator>::ival(item) == T::vals(v, i));
                proof {
                    n = n + 1;
                    assert(q.rem() =~= todo.skip(n));
                    assert forall|j: Id| T::sat(v).contains(j) && #[trigger] q.rem().contains(j) implies q.val(j) == T::vals(v, j) by {
                        let k = choose|k: int| 0 <= k < q.rem().len() && q.rem()[k] == j;
                        assert(old_rem[k + 1] == j); assert(old_rem.contains(j)); assert(j != i) by { assert(todo[n + k] == j); assert(todo[n - 1] == i); }
                    }
                }
            }
        }
    }
    let p = q.from_id(probe);
    (Ghost(todo), p.is_some())
}
/* C04: attaching and detaching give the component back, overwriting gives the newer one */
pub fn c04_roundtrip<T: Component>(world: &World, h: &mut Hp, e: Id, x: T, y: T) -> (r: Option<T>)
    requires winv(*world, old(h)@), reg(*world, tid::<T>()), live(*world, old(h)@, e)
    ensures r is Some, embed(r->Some_0) == embed(y), comp(wv(*world, final(h)@), tid::<T>(), e) is None
{
    let ghost v0 = wv(*world, h@);
    proof { broadcast use lemma_dom; }
    world.attach_component(Ghost(false), h, e, x);
    let ghost v1 = wv(*world, h@);
    proof { assert(comp(v1, tid::<T>(), e) == Some(embed(x))); lemma_still_live(*world, v0, v1, e); }
    world.attach_component(Ghost(false), h, e, y);
    let ghost v2 = wv(*world, h@);
    proof { assert(comp(v2, tid::<T>(), e) == Some(embed(y))); }
    let r = world.detach_component::<T>(Ghost(false), h, e);
    proof { assert(comp(wv(*world, h@), tid::<T>(), e) is None); }
    r
}
pub proof fn lemma_still_live(w: World, v: WV, u: WV, e: Id) requires frame(v, u), v.em.live().contains(e) ensures u.em.live().contains(e) { }
/* C03, C06: a removed entity's id comes back first, and it comes back bare */
pub fn c06_recycle(world: &mut World, h: &mut Hp, e: Id)
    requires winv(*old(world), old(h)@), live(*old(world), old(h)@, e)
{
    world.remove_entity(Ghost(false), h, e);
    let ghost v1 = wv(*world, h@);
    assert(v1.em.free()[0] == e);
    let n = world.create_entity(h).into_id();
    assert(n == e);
    let ghost v2 = wv(*world, h@);
    assert forall|t: TypeId| v2.st.dom().contains(t) implies #[trigger] comp(v2, t, n) is None by { assert(comp(v1, t, e) is None); }
}
/* C15 */
pub fn c15_slot<R: crate::resource::Resource>(world: &mut World, h: &mut Hp, x: R, y: R)
    requires winv(*old(world), old(h)@)
{
    proof { broadcast use lemma_dom; }
    world.register_resource(h, x);
    world.register_resource(h, y);
    let r = world.resource_read::<R>(h);
    assert(r is Some && rval(r->Some_0.now()) == embed(y));
}
/* C18: a storage guard has every holder's own component and no other */
pub fn c18_read<T: Component>(world: &World, h: &mut Hp, m: Ghost<Model>, e: Id)
    requires winv(*world, old(h)@), agree(m@, wv(*world, old(h)@)), m@.types.contains(tid::<T>())
{
    let ghost v = wv(*world, h@);
    proof { broadcast use lemma_dom, lemma_find; assert(m@.types.contains(tid::<T>()) <==> v.st.dom().contains(tid::<T>())); assert((m@.comp)(tid::<T>(), e) == comp(v, tid::<T>(), e)); }
    let g = world.components_read::<T>(h).unwrap();
    let c = g.get(e);
    assert(c is Some <==> (m@.comp)(tid::<T>(), e) is Some);
    assert(c is Some ==> embed(*c->Some_0) == (m@.comp)(tid::<T>(), e)->Some_0) by { if c is Some { assert(v.st[tid::<T>()].ids().contains(e)); assert(g.ptr.avals()[find(g.ids(), e)] == embed(g.vals()[find(g.ids(), e)])); } }
    let n = g.count();
    assert(n == v.st[tid::<T>()].ids().len());
    let o = world.entity_component_read::<T>(h, e);
    assert(o is Some <==> (m@.comp)(tid::<T>(), e) is Some);
}
}
}
