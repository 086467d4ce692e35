@items entity
pub open spec fn fl_link(s: Seq<Id>, k: int) -> EntityFlag { if k < s.len() { EntityFlag::Available(Some(s[k])) } else { EntityFlag::Available(None) } }
pub open spec fn linked(f: Seq<EntityFlag>, s: Seq<Id>, k: int) -> bool { s[k].v() < f.len() && f[s[k].v() as int] == fl_link(s, k + 1) }
pub open spec fn in_list(s: Seq<Id>, i: int) -> bool { exists|k: int| 0 <= k < s.len() && (#[trigger] s[k]).v() == i }
#[verifier::opaque]
pub open spec fn is_free(f: Seq<EntityFlag>, s: Seq<Id>) -> bool {
    &&& f.len() > 0 && f[0] == fl_link(s, 0)
    &&& s.no_duplicates()
    &&& forall|k: int| 0 <= k < s.len() ==> #[trigger] linked(f, s, k)
    &&& forall|i: int| 1 <= i < f.len() && f[i] is Available ==> #[trigger] in_list(s, i)
}
pub open spec fn fl_at(f: Seq<EntityFlag>, s: Seq<Id>, k: int) -> EntityFlag { if k == 0 { f[0] } else { f[s[k - 1].v() as int] } }
pub proof fn lemma_free_prefix(f: Seq<EntityFlag>, s: Seq<Id>, t: Seq<Id>, n: int)
    requires is_free(f, s), is_free(f, t), 0 <= n <= s.len()
    ensures n <= t.len(), forall|k: int| 0 <= k < n ==> s[k] == t[k]
    decreases n
{
    reveal(is_free);
    if n > 0 {
        lemma_free_prefix(f, s, t, n - 1);
        assert(fl_link(s, n - 1) == EntityFlag::Available(Some(s[n - 1])));
        if n == 1 { assert(fl_link(s, 0) == fl_link(t, 0)); }
        else { assert(linked(f, s, n - 2)); assert(linked(f, t, n - 2)); assert(s[n - 2] == t[n - 2]); assert(fl_link(s, n - 1) == fl_link(t, n - 1)); }
    }
}
pub proof fn lemma_free_unique(f: Seq<EntityFlag>, s: Seq<Id>, t: Seq<Id>)
    requires is_free(f, s), is_free(f, t)
    ensures s == t
{
    lemma_free_prefix(f, s, t, s.len() as int);
    lemma_free_prefix(f, t, s, t.len() as int);
    assert(s =~= t);
}
pub proof fn lemma_free_head(f: Seq<EntityFlag>, s: Seq<Id>)
    requires is_free(f, s)
    ensures f.len() > 0, s.no_duplicates(), f[0] == (if s.len() > 0 { EntityFlag::Available(Some(s[0])) } else { EntityFlag::Available(None) }),
        forall|e: Id| #[trigger] s.contains(e) ==> 1 <= e.v() < f.len() && f[e.v() as int] is Available,
{
    broadcast use shim_axioms;
    reveal(is_free);
    assert forall|e: Id| #[trigger] s.contains(e) implies 1 <= e.v() < f.len() && f[e.v() as int] is Available by {
        let k = choose|k: int| 0 <= k < s.len() && #[trigger] s[k] == e;
        assert(linked(f, s, k));
    }
}
/* the head of the chain is taken */
pub proof fn lemma_free_pop(f: Seq<EntityFlag>, s: Seq<Id>, g: Seq<EntityFlag>)
    requires is_free(f, s), s.len() > 0, g.len() == f.len(), s[0].v() < f.len(), g[s[0].v() as int] is Unavailable, g[0] == f[s[0].v() as int],
        forall|i: int| 0 < i < f.len() && i != s[0].v() ==> g[i] == f[i],
    ensures is_free(g, s.drop_first())
{
    broadcast use shim_axioms;
    reveal(is_free);
    let t = s.drop_first();
    assert(linked(f, s, 0));
    assert(fl_link(s, 1) == fl_link(t, 0));
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] linked(g, t, k) by {
        assert(t[k] == s[k + 1]); assert(s[k + 1] != s[0]); assert(linked(f, s, k + 1));
        assert(fl_link(s, k + 2) == fl_link(t, k + 1));
    }
    assert forall|i: int| 1 <= i < g.len() && g[i] is Available implies #[trigger] in_list(t, i) by {
        assert(f[i] is Available); assert(in_list(s, i));
        let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).v() == i;
        assert(k != 0); assert(t[k - 1].v() == i);
    }
}
/* a removed id becomes the head of the chain */
pub proof fn lemma_free_push(f: Seq<EntityFlag>, s: Seq<Id>, e: Id, g: Seq<EntityFlag>)
    requires is_free(f, s), g.len() == f.len(), e.v() < f.len(), f[e.v() as int] is Unavailable,
        g[0] == EntityFlag::Available(Some(e)), g[e.v() as int] == f[0],
        forall|i: int| 0 < i < f.len() && i != e.v() ==> (g[i] is Available <==> f[i] is Available) && (f[i] is Available ==> g[i] == f[i]),
    ensures is_free(g, seq![e] + s)
{
    broadcast use shim_axioms;
    reveal(is_free);
    let t = seq![e] + s;
    assert forall|k: int| 0 <= k < t.len() implies #[trigger] linked(g, t, k) by {
        assert(fl_link(s, k) == fl_link(t, k + 1));
        if k > 0 { assert(t[k] == s[k - 1]); assert(linked(f, s, k - 1)); assert(s[k - 1] != e); }
    }
    assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by {
        if i > 0 { assert(t[i] == s[i - 1]); assert(linked(f, s, i - 1)); }
        if j > 0 { assert(t[j] == s[j - 1]); assert(linked(f, s, j - 1)); }
    }
    assert forall|i: int| 1 <= i < g.len() && g[i] is Available implies #[trigger] in_list(t, i) by {
        if i == e.v() { assert(t[0].v() == i); } else {
            assert(f[i] is Available); assert(in_list(s, i));
            let k = choose|k: int| 0 <= k < s.len() && (#[trigger] s[k]).v() == i;
            assert(t[k + 1].v() == i);
        }
    }
}
/* entries added or changed outside the chain */
pub proof fn lemma_free_same(f: Seq<EntityFlag>, s: Seq<Id>, g: Seq<EntityFlag>)
    requires is_free(f, s), g.len() >= f.len(),
        forall|i: int| 0 <= i < f.len() ==> (g[i] is Available <==> f[i] is Available) && (f[i] is Available ==> g[i] == f[i]),
        forall|i: int| f.len() <= i < g.len() ==> g[i] is Unavailable,
    ensures is_free(g, s)
{
    reveal(is_free);
    assert forall|k: int| 0 <= k < s.len() implies #[trigger] linked(g, s, k) by { assert(s.contains(s[k])); lemma_free_head(f, s); assert(linked(f, s, k)); }
    assert forall|i: int| 1 <= i < g.len() && g[i] is Available implies #[trigger] in_list(s, i) by { assert(f[i] is Available); assert(in_list(s, i)); }
}
pub proof fn lemma_count_ids(s: Seq<Id>, n: nat)
    requires s.no_duplicates(), forall|k: int| 0 <= k < s.len() ==> 1 <= (#[trigger] s[k]).v() < n
    ensures s.len() < n || s.len() == 0
{
    broadcast use shim_axioms;
    if s.len() > 0 {
        assert(s[0].v() < n);
        let t = s.map_values(|e: Id| e.v() as int);
        assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { assert(s[i] != s[j]); }
        t.unique_seq_to_set();
        vstd::set_lib::lemma_int_range(1, n as int);
        assert(t.to_set().subset_of(vstd::set_lib::set_int_range(1, n as int)));
        vstd::set_lib::lemma_len_subset(t.to_set(), vstd::set_lib::set_int_range(1, n as int));
    }
}
impl EntityManager {
    pub open spec fn live(&self) -> Seq<Id> { self.entities@ }
    pub open spec fn next(&self) -> nat { self.entity_flags@.len() }
    pub open spec fn free(&self) -> Seq<Id> { choose|s: Seq<Id>| is_free(self.entity_flags@, s) }
    pub open spec fn wf_live(&self) -> bool {
        &&& self.entity_flags@.len() > 0 && self.entity_flags@[0] is Available
        &&& forall|i: int| #![trigger self.entities@[i]] 0 <= i < self.entities@.len() ==>
            self.entities@[i].v() < self.entity_flags@.len() && self.entity_flags@[self.entities@[i].v() as int] == EntityFlag::Unavailable(i as usize)
        &&& forall|k: int| #![trigger self.entity_flags@[k]] 0 <= k < self.entity_flags@.len() && self.entity_flags@[k] is Unavailable ==>
            self.entity_flags@[k]->Unavailable_0 < self.entities@.len() && self.entities@[self.entity_flags@[k]->Unavailable_0 as int].v() == k
    }
    pub open spec fn wf(&self) -> bool { self.wf_live() && (exists|s: Seq<Id>| is_free(self.entity_flags@, s)) }
    pub open spec fn flagged(&self, e: Id) -> bool { e.v() < self.entity_flags@.len() && self.entity_flags@[e.v() as int] is Unavailable }
    pub proof fn lemma_live(&self)
        requires self.wf_live()
        ensures self.live().no_duplicates(), self.live().len() < self.next(),
            forall|e: Id| #[trigger] self.live().contains(e) ==> e.v() < self.next(),
            forall|e: Id| #[trigger] self.flagged(e) <==> self.live().contains(e),
            forall|e: Id| #[trigger] self.live().contains(e) ==> find(self.live(), e) == self.entity_flags@[e.v() as int]->Unavailable_0,
    {
        broadcast use shim_axioms;
        let s = self.live();
        assert forall|e: Id| #[trigger] self.flagged(e) <==> self.live().contains(e) by {
            if self.live().contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(self.entities@[i] == e); }
            if self.flagged(e) { let i = self.entity_flags@[e.v() as int]->Unavailable_0 as int; assert(self.entities@[i] == e); }
        }
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by {
            assert(self.entity_flags@[self.entities@[i].v() as int] == EntityFlag::Unavailable(i as usize));
            assert(self.entity_flags@[self.entities@[j].v() as int] == EntityFlag::Unavailable(j as usize));
        }
        assert forall|e: Id| #[trigger] self.live().contains(e) implies find(self.live(), e) == self.entity_flags@[e.v() as int]->Unavailable_0 by { assert(self.flagged(e)); }
        assert forall|e: Id| #[trigger] self.live().contains(e) implies e.v() < self.next() by { assert(self.flagged(e)); }
        assert forall|k: int| 0 <= k < s.len() implies 1 <= (#[trigger] s[k]).v() < self.next() by { assert(self.live().contains(s[k])); }
        lemma_count_ids(s, self.next());
    }
}
@items entity
impl EntityManager {
    pub proof fn lemma_set_free(&self, s: Seq<Id>)
        requires self.wf_live(), is_free(self.entity_flags@, s)
        ensures self.wf(), self.free() == s
    { lemma_free_unique(self.entity_flags@, s, self.free()); }
    pub proof fn lemma_free_ids(&self)
        requires self.wf()
        ensures is_free(self.entity_flags@, self.free()), self.free().no_duplicates(), forall|e: Id| #[trigger] self.free().contains(e) ==> 1 <= e.v() < self.next() && !self.live().contains(e)
    {
        self.lemma_live();
        let s = self.free();
        assert(is_free(self.entity_flags@, s));
        lemma_free_head(self.entity_flags@, s);
        assert forall|e: Id| #[trigger] s.contains(e) implies 1 <= e.v() < self.next() && !self.live().contains(e) by { assert(!self.flagged(e)); }
    }
}
@fn entity::EntityManager::new
@post
proof { broadcast use shim_axioms; reveal(is_free); assert(is_free(r.entity_flags@, Seq::<Id>::empty())); r.lemma_set_free(Seq::<Id>::empty()); assert(r.live() =~= Seq::<Id>::empty()); }
@ensures
r.wf(), r.live() == Seq::<Id>::empty(), r.free() == Seq::<Id>::empty(), r.next() == 1
@fn entity::EntityManager::allocate
@requires
old(self).wf()
@ensures
final(self).wf(), final(self).live() == old(self).live().push(r),
old(self).free().len() > 0 ==> r == old(self).free()[0] && final(self).free() == old(self).free().drop_first() && final(self).next() == old(self).next(),
old(self).free().len() == 0 ==> r.v() == old(self).next() && final(self).free() == old(self).free() && final(self).next() == old(self).next() + 1,
!old(self).live().contains(r),
@start
proof { broadcast use shim_axioms; self.lemma_live(); self.lemma_free_ids(); lemma_free_head(self.entity_flags@, self.free()); if self.free().len() > 0 { assert(self.free().contains(self.free()[0])); } }
@post
proof {
    broadcast use shim_axioms;
    let s = old(self).free();
    if s.len() > 0 {
        let t = s.drop_first();
        lemma_free_pop(old(self).entity_flags@, s, self.entity_flags@);
        assert(is_free(self.entity_flags@, t));
        self.lemma_set_free(t);
    } else {
        lemma_free_same(old(self).entity_flags@, s, self.entity_flags@);
        self.lemma_set_free(s);
    }
}
@fn entity::EntityManager::allocate_n
@requires
old(self).wf(), old(self).next() + n <= usize::MAX
@ensures
final(self).wf(), r.start.v() == old(self).next(), r.end.v() == old(self).next() + n,
final(self).next() == old(self).next() + n, final(self).free() == old(self).free(),
final(self).live().len() == old(self).live().len() + n,
forall|k: int| 0 <= k < old(self).live().len() ==> #[trigger] final(self).live()[k] == old(self).live()[k],
forall|k: int| old(self).live().len() <= k < old(self).live().len() + n ==> (#[trigger] final(self).live()[k]).v() == old(self).next() + (k - old(self).live().len()),
@start
proof { broadcast use shim_axioms; self.lemma_live(); self.lemma_free_ids(); lemma_free_head(self.entity_flags@, self.free()); }
@loop 1 it
invariant self.entities@ == old(self).entities@, it.seq().len() == n, start_index == old(self).entities@.len(), end_index == start_index + n,
    self.entity_flags@.len() == old(self).entity_flags@.len() + it.index@,
    forall|k: int| 0 <= k < old(self).entity_flags@.len() ==> self.entity_flags@[k] == old(self).entity_flags@[k],
    forall|k: int| old(self).entity_flags@.len() <= k < self.entity_flags@.len() ==> self.entity_flags@[k] == EntityFlag::Unavailable((start_index + (k - old(self).entity_flags@.len())) as usize),
@loop 2 it
invariant it.seq().len() == n, start_id == old(self).entity_flags@.len(), end_id == start_id + n, start_id > 0,
    self.entities@.len() == old(self).entities@.len() + it.index@,
    forall|k: int| 0 <= k < old(self).entities@.len() ==> self.entities@[k] == old(self).entities@[k],
    forall|k: int| old(self).entities@.len() <= k < self.entities@.len() ==> (#[trigger] self.entities@[k]).v() == start_id + (k - old(self).entities@.len()),
@post
proof {
    broadcast use shim_axioms;
    let s = old(self).free();
    lemma_free_same(old(self).entity_flags@, s, self.entity_flags@);
    self.lemma_set_free(s);
}
@fn entity::EntityManager::remove
@requires
old(self).wf()
@ensures
final(self).wf(), final(self).next() == old(self).next(),
!old(self).live().contains(entity_id) ==> *final(self) == *old(self),
old(self).live().contains(entity_id) ==> final(self).live() == swap_rem(old(self).live(), find(old(self).live(), entity_id))
    && final(self).free() == seq![entity_id] + old(self).free(),
@start
proof { broadcast use shim_axioms; self.lemma_live(); self.lemma_free_ids(); lemma_free_head(self.entity_flags@, self.free()); }
@post
proof {
    broadcast use shim_axioms;
    let s = old(self).free();
    if old(self).live().contains(entity_id) {
        let t = seq![entity_id] + s;
        lemma_free_push(old(self).entity_flags@, s, entity_id, self.entity_flags@);
        assert(is_free(self.entity_flags@, t));
        self.lemma_set_free(t);
    }
}
@fn entity::EntityManager::has
@requires
self.wf_live()
@ensures
r == self.live().contains(entity_id)
@start
proof { self.lemma_live(); assert(self.flagged(entity_id) <==> self.live().contains(entity_id)); }
@fn entity::EntityManager::entities
@ensures
r@ == self.live()
@fn entity::EntityManager::len
@ensures
r == self.live().len()
