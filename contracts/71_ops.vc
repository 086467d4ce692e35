@fn world::World::create_entity
@heap
@requires
winv(*self, old(h)@)
@ensures
winv(*self, final(h)@), *r.world == *self, made(wv(*self, old(h)@), wv(*self, final(h)@), r.id),
@start
let ghost (h0, v0) = (h@, wv(*self, h@));
@after allocate 1
proof {
    let e = h@.em[self.entity_manager.id()];
    lemma_write_em(*self, h0, e);
    lemma_push(v0.em.live(), id);
    lemma_more_live(v0, e);
}
@fn world::World::create_entities
@heap
@requires
winv(*self, old(h)@), wv(*self, old(h)@).em.next() + count <= usize::MAX
@ensures
winv(*self, final(h)@), *r.world == *self, r.ids.start.v() == wv(*self, old(h)@).em.next(), r.ids.end.v() == wv(*self, old(h)@).em.next() + count,
made_many(wv(*self, old(h)@), wv(*self, final(h)@), count as int),
@start
let ghost (h0, v0) = (h@, wv(*self, h@));
@after allocate_n 1
proof {
    let e = h@.em[self.entity_manager.id()];
    lemma_write_em(*self, h0, e);
    lemma_batch_live(v0.em, e, count as int);
    lemma_more_live(v0, e);
}
@fn world::World::groups
@heap
@requires
locks(*self, old(h)@)
@ensures
locks(*self, final(h)@), wv(*self, final(h)@) == (WV { gr: wv(*self, final(h)@).gr, ..wv(*self, old(h)@) }), wv(*self, final(h)@).gr.len() == wv(*self, old(h)@).gr.len(),
r@.len() == sel(overs(wv(*self, old(h)@).gr, type_id), self.groups@.len() as int).len(),
forall|i: int| #![trigger now_at(r@, i)] #![trigger fin_at(r@, i)] 0 <= i < r@.len() ==> now_at(r@, i) == wv(*self, old(h)@).gr[sel(overs(wv(*self, old(h)@).gr, type_id), self.groups@.len() as int)[i]]
    && fin_at(r@, i) == wv(*self, final(h)@).gr[sel(overs(wv(*self, old(h)@).gr, type_id), self.groups@.len() as int)[i]],
forall|k: int| #![trigger wv(*self, final(h)@).gr[k]] 0 <= k < self.groups@.len() && !over(wv(*self, old(h)@).gr[k], type_id) ==> wv(*self, final(h)@).gr[k] == wv(*self, old(h)@).gr[k],
@start
proof { broadcast use lemma_dom; }
let ghost v0 = wv(*self, h@);
let ghost p = overs(v0.gr, type_id);
@loop 1 it
invariant
    v0 == wv(*self, old(h)@), p == overs(v0.gr, type_id), v0.gr.len() == self.groups@.len(), locks(*self, h@),
    it.seq().len() == self.groups@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.groups@[i],
    wv(*self, h@) == (WV { gr: wv(*self, h@).gr, ..v0 }), wv(*self, h@).gr.len() == v0.gr.len(),
    groups@.len() == sel(p, it.index@ as int).len(),
    forall|i: int| #![trigger now_at(groups@, i)] #![trigger fin_at(groups@, i)] 0 <= i < groups@.len() ==> now_at(groups@, i) == v0.gr[sel(p, it.index@ as int)[i]] && fin_at(groups@, i) == wv(*self, h@).gr[sel(p, it.index@ as int)[i]],
    forall|k: int| #![trigger wv(*self, h@).gr[k]] 0 <= k < v0.gr.len() && (k >= it.index@ || !p[k]) ==> wv(*self, h@).gr[k] == v0.gr[k],
@loop-start 1
let ghost (hp, n, gp) = (h@, it.index@ as int, groups@);
proof { lemma_sel(p, n); assert(wv(*self, hp).gr[n] == v0.gr[n]); }
@loop-end 1
proof {
    lemma_sel(p, n + 1);
    if p[n] {
        lemma_write_gr(*self, hp, n, fin_at(groups@, gp.len() as int));
        assert forall|i: int| #![trigger now_at(groups@, i)] #![trigger fin_at(groups@, i)] 0 <= i < gp.len() implies now_at(groups@, i) == v0.gr[sel(p, n)[i]] && fin_at(groups@, i) == wv(*self, h@).gr[sel(p, n)[i]] by {
            assert(now_at(groups@, i) == now_at(gp, i) && fin_at(groups@, i) == fin_at(gp, i));
            assert(sel(p, n)[i] < n);
        }
        assert(sel(p, n + 1)[gp.len() as int] == n);
    }
}
@fn entity::Entity::attach
@heap
@panics
!reg(*self.world, tid::<T>())
@requires
winv(*self.world, old(h)@), live(*self.world, old(h)@, self.id)
@ensures
*r.world == *self.world, r.id == self.id, winv(*self.world, final(h)@), attached(wv(*self.world, old(h)@), wv(*self.world, final(h)@), tid::<T>(), self.id, embed(component)),
@start
proof { broadcast use lemma_dom, lemma_mid_start; }
let ghost (v0, e, t) = (wv(*self.world, h@), self.id, tid::<T>());
proof { if reg(*self.world, t) { assert(st_ok(v0, t)); } }
proof { v0.em.lemma_live(); assert(v0.em.next() == v0.em.entity_flags.len()); assert(e.v() < v0.em.next()); }
@before add 1
let ghost sp0 = *sparse_set;
@after add 1
proof { sp0.lemma_all(); assert(sparse_set.avals() =~= add_one((sp0.ids(), sp0.avals()), e, embed(component)).1); }
@loop-before 1
let ghost v1 = wv(*world, h@);
let ghost (p, x0, x1) = (overs(v1.gr, t), if v0.st[t].ids().contains(e) { ISet::<Id>::empty() } else { ISet::<Id>::empty().insert(e) }, ISet::<Id>::empty());
let ghost ss = sel(p, v1.gr.len() as int);
let ghost mut gc = v1.gr;
proof { lemma_put(v0, t, e, embed(component), v1.st[t]); lemma_sel(p, v1.gr.len() as int); assert(x0.remove(e) =~= x1); }
@loop 1 it
invariant
    world == self.world, e == self.id, t == tid::<T>(), x0.remove(e) == x1,
    locks(*world, h@), p.len() == world.groups@.len() == v1.gr.len(), ss == sel(p, v1.gr.len() as int), it.seq().len() == ss.len(),
    mid(v1, wv(*world, h@), gc, p, it.index@ as int, x0, x1), given(wv(*world, h@), gc, ss, it.seq(), it.index@ as int),
@loop-start 1
let ghost (vx, m, k) = (wv(*world, h@), it.index@ as int, ss[it.index@ as int]);
let ghost (g0, vc) = (gc[k], WV { gr: gc, ..vx });
proof {
    broadcast use lemma_dom;
    lemma_sel(p, v1.gr.len() as int);
    assert(now_at(it.seq(), m) == g0); assert(fin_at(it.seq(), m) == vx.gr[k]); assert(vc.gr[k] == g0);
    assert(st_ok(vc, gtypes(g0).0)); assert(st_ok(vc, gtypes(g0).1)); assert(gr_ok(vc, g0, x0));
    lemma_reorder_refl(vx, gtypes(g0).0); lemma_reorder_refl(vx, gtypes(g0).1);
}
@loop-end 1
proof {
    let (vy, g2) = (wv(*world, h@), *group);
    lemma_owns_same(g0, g2);
    assert(vy.st.dom() =~= vx.st.dom());
    assert forall|u: TypeId| #![trigger vy.st[u]] vx.st.dom().contains(u) implies reordered(vx.st[u], vy.st[u]) && (!gowns(g2, u) ==> vy.st[u] == vx.st[u]) by { assert(st_ok(vc, u)); lemma_reorder_refl(vx, u); }
    lemma_mid_step(v1, vx, gc, p, m, x0, x1, vy, g2);
    gc = gc.update(k, g2);
}
@loop-after 1
proof { lemma_mid_end(v1, wv(*world, h@), gc, p, ss.len() as int, x0, x1); }
@fn entity::Entities::attach
@heap
@attr #[verifier::spinoff_prover]
@panics
components.vx_seq().len() != self.ids.end.v() - self.ids.start.v() || !reg(*self.world, tid::<T>())
@requires
winv(*self.world, old(h)@), lives(*self.world, old(h)@, self.ids.start, self.ids.end)
@ensures
*r.world == *self.world, r.ids == self.ids, winv(*self.world, final(h)@),
attached_all(wv(*self.world, old(h)@), wv(*self.world, final(h)@), tid::<T>(), self.ids.start.v(), self.ids.end.v(), components.vx_seq().map_values(|t: T| embed(t))),
@start
proof { broadcast use lemma_dom, lemma_mid_start, shim_axioms; }
let ghost (h0, v0, t, cs) = (h@, wv(*self.world, h@), tid::<T>(), components.vx_seq());
let ghost (lo, hi) = (self.ids.start.v(), self.ids.end.v());
let ghost ds = cs.map_values(|t: T| embed(t));
proof { if reg(*self.world, t) { assert(st_ok(v0, t)); } }
@loop 1 it
invariant
    lo == self.ids.start.v(), lo > 0, span(vx_v@, lo, it.index@ as int),
@before add_batch 1
let ghost sp0 = *sparse_set; let ghost es = ids@;
@after add_batch 1
proof {
    sp0.lemma_all();
    lemma_span(es, lo, hi - lo);
    lemma_add_all_map(sp0.ids(), sp0.vals(), es, cs, es.len() as int);
    assert(sp0.avals() =~= sp0.vals().map_values(|t: T| embed(t)));
    assert(sparse_set.avals() =~= sparse_set.vals().map_values(|t: T| embed(t)));
    assert((sparse_set.ids(), sparse_set.avals()) == add_all((sp0.ids(), sp0.avals()), es, ds, es.len() as int));
}
@loop-before 2
let ghost es = ids@;
let ghost v1 = wv(*self.world, h@);
let ghost (p, x0, x1) = (overs(v1.gr, t), fresh_of(es, v0.st[t].ids()), ISet::<Id>::empty());
let ghost ss = sel(p, v1.gr.len() as int);
let ghost mut gc = v1.gr;
proof {
    lemma_span(es, lo, hi - lo);
    assert forall|k: int| 0 <= k < es.len() implies v0.em.live().contains(#[trigger] es[k]) by { assert(live(*self.world, h0, es[k])); }
    lemma_put_all(v0, t, es, ds, v1.st[t]); lemma_sel(p, v1.gr.len() as int);
    lemma_cut(x0, es, es.len() as int); assert(cut(x0, es, es.len() as int) =~= x1);
    assert forall|u: TypeId, i: Id| v0.st.dom().contains(u) implies #[trigger] comp(v1, u, i) == (if u == t && lo <= i.v() < hi { Some(ds[i.v() - lo]) } else { comp(v0, u, i) }) by {
        if u == t && lo <= i.v() < hi { assert(es[i.v() - lo] == i); }
    }
}
@loop 2 it2
invariant
    es == ids@, cut(x0, es, es.len() as int) == x1, locks(*self.world, h@), p.len() == self.world.groups@.len() == v1.gr.len(), ss == sel(p, v1.gr.len() as int), it2.seq().len() == ss.len(),
    mid(v1, wv(*self.world, h@), gc, p, it2.index@ as int, x0, x1), given(wv(*self.world, h@), gc, ss, it2.seq(), it2.index@ as int),
@loop-start 2
let ghost (vx, m, k) = (wv(*self.world, h@), it2.index@ as int, ss[it2.index@ as int]);
let ghost (g0, vc) = (gc[k], WV { gr: gc, ..vx });
proof {
    lemma_sel(p, v1.gr.len() as int);
    assert(now_at(it2.seq(), m) == g0); assert(fin_at(it2.seq(), m) == vx.gr[k]); assert(vc.gr[k] == g0);
    assert(st_ok(vc, gtypes(g0).0)); assert(st_ok(vc, gtypes(g0).1)); assert(gr_ok(vc, g0, x0));
    lemma_reorder_refl(vx, gtypes(g0).0); lemma_reorder_refl(vx, gtypes(g0).1);
}
@loop-before 3
let ghost (a0, b0) = (*comp_a, *comp_b);
@loop 3 it3
invariant
    es == ids@, data.type_a == gtypes(g0).0, data.type_b == gtypes(g0).1, reordered(a0, *comp_a), reordered(b0, *comp_b),
    full_ok(data.length as int, comp_a.ids(), comp_b.ids(), cut(x0, es, it3.index@ as int)),
@loop-start 3
let ghost (a1, b1) = (*comp_a, *comp_b);
@loop-end 3
proof {
    lemma_content_trans(a0.ids(), a0.vals(), a1.ids(), a1.vals(), comp_a.ids(), comp_a.vals());
    lemma_content_trans(b0.ids(), b0.vals(), b1.ids(), b1.vals(), comp_b.ids(), comp_b.vals());
}
@loop-before 4
let ghost a0 = *comp_a;
@loop 4 it3
invariant
    es == ids@, data.type_a == gtypes(g0).0, data.type_b == gtypes(g0).1, reordered(a0, *comp_a), swf(*comp_b),
    partial_ok(data.length as int, comp_a.ids(), comp_b.ids(), cut(x0, es, it3.index@ as int)),
@loop-start 4
let ghost a1 = *comp_a;
@loop-end 4
proof { lemma_content_trans(a0.ids(), a0.vals(), a1.ids(), a1.vals(), comp_a.ids(), comp_a.vals()); }
@loop 5 it3
invariant
    es == ids@, swf(*comp_a), swf(*comp_b), data.type_a == gtypes(g0).0, data.type_b == gtypes(g0).1, data.sparse_set.wf(),
    non_ok(data.sparse_set.ids(), comp_a.ids(), comp_b.ids(), cut(x0, es, it3.index@ as int)),
@loop-end 2
proof {
    let (vy, g2) = (wv(*self.world, h@), *group);
    lemma_owns_same(g0, g2);
    assert(vy.st.dom() =~= vx.st.dom());
    assert forall|u: TypeId| #![trigger vy.st[u]] vx.st.dom().contains(u) implies reordered(vx.st[u], vy.st[u]) && (!gowns(g2, u) ==> vy.st[u] == vx.st[u]) by { assert(st_ok(vc, u)); lemma_reorder_refl(vx, u); }
    lemma_mid_step(v1, vx, gc, p, m, x0, x1, vy, g2);
    gc = gc.update(k, g2);
}
@loop-after 2
proof { lemma_mid_end(v1, wv(*self.world, h@), gc, p, ss.len() as int, x0, x1); }
@fn entity::Entity::detach
@heap
@panics
!reg(*self.world, tid::<T>())
@requires
winv(*self.world, old(h)@), live(*self.world, old(h)@, self.id)
@ensures
winv(*self.world, final(h)@), detached(wv(*self.world, old(h)@), wv(*self.world, final(h)@), tid::<T>(), self.id),
r is Some <==> comp(wv(*self.world, old(h)@), tid::<T>(), self.id) is Some, r is Some ==> embed(r->Some_0) == comp(wv(*self.world, old(h)@), tid::<T>(), self.id)->Some_0,
@start
proof { broadcast use lemma_dom, lemma_mid_start; }
let ghost (v0, e, t) = (wv(*self.world, h@), self.id, tid::<T>());
let ghost p = overs(v0.gr, t);
let ghost mut v2 = v0;
@loop-before 1
let ghost v1 = v0;
let ghost (x0, x1) = (ISet::<Id>::empty(), ISet::<Id>::empty().insert(e));
let ghost ss = sel(p, v1.gr.len() as int);
let ghost mut gc = v1.gr;
proof { lemma_sel(p, v1.gr.len() as int); }
@loop 1 it
invariant
    world == self.world, e == self.id, t == tid::<T>(), x0.insert(e) == x1,
    locks(*world, h@), p.len() == world.groups@.len() == v1.gr.len(), ss == sel(p, v1.gr.len() as int), it.seq().len() == ss.len(),
    mid(v1, wv(*world, h@), gc, p, it.index@ as int, x0, x1), given(wv(*world, h@), gc, ss, it.seq(), it.index@ as int),
@loop-start 1
let ghost (vx, m, k) = (wv(*world, h@), it.index@ as int, ss[it.index@ as int]);
let ghost (g0, vc) = (gc[k], WV { gr: gc, ..vx });
proof {
    broadcast use lemma_dom;
    lemma_sel(p, v1.gr.len() as int);
    assert(now_at(it.seq(), m) == g0); assert(fin_at(it.seq(), m) == vx.gr[k]); assert(vc.gr[k] == g0);
    assert(st_ok(vc, gtypes(g0).0)); assert(st_ok(vc, gtypes(g0).1)); assert(gr_ok(vc, g0, x0));
    lemma_reorder_refl(vx, gtypes(g0).0); lemma_reorder_refl(vx, gtypes(g0).1);
}
@loop-end 1
proof {
    let (vy, g2) = (wv(*world, h@), *group);
    lemma_owns_same(g0, g2);
    assert(vy.st.dom() =~= vx.st.dom());
    assert forall|u: TypeId| #![trigger vy.st[u]] vx.st.dom().contains(u) implies reordered(vx.st[u], vy.st[u]) && (!gowns(g2, u) ==> vy.st[u] == vx.st[u]) by { assert(st_ok(vc, u)); lemma_reorder_refl(vx, u); }
    lemma_mid_step(v1, vx, gc, p, m, x0, x1, vy, g2);
    gc = gc.update(k, g2);
}
@loop-after 1
proof { lemma_mid_end(v1, wv(*world, h@), gc, p, ss.len() as int, x0, x1); }
proof { v2 = wv(*world, h@); assert(st_ok(v2, t)); }
@before remove 4
let ghost sp0 = *sparse_set;
@post
proof {
    sp0.lemma_all();
    assert(st_ok(v0, t)); assert(reordered(v0.st[t], v2.st[t]));
    if sp0.has(e) { assert(sparse_set.avals() =~= swap_rem(sp0.avals(), find(sp0.ids(), e))); assert(comp(v2, t, e) == comp(v0, t, e)); }
    let v3 = wv(*world, h@);
    lemma_take(v2, t, e, v3.st[t]);
    assert forall|k: int| #![trigger v3.gr[k]] 0 <= k < v3.gr.len() implies gr_ok(v3, v3.gr[k], ISet::empty()) by { let g = v2.gr[k]; assert(p[k] == over(v0.gr[k], t)); assert(gsame(v0.gr[k], v2.gr[k])); if over(g, t) { lemma_gone(v3, g, e); } }
}
@fn world::World::remove_entity
@heap
@panics
!live(*self, old(h)@, entity_id)
@requires
winv(*self, old(h)@)
@ensures
winv(*self, final(h)@), removed(wv(*self, old(h)@), wv(*self, final(h)@), entity_id),
@start
proof { broadcast use lemma_dom, lemma_mid_start; }
let ghost (v0, e) = (wv(*self, h@), entity_id);
let ghost p = members(v0, e);
let ghost mut v2 = v0;
let ghost (o, mut v4) = (self.components.order(), v0);
@loop 1 it
invariant
    v0 == wv(*self, old(h)@), p == members(v0, e), v0.gr.len() == self.groups@.len(), locks(*self, h@), winv(*self, old(h)@), e == entity_id,
    it.seq().len() == self.groups@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.groups@[i],
    taking(v0, wv(*self, h@), p, it.index@ as int, groups@),
@loop-start 1
let ghost (hp, n, gp) = (h@, it.index@ as int, groups@);
proof { broadcast use lemma_dom; assert(wv(*self, hp).gr[n] == v0.gr[n]); assert(gr_ok(v0, v0.gr[n], ISet::empty())); assert(st_ok(v0, gtypes(v0.gr[n]).0)); assert(st_ok(v0, gtypes(v0.gr[n]).1)); }
@loop-end 1
proof {
    if p[n] { lemma_write_gr(*self, hp, n, fin_at(groups@, gp.len() as int)); }
    lemma_taking(v0, wv(*self, hp), p, n, gp, wv(*self, h@), groups@);
}
@loop-before 2
let ghost v1 = v0;
let ghost (x0, x1) = (ISet::<Id>::empty(), ISet::<Id>::empty().insert(e));
let ghost ss = sel(p, v1.gr.len() as int);
let ghost mut gc = v1.gr;
proof { lemma_sel(p, v1.gr.len() as int); }
@loop 2 it
invariant
    e == entity_id, x0.insert(e) == x1,
    locks(*self, h@), p.len() == self.groups@.len() == v1.gr.len(), ss == sel(p, v1.gr.len() as int), it.seq().len() == ss.len(),
    mid(v1, wv(*self, h@), gc, p, it.index@ as int, x0, x1), given(wv(*self, h@), gc, ss, it.seq(), it.index@ as int),
@loop-start 2
let ghost (vx, m, k) = (wv(*self, h@), it.index@ as int, ss[it.index@ as int]);
let ghost (g0, vc) = (gc[k], WV { gr: gc, ..vx });
proof {
    broadcast use lemma_dom;
    lemma_sel(p, v1.gr.len() as int);
    assert(now_at(it.seq(), m) == g0); assert(fin_at(it.seq(), m) == vx.gr[k]); assert(vc.gr[k] == g0);
    assert(st_ok(vc, gtypes(g0).0)); assert(st_ok(vc, gtypes(g0).1)); assert(gr_ok(vc, g0, x0));
    lemma_reorder_refl(vx, gtypes(g0).0); lemma_reorder_refl(vx, gtypes(g0).1);
}
@loop-end 2
proof {
    let (vy, g2) = (wv(*self, h@), *group);
    lemma_owns_same(g0, g2);
    assert(vy.st.dom() =~= vx.st.dom());
    assert forall|u: TypeId| #![trigger vy.st[u]] vx.st.dom().contains(u) implies reordered(vx.st[u], vy.st[u]) && (!gowns(g2, u) ==> vy.st[u] == vx.st[u]) by { assert(st_ok(vc, u)); lemma_reorder_refl(vx, u); }
    lemma_mid_step(v1, vx, gc, p, m, x0, x1, vy, g2);
    gc = gc.update(k, g2);
}
@loop-after 2
proof {
    lemma_mid_end(v1, wv(*self, h@), gc, p, ss.len() as int, x0, x1);
    v2 = wv(*self, h@);
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() implies gr_ok(v2, v2.gr[k], x1) by {
        if !p[k] {
            let (a, b) = gtypes(v0.gr[k]);
            assert(gsame(v0.gr[k], v2.gr[k])); assert(gr_ok(v0, v0.gr[k], ISet::empty())); assert(st_ok(v0, a)); assert(st_ok(v0, b)); assert(reordered(v0.st[a], v2.st[a])); assert(reordered(v0.st[b], v2.st[b]));
            lemma_outside(v0, v0.gr[k], e);
            lemma_not_both(v0, v0.gr[k], v2, v2.gr[k], e);
        }
    }
}
@loop 3 it
invariant
    v2 == wv(*self, h2), o == self.components.order(), q == holders(v2, o, e), locks(*self, h@), e == entity_id, sts_ok(v2),
    o.no_duplicates(), forall|k: TypeId| #[trigger] o.contains(k) <==> reg(*self, k),
    it.seq().len() == o.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.components@[o[i]],
    staking(v2, wv(*self, h@), o, q, it.index@ as int, storages@),
@loop-before 3
let ghost (h2, q) = (h@, holders(v2, o, e));
@loop-start 3
let ghost (hp, n, gp) = (h@, it.index@ as int, storages@);
proof { broadcast use lemma_dom; assert(o.contains(o[n])); assert(wv(*self, hp).st[o[n]] == v2.st[o[n]]); assert(st_ok(v2, o[n])); }
@loop-end 3
proof {
    if q[n] { lemma_write_st(*self, hp, o[n], sfin(storages@, gp.len() as int)); }
    lemma_staking(v2, wv(*self, hp), o, q, n, gp, wv(*self, h@), storages@);
}
@loop-before 4
let ghost (q, v3) = (holders(v2, o, e), wv(*self, h@));
let ghost rr = sel(q, o.len() as int);
let ghost mut sc = v2.st;
proof { lemma_smid_start(v2, v3, o, q, e); lemma_sel(q, o.len() as int); }
@loop 4 it
invariant
    e == entity_id, v3 == wv(*self, h@), rr == sel(q, o.len() as int), q.len() == o.len(), o.no_duplicates(), forall|k: TypeId| #[trigger] o.contains(k) <==> v2.st.dom().contains(k),
    it.seq().len() == rr.len(), smid(v2, v3, sc, o, rr, it.index@ as int, e), sgiven(v3, sc, o, rr, it.seq(), it.index@ as int),
@loop-start 4
let ghost (m, t) = (it.index@ as int, o[rr[it.index@ as int]]);
proof { lemma_sel(q, o.len() as int); assert(o.contains(t)); assert(st_ok(WV { st: sc, ..v3 }, t)); assert(snow(it.seq(), m) == sc[t]); assert(sfin(it.seq(), m) == v3.st[t]); }
@loop-end 4
proof { 
    lemma_smid_step(v2, v3, sc, o, q, m, e, *storage);
    let s2 = sc.insert(t, *storage);
    sc = s2;
}
@loop-after 4
proof { lemma_smid_end(v2, v3, sc, o, rr, rr.len() as int, e); v4 = v3; }
let ghost h4 = h@;
@post
proof {
    let m = h@.em[self.entity_manager.id()];
    lemma_write_em(*self, h4, m);
    v4.em.lemma_live();
    lemma_less_live(v4, m, e);
    let v5 = wv(*self, h@);
    assert forall|u: TypeId, i: Id| v0.st.dom().contains(u) implies #[trigger] comp(v5, u, i) == (if i == e { None } else { comp(v0, u, i) }) by { assert(comp(v5, u, i) == comp(v4, u, i)); assert(comp(v2, u, i) == comp(v0, u, i)); }
}
@fn world::World::attach_component
@heap
@panics
!reg(*self, tid::<T>()) || !live(*self, old(h)@, entity_id)
@requires
winv(*self, old(h)@)
@ensures
winv(*self, final(h)@), attached(wv(*self, old(h)@), wv(*self, final(h)@), tid::<T>(), entity_id, embed(component)),
@fn world::World::detach_component
@heap
@panics
!reg(*self, tid::<T>()) || !live(*self, old(h)@, entity_id)
@requires
winv(*self, old(h)@)
@ensures
winv(*self, final(h)@), detached(wv(*self, old(h)@), wv(*self, final(h)@), tid::<T>(), entity_id),
r is Some <==> comp(wv(*self, old(h)@), tid::<T>(), entity_id) is Some, r is Some ==> embed(r->Some_0) == comp(wv(*self, old(h)@), tid::<T>(), entity_id)->Some_0,
@fn entity::Entity::component_read
@heap
@requires
winv(*self.world, old(h)@)
@ensures
final(h)@ == old(h)@, r is Some <==> reg(*self.world, tid::<T>()) && comp(wv(*self.world, old(h)@), tid::<T>(), self.id) is Some,
r is Some ==> r->Some_0.storage.inv() && r->Some_0.id == self.id && r->Some_0.storage.ids().contains(self.id)
    && embed(r->Some_0.storage.at(self.id)) == comp(wv(*self.world, old(h)@), tid::<T>(), self.id)->Some_0,
@fn entity::Entity::component_write
@heap
@requires
winv(*self.world, old(h)@)
@ensures
r is Some <==> reg(*self.world, tid::<T>()) && comp(wv(*self.world, old(h)@), tid::<T>(), self.id) is Some,
r is Some ==> r->Some_0.storage.inv() && r->Some_0.id == self.id && r->Some_0.storage.ids().contains(self.id)
    && r->Some_0.storage.ptr.cur().avals() == wv(*self.world, old(h)@).st[tid::<T>()].vals() && r->Some_0.storage.ids() == wv(*self.world, old(h)@).st[tid::<T>()].ids()
    && locks(*self.world, final(h)@) && wv(*self.world, final(h)@) == (WV { st: wv(*self.world, old(h)@).st.insert(tid::<T>(), *final(r->Some_0.storage._lock)), ..wv(*self.world, old(h)@) }),
@fn entity::Entity::manaully_drop
@heap
@requires
winv(*self.world, old(h)@), live(*self.world, old(h)@, self.id)
@ensures
winv(*self.world, final(h)@), removed(wv(*self.world, old(h)@), wv(*self.world, final(h)@), self.id),
@fn world::World::has_group
@heap
@requires
locks(*self, old(h)@)
@ensures
final(h)@ == old(h)@, r == declared(wv(*self, old(h)@), G::spec_group()),
@start
proof { broadcast use lemma_dom; }
let ghost v0 = wv(*self, h@);
@loop 1 it
invariant
    h@ == old(h)@, locks(*self, h@), v0 == wv(*self, h@), v0.gr.len() == self.groups@.len(), it.seq().len() == self.groups@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.groups@[i],
    same_as(group, G::spec_group()), forall|k: int| 0 <= k < it.index@ ==> !same_as(#[trigger] v0.gr[k], G::spec_group()),
@loop-start 1
proof { assert(v0.gr[it.index@ as int] == h@.gr[self.groups@[it.index@ as int].id()]); }
@fn world::World::group
@heap
@panics
!declared(wv(*self, old(h)@), G::spec_group())
@requires
locks(*self, old(h)@)
@ensures
final(h)@ == old(h)@, same_as(*r, G::spec_group()), exists|k: int| 0 <= k < self.groups@.len() && *r == #[trigger] wv(*self, old(h)@).gr[k],
@start
proof { broadcast use lemma_dom; }
let ghost v0 = wv(*self, h@);
@loop 1 it
invariant_except_break
    vx_found is None, forall|k: int| 0 <= k < it.index@ ==> !same_as(#[trigger] v0.gr[k], G::spec_group()),
invariant
    h@ == old(h)@, locks(*self, h@), v0 == wv(*self, h@), v0.gr.len() == self.groups@.len(), it.seq().len() == self.groups@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.groups@[i],
    same_as(group, G::spec_group()),
ensures
    vx_found is None ==> !declared(v0, G::spec_group()),
    vx_found is Some ==> exists|k: int| lock_at(vx_found, *self, k) && same_as(#[trigger] v0.gr[k], G::spec_group()),
@loop-start 1
proof { assert(v0.gr[it.index@ as int] == h@.gr[self.groups@[it.index@ as int].id()]); }
@fn world::World::make_group
@heap
@attr #[verifier::loop_isolation(false)]
@panics
forbidden(*self, wv(*self, h@), G::spec_group())
@panics_old
forbidden(*old(self), wv(*old(self), old(h)@), G::spec_group())
@requires
winv(*old(self), old(h)@), G::spec_group().0 != 2 ==> G::spec_group().1 != G::spec_group().2
@ensures
winv(*final(self), final(h)@), final(self).components == old(self).components, final(self).resources == old(self).resources, final(self).entity_manager == old(self).entity_manager,
regrouped(wv(*old(self), old(h)@), wv(*final(self), final(h)@), G::spec_group()),
@start
proof { broadcast use lemma_dom; }
let ghost (h0, w0, v0, s) = (h@, *self, wv(*self, h@), G::spec_group());
@loop 1 it
invariant_except_break
    ok, forall|k: int| 0 <= k < it.index@ ==> apart(#[trigger] v0.gr[k], s),
invariant
    h@ == h0, *self == w0, locks(w0, h0), v0 == wv(w0, h0), s == G::spec_group(), v0.gr.len() == self.groups@.len(), it.seq().len() == self.groups@.len(), forall|i: int| 0 <= i < it.seq().len() ==> *(#[trigger] it.seq()[i]) == self.groups@[i],
    same_as(group, s),
ensures
    ok ==> !clash(v0, s), !ok ==> clash(v0, s),
@loop-start 1
let ghost k = it.index@ as int;
proof { assert(v0.gr[k] == h@.gr[self.groups@[k].id()]); lemma_sowns(group, s); }
@loop 2 it2
invariant
    ok, 0 <= k < v0.gr.len(), *world_group == v0.gr[k], same_as(group, s), forall|t: TypeId| #![trigger it2.seq().contains(t)] #![trigger gowns(v0.gr[k], t)] it2.seq().contains(t) <==> gowns(v0.gr[k], t), forall|j: int| 0 <= j < it2.index@ ==> !sowns(s, #[trigger] it2.seq()[j]), forall|t: TypeId| #[trigger] gowns(group, t) == sowns(s, t),
ensures
    apart(v0.gr[k], s),
@loop-start 2
proof { assert(it2.seq().contains(owning_type)); assert(gowns(v0.gr[k], owning_type)); assert(owning_type == it2.seq()[it2.index@ as int]); }
@after push 1
let ghost v1 = wv(*self, h@);
let ghost n = v0.gr.len() as int;
proof {
    let l = self.groups@[n];
    assert(h@.gr =~= h0.gr.insert(l.id(), group));
    lemma_new_gr(w0, h0, *self, group, l);
    lemma_new_group(v0, group, s);
    assert(v1.gr == v0.gr.push(group)); assert(v1.gr[n] == group);
    assert(st_ok(v1, s.1)); assert(st_ok(v1, s.2)); lemma_reorder_refl(v1, s.1); lemma_reorder_refl(v1, s.2);
}
let ghost h1 = h@;
@after write 1
proof { lemma_write_gr(*self, h1, n, *final(group)); }
@post
proof {
    let (v2, g2) = (wv(*self, h@), *group);
    lemma_owns_same(v1.gr[n], g2);
    assert(v2.st.dom() =~= v1.st.dom());
    assert forall|u: TypeId| #![trigger v2.st[u]] v1.st.dom().contains(u) implies reordered(v1.st[u], v2.st[u]) && (!gowns(g2, u) ==> v2.st[u] == v1.st[u]) by { assert(st_ok(v1, u)); lemma_reorder_refl(v1, u); }
    lemma_step(v1, n, g2, v2.st);
    assert(v2 == (WV { st: v2.st, gr: v1.gr.update(n, g2), ..v1 }));
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v2.gr.len() implies gr_ok(v2, v2.gr[k], ISet::empty()) by { if k < n { assert(v2.gr[k] == v1.gr[k]); assert(gr_ok(v1, v1.gr[k], ISet::empty())); } else { assert(v2.gr[k] == g2); } }
    assert forall|u: TypeId, i: Id| v0.st.dom().contains(u) implies #[trigger] comp(v2, u, i) == comp(v0, u, i) by { lemma_comp_order(v1, v2, u); assert(comp(v1, u, i) == comp(v0, u, i)); }
    assert forall|k: int| #![trigger v2.gr[k]] 0 <= k < v0.gr.len() implies gsame(v0.gr[k], v2.gr[k]) by { assert(v1.gr[k] == v0.gr[k]); }
}
