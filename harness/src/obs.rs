//! Observers: compare the real world with the model through the public API only.
use crate::model::*;
use crate::types::*;
use crate::{with_copy_t, with_t};
use std::collections::BTreeMap;
use xecs::query::{QueryIterator, Queryable, WithId, Without};
use xecs::{group::*, EntityId, World};

pub struct Fail { pub props: Vec<&'static str>, pub what: String }
pub type R = Result<(), Fail>;
pub fn fail(props: &[&'static str], what: String) -> R { Err(Fail { props: props.to_vec(), what }) }
pub fn eid(i: usize) -> EntityId { EntityId::new(i).unwrap() }

pub fn probe_ids(m: &Model) -> Vec<usize> {
    let mut v: Vec<usize> = (1..m.next + 3).collect();
    v.extend([m.next + 64, usize::MAX, usize::MAX / 2 + 1]);
    v
}

pub fn exist(w: &World, m: &Model, tags: &[&'static str]) -> R {
    for id in probe_ids(m) {
        let e = w.exist(eid(id));
        if e != m.live.contains(&id) { return fail(tags, format!("exist({id}) = {e}, but the entity is {}", if e { "not alive" } else { "alive" })); }
        let h = w.entity(eid(id)).map(|x| x.into_id().get());
        if h != if m.live.contains(&id) { Some(id) } else { None } { return fail(tags, format!("entity({id}) gives a handle for {h:?}")); }
    }
    Ok(())
}

pub fn comps(w: &World, m: &Model, tags: &[&'static str]) -> R {
    for t in 0..NT {
        for id in probe_ids(m) {
            let got = with_t!(t, T, w.entity_component_read::<T>(eid(id)).map(|c| c.v()));
            let want = if m.reg[t] { m.comps[t].get(&id).copied() } else { None };
            if got != want { return fail(tags, format!("component {t} of entity {id}: read {got:?}, expected {want:?}")); }
        }
    }
    let l = LIVE_E.with(|c| c.get());
    if l != m.comps[4].len() as isize { let mut tags = tags.to_vec(); tags.push("C17"); return fail(&tags, format!("{l} instances of component 4 are alive, expected {}", m.comps[4].len())); }
    Ok(())
}

pub fn storage(w: &World, m: &mut Model, deep: bool) -> R {
    let tg: &[&str] = &["C18"];
    for t in 0..NT {
        let r = with_t!(t, T, st::<T>(w, m, deep));
        if let Err(s) = r { return fail(tg, format!("storage of component {t}: {s}")); }
    }
    Ok(())
}
fn st<T: Val>(w: &World, m: &mut Model, deep: bool) -> Result<(), String> {
    let t = T::T;
    if !m.reg[t] {
        if w.components_read::<T>().is_some() || w.components_write::<T>().is_some() { return Err("guard for an unregistered component".into()); }
        return Ok(());
    }
    let mut want: Vec<u64> = m.comps[t].values().copied().collect();
    want.sort();
    {
        let s = w.components_read::<T>().ok_or("no read guard")?;
        if s.count() != want.len() { return Err(format!("count {} expected {}", s.count(), want.len())); }
        if s.is_empty() != want.is_empty() { return Err("is_empty wrong".into()); }
        let mut d: Vec<u64> = s.data().iter().map(|x| x.v()).collect();
        d.sort();
        if d != want { return Err(format!("data {d:?} expected {want:?}")); }
        for id in probe_ids(m) {
            let e = m.comps[t].get(&id).copied();
            if s.exist(eid(id)) != e.is_some() { return Err(format!("exist({id}) wrong")); }
            if s.get(eid(id)).map(|x| x.v()) != e { return Err(format!("get({id}) wrong")); }
            if e.is_some() && Some(unsafe { s.get_unchecked(eid(id)) }.v()) != e { return Err(format!("get_unchecked({id}) wrong")); }
        }
    }
    {
        let mut s = w.components_write::<T>().ok_or("no write guard")?;
        if s.count() != want.len() { return Err(format!("(write) count {} expected {}", s.count(), want.len())); }
        if s.is_empty() != want.is_empty() { return Err("(write) is_empty wrong".into()); }
        let mut d: Vec<u64> = s.data().iter().map(|x| x.v()).collect();
        d.sort();
        if d != want { return Err(format!("(write) data {d:?} expected {want:?}")); }
        let mut d: Vec<u64> = s.data_mut().iter().map(|x| x.v()).collect();
        d.sort();
        if d != want { return Err(format!("data_mut {d:?} expected {want:?}")); }
        for id in probe_ids(m) {
            let e = m.comps[t].get(&id).copied();
            if s.exist(eid(id)) != e.is_some() { return Err(format!("(write) exist({id}) wrong")); }
            if s.get(eid(id)).map(|x| x.v()) != e { return Err(format!("(write) get({id}) wrong")); }
            if s.get_mut(eid(id)).map(|x| x.v()) != e { return Err(format!("get_mut({id}) wrong")); }
            if e.is_some() {
                if Some(unsafe { s.get_unchecked(eid(id)) }.v()) != e { return Err(format!("(write) get_unchecked({id}) wrong")); }
                if Some(unsafe { s.get_unchecked_mut(eid(id)) }.v()) != e { return Err(format!("get_unchecked_mut({id}) wrong")); }
            }
        }
        if deep {
            let old: BTreeMap<usize, u64> = m.comps[t].clone();
            for (k, (id, v)) in old.iter().enumerate() {
                let nv = T::norm(v + 5);
                if k % 2 == 0 { *s.get_mut(eid(*id)).unwrap() = T::mk(nv); } else { *unsafe { s.get_unchecked_mut(eid(*id)) } = T::mk(nv); }
                m.comps[t].insert(*id, nv);
            }
            for x in s.data_mut() { let v = x.v(); *x = T::mk(T::norm(v + 5)); }
            for v in m.comps[t].values_mut() { *v = T::norm(*v + 5); }
        }
    }
    for id in probe_ids(m) {
        let e = m.comps[t].get(&id).copied();
        if w.entity_component_read::<T>(eid(id)).map(|x| x.v()) != e { return Err(format!("entity_component_read({id}) expected {e:?}")); }
        if w.entity_component_write::<T>(eid(id)).map(|x| x.v()) != e { return Err(format!("entity_component_write({id}) expected {e:?}")); }
        if let Some(h) = w.entity(eid(id)) {
            if h.component_read::<T>().map(|x| x.v()) != e { return Err(format!("handle read({id}) expected {e:?}")); }
            if h.component_write::<T>().map(|x| x.v()) != e { return Err(format!("handle write({id}) expected {e:?}")); }
        }
    }
    Ok(())
}

/// One query shape: `req` lists the component columns of an item in order with their mutability,
/// `excl` says which entities the query must leave out.
#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Mode { Yield, Hint, Lookup }

pub struct Shape<'s> { pub name: &'s str, pub req: &'s [(usize, bool)], pub excl: &'s dyn Fn(&Model, usize) -> bool, pub exact: bool, pub tag: &'static str }

/// A query with its types erased: items become value lists, `bump` writes through the mutable parts.
pub trait DynQ {
    fn hint(&self) -> (usize, Option<usize>);
    fn next(&mut self, bump: u64) -> Option<Vec<u64>>;
    fn next_id(&mut self, bump: u64) -> Option<(usize, Vec<u64>)>;
    fn from_id(&mut self, id: EntityId, bump: u64) -> Option<Vec<u64>>;
}
fn take<I: Flat>(mut x: I, bump: u64) -> Vec<u64> { let mut v = vec![]; x.flat(&mut v); if bump != 0 { x.bump(bump); } v }
struct Plain<'w, I>(Box<dyn QueryIterator<Item = I> + 'w>);
impl<'w, I: Flat> DynQ for Plain<'w, I> {
    fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn next(&mut self, b: u64) -> Option<Vec<u64>> { self.0.next().map(|x| take(x, b)) }
    fn next_id(&mut self, b: u64) -> Option<(usize, Vec<u64>)> { self.0.next_with_id().map(|(i, x)| (i.get(), take(x, b))) }
    fn from_id(&mut self, id: EntityId, b: u64) -> Option<Vec<u64>> { self.0.from_id(id).map(|x| take(x, b)) }
}
struct Ids<'w, I>(xecs::query::IdIter<Box<dyn QueryIterator<Item = I> + 'w>>);
impl<'w, I: Flat> DynQ for Ids<'w, I> {
    fn hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    fn next(&mut self, b: u64) -> Option<Vec<u64>> { self.0.next().map(|x| take(x.1, b)) }
    fn next_id(&mut self, b: u64) -> Option<(usize, Vec<u64>)> { self.0.next().map(|(i, x)| (i.get(), take(x, b))) }
    fn from_id(&mut self, _: EntityId, _: u64) -> Option<Vec<u64>> { unreachable!() }
}
fn mk<'w, Q>(w: &'w World, ids: bool) -> Box<dyn DynQ + 'w> where Q: Queryable<'w>, Q::Item: Flat + 'w {
    if ids { Box::new(Ids(w.query::<Q>().with_id())) } else { Box::new(Plain(w.query::<Q>())) }
}
pub fn rq<'w, Q>(w: &'w World, m: &mut Model, s: &Shape, mode: Mode, seed: u64) -> R
where Q: Queryable<'w>, Q::Item: Flat + 'w { rqd(w, m, s, mode, seed, mk::<Q>) }

fn rqd<'w>(w: &'w World, m: &mut Model, s: &Shape, mode: Mode, seed: u64, mk: fn(&'w World, bool) -> Box<dyn DynQ + 'w>) -> R {
    let ts: Vec<usize> = s.req.iter().map(|x| x.0).collect();
    let mut want: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
    let first = ts[0];
    for id in m.comps[first].keys() {
        if m.has_all(*id, &ts) && !(s.excl)(m, *id) { want.insert(*id, ts.iter().map(|t| m.comps[*t][id]).collect()); }
    }
    let n = want.len();
    let tg = s.tag;
    match mode {
        Mode::Hint => {
            for pass in 0..2 {
                let mut it = mk(w, false);
                let mut k = 0usize;
                loop {
                    let (lo, hi) = it.hint();
                    let left = n.wrapping_sub(k);
                    if lo > left || hi.map_or(false, |h| h < left) || (s.exact && (lo != left || hi != Some(left))) {
                        return fail(&["C14"], format!("{}: size_hint {:?} with {left} items left", s.name, (lo, hi)));
                    }
                    let more = if pass == 0 || (seed >> (k % 60)) & 1 == 0 { it.next(0).is_some() } else { it.next_id(0).is_some() };
                    if !more { break; }
                    k += 1;
                    if k > n { return Ok(()); } // the item count itself is judged elsewhere
                }
                if k != n { return Ok(()); }
                let (lo, hi) = it.hint();
                if lo != 0 || (s.exact && hi != Some(0)) { return fail(&["C14"], format!("{}: size_hint {:?} after the end", s.name, (lo, hi))); }
                drop(it);
                let idi = mk(w, true);
                let (lo, hi) = idi.hint();
                if lo > n || hi.map_or(false, |h| h < n) || (s.exact && (lo != n || hi != Some(n))) { return fail(&["C14"], format!("{}: with_id size_hint {:?}, {n} items", s.name, (lo, hi))); }
            }
            Ok(())
        }
        Mode::Lookup => {
            let mut it = mk(w, false);
            for round in 0..2 {
                for id in probe_ids(m) {
                    let got = it.from_id(eid(id), 0);
                    if got.as_ref() != want.get(&id) { return fail(&["C19"], format!("{}: from_id({id}) = {got:?}, expected {:?}", s.name, want.get(&id))); }
                }
                if round == 0 { let _ = it.next(0); }
            }
            // a lookup neither consumes nor adds items
            let mut k = usize::from(n > 0);
            while it.next_id(0).is_some() { k += 1; if k > n { break; } }
            if k != n { return fail(&["C19"], format!("{}: lookups changed what is yielded ({k} of {n})", s.name)); }
            if s.req.iter().any(|x| x.1) {
                for (id, _) in want.iter() { let _ = it.from_id(eid(*id), 11); }
                drop(it);
                apply(m, s, &want, 11);
                return columns(w, m, s, &["C19"]);
            }
            Ok(())
        }
        Mode::Yield => {
            // with ids
            let mut got: BTreeMap<usize, Vec<u64>> = BTreeMap::new();
            let mut it = mk(w, true);
            let mut k = 0;
            while let Some((id, v)) = it.next_id(0) {
                if got.insert(id, v.clone()).is_some() { return fail(&[tg], format!("{}: entity {id} yielded twice", s.name)); }
                if want.get(&id) != Some(&v) { return fail(&[tg], format!("{}: entity {id} yielded with {v:?}, expected {:?}", s.name, want.get(&id))); }
                k += 1;
                if k > n + 3 { return fail(&[tg], format!("{}: does not end", s.name)); }
            }
            if got != want { return fail(&[tg], format!("{}: yielded {:?}, expected {:?}", s.name, got.keys().collect::<Vec<_>>(), want.keys().collect::<Vec<_>>())); }
            if it.next(0).is_some() { return fail(&[tg], format!("{}: yields again after the end", s.name)); }
            drop(it);
            // plain
            let mut vals: Vec<Vec<u64>> = vec![];
            let mut it = mk(w, false);
            while let Some(v) = it.next(0) { vals.push(v); if vals.len() > n + 3 { return fail(&[tg], format!("{}: plain iteration does not end", s.name)); } }
            if it.next(0).is_some() { return fail(&[tg], format!("{}: plain iteration yields again after the end", s.name)); }
            drop(it);
            vals.sort();
            let mut wv: Vec<Vec<u64>> = want.values().cloned().collect();
            wv.sort();
            if vals != wv { return fail(&[tg], format!("{}: plain iteration gave {vals:?}, expected {wv:?}", s.name)); }
            // mixed, writing through every item
            let mut it = mk(w, false);
            let mut vals: Vec<Vec<u64>> = vec![];
            let mut k = 0u64;
            loop {
                let x = if (seed >> (k % 61)) & 1 == 0 { it.next(7).map(|x| (None, x)) } else { it.next_id(7).map(|(i, x)| (Some(i), x)) };
                k += 1;
                match x {
                    None => break,
                    Some((id, v)) => {
                        if let Some(id) = id { if want.get(&id) != Some(&v) { return fail(&[tg], format!("{}: mixed iteration pairs {id} with {v:?}", s.name)); } }
                        vals.push(v);
                    }
                }
                if vals.len() > n + 3 { return fail(&[tg], format!("{}: mixed iteration does not end", s.name)); }
            }
            drop(it);
            vals.sort();
            if vals != wv { return fail(&[tg], format!("{}: mixed iteration gave {vals:?}, expected {wv:?}", s.name)); }
            if s.req.iter().any(|x| x.1) { apply(m, s, &want, 7); return columns(w, m, s, &[tg]); }
            Ok(())
        }
    }
}
fn apply(m: &mut Model, s: &Shape, want: &BTreeMap<usize, Vec<u64>>, d: u64) {
    for (t, mu) in s.req { if *mu { for id in want.keys() { let v = m.comps[*t][id]; m.comps[*t].insert(*id, norm(*t, v + d)); } } }
}
fn columns(w: &World, m: &Model, s: &Shape, tags: &[&'static str]) -> R {
    for (t, _) in s.req {
        for id in 1..m.next {
            let got = with_t!(*t, T, w.entity_component_read::<T>(eid(id)).map(|c| c.v()));
            if got != m.comps[*t].get(&id).copied() { return fail(tags, format!("{}: after writing through the items, component {t} of entity {id} is {got:?}, expected {:?}", s.name, m.comps[*t].get(&id))); }
        }
    }
    Ok(())
}

fn none(_: &Model, _: usize) -> bool { false }
fn has(t: usize) -> impl Fn(&Model, usize) -> bool { move |m, id| m.comps[t].contains_key(&id) }

pub fn single(w: &World, m: &mut Model, mode: Mode, seed: u64) -> R {
    for t in 0..NT {
        if !m.reg[t] { continue; }
        with_t!(t, T, {
            rq::<&T>(w, m, &Shape { name: "&T", req: &[(t, false)], excl: &none, exact: true, tag: "C07" }, mode, seed)?;
            rq::<&mut T>(w, m, &Shape { name: "&mut T", req: &[(t, true)], excl: &none, exact: true, tag: "C07" }, mode, seed)?;
        })
    }
    Ok(())
}

macro_rules! shape { ($w:ident $m:ident $mode:ident $seed:ident $which:ident $k:ident; $tag:literal $exact:literal $q:ty => [$(($t:literal,$mu:literal)),*] $excl:expr) => {{
    $k += 1;
    if $which.map_or(true, |x| x == $k) {
        rq::<$q>($w, $m, &Shape { name: stringify!($q), req: &[$(($t,$mu)),*], excl: &$excl, exact: $exact, tag: $tag }, $mode, $seed)?;
    }
}} }

pub const JOINS: usize = 23;
/// every registered; `which` selects one shape, None runs all
pub fn joins(w: &World, m: &mut Model, mode: Mode, seed: u64, which: Option<usize>) -> R {
    let mut k = 0usize;
    macro_rules! j { ($q:ty => [$(($t:literal,$mu:literal)),*]) => { shape!(w m mode seed which k; "C08" false $q => [$(($t,$mu)),*] none) } }
    j!((&A, &B) => [(0,false),(1,false)]);
    j!((&B, &A) => [(1,false),(0,false)]);
    j!((&mut A, &B) => [(0,true),(1,false)]);
    j!((&A, &mut B) => [(0,false),(1,true)]);
    j!((&mut A, &mut B) => [(0,true),(1,true)]);
    j!((&E, &mut C) => [(4,false),(2,true)]);
    j!((&mut D, &mut E) => [(3,true),(4,true)]);
    j!((&A, (&B, &C)) => [(0,false),(1,false),(2,false)]);
    j!(((&A, &D), &mut B) => [(0,false),(3,false),(1,true)]);
    j!(((&mut C, &A), (&B, &mut E)) => [(2,true),(0,false),(1,false),(4,true)]);
    j!((&A, &B, &C) => [(0,false),(1,false),(2,false)]);
    j!((&mut A, &B, &mut E) => [(0,true),(1,false),(4,true)]);
    j!((&C, &mut B, &A) => [(2,false),(1,true),(0,false)]);
    j!((&D, (&A, &mut C), &B) => [(3,false),(0,false),(2,true),(1,false)]);
    j!((&A, &B, &C, &D) => [(0,false),(1,false),(2,false),(3,false)]);
    j!((&mut E, &mut C, &mut B, &mut A) => [(4,true),(2,true),(1,true),(0,true)]);
    j!((&A, &mut B, &C, &E) => [(0,false),(1,true),(2,false),(4,false)]);
    j!((&A, &B, &C, &D, &E) => [(0,false),(1,false),(2,false),(3,false),(4,false)]);
    j!((&mut E, &mut D, &mut C, &mut B, &mut A) => [(4,true),(3,true),(2,true),(1,true),(0,true)]);
    j!((&B, &mut A, &E, &mut C, &D) => [(1,false),(0,true),(4,false),(2,true),(3,false)]);
    j!((&A, &A) => [(0,false),(0,false)]);
    j!((&C, &B, &C) => [(2,false),(1,false),(2,false)]);
    j!(((&A, &B), (&A, &C), &mut D) => [(0,false),(1,false),(0,false),(2,false),(3,true)]);
    assert_eq!(k, JOINS);
    Ok(())
}

pub const WITHOUTS: usize = 16;
pub fn withouts(w: &World, m: &mut Model, mode: Mode, seed: u64, which: Option<usize>) -> R {
    let mut k = 0usize;
    macro_rules! j { ($q:ty => [$(($t:literal,$mu:literal)),*] $e:expr) => { shape!(w m mode seed which k; "C09" false $q => [$(($t,$mu)),*] $e) } }
    j!((&A, Without<&B>) => [(0,false)] has(1));
    j!((Without<&B>, &A) => [(0,false)] has(1));
    j!((&mut A, Without<&B>) => [(0,true)] has(1));
    j!((Without<&mut B>, &mut C) => [(2,true)] has(1));
    j!((&B, Without<&mut A>) => [(1,false)] has(0));
    j!((Without<&A>, &E) => [(4,false)] has(0));
    j!((&D, Without<&E>) => [(3,false)] has(4));
    j!((Without<(&A, &B)>, &C) => [(2,false)] |m: &Model, i: usize| m.has_all(i, &[0, 1]));
    j!((&C, Without<(&A, &mut B)>) => [(2,false)] |m: &Model, i: usize| m.has_all(i, &[0, 1]));
    j!(((&A, &mut B), Without<&C>) => [(0,false),(1,true)] has(2));
    j!((Without<&C>, (&A, &B)) => [(0,false),(1,false)] has(2));
    j!((Without<&D>, (&A, Without<&B>)) => [(0,false)] |m: &Model, i: usize| m.comps[3].contains_key(&i) || m.comps[1].contains_key(&i));
    j!((&A, Without<(&B, Without<&C>)>) => [(0,false)] |m: &Model, i: usize| m.comps[1].contains_key(&i) && !m.comps[2].contains_key(&i));
    j!((Without<(Without<&C>, &B)>, &A) => [(0,false)] |m: &Model, i: usize| m.comps[1].contains_key(&i) && !m.comps[2].contains_key(&i));
    j!((&A, &mut D, (&C, Without<&B>)) => [(0,false),(3,true),(2,false)] has(1));
    j!((&A, Without<&A>) => [(0,false)] has(0));
    assert_eq!(k, WITHOUTS);
    Ok(())
}

pub fn groups(w: &World, m: &mut Model, mode: Mode, seed: u64, which: Option<Kind>) -> R {
    for (kind, a, b) in m.groups.clone() {
        if a == b || which.map_or(false, |k| k != kind) { continue; }
        macro_rules! go { ($G:ident, $tag:literal) => { with_copy_t!(a, TA, with_copy_t!(b, TB, {
            let nm = |x: &str| format!("{}<{x}> over components {a},{b}", stringify!($G));
            rq::<$G<&TA, &TB>>(w, m, &Shape { name: &nm("&,&"), req: &[(a,false),(b,false)], excl: &none, exact: true, tag: $tag }, mode, seed)?;
            rq::<$G<&TA, &mut TB>>(w, m, &Shape { name: &nm("&,&mut"), req: &[(a,false),(b,true)], excl: &none, exact: true, tag: $tag }, mode, seed)?;
            rq::<$G<&mut TA, &TB>>(w, m, &Shape { name: &nm("&mut,&"), req: &[(a,true),(b,false)], excl: &none, exact: true, tag: $tag }, mode, seed)?;
            rq::<$G<&mut TA, &mut TB>>(w, m, &Shape { name: &nm("&mut,&mut"), req: &[(a,true),(b,true)], excl: &none, exact: true, tag: $tag }, mode, seed)?;
        })) } }
        match kind { Kind::Full => go!(FullOwning, "C10"), Kind::Partial => go!(PartialOwning, "C11"), Kind::Non => go!(NonOwning, "C12") }
        // a group inside larger queries
        if mode == Mode::Yield && m.reg.iter().all(|x| *x) {
            macro_rules! go { ($G:ident, $tag:literal) => { with_copy_t!(a, TA, with_copy_t!(b, TB, {
                rq::<(&E, $G<&TA, &mut TB>)>(w, m, &Shape { name: "(&E, Group)", req: &[(4,false),(a,false),(b,true)], excl: &none, exact: false, tag: $tag }, mode, seed)?;
                rq::<($G<&TA, &TB>, Without<&E>)>(w, m, &Shape { name: "(Group, Without<&E>)", req: &[(a,false),(b,false)], excl: &has(4), exact: false, tag: $tag }, mode, seed)?;
                rq::<(&mut E, Without<$G<&TA, &TB>>)>(w, m, &Shape { name: "(&mut E, Without<Group>)", req: &[(4,true)], excl: &|m: &Model, i: usize| m.has_all(i, &[a, b]), exact: false, tag: $tag }, mode, seed)?;
            })) } }
            match kind { Kind::Full => go!(FullOwning, "C10"), Kind::Partial => go!(PartialOwning, "C11"), Kind::Non => go!(NonOwning, "C12") }
        }
    }
    Ok(())
}

pub fn resources(w: &World, m: &Model) -> R {
    let a = w.resource_read::<Res0>().map(|x| x.0);
    let b = w.resource_read::<Res1>().map(|x| x.0.parse::<u64>().unwrap_or(u64::MAX));
    let aw = w.resource_write::<Res0>().map(|x| x.0);
    let bw = w.resource_write::<Res1>().map(|x| x.0.parse::<u64>().unwrap_or(u64::MAX));
    if a != m.res[0] || aw != m.res[0] || b != m.res[1] || bw != m.res[1] {
        return fail(&["C15"], format!("resources read as {a:?}/{aw:?}, {b:?}/{bw:?}; expected {:?}", m.res));
    }
    if w.resource_read::<u16>().is_some() || w.resource_write::<u16>().is_some() { return fail(&["C15"], "a resource nobody registered is present".into()); }
    Ok(())
}
#[derive(Debug)] pub struct Res0(pub u64);
pub struct Res1(pub String);
impl std::fmt::Display for Res0 { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "r{}", self.0) } }
