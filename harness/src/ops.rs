//! The operations of a history, and one step: run it on the real world and on the model, compare.
use crate::model::*;
use crate::obs::*;
use crate::types::*;
use crate::{with_copy_t, with_t};
use std::panic::{catch_unwind, AssertUnwindSafe};
use xecs::group::*;
use xecs::World;

#[derive(Clone, Debug, PartialEq)]
pub enum Op {
    Reg(usize),
    Create(Vec<usize>, u64),
    // attach these types (repeats overwrite); 100+10t+k: detach type t from the k-th entity of the batch
    // in between, 200+10t+k: attach it there in between
    CreateN(usize, Vec<usize>, u64),
    CreateNBad(usize, usize, i64),        // batch with components.len() = n + delta
    Remove(usize),
    DropE(usize),
    Attach(usize, usize, u64, bool),      // type, id, value, through the entity handle
    Detach(usize, usize, bool),
    Write(usize, usize, u64, usize),      // type, id, value, way
    Group(Kind, usize, usize),
    Res(usize, u64),
    ResW(usize, u64),
    Bump(usize),                          // run query shape k, writing through the items
    BadQuery(usize),
}

pub fn show(h: &[Op]) -> String {
    h.iter().map(|o| match o {
        Op::Reg(t) => format!("reg {t}"),
        Op::Create(ts, v) => format!("create {} {v}", list(ts)),
        Op::CreateN(n, ts, v) => format!("createn {n} {} {v}", list(ts)),
        Op::CreateNBad(n, t, d) => format!("createnbad {n} {t} {d}"),
        Op::Remove(i) => format!("remove {i}"),
        Op::DropE(i) => format!("drop {i}"),
        Op::Attach(t, i, v, e) => format!("attach {t} {i} {v} {}", *e as u8),
        Op::Detach(t, i, e) => format!("detach {t} {i} {}", *e as u8),
        Op::Write(t, i, v, w) => format!("write {t} {i} {v} {w}"),
        Op::Group(k, a, b) => format!("group {} {a} {b}", match k { Kind::Full => "full", Kind::Partial => "partial", Kind::Non => "non" }),
        Op::Res(k, v) => format!("res {k} {v}"),
        Op::ResW(k, v) => format!("resw {k} {v}"),
        Op::Bump(k) => format!("bump {k}"),
        Op::BadQuery(k) => format!("badquery {k}"),
    }).collect::<Vec<_>>().join("; ")
}
fn list(t: &[usize]) -> String { if t.is_empty() { "-".into() } else { t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") } }
pub fn parse(s: &str) -> Vec<Op> {
    s.split(';').map(|x| x.trim()).filter(|x| !x.is_empty()).map(|o| {
        let p: Vec<&str> = o.split_whitespace().collect();
        let n = |i: usize| p[i].parse::<usize>().unwrap();
        let v = |i: usize| p[i].parse::<u64>().unwrap();
        let l = |i: usize| if p[i] == "-" { vec![] } else { p[i].split(',').map(|x| x.parse().unwrap()).collect() };
        match p[0] {
            "reg" => Op::Reg(n(1)), "create" => Op::Create(l(1), v(2)), "createn" => Op::CreateN(n(1), l(2), v(3)),
            "createnbad" => Op::CreateNBad(n(1), n(2), p[3].parse().unwrap()),
            "remove" => Op::Remove(n(1)), "drop" => Op::DropE(n(1)),
            "attach" => Op::Attach(n(1), n(2), v(3), n(4) == 1), "detach" => Op::Detach(n(1), n(2), n(3) == 1),
            "write" => Op::Write(n(1), n(2), v(3), n(4)),
            "group" => Op::Group(match p[1] { "full" => Kind::Full, "partial" => Kind::Partial, _ => Kind::Non }, n(2), n(3)),
            "res" => Op::Res(n(1), v(2)), "resw" => Op::ResW(n(1), v(2)), "bump" => Op::Bump(n(1)), "badquery" => Op::BadQuery(n(1)),
            x => panic!("unknown op {x}"),
        }
    }).collect()
}

pub fn code(c: usize) -> (usize, usize, usize) { if c < 100 { (0, c, 0) } else { (c / 100, c % 100 / 10, c % 10) } }

pub fn valid(m: &Model, o: &Op) -> bool {
    match o {
        Op::Reg(t) => !m.reg[*t],
        Op::Create(ts, _) => ts.iter().all(|t| m.reg[*t]),
        Op::CreateN(n, ts, _) => ts.iter().all(|c| { let (_, t, k) = code(*c); m.reg[t] && (*c < 100 || k < *n) }),
        Op::CreateNBad(..) | Op::BadQuery(_) => false,
        Op::Remove(i) => m.live.contains(i),
        Op::DropE(i) => m.live.contains(i),
        Op::Attach(t, i, ..) | Op::Detach(t, i, ..) => m.reg[*t] && m.live.contains(i),
        Op::Write(..) => true,
        Op::Group(k, a, b) => m.group_ok((*k, *a, *b)),
        Op::Res(..) | Op::ResW(..) => true,
        Op::Bump(_) => m.reg[..NB].iter().all(|x| *x),
    }
}
/// properties an unexpected panic, hang or wrong result of this operation speaks about
pub fn op_tags(o: &Op) -> &'static [&'static str] {
    match o {
        Op::Reg(_) => &["C16"],
        Op::Create(..) => &["C01", "C03"],
        Op::CreateN(..) => &["C02", "C05"],
        Op::CreateNBad(..) | Op::BadQuery(_) => &["C16"],
        Op::Remove(_) | Op::DropE(_) => &["C06"],
        Op::Attach(..) | Op::Detach(..) => &["C04"],
        Op::Write(..) => &["C18"],
        Op::Group(..) => &["C13"],
        Op::Res(..) | Op::ResW(..) => &["C15"],
        Op::Bump(_) => &["C07", "C08"],
    }
}

pub struct Ctx { pub w: Option<World>, pub m: Model, pub seed: u64 }
impl Ctx { pub fn new(seed: u64) -> Ctx { LIVE_E.with(|c| c.set(0)); Ctx { w: Some(World::new()), m: Model::new(), seed } } }

fn wrong(o: &Op, extra: &[&'static str], s: String) -> R { let mut p = op_tags(o).to_vec(); p.extend(extra); fail(&p, s) }

/// run one operation; Err is a disagreement between the real code and the specification
pub fn step(c: &mut Ctx, o: &Op) -> R {
    let ok = valid(&c.m, o);
    let m0 = c.m.clone();
    let r = { let Ctx { w, m, seed } = c; let w = w.as_mut().unwrap(); let s = *seed;
        catch_unwind(AssertUnwindSafe(|| run(w, m, o, s))) };
    match (r, ok) {
        (Err(e), true) => {
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            let mut p = op_tags(o).to_vec(); p.push("C17");
            if let Op::Attach(..) | Op::Detach(..) | Op::Remove(_) | Op::DropE(_) | Op::CreateN(..) | Op::Group(..) = o { p.extend(group_tags(&m0)); }
            fail(&p, format!("`{}` panicked: {msg}", show(std::slice::from_ref(o))))
        }
        (Err(_), false) => { c.m = m0; Ok(()) }
        (Ok(r), true) => r,
        (Ok(_), false) => {
            // writes to absent things are not rejected but must do nothing; everything else must be rejected
            let extra: &[&str] = match o { Op::Group(..) => &["C13", "C16"], _ => &["C16"] };
            fail(extra, format!("`{}` must be rejected, but it returned", show(std::slice::from_ref(o))))
        }
    }
}
pub fn group_tags(m: &Model) -> Vec<&'static str> {
    let mut v = vec![];
    for (k, t) in [(Kind::Full, "C10"), (Kind::Partial, "C11"), (Kind::Non, "C12")] { if m.groups.iter().any(|g| g.0 == k) { v.push(t); } }
    v
}

fn run(w: &mut World, m: &mut Model, o: &Op, seed: u64) -> R {
    match o {
        Op::Reg(t) => {
            with_t!(*t, T, { w.register::<T>(); });
            m.reg[*t] = true;
            for t in 0..NT { if with_t!(t, T, w.has_registered::<T>()) != m.reg[t] { return wrong(o, &[], format!("has_registered is wrong for component {t}")); } }
        }
        Op::Create(ts, v) => {
            let had_free = !m.free.is_empty();
            let mut e = w.create_entity();
            let mut i = 0u64;
            for t in ts { let x = *v + i; i += 1; e = with_t!(*t, T, e.attach(T::mk(x))); }
            let id = e.into_id().get();
            let want = m.create();
            if id != want {
                if m0_live(m, want, id) { return wrong(o, &[], format!("create_entity returned {id}, which is alive")); }
                return fail(&["C03"], format!("create_entity returned {id}, expected {want} ({})", if had_free { "the id removed last" } else { "the smallest unused id" }));
            }
            for (i, t) in ts.iter().enumerate() { m.comps[*t].insert(id, norm(*t, v + i as u64)); }
        }
        Op::CreateN(n, ts, v) => {
            let base = m.next;
            let mut e = w.create_entities(*n);
            for (k, c) in ts.iter().enumerate() {
                let (what, t, j) = code(*c);
                let v0 = v + 1000 * k as u64;
                match what {
                    1 => { with_t!(t, T, { w.detach_component::<T>(eid(base + j)); }) }
                    2 => { with_t!(t, T, w.attach_component::<T>(eid(base + j), T::mk(v0))) }
                    _ => {
                        let vals: Vec<u64> = (0..*n as u64).map(|i| v0 + i).collect();
                        e = with_t!(t, T, e.attach::<T, Vec<T>>(vals.iter().map(|x| T::mk(*x)).collect()));
                    }
                }
            }
            let ids = e.into_ids();
            let got = ids.start.get()..ids.end.get();
            let want = m.create_n(*n);
            if got != want {
                let mut p = vec!["C02"];
                if got.clone().any(|i| i < want.start && m.live.contains(&i)) { p.push("C01"); }
                return fail(&p, format!("create_entities({n}) returned {got:?}, expected {want:?}"));
            }
            for (k, c) in ts.iter().enumerate() {
                let (what, t, j) = code(*c);
                let v0 = v + 1000 * k as u64;
                match what {
                    1 => { m.comps[t].remove(&(want.start + j)); }
                    2 => { m.comps[t].insert(want.start + j, norm(t, v0)); }
                    _ => for (j, id) in want.clone().enumerate() { m.comps[t].insert(id, norm(t, v0 + j as u64)); }
                }
            }
        }
        Op::CreateNBad(n, t, d) => {
            let e = w.create_entities(*n);
            let want = m.create_n(*n);
            // the batch itself exists even though its components are refused
            let len = (*n as i64 + *d).max(0) as usize;
            if len == *n && m.reg[*t] { panic!("not a bad batch"); }
            let r = catch_unwind(AssertUnwindSafe(|| { with_t!(*t, T, { e.attach::<T, Vec<T>>((0..len).map(|x| T::mk(x as u64)).collect()); }) }));
            let _ = want;
            let keep = m.clone();
            if r.is_ok() { return Ok(()); } // reported by step(): it must be rejected
            exist(w, &keep, &["C16"]).and_then(|_| comps(w, &keep, &["C16"]))?;
            BAD.with(|b| *b.borrow_mut() = Some(keep));
            panic!("rejected");
        }
        Op::Remove(i) => {
            w.remove_entity(eid(*i));
            m.remove(*i);
        }
        Op::DropE(i) => {
            w.entity(eid(*i)).unwrap().manaully_drop();
            m.remove(*i);
        }
        Op::Attach(t, i, v, e) => {
            with_t!(*t, T, if *e { w.entity(eid(*i)).unwrap().attach(T::mk(*v)); } else { w.attach_component(eid(*i), T::mk(*v)) });
            m.comps[*t].insert(*i, norm(*t, *v));
        }
        Op::Detach(t, i, e) => {
            let got = with_t!(*t, T, if *e { w.entity(eid(*i)).unwrap().detach::<T>().map(|x| x.v()) } else { w.detach_component::<T>(eid(*i)).map(|x| x.v()) });
            let want = m.comps[*t].remove(i);
            if got != want { return wrong(o, &[], format!("detaching component {t} of entity {i} returned {got:?}, expected {want:?}")); }
        }
        Op::Write(t, i, v, way) => {
            let has = m.reg[*t] && m.comps[*t].contains_key(i);
            let done = with_t!(*t, T, match way {
                0 => match w.entity_component_write::<T>(eid(*i)) { Some(mut g) => { *g = T::mk(*v); true } None => false },
                1 => match w.components_write::<T>() { Some(mut s) => match s.get_mut(eid(*i)) { Some(x) => { *x = T::mk(*v); true } None => false }, None => false },
                _ => match w.entity(eid(*i)) { Some(h) => match h.component_write::<T>() { Some(mut g) => { *g = T::mk(*v); true } None => false }, None => false },
            });
            if done != has { return wrong(o, &[], format!("writing component {t} of entity {i} (way {way}) succeeded: {done}, expected {has}")); }
            if has { m.comps[*t].insert(*i, norm(*t, *v)); }
        }
        Op::Group(k, a, b) => {
            with_copy_t!(*a, TA, with_copy_t!(*b, TB, match k {
                Kind::Full => w.make_group(full_owning::<TA, TB>()),
                Kind::Partial => w.make_group(partial_owning::<TA, TB>()),
                Kind::Non => w.make_group(non_owning::<TA, TB>()),
            }));
            m.groups.push((*k, *a, *b));
        }
        Op::Res(k, v) => { if *k == 0 { w.register_resource(Res0(*v)) } else { w.register_resource(Res1(v.to_string())) } m.res[*k] = Some(*v); }
        Op::ResW(k, v) => {
            if *k == 0 { if let Some(mut r) = w.resource_write::<Res0>() { r.0 = *v; m.res[0] = m.res[0].map(|_| *v); } }
            else if let Some(mut r) = w.resource_write::<Res1>() { r.0 = v.to_string(); m.res[1] = m.res[1].map(|_| *v); }
        }
        Op::Bump(k) => {
            if *k < JOINS { joins(w, m, Mode::Yield, seed, Some(k + 1))?; }
            else if *k < JOINS + WITHOUTS { withouts(w, m, Mode::Yield, seed, Some(k - JOINS + 1))?; }
            else { single(w, m, Mode::Yield, seed)?; }
        }
        Op::BadQuery(k) => {
            // a query over something that is not there must be refused
            let mut bad: Vec<Box<dyn Fn(&World)>> = vec![];
            for t in 0..NT { if !m.reg[t] {
                with_t!(t, T, { bad.push(Box::new(|w| { w.query::<&T>(); })); bad.push(Box::new(|w| { w.query::<&mut T>(); })); });
            } }
            for a in 0..4 { for b in 0..4 { if a != b { with_copy_t!(a, TA, with_copy_t!(b, TB, {
                macro_rules! g { ($K:ident, $G:ident) => { if !m.groups.contains(&(Kind::$K, a, b)) {
                    bad.push(Box::new(|w| { w.query::<$G<&TA, &TB>>(); })); bad.push(Box::new(|w| { w.query::<$G<&mut TA, &TB>>(); }));
                    bad.push(Box::new(|w| { w.query::<$G<&TA, &mut TB>>(); })); bad.push(Box::new(|w| { w.query::<$G<&mut TA, &mut TB>>(); }));
                } } }
                g!(Full, FullOwning); g!(Partial, PartialOwning); g!(Non, NonOwning);
            })) } } }
            if bad.is_empty() { panic!("nothing to refuse"); }
            bad[*k % bad.len()](w);
        }
    }
    Ok(())
}
fn m0_live(m: &Model, just: usize, id: usize) -> bool { id != just && m.live.contains(&id) }
thread_local! { pub static BAD: std::cell::RefCell<Option<Model>> = const { std::cell::RefCell::new(None) }; }
