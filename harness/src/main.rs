mod model; mod obs; mod ops; mod types;
use model::*; use obs::*; use ops::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::*};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use std::panic::{catch_unwind, AssertUnwindSafe};

pub struct Rng(u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn chance(&mut self, num: usize, den: usize) -> bool { self.below(den) < num }
}

/// what is observed after the operations, per property
fn observe(c: &mut Ctx, p: &str, last: Option<&Op>, full: bool) -> R {
    let seed = c.seed.wrapping_mul(0x2545F4914F6CDD1D) ^ 0x5555;
    let Ctx { w, m, .. } = c;
    let w: &xecs::World = w.as_ref().unwrap();
    let all = m.reg[..NB].iter().all(|x| *x);
    let mut ctags: Vec<&'static str> = vec!["C04"];
    if let Some(o) = last { match o { Op::CreateN(..) => ctags.push("C05"), Op::Remove(_) | Op::DropE(_) | Op::Create(..) => ctags.push("C06"), Op::Write(..) => ctags.push("C18"), Op::Group(..) => ctags.extend(["C13"]), _ => {} } }
    let g = catch_unwind(AssertUnwindSafe(|| -> R {
        match p {
            "C01" | "C02" | "C03" => exist(w, m, &["C01", "C02", "C03"]),
            "C04" => comps(w, m, &ctags),
            "C05" => { comps(w, m, &ctags)?; if let Some(Op::CreateN(..)) = last { retag(groups(w, m, Mode::Yield, seed, None), "C05")?; retag(single(w, m, Mode::Yield, seed), "C05")?; } Ok(()) }
            "C06" => { exist(w, m, &["C06", "C01"])?; comps(w, m, &ctags)?; if let Some(Op::Remove(_) | Op::DropE(_) | Op::Create(..)) = last { retag(groups(w, m, Mode::Yield, seed, None), "C06")?; retag(single(w, m, Mode::Yield, seed), "C06")?; } Ok(()) }
            "C07" => single(w, m, Mode::Yield, seed),
            "C08" => if all { joins(w, m, Mode::Yield, seed, if full { None } else { Some(1 + (seed >> 7) as usize % JOINS) }) } else { Ok(()) },
            "C09" => if all { withouts(w, m, Mode::Yield, seed, if full { None } else { Some(1 + (seed >> 7) as usize % WITHOUTS) }) } else { Ok(()) },
            "C10" => groups(w, m, Mode::Yield, seed, Some(Kind::Full)),
            "C11" => groups(w, m, Mode::Yield, seed, Some(Kind::Partial)),
            "C12" => groups(w, m, Mode::Yield, seed, Some(Kind::Non)),
            "C13" => { comps(w, m, &ctags)?; retag(groups(w, m, Mode::Yield, seed, None), "C13") }
            "C14" => { single(w, m, Mode::Hint, seed)?; groups(w, m, Mode::Hint, seed, None)?; if all { joins(w, m, Mode::Hint, seed, Some(1 + (seed >> 7) as usize % JOINS))?; withouts(w, m, Mode::Hint, seed, Some(1 + (seed >> 9) as usize % WITHOUTS))?; } Ok(()) }
            "C15" => { resources(w, m)?; if let Some(g) = w.resource_read::<Res0>() { if format!("{}", g) != format!("r{}", g.0) || !format!("{:?}", g).contains(&format!("{:?}", *g)) { return fail(&["C15"], "guard formats another value".into()); } } Ok(()) }
            "C16" => { exist(w, m, &["C16"])?; comps(w, m, &["C16"])?; resources(w, m).map_err(|e| Fail { props: vec!["C16"], what: e.what })?; retag(groups(w, m, Mode::Yield, seed, None), "C16")?; retag(single(w, m, Mode::Yield, seed), "C16") }
            "C17" => { exist(w, m, &["C01"])?; comps(w, m, &ctags)?; storage(w, m, full)?; single(w, m, Mode::Yield, seed)?; single(w, m, Mode::Lookup, seed)?; groups(w, m, Mode::Yield, seed, None)?; groups(w, m, Mode::Lookup, seed, None)?; if all { joins(w, m, Mode::Yield, seed, if full { None } else { Some(1 + (seed >> 7) as usize % JOINS) })?; withouts(w, m, Mode::Yield, seed, if full { None } else { Some(1 + (seed >> 7) as usize % WITHOUTS) })?; } Ok(()) }
            "C18" => storage(w, m, true),
            "C19" => { single(w, m, Mode::Lookup, seed)?; groups(w, m, Mode::Lookup, seed, None)?; if all { joins(w, m, Mode::Lookup, seed, Some(1 + (seed >> 7) as usize % JOINS))?; withouts(w, m, Mode::Lookup, seed, Some(1 + (seed >> 9) as usize % WITHOUTS))?; } Ok(()) }
            _ => panic!("unknown property {p}"),
        }
    }));
    match g {
        Ok(r) => r,
        Err(e) => {
            let msg = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default();
            let pp: &'static str = PROPS.iter().find(|x| **x == p).unwrap();
            fail(&[pp, "C17"], format!("observing the world panicked: {msg}"))
        }
    }
}
fn retag(r: R, t: &'static str) -> R { r.map_err(|mut e| { e.props.push(t); e }) }
pub const PROPS: [&str; 19] = ["C01","C02","C03","C04","C05","C06","C07","C08","C09","C10","C11","C12","C13","C14","C15","C16","C17","C18","C19"];

/// the correct calls of a history succeed when the refused ones are left out
fn clean(h: &[Op], seed: u64) -> bool {
    let mut c = Ctx::new(seed);
    for (i, o) in h.iter().enumerate() {
        c.seed = seed ^ ((i as u64) << 32);
        let o = if let Op::CreateNBad(n, ..) = o { Op::CreateN(*n, vec![], 0) } else { o.clone() };
        if valid(&c.m, &o) && step(&mut c, &o).is_err() { return false; }
    }
    true
}

/// run a history; observe after each step (every=true) or at the end
pub fn history(h: &[Op], p: &str, seed: u64, every: bool) -> Result<(), (usize, Fail)> {
    let mut c = Ctx::new(seed);
    let mut rejected = false;
    for (i, o) in h.iter().enumerate() {
        c.seed = seed ^ ((i as u64) << 32);
        let was_valid = valid(&c.m, o);
        if !was_valid && matches!(o, Op::Create(..) | Op::CreateN(..) | Op::Bump(_)) { return Ok(()); } // not a case of its own
        BAD.with(|b| *b.borrow_mut() = None);
        if let Err(mut e) = step(&mut c, o) {
            // a correct call fails after refused ones, and does not fail without them: the refused ones left something behind
            if rejected && was_valid && clean(&h[..=i], seed) {
                e.props.push("C16");
                let mut m = Model::new();
                if h[..i].iter().any(|o| { let v = valid(&m, o); if v { sim(&mut m, o) } else if let Op::CreateNBad(n, ..) = o { m.create_n(*n); } !v && matches!(o, Op::Group(..)) }) { e.props.push("C13"); }
            }
            return Err((i, e));
        }
        if let Some(k) = BAD.with(|b| b.borrow_mut().take()) { c.m = k; }
        rejected |= !was_valid;
        let lastp = i + 1 == h.len();
        if every || lastp || (!was_valid && p == "C16") {
            if p == "C16" && !rejected { continue; }
            observe(&mut c, p, Some(o), lastp).map_err(|e| (i, e))?;
        }
    }
    // everything stored is released exactly once with the world
    let r = catch_unwind(AssertUnwindSafe(|| drop(c.w.take())));
    if r.is_err() { return Err((h.len(), Fail { props: vec!["C17"], what: "dropping the world panicked".into() })); }
    let l = types::LIVE_E.with(|c| c.get());
    if l != 0 { return Err((h.len(), Fail { props: vec!["C04", "C06", "C17"], what: format!("{l} component instances outlive the world") })); }
    Ok(())
}

fn gen(p: &str, r: &mut Rng, big: bool) -> Vec<Op> {
    let len = if big { *r.pick(&[8usize, 30, 80, 300]) } else { *r.pick(&[6usize, 12, 25, 50, 110]) };
    let pool = if big { *r.pick(&[150usize, 400, 1100]) } else { *r.pick(&[2usize, 4, 7, 20, 70]) };
    let ids_only = matches!(p, "C01" | "C02" | "C03");
    let bad = matches!(p, "C16" | "C13" | "C01");
    let groupy = matches!(p, "C05" | "C06" | "C10" | "C11" | "C12" | "C13" | "C14" | "C16" | "C17" | "C19" | "C04") ;
    let ntypes = if matches!(p, "C10" | "C11" | "C12" | "C13") { 3 + r.below(3) } else { 5 };
    let mut m = Model::new();
    let mut h = vec![];
    let mut v = 1u64;
    let mut push = |m: &mut Model, h: &mut Vec<Op>, o: Op| {
        if valid(m, &o) { sim(m, &o); }
        else if let Op::CreateNBad(n, ..) = &o { m.create_n(*n); }
        h.push(o);
    };
    for t in 0..NB { if (t < ntypes || !matches!(p, "C16")) && !(p == "C16" && r.chance(1, 8)) { push(&mut m, &mut h, Op::Reg(t)); } }
    let wide = r.chance(1, 6);
    if wide { for t in NB..NT { if r.chance(7, 8) { push(&mut m, &mut h, Op::Reg(t)); } } }
    let regd = m.reg;
    let group = |r: &mut Rng| {
        let a = r.below(4); let mut b = r.below(4); if a == b { b = (b + 1) % 4; }
        let k = match p { "C10" if r.chance(2, 3) => Kind::Full, "C11" if r.chance(2, 3) => Kind::Partial, "C12" if r.chance(2, 3) => Kind::Non, _ => *r.pick(&[Kind::Full, Kind::Partial, Kind::Non]) };
        Op::Group(k, a, b)
    };
    if groupy && r.chance(2, 3) { for _ in 0..1 + r.below(3) { let g = group(r); if valid(&m, &g) { push(&mut m, &mut h, g); } } }
    let removal = r.below(4);
    for _ in 0..len {
        v += 1;
        let live: Vec<usize> = m.live.iter().copied().collect();
        let id = |r: &mut Rng| if live.is_empty() || (bad && r.chance(1, 10)) { 1 + r.below(m.next + 3) } else { *r.pick(&live) };
        let ts = |r: &mut Rng| { let mut l: Vec<usize> = (0..NT).filter(|t| (*t < NB || regd[*t]) && r.chance(1, 2)).collect(); if r.chance(1, 6) && !l.is_empty() { let x = *r.pick(&l); l.push(x); } l };
        let x = r.below(100);
        let o = if ids_only {
            if x < 40 - 8 * removal { if live.len() < pool { Op::Create(if r.chance(1, 5) { vec![r.below(5)] } else { vec![] }, v) } else { Op::Remove(id(r)) } }
            else if x < 48 - 8 * removal { Op::CreateN(if big { r.below(300) } else { r.below(pool.min(9)) }, vec![], v) }
            else if x < 95 { if r.chance(1, 6) { Op::DropE(id(r)) } else { Op::Remove(id(r)) } }
            else { Op::Attach(r.below(5), id(r), v, r.chance(1, 2)) }
        } else if live.len() < if big { 60 } else { 2 } || x < 12 { if live.len() < pool { if r.chance(1, 3) || p == "C05" {
                let n = if r.chance(1, 8) { pool } else if big { 20 + r.below(280) } else { r.below(6) };
                let mut l = ts(r);
                if n > 0 && r.chance(1, if p == "C05" { 2 } else { 6 }) && !l.is_empty() { for _ in 0..1 + r.below(3) {
                    if r.chance(1, 3) { let t = *r.pick(&l); if t < 100 { l.push(t); } }
                    else { let t = r.below(5); let at = 1 + r.below(l.len()); l.insert(at, 100 * (1 + r.below(2)) + 10 * t + r.below(n.min(10))); }
                } }
                Op::CreateN(n, l, v * 7) } else { Op::Create(ts(r), v) } } else { Op::Remove(id(r)) } }
        else if x < 47 { Op::Attach(if wide && r.chance(1, 3) { NB + r.below(NT - NB) } else { r.below(ntypes.min(5)) }, id(r), v, r.chance(1, 2)) }
        else if x < 68 { Op::Detach(if wide && r.chance(1, 3) { NB + r.below(NT - NB) } else { r.below(ntypes.min(5)) }, id(r), r.chance(1, 2)) }
        else if x < 72 + 6 * removal { if r.chance(1, 6) { Op::DropE(id(r)) } else { Op::Remove(id(r)) } }
        else if x < 92 { Op::Write(r.below(5), id(r), v, r.below(3)) }
        else if x < 95 && groupy { group(r) }
        else if x < 97 { Op::Bump(r.below(JOINS + WITHOUTS + 1)) }
        else { if r.chance(1, 2) { Op::Res(r.below(2), v) } else { Op::ResW(r.below(2), v) } };
        let o = if p == "C15" && r.chance(3, 4) { if r.chance(1, 2) { Op::Res(r.below(2), v) } else { Op::ResW(r.below(2), v) } } else { o };
        let o = if p == "C13" && r.chance(1, 4) { group(r) } else { o };
        let o = if p == "C16" && r.chance(1, 3) {
            match r.below(8) {
                0 => Op::Reg(r.below(5)), 1 => Op::Remove(1 + r.below(m.next + 3)), 2 => Op::Attach(r.below(5), 1 + r.below(m.next + 3), v, false),
                3 => Op::Detach(r.below(5), 1 + r.below(m.next + 3), false), 4 => group(r), 5 => Op::BadQuery(r.below(4000)),
                6 => { let t = r.below(5); Op::CreateNBad(r.below(4), t, if m.reg[t] { *r.pick(&[-1, 1, 2]) } else { 0 }) }
                _ => Op::DropE(1 + r.below(m.next + 2)),
            }
        } else { o };
        // an entity whose attachments are refused half way stays behind half built: not a case of its own
        if let Op::Create(..) | Op::CreateN(..) | Op::Bump(_) = &o { if !valid(&m, &o) { continue; } }
        if let Op::CreateNBad(n, t, d) = &o { if m.reg[*t] && (*n as i64 + *d).max(0) as usize == *n { continue; } }
        if !valid(&m, &o) && !(bad || p == "C16") { continue; }
        if !valid(&m, &o) && p != "C16" && !matches!(o, Op::Group(..) | Op::Remove(_)) { continue; }
        push(&mut m, &mut h, o);
    }
    h
}
fn sim(m: &mut Model, o: &Op) {
    match o {
        Op::Reg(t) => m.reg[*t] = true,
        Op::Create(ts, v) => { let id = m.create(); for t in ts { m.comps[*t].insert(id, *v); } }
        Op::CreateN(n, ts, v) => { for (j, id) in m.create_n(*n).enumerate() { for c in ts { let (what, t, k) = code(*c); match what { 0 => { m.comps[t].insert(id, *v); } 1 if j == k => { m.comps[t].remove(&id); } 2 if j == k => { m.comps[t].insert(id, *v); } _ => {} } } } }
        Op::Remove(i) | Op::DropE(i) => m.remove(*i),
        Op::Attach(t, i, v, _) => { m.comps[*t].insert(*i, *v); }
        Op::Detach(t, i, _) => { m.comps[*t].remove(i); }
        Op::Group(k, a, b) => m.groups.push((*k, *a, *b)),
        _ => {}
    }
}

/// small-scope enumeration: prefixes x all sequences over an alphabet
fn scope(p: &str) -> (Vec<Vec<Op>>, Vec<Op>) {
    let regs = |n: usize| (0..n).map(Op::Reg).collect::<Vec<_>>();
    let with = |a: Vec<Op>, b: Vec<Op>| { let mut x = a; x.extend(b); x };
    let cr = |ts: &[usize], v| Op::Create(ts.to_vec(), v);
    match p {
        "C01" | "C02" | "C03" => (vec![vec![], vec![cr(&[], 1), cr(&[], 2), cr(&[], 3)]],
            with(vec![cr(&[], 1), Op::CreateN(2, vec![], 1), Op::CreateN(0, vec![], 1), Op::DropE(2)], (1..=4).map(Op::Remove).collect())),
        "C15" => (vec![vec![]], vec![Op::Res(0, 1), Op::Res(0, 2), Op::Res(1, 3), Op::ResW(0, 4), Op::ResW(1, 5), Op::Reg(0)]),
        "C10" | "C11" | "C12" | "C13" | "C05" | "C06" | "C14" | "C19" | "C16" | "C17" => {
            let mut pre = vec![];
            let ents = vec![cr(&[0, 1], 10), cr(&[0], 20), cr(&[1, 0], 30)];
            let ks: Vec<Kind> = match p { "C10" => vec![Kind::Full], "C11" => vec![Kind::Partial], "C12" => vec![Kind::Non], _ => vec![Kind::Full, Kind::Partial, Kind::Non] };
            for k in &ks {
                pre.push(with(with(regs(2), vec![Op::Group(*k, 0, 1)]), ents.clone()));
                pre.push(with(with(regs(2), ents.clone()), vec![Op::Group(*k, 1, 0)]));
                pre.push(with(with(regs(3), vec![Op::Group(*k, 0, 1), Op::Group(Kind::Partial, 2, 1), Op::Group(Kind::Non, 0, 2)]), vec![cr(&[0, 1, 2], 10), cr(&[2, 0], 20), cr(&[1, 0, 2], 30)]));
            }
            let mut al: Vec<Op> = vec![];
            for i in 1..=3 { al.push(Op::Attach(0, i, 100 + i as u64, i % 2 == 0)); al.push(Op::Attach(1, i, 200 + i as u64, false)); al.push(Op::Detach(0, i, i == 2)); al.push(Op::Detach(1, i, false)); al.push(Op::Remove(i)); }
            al.push(cr(&[1, 0], 77)); al.push(Op::CreateN(2, vec![0, 1], 55)); if p == "C05" { for k in 0..2 { al.push(Op::CreateN(2, vec![0, 210 + k, 0, 1], 55)); al.push(Op::CreateN(2, vec![0, 1, 100 + k, 0], 55)); } }
            if p == "C13" || p == "C16" { al.push(Op::Group(Kind::Full, 0, 1)); al.push(Op::Group(Kind::Full, 1, 0)); al.push(Op::Group(Kind::Partial, 0, 1)); al.push(Op::Group(Kind::Non, 0, 1)); al.push(Op::Group(Kind::Non, 0, 3)); for k in ks { al.push(Op::Group(k, 3, 0)); } }
            if p == "C16" { al.push(Op::BadQuery(3)); al.push(Op::CreateNBad(2, 0, 1)); al.push(Op::CreateNBad(2, 0, -1)); al.push(Op::Reg(0)); }
            (pre, al)
        }
        _ => {
            let pre = vec![with(regs(5), vec![]), with(regs(5), vec![cr(&[0, 1], 10), cr(&[0, 2], 20), cr(&[1, 0, 3, 4, 2], 30)])];
            let mut al: Vec<Op> = vec![];
            for i in 1..=3 { al.push(Op::Attach(0, i, 100 + i as u64, i % 2 == 0)); al.push(Op::Attach(1, i, 200 + i as u64, false)); al.push(Op::Detach(0, i, i == 2)); al.push(Op::Detach(1, i, false)); al.push(Op::Remove(i)); al.push(Op::Write(0, i, 9, i % 3)); }
            al.push(cr(&[1, 4], 77)); al.push(Op::CreateN(2, vec![0, 4, 0], 55)); al.push(Op::Detach(4, 3, false)); al.push(Op::Attach(4, 3, 5, false));
            (pre, al)
        }
    }
}

struct Shared { fails: Mutex<Vec<(Vec<Op>, u64, usize, Vec<&'static str>, String, bool)>>, stop: AtomicBool, runs: AtomicU64, steps: AtomicU64, nontriv: AtomicU64, other: AtomicU64, samples: Mutex<Vec<String>>, cur: Vec<Mutex<(Instant, Vec<Op>, u64, bool)>>, seen: Vec<Mutex<std::collections::HashSet<u64>>> }

fn hash(h: &[Op]) -> u64 { use std::hash::*; let mut s = std::collections::hash_map::DefaultHasher::new(); show(h).hash(&mut s); s.finish() }

fn run_one(sh: &Shared, slot: usize, h: &[Op], p: &str, seed: u64, every: bool, trace: &Option<std::path::PathBuf>) {
    { let mut c = sh.cur[slot].lock().unwrap(); *c = (Instant::now(), h.to_vec(), seed, every); }
    if let Some(d) = trace { std::fs::write(d.join(format!("cur{slot}")), format!("{seed} {} {}", every as u8, show(h))).unwrap(); }
    let r = history(h, p, seed, every);
    sh.runs.fetch_add(1, Relaxed); sh.steps.fetch_add(h.len() as u64, Relaxed);
    if h.iter().filter(|o| !matches!(o, Op::Reg(_))).count() >= 2 && sh.seen[slot].lock().unwrap().insert(hash(h)) { sh.nontriv.fetch_add(1, Relaxed); }
    if let Err((i, f)) = r {
        if f.props.contains(&p) {
            sh.fails.lock().unwrap().push((h[..(i + 1).min(h.len())].to_vec(), seed, i, f.props, f.what, every));
            sh.stop.store(true, SeqCst);
        } else { sh.other.fetch_add(1, Relaxed); }
    }
}

fn minimise(h: Vec<Op>, p: &str, seed: u64, every: bool) -> Vec<Op> {
    let bad = |h: &[Op]| matches!(history(h, p, seed, every), Err((_, f)) if f.props.contains(&p));
    let mut h = h;
    if !bad(&h) { return h; }
    let t0 = Instant::now();
    loop {
        let mut ch = false;
        let mut n = (h.len() / 2).max(1);
        while n >= 1 {
            let mut i = 0;
            while i + n <= h.len() {
                if t0.elapsed() > Duration::from_secs(20) { return h; }
                let mut x = h.clone(); x.drain(i..i + n);
                if bad(&x) { h = x; ch = true; } else { i += 1; }
            }
            n /= 2;
        }
        if !ch { return h; }
    }
}
fn esc(s: &str) -> String { let mut o = String::new(); for c in s.chars() { match c { '"' => o.push_str("\\\""), '\\' => o.push_str("\\\\"), '\n' => o.push_str("\\n"), c if (c as u32) < 32 => o.push(' '), c => o.push(c) } } o }

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    if a[1] == "replay" {
        // replay PROP SEED EVERY HISTORY
        let h = parse(&a[5]);
        match history(&h, &a[2], a[3].parse().unwrap(), a[4] == "1") {
            Ok(()) => { println!("held: {}", show(&h)); }
            Err((i, f)) => { println!("FAILED properties={:?} at operation {} (`{}`): {}", f.props, i + 1, h.get(i).map(|o| show(std::slice::from_ref(o))).unwrap_or("end".into()), f.what); std::process::exit(if f.props.contains(&a[2].as_str()) { 1 } else { 3 }); }
        }
        return;
    }
    // explore PROP SEED DEPTH EXH_MAX RANDOM_RUNS SECONDS THREADS [tracedir]
    let p: &'static str = PROPS.iter().find(|x| **x == a[2]).expect("property");
    let seed: u64 = a[3].parse().unwrap();
    let depth: usize = a[4].parse().unwrap();
    let exh_max: u64 = a[5].parse().unwrap();
    let rnd: u64 = a[6].parse().unwrap();
    let secs: u64 = a[7].parse().unwrap();
    let nth: usize = a[8].parse().unwrap();
    let trace = a.get(9).map(|d| std::path::PathBuf::from(d));
    let t0 = Instant::now();
    let sh = Arc::new(Shared { fails: Mutex::new(vec![]), stop: AtomicBool::new(false), runs: AtomicU64::new(0), steps: AtomicU64::new(0), nontriv: AtomicU64::new(0), other: AtomicU64::new(0), samples: Mutex::new(vec![]),
        cur: (0..nth).map(|_| Mutex::new((Instant::now(), vec![], 0, false))).collect(), seen: (0..nth).map(|_| Mutex::new(Default::default())).collect() });
    let (pre, al) = scope(p);
    let k = al.len() as u64;
    // the deepest level that stays under exh_max
    let mut d = 0usize; let mut total = 0u64;
    for l in 1..=depth { let t: u64 = (1..=l).map(|x| k.pow(x as u32)).sum::<u64>() * pre.len() as u64; if t <= exh_max { d = l; total = t; } }
    let done = Arc::new(AtomicU64::new(0));
    let exh_done = Arc::new(AtomicBool::new(true));
    let mut hs = vec![];
    for slot in 0..nth {
        let sh = sh.clone(); let pre = pre.clone(); let al = al.clone(); let trace = trace.clone(); let done = done.clone(); let exh_done = exh_done.clone();
        hs.push(std::thread::spawn(move || {
            let mut n = 0u64;
            'o: for l in 1..=d { for pr in &pre { for i in 0..k.pow(l as u32) {
                n += 1;
                if n % nth as u64 != slot as u64 { continue; }
                if sh.stop.load(Relaxed) || t0.elapsed() > Duration::from_secs(secs) { exh_done.store(false, SeqCst); break 'o; }
                let mut h = pr.clone(); let mut x = i;
                for _ in 0..l { h.push(al[(x % k) as usize].clone()); x /= k; }
                // histories with refused operations are only for the properties about refusals
                if !matches!(p, "C16" | "C13") { let mut m = Model::new(); if !h.iter().all(|o| { let v = valid(&m, o); if v { sim(&mut m, o) } v }) { continue; } }
                else { let mut m = Model::new(); let mut ok = true; for o in &h { if valid(&m, o) { sim(&mut m, o) } else if let Op::CreateNBad(n, ..) = o { m.create_n(*n); } else if p == "C13" && !matches!(o, Op::Group(..)) { ok = false; break } } if !ok { continue; } }
                run_one(&sh, slot, &h, p, seed ^ i, false, &trace);
            } } }
            let mut j = slot as u64;
            while j < rnd && !sh.stop.load(Relaxed) && t0.elapsed() < Duration::from_secs(secs) {
                let mut r = Rng(seed.wrapping_mul(1_000_003).wrapping_add(j).wrapping_mul(0x9E3779B97F4A7C15) ^ hash(&[]) ^ p.as_bytes()[2] as u64);
                let big = j % 101 == 7;
                let h = gen(p, &mut r, big);
                if j < 2 { sh.samples.lock().unwrap().push(show(&h)); }
                let ev = j % 3 != 0 && !big;
                run_one(&sh, slot, &h, p, r.next(), ev, &trace);
                j += nth as u64;
            }
            { let mut c = sh.cur[slot].lock().unwrap(); c.1.clear(); }
            done.fetch_add(1, SeqCst);
        }));
    }
    // watchdog: a history that does not come back is a violation too
    let mut hung = None;
    while done.load(SeqCst) < nth as u64 {
        std::thread::sleep(Duration::from_millis(if t0.elapsed() < Duration::from_secs(2) { 20 } else { 200 }));
        for s in 0..nth { let c = sh.cur[s].lock().unwrap(); if !c.1.is_empty() && c.0.elapsed() > Duration::from_secs(25) { hung = Some((c.1.clone(), c.2, c.3)); } }
        if hung.is_some() { break; }
    }
    let f = sh.fails.lock().unwrap().drain(..).min_by_key(|x| x.0.len());
    let mut out = format!("{{\"property\":\"{p}\",\"runs\":{},\"steps\":{},\"distinct_nontrivial\":{},\"foreign_failures\":{},\"exhaustive_depth\":{d},\"exhaustive_alphabet\":{k},\"exhaustive_prefixes\":{},\"exhaustive_total\":{total},\"exhaustive_complete\":{},\"samples\":[{}]", sh.runs.load(SeqCst), sh.steps.load(SeqCst), sh.nontriv.load(SeqCst), sh.other.load(SeqCst), pre.len(), exh_done.load(SeqCst) && hung.is_none(), sh.samples.lock().unwrap().iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(","));
    let mut code = 0;
    if let Some((h, sd, _, _, _, ev)) = f {
        let hm = minimise(h.clone(), p, sd, ev);
        let (hm, r) = match history(&hm, p, sd, ev) { Err((i, f)) => (hm, (i, f.what)), Ok(()) => (h, (0, "not reproduced".into())) };
        out += &format!(",\"failure\":{{\"kind\":\"disagreement\",\"seed\":{sd},\"every\":{},\"history\":\"{}\",\"at\":{},\"what\":\"{}\"}}", ev as u8, esc(&show(&hm)), r.0 + 1, esc(&r.1));
        code = 1;
    } else if let Some((h, sd, ev)) = hung {
        out += &format!(",\"failure\":{{\"kind\":\"hang\",\"seed\":{sd},\"every\":{},\"history\":\"{}\",\"at\":0,\"what\":\"the history did not finish within 25 s\"}}", ev as u8, esc(&show(&h)));
        code = 1;
    }
    println!("{out}}}");
    std::process::exit(code);
}
