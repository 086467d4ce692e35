//! The specification: what a world must look like after a history.
//! Written from the property statements, not from the implementation.
use std::collections::{BTreeMap, BTreeSet};

pub const NB: usize = 5; // the component types A..E
pub const NT: usize = 10; // and five more that only some histories register
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Kind { Full, Partial, Non }

#[derive(Clone, Debug, Default)]
pub struct Model {
    pub next: usize,             // smallest id never allocated
    pub free: Vec<usize>,        // removed ids, most recent last
    pub live: BTreeSet<usize>,
    pub reg: [bool; NT],
    pub comps: [BTreeMap<usize, u64>; NT],
    pub groups: Vec<(Kind, usize, usize)>,
    pub res: [Option<u64>; 2],
}

impl Model {
    pub fn new() -> Self { Model { next: 1, ..Default::default() } }
    pub fn create(&mut self) -> usize {
        let id = match self.free.pop() { Some(i) => i, None => { self.next += 1; self.next - 1 } };
        self.live.insert(id);
        id
    }
    pub fn create_n(&mut self, n: usize) -> std::ops::Range<usize> {
        let s = self.next;
        self.next += n;
        for i in s..self.next { self.live.insert(i); }
        s..self.next
    }
    pub fn remove(&mut self, id: usize) {
        assert!(self.live.remove(&id));
        self.free.push(id);
        for c in self.comps.iter_mut() { c.remove(&id); }
    }
    pub fn owns(g: (Kind, usize, usize)) -> Vec<usize> {
        match g.0 { Kind::Full => vec![g.1, g.2], Kind::Partial => vec![g.1], Kind::Non => vec![] }
    }
    pub fn group_ok(&self, g: (Kind, usize, usize)) -> bool {
        self.reg[g.1] && self.reg[g.2] && !self.groups.contains(&g)
            && !self.groups.iter().any(|h| Self::owns(*h).iter().any(|t| Self::owns(g).contains(t)))
    }
    pub fn has_all(&self, id: usize, ts: &[usize]) -> bool { ts.iter().all(|t| self.comps[*t].contains_key(&id)) }
}
