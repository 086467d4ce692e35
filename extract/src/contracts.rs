//! The contract language: lines starting with `@word` are directives, everything else is Verus text.
use std::collections::{BTreeMap, HashMap, HashSet};
#[derive(Default, Clone, Debug)]
pub struct LoopC { pub it: Option<String>, pub inv: String, pub start: String, pub end: String, pub before: String, pub after: String, pub nolab: bool }
#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub ret: Option<String>, pub ret_type: Option<String>, pub requires: Vec<String>, pub ensures: Vec<String>, pub decreases: String,
    pub panics: Option<String>, pub panics_old: Option<String>, pub unchanged: Option<String>, pub heap: bool, pub skip: bool, pub skip_why: String,
    pub external_body: bool, pub attrs: Vec<String>, pub loops: BTreeMap<usize, LoopC>, pub start: String, pub end: String, pub post: String,
    pub after: Vec<(String, usize, String)>, pub before: Vec<(String, usize, String)>, pub inherit: bool, pub opens_none: bool, pub no_allow: bool,
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnContract>, pub mod_items: HashMap<String, String>, pub trait_items: HashMap<String, String>,
    pub type_attrs: HashMap<String, String>, pub skip_mods: HashSet<String>, pub skip_items: HashSet<String>, pub no_derive: HashSet<String>,
    pub pins: HashMap<String, String>, pub prelude: String, pub binders: HashMap<String, Vec<String>>,
}
impl Contracts {
    pub fn panicking(&self) -> HashSet<String> { self.fns.iter().filter(|(_, c)| c.panics.is_some()).map(|(k, _)| k.rsplit("::").next().unwrap().to_string()).collect() }
    pub fn load(&mut self, path: &str) {
        let text = std::fs::read_to_string(path).unwrap_or_else(|e| panic!("{path}: {e}"));
        let mut cur: Option<String> = None;
        let mut mode: (String, Vec<String>) = (String::new(), vec![]);
        let mut buf = String::new();
        let flush = |s: &mut Contracts, cur: &Option<String>, mode: &(String, Vec<String>), buf: &mut String| {
            let t = std::mem::take(buf);
            let a = |i: usize| mode.1.get(i).cloned().unwrap_or_default();
            match mode.0.as_str() {
                "" => {}
                "items" => { s.mod_items.entry(a(0)).or_default().push_str(&t); }
                "impl" => { s.trait_items.entry(mode.1.join(" ")).or_default().push_str(&t); }
                "prelude" => s.prelude.push_str(&t),
                "pin" => { s.pins.insert(mode.1.join(" "), t.trim().to_string()); }
                m => {
                    let f = s.fns.entry(cur.clone().expect("directive outside @fn")).or_default();
                    let one = t.trim().to_string();
                    match m {
                        "fn" => assert!(one.is_empty(), "text right after @fn: {one}"),
                        "requires" => f.requires.push(one), "ensures" => f.ensures.push(one),
                        "panics" => f.panics = Some(one), "panics_old" => f.panics_old = Some(one), "unchanged" => f.unchanged = Some(one),
                        "start" => f.start.push_str(&t), "end" => f.end.push_str(&t), "post" => f.post.push_str(&t),
                        "after" => f.after.push((a(0), a(1).parse().unwrap_or(1), t)),
                        "before" => f.before.push((a(0), a(1).parse().unwrap_or(1), t)),
                        "loop" => { let l = f.loops.entry(a(0).parse().unwrap()).or_default(); if mode.1.len() > 1 { l.it = Some(a(1)); } l.inv.push_str(&t); }
                        "loop-start" => f.loops.entry(a(0).parse().unwrap()).or_default().start.push_str(&t),
                        "loop-end" => f.loops.entry(a(0).parse().unwrap()).or_default().end.push_str(&t),
                        "loop-before" => f.loops.entry(a(0).parse().unwrap()).or_default().before.push_str(&t),
                        "loop-after" => f.loops.entry(a(0).parse().unwrap()).or_default().after.push_str(&t),
                        "decreases" => f.decreases = one,
                        o => panic!("{path}: unknown directive @{o}"),
                    }
                }
            }
        };
        for line in text.lines() {
            if line.starts_with("@@") { continue; } // comment
            if let Some(d) = line.strip_prefix('@') {
                flush(self, &cur, &mode, &mut buf);
                let mut w = d.split_whitespace().map(|x| x.to_string());
                let k = w.next().unwrap();
                let args: Vec<String> = w.collect();
                let f = |s: &mut Contracts, cur: &Option<String>| -> *mut FnContract { s.fns.entry(cur.clone().unwrap()).or_default() as *mut _ };
                match k.as_str() {
                    "fn" => { cur = Some(args.join(" ")); self.fns.entry(cur.clone().unwrap()).or_default(); mode = ("fn".into(), vec![]); }
                    "ret" => unsafe { (*f(self, &cur)).ret = Some(args[0].clone()); mode = ("fn".into(), vec![]); },
                    "ret_type" => unsafe { (*f(self, &cur)).ret_type = Some(args.join(" ")); mode = ("fn".into(), vec![]); },
                    "heap" => unsafe { (*f(self, &cur)).heap = true; mode = ("fn".into(), vec![]); },
                    "inherit" => unsafe { (*f(self, &cur)).inherit = true; mode = ("fn".into(), vec![]); },
                    "no_allow" => unsafe { (*f(self, &cur)).no_allow = true; mode = ("fn".into(), vec![]); },
                    "external_body" => unsafe { (*f(self, &cur)).external_body = true; (*f(self, &cur)).attrs.push("#[verifier::external_body]".into()); mode = ("fn".into(), vec![]); },
                    "skip" => unsafe { (*f(self, &cur)).skip = true; (*f(self, &cur)).skip_why = args.join(" "); mode = ("fn".into(), vec![]); },
                    "attr" => unsafe { (*f(self, &cur)).attrs.push(args.join(" ")); mode = ("fn".into(), vec![]); },
                    "type_attr" => { self.type_attrs.insert(args[0].clone(), args[1..].join(" ")); mode = (String::new(), vec![]); }
                    "skip_mod" => { self.skip_mods.insert(args[0].clone()); mode = (String::new(), vec![]); }
                    "skip_item" => { self.skip_items.insert(args[0].clone()); mode = (String::new(), vec![]); }
                    "binders" => { let k = args.iter().position(|x| x == "|").expect("@binders"); self.binders.insert(args[..k].join(" "), args[k + 1..].to_vec()); mode = (String::new(), vec![]); }
                    "no_derive" => { self.no_derive.insert(args[0].clone()); mode = (String::new(), vec![]); }
                    _ => mode = (k, args),
                }
            } else { buf.push_str(line); buf.push('\n'); }
        }
        flush(self, &cur, &mode, &mut buf);
    }
}
impl FnContract {
    /// locals of the function got other names: the ghost text follows
    pub fn rename(&mut self, map: &[(String, String)]) {
        let r = |s: &mut String| *s = renamed(s, map);
        for s in self.requires.iter_mut().chain(self.ensures.iter_mut()) { r(s); }
        for s in [&mut self.decreases, &mut self.start, &mut self.end, &mut self.post] { r(s); }
        for s in [&mut self.panics, &mut self.panics_old, &mut self.unchanged] { if let Some(s) = s { r(s); } }
        for l in self.loops.values_mut() { for s in [&mut l.inv, &mut l.start, &mut l.end, &mut l.before, &mut l.after] { r(s); } }
        for a in self.after.iter_mut().chain(self.before.iter_mut()) { r(&mut a.2); }
    }
}
fn renamed(s: &str, map: &[(String, String)]) -> String {
    let mut out = String::new();
    let b: Vec<char> = s.chars().collect();
    let word = |c: char| c.is_alphanumeric() || c == '_';
    let mut i = 0;
    while i < b.len() {
        if word(b[i]) {
            let j = (i..b.len()).find(|j| !word(b[*j])).unwrap_or(b.len());
            let w: String = b[i..j].iter().collect();
            let sel = i > 0 && (b[i - 1] == ':' || (b[i - 1] == '.' && !(i > 1 && b[i - 2] == '.')));
            let call = j < b.len() && b[j] == '(';
            match map.iter().find(|m| m.0 == w) { Some(m) if !sel && !call => out += &m.1, _ => out += &w }
            i = j;
        } else { out.push(b[i]); i += 1; }
    }
    out
}
