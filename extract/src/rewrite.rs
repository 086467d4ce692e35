//! The rewrite rules R1..R12 (see DESIGN.md, "What the extraction changes").
use crate::contracts::*;
use crate::{Ctx, Report};
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub fn rename(n: &str) -> Option<Ident> {
    let r = match n { "get_unchecked" => "vx_get_unchecked", "get_unchecked_mut" => "vx_get_unchecked_mut", "into" => "vx_into", _ => return None };
    Some(Ident::new(r, proc_macro2::Span::call_site()))
}

pub struct TypeRw<'r> { pub rep: &'r mut Report, pub self_query: Option<String> }
impl<'r> TypeRw<'r> {
    pub fn ptrs(&mut self, t: &mut Type, lt: Option<&Lifetime>) {
        if let Type::Ptr(p) = t {
            let el = &p.elem;
            self.rep.rule("R3 raw pointer fields");
            match p.mutability { PointerMutability::Mut(_) => *t = parse_quote!(PtrMut<#el>), _ => *t = if let Some(l) = lt { parse_quote!(& #l #el) } else { parse_quote!(&'static #el) } }
        }
    }
}
fn last(p: &Path) -> String { p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default() }
impl<'r> VisitMut for TypeRw<'r> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let n = last(&p.path);
            if n == "RwLockReadGuard" || n == "RwLockWriteGuard" {
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    let lt = a.args.iter().find_map(|x| if let GenericArgument::Lifetime(l) = x { Some(l.clone()) } else { None });
                    let mut inner = a.args.iter().find_map(|x| if let GenericArgument::Type(l) = x { Some(l.clone()) } else { None }).unwrap();
                    self.visit_type_mut(&mut inner);
                    self.rep.rule("R1 lock guards as references");
                    let m: Option<Token![mut]> = if n == "RwLockWriteGuard" { Some(parse_quote!(mut)) } else { None };
                    *t = match lt { Some(l) if l.ident != "_" => parse_quote!(& #l #m #inner), _ => parse_quote!(& #m #inner) };
                    return;
                }
            }
            if n == "Box" && t.to_token_stream().to_string().contains("dyn QueryIterator") {
                if let Some(s) = &self.self_query { self.rep.rule("R8 boxed query iterators devirtualised"); *t = parse_str(s).unwrap(); return; }
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_path_mut(&mut self, p: &mut Path) {
        if let Some(s) = p.segments.last_mut() {
            if s.ident == "Into" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    let x = a.args.first().map(|x| x.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
                    self.rep.rule("R5 Into as contracted traits");
                    if x == "Group" { s.ident = parse_quote!(VxIntoGroup); s.arguments = PathArguments::None; }
                    else if x.starts_with("Vec<") { s.ident = parse_quote!(VxIntoVec); if let PathArguments::AngleBracketed(a) = s.arguments.clone() { if let Some(GenericArgument::Type(Type::Path(v))) = a.args.first() { s.arguments = v.path.segments.last().unwrap().arguments.clone(); } } }
                    else { s.ident = parse_quote!(VxInto); }
                }
            }
        }
        visit_mut::visit_path_mut(self, p);
    }
}
/// R10: SparseSet is checked at E = EntityId, its only instantiation in the crate.
pub fn mono_generics(g: &mut Generics, rep: &mut Report) {
    rep.rule("R10 SparseSet<E,T> at E = EntityId");
    let is_struct_like = g.where_clause.is_some();
    let _ = is_struct_like;
    if let Some(w) = &mut g.where_clause { w.predicates = w.predicates.iter().filter(|p| { let s = p.to_token_stream().to_string().replace(' ', ""); !s.starts_with("E:") && !s.ends_with(":Sized") }).cloned().collect(); if w.predicates.is_empty() { g.where_clause = None; } }
}
pub struct Mono;
impl VisitMut for Mono {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        i.generics.params = i.generics.params.iter().filter(|p| if let GenericParam::Type(t) = p { t.ident != "E" } else { true }).cloned().collect();
        visit_mut::visit_item_impl_mut(self, i);
    }
    fn visit_item_struct_mut(&mut self, _: &mut ItemStruct) {}
    fn visit_type_path_mut(&mut self, t: &mut TypePath) {
        if t.path.is_ident("E") { t.path = parse_quote!(crate::entity::EntityId); }
        visit_mut::visit_type_path_mut(self, t);
    }
}
pub struct Target(pub Type);
impl VisitMut for Target {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if t.to_token_stream().to_string().replace(' ', "") == "Self::Target" { *t = self.0.clone(); return; }
        visit_mut::visit_type_mut(self, t);
    }
}

pub struct BodyRw<'c> {
    cx: &'c mut Ctx, module: String, full: String, con: FnContract, self_struct: Option<String>,
    heap: HashSet<String>, panicking: HashSet<String>, rawmut: HashSet<String>, loops: usize, hits: Vec<(String, usize)>, splice: bool, counts: HashMap<String, usize>,
    cast_locals: HashSet<String>, unchanged: String,
}
impl<'c> BodyRw<'c> {
    pub fn new(cx: &'c mut Ctx, module: &str, self_struct: Option<&str>, full: String, con: FnContract, _in_trait: bool) -> Self {
        let heap = cx.c.fns.iter().filter(|(_, c)| c.heap).map(|(k, _)| k.rsplit("::").next().unwrap().to_string()).filter(|n| n != "new").collect();
        let panicking = cx.c.panicking();
        let rawmut = self_struct.and_then(|s| cx.structs.get(&format!("{module}::{s}"))).map(|fs| fs.iter().filter(|(_, t)| matches!(t, Type::Ptr(p) if matches!(p.mutability, PointerMutability::Mut(_)))).map(|(n, _)| n.clone()).collect()).unwrap_or_default();
        let unchanged = con.unchanged.clone().unwrap_or(if con.heap { "h@ == old(h)@".into() } else { "true".into() });
        BodyRw { cx, module: module.into(), full, con, self_struct: self_struct.map(|s| s.into()), heap, panicking, rawmut, loops: 0, hits: vec![], splice: false, counts: HashMap::new(), cast_locals: HashSet::new(), unchanged }
    }
    fn rule(&mut self, r: &'static str) { self.cx.rep.rule(r) }
    fn stmt(&mut self, t: &str) -> Stmt { let n = self.cx.text(t.to_string()); let m: Stmt = parse_quote!(__vx_stmt!(#n);); m }
    fn gexpr(&mut self, t: &str) -> Expr { let n = self.cx.text(t.to_string()); parse_quote!(__vx_expr!(#n)) }
    fn reject(&mut self) -> Expr {
        let g = self.permission();
        self.rule("R12 panics as obligations");
        parse_quote!(vx_reject(#g))
    }
    fn permission(&mut self) -> Expr {
        let t = if self.con.panics.is_some() { if self.con.no_allow { format!("Ghost({{ allow && vx_panics && ({}) }})", self.unchanged) } else { format!("Ghost({{ vx_panics && ({}) }})", self.unchanged) } } else { "Ghost(false)".to_string() };
        self.gexpr(&t)
    }
    pub fn run(&mut self, b: &mut Block) {
        for r in normalise(b) { self.rule(r); }
        self.visit_block_mut(b);
        let n = self.loops;
        for k in 1..=n { if !self.con.loops.contains_key(&k) { self.cx.rep.loops_without_invariant.push(format!("{} loop {k}", self.full)); } }
        for k in self.con.loops.keys() { if *k > n { self.cx.rep.missing.push(format!("{} loop {k}", self.full)); } }
        for (name, k, _) in self.con.after.iter().chain(self.con.before.iter()) { if self.counts.get(name).copied().unwrap_or(0) < *k { self.cx.rep.missing.push(format!("{} anchor {name} {k}", self.full)); } }
        let mut pre = String::new();
        if let Some(p) = &self.con.panics { pre += &format!("let ghost vx_panics: bool = ({p});\n"); }
        pre += &self.con.start.clone();
        if probing() { pre += "proof { assert(false); } // vx_probe\n"; }
        if !pre.is_empty() { let s = self.stmt(&pre); b.stmts.insert(0, s); }
        if !self.con.post.is_empty() {
            let s = self.stmt(&self.con.post.clone());
            let tail = matches!(b.stmts.last(), Some(Stmt::Expr(x, None)) if !matches!(x, Expr::ForLoop(_) | Expr::While(_)) && self.con.ret.as_deref() != Some("unit"));
            if tail { if let Some(Stmt::Expr(x, None)) = b.stmts.pop() { let id = self.result_name(); b.stmts.push(parse_quote!(let #id = #x;)); b.stmts.push(s); b.stmts.push(Stmt::Expr(parse_quote!(#id), None)); } }
            else { b.stmts.push(s); }
        }
        if !self.con.end.is_empty() {
            let e = self.con.end.clone();
            let s = self.stmt(&e);
            let tail = matches!(b.stmts.last(), Some(Stmt::Expr(x, None)) if !matches!(x, Expr::ForLoop(_) | Expr::While(_)) && self.con.ret.as_deref() != Some("unit"));
            if tail { let n = b.stmts.len() - 1; b.stmts.insert(n, s); } else { b.stmts.push(s); }
        }
    }
    fn hit(&mut self, n: &str) { let c = self.counts.entry(n.into()).or_insert(0); *c += 1; self.hits.push((n.to_string(), *c)); }
    fn heap_call(&self, name: &str, recv: Option<&Expr>) -> bool {
        if !self.heap.contains(name) { return false; }
        if let Some(r) = recv {
            if ["exist", "group", "groups", "entity", "query", "register"].contains(&name) {
                let s = r.to_token_stream().to_string().replace(' ', "");
                return s == "world" || s == "self.world" || s == "w" || s == "(&mutworld)" || (s == "self" && self.self_struct.as_deref() == Some("World"));
            }
        }
        true
    }
    fn result_name(&self) -> Ident { Ident::new(&self.con.ret.clone().unwrap_or("r".into()), proc_macro2::Span::call_site()) }
    /// R14: `&P` patterns are matched through the reference, their bindings copied out first
    fn strip_refs(p: &mut Pat, inside: bool, names: &mut Vec<Ident>) {
        match p {
            Pat::Reference(r) => { let mut x = (*r.pat).clone(); Self::strip_refs(&mut x, true, names); *p = x; }
            Pat::Ident(i) => { if inside && i.by_ref.is_none() { if i.ident.to_string().chars().next().map_or(false, |c| c.is_lowercase() || c == '_') { names.push(i.ident.clone()); } } if let Some((_, s)) = &mut i.subpat { Self::strip_refs(s, inside, names); } }
            Pat::TupleStruct(t) => for x in t.elems.iter_mut() { Self::strip_refs(x, inside, names) },
            Pat::Tuple(t) => for x in t.elems.iter_mut() { Self::strip_refs(x, inside, names) },
            Pat::Struct(t) => for x in t.fields.iter_mut() { Self::strip_refs(&mut x.pat, inside, names) },
            Pat::Or(t) => for x in t.cases.iter_mut() { Self::strip_refs(x, inside, names) },
            Pat::Paren(t) => Self::strip_refs(&mut t.pat, inside, names),
            _ => {}
        }
    }
    fn ref_patterns(&mut self, e: &mut Expr) {
        fn deref_all(names: &[Ident]) -> Vec<Stmt> { names.iter().map(|n| parse_quote!(let #n = *#n;)).collect() }
        let mut names = vec![];
        match e {
            Expr::If(i) => if let Expr::Let(l) = &mut *i.cond { Self::strip_refs(&mut l.pat, false, &mut names); let d = deref_all(&names); for (k, s) in d.into_iter().enumerate() { i.then_branch.stmts.insert(k, s); } },
            Expr::While(i) => if let Expr::Let(l) = &mut *i.cond { Self::strip_refs(&mut l.pat, false, &mut names); let d = deref_all(&names); for (k, s) in d.into_iter().enumerate() { i.body.stmts.insert(k, s); } },
            Expr::ForLoop(i) => { Self::strip_refs(&mut i.pat, false, &mut names); let d = deref_all(&names); for (k, s) in d.into_iter().enumerate() { i.body.stmts.insert(k, s); } }
            Expr::Match(m) => for a in m.arms.iter_mut() {
                let mut n = vec![];
                Self::strip_refs(&mut a.pat, false, &mut n);
                if !n.is_empty() { let d = deref_all(&n); let b = &a.body; a.body = Box::new(parse_quote!({ #(#d)* #b })); names.extend(n); }
            },
            _ => {}
        }
        if !names.is_empty() { self.rule("R14 reference patterns"); }
    }
    /// a closure that leaves itself early (`return`, `?`) is not its body
    fn leaves(e: &Expr) -> bool {
        struct V(bool);
        impl VisitMut for V {
            fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) { self.0 = true }
            fn visit_expr_try_mut(&mut self, _: &mut ExprTry) { self.0 = true }
        }
        let mut v = V(false); v.visit_expr_mut(&mut e.clone()); v.0
    }
    fn closure0(e: &Expr) -> Option<Expr> { if let Expr::Closure(c) = e { if c.inputs.is_empty() && !Self::leaves(&c.body) { return Some((*c.body).clone()); } } None }
    fn closure1(e: &Expr) -> Option<(Pat, Expr)> { if let Expr::Closure(c) = e { if c.inputs.len() == 1 && !Self::leaves(&c.body) { return Some((c.inputs[0].clone(), (*c.body).clone())); } } None }
    /// an expression that can only be a bool, judged by its form
    fn boolean(e: &Expr) -> bool {
        match e {
            Expr::Paren(p) => Self::boolean(&p.expr),
            Expr::Unary(u) => matches!(u.op, UnOp::Not(_)) && Self::boolean(&u.expr),
            Expr::Lit(l) => matches!(l.lit, Lit::Bool(_)),
            Expr::Binary(b) => matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_) | BinOp::And(_) | BinOp::Or(_)) || (matches!(b.op, BinOp::BitAnd(_) | BinOp::BitOr(_) | BinOp::BitXor(_)) && Self::boolean(&b.left) && Self::boolean(&b.right)),
            Expr::MethodCall(m) if m.method == "map_or" && m.args.len() == 2 => Self::boolean(&m.args[0]),
            Expr::MethodCall(m) => { let n = m.method.to_string(); n.starts_with("is_") || n.starts_with("has") || n.starts_with("contains") || matches!(n.as_str(), "exist" | "owned" | "in_group" | "in_components" | "eq" | "ne") }
            _ => false,
        }
    }
    fn desugar(&mut self, e: &mut Expr) {
        // `a & b` over bools evaluates both sides
        if let Expr::Binary(b) = e {
            let (l, r) = (&b.left, &b.right);
            let new: Option<Expr> = match b.op {
                BinOp::BitAnd(_) if Self::boolean(l) && Self::boolean(r) => Some(parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l && vx_r })),
                BinOp::BitOr(_) if Self::boolean(l) && Self::boolean(r) => Some(parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l || vx_r })),
                BinOp::BitXor(_) if Self::boolean(l) && Self::boolean(r) => Some(parse_quote!({ let vx_l = #l; let vx_r = #r; vx_l != vx_r })),
                BinOp::BitAndAssign(_) if Self::boolean(r) => Some(parse_quote!({ let vx_r = #r; #l = #l && vx_r })),
                BinOp::BitOrAssign(_) if Self::boolean(r) => Some(parse_quote!({ let vx_r = #r; #l = #l || vx_r })),
                _ => None,
            };
            if let Some(n) = new { self.rule("R4 operators on bools without short circuit"); *e = n; }
            return;
        }
        if let Expr::Call(c) = e {
            if c.args.len() == 2 {
                let t = c.func.to_token_stream().to_string().replace(' ', "");
                let (a, b) = (&c.args[0], &c.args[1]);
                let new: Option<Expr> = match t.as_str() {
                    "std::cmp::min" | "cmp::min" | "core::cmp::min" | "usize::min" | "min" => Some(parse_quote!((#a).min(#b))),
                    "std::cmp::max" | "cmp::max" | "core::cmp::max" | "usize::max" | "max" => Some(parse_quote!((#a).max(#b))),
                    _ => None,
                };
                if let Some(n) = new { self.rule("R4 min and max as methods"); *e = n; }
            }
            return;
        }
        let Expr::MethodCall(m) = e else { return };
        let name = m.method.to_string();
        let recv = (*m.receiver).clone();
        let is_range = |x: &Expr| match x { Expr::Range(_) => true, Expr::Paren(p) => matches!(*p.expr, Expr::Range(_)), _ => false };
        if name == "collect" {
            if let Expr::MethodCall(mm) = &recv {
                if mm.method == "map" && is_range(&mm.receiver) {
                    if let Some((p, b)) = mm.args.first().and_then(Self::closure1) {
                        self.rule("R4 iterator adaptors as loops");
                        let r = &mm.receiver;
                        *e = parse_quote!({ let mut vx_v = Vec::new(); for #p in #r { let vx_e = #b; vx_v.push(vx_e); } vx_v });
                        return;
                    }
                }
            }
        }
        if name == "find" {
            if let Expr::MethodCall(mm) = &recv {
                if mm.method == "iter" && mm.args.is_empty() {
                    if let Some((Pat::Ident(p), b)) = m.args.first().and_then(Self::closure1) {
                        self.rule("R4 iterator adaptors as loops");
                        let r = &mm.receiver;
                        *e = parse_quote!({ let mut vx_found = None; for #p in & #r { if #b { vx_found = Some(#p); break; } } vx_found });
                        return;
                    }
                }
            }
        }
        if name == "then_some" && m.args.len() == 1 {
            let b = &m.args[0];
            self.rule("R4 Option adaptors as matches");
            *e = parse_quote!({ let vx_c: bool = #recv; let vx_t = #b; if vx_c { Some(vx_t) } else { None } });
            return;
        }
        if (name == "or_insert_with" || name == "or_insert") && m.args.len() == 1 {
            if let Expr::MethodCall(en) = &recv { if en.method == "entry" && en.args.len() == 1 {
                let (map, k) = (&en.receiver, &en.args[0]);
                let new: Option<Expr> = if name == "or_insert" { let v = &m.args[0]; Some(parse_quote!({ let vx_k = #k; let vx_n = #v; if !#map.contains_key(&vx_k) { #map.insert(vx_k, vx_n); } })) }
                    else { Self::closure0(&m.args[0]).map(|b| parse_quote!({ let vx_k = #k; if !#map.contains_key(&vx_k) { let vx_n = #b; #map.insert(vx_k, vx_n); } })) };
                if let Some(n) = new { self.rule("R4 map entries spelled out (result unused)"); *e = n; return; }
            } }
        }
        let zero = m.args.first().and_then(Self::closure0);
        if let (Some(b), 1) = (zero, m.args.len()) {
            let new: Option<Expr> = match name.as_str() {
                "unwrap_or_else" => Some(parse_quote!(match (#recv) { Some(vx_x) => vx_x, None => #b })),
                "or_else" => Some(parse_quote!(match (#recv) { Some(vx_x) => Some(vx_x), None => #b })),
                "then" => Some(parse_quote!(if #recv { Some(#b) } else { None })),
                _ => None,
            };
            if let Some(n) = new { self.rule("R4 Option adaptors as matches"); *e = n; return; }
        }
        if name == "map_or_else" && m.args.len() == 2 {
            if let (Some(d), Some((p, b))) = (Self::closure0(&m.args[0]), Self::closure1(&m.args[1])) { self.rule("R4 Option adaptors as matches"); *e = parse_quote!(match (#recv) { Some(#p) => #b, None => #d }); return; }
        }
        // `RwLock::read` as the closure it stands for
        let lock = m.args.first().and_then(|a| if let Expr::Path(p) = a { let n = p.path.segments.iter().map(|s| s.ident.to_string()).collect::<Vec<_>>(); if n.len() == 2 && n[0] == "RwLock" && (n[1] == "read" || n[1] == "write") { Some(Ident::new(&n[1], proc_macro2::Span::call_site())) } else { None } } else { None });
        let one = m.args.first().and_then(Self::closure1).or_else(|| lock.map(|l| (parse_quote_pat("vx_lock"), parse_quote!(vx_lock.#l()))));
        if let Some((p, b)) = one {
            let new: Option<Expr> = match name.as_str() {
                "map" if !is_range(&recv) => Some(parse_quote!(match (#recv) { Some(#p) => Some(#b), None => None })),
                "and_then" => Some(parse_quote!(match (#recv) { Some(#p) => #b, None => None })),
                "is_some_and" => Some(parse_quote!(match (#recv) { Some(#p) => #b, None => false })),
                "is_none_or" => Some(parse_quote!(match (#recv) { Some(#p) => #b, None => true })),
                "filter" => match &p {
                    // `|x|` gets a reference, `|&x|` the value behind it
                    Pat::Reference(r) => { let q = &r.pat; Some(parse_quote!(match (#recv) { Some(vx_x) => { let vx_keep = { let #q = vx_x; #b }; if vx_keep { Some(vx_x) } else { None } } None => None })) }
                    _ => Some(parse_quote!(match (#recv) { Some(vx_x) => { let vx_keep = { let #p = &vx_x; #b }; if vx_keep { Some(vx_x) } else { None } } None => None })),
                },
                _ => None,
            };
            if let Some(n) = new { self.rule("R4 Option adaptors as matches"); *e = n; return; }
        }
        if name == "map_or" && m.args.len() == 2 {
            if let Some((p, b)) = Self::closure1(&m.args[1]) { let d = &m.args[0]; self.rule("R4 Option adaptors as matches"); *e = parse_quote!(match (#recv) { Some(#p) => #b, None => #d }); }
        }
    }
    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let n = last(&m.path);
        if n == "matches" {
            let (x, p, g) = m.parse_body_with(|i: parse::ParseStream| -> Result<(Expr, Pat, Option<Expr>)> {
                let x: Expr = i.parse()?; i.parse::<Token![,]>()?; let p = Pat::parse_multi_with_leading_vert(i)?;
                let g = if i.peek(Token![if]) { i.parse::<Token![if]>()?; Some(i.parse::<Expr>()?) } else { None };
                let _: Option<Token![,]> = i.parse()?; Ok((x, p, g)) }).ok()?;
            self.rule("R4 matches! as a match");
            let mut e: Expr = match g { Some(g) => parse_quote!(match #x { #p if #g => true, _ => false }), None => parse_quote!(match #x { #p => true, _ => false }) };
            self.visit_expr_mut(&mut e);
            return Some(e);
        }
        let args: Punctuated2 = m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).ok()?;
        match n.as_str() {
            "assert" | "debug_assert" => { let mut c = args[0].clone(); self.visit_expr_mut(&mut c); let r = self.reject(); Some(parse_quote!(if !(#c) { #r })) }
            "assert_eq" | "debug_assert_eq" => { let (mut a, mut b) = (args[0].clone(), args[1].clone()); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); let r = self.reject(); Some(parse_quote!(if !(#a == #b) { #r })) }
            "assert_ne" => { let (mut a, mut b) = (args[0].clone(), args[1].clone()); self.visit_expr_mut(&mut a); self.visit_expr_mut(&mut b); let r = self.reject(); Some(parse_quote!(if #a == #b { #r })) }
            "panic" | "unreachable" | "unimplemented" | "todo" => { let r = self.reject(); Some(r) }
            "vec" => { if args.is_empty() { Some(parse_quote!(Vec::new())) } else { let mut v: Vec<Expr> = args.iter().cloned().collect(); for x in v.iter_mut() { self.visit_expr_mut(x); } Some(parse_quote!({ let mut vx_v = Vec::new(); #(vx_v.push(#v);)* vx_v })) } }
            _ => None,
        }
    }
}
type Punctuated2 = punctuated::Punctuated<Expr, Token![,]>;

impl<'c> VisitMut for BodyRw<'c> {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if self.module == "sparse_set" { Mono.visit_type_mut(t); }
        TypeRw { rep: &mut self.cx.rep, self_query: None }.visit_type_mut(t);
    }
    fn visit_item_mut(&mut self, _: &mut Item) { self.cx.rep.unsupported.push(format!("{}: nested item", self.full)); }
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = vec![];
        let stmts = std::mem::take(&mut b.stmts);
        let saved = std::mem::take(&mut self.hits);
        let mut carried: Vec<(String, usize)> = vec![];
        for mut s in stmts {
            if let Stmt::Macro(m) = &s {
                let n = last(&m.mac.path);
                if n == "println" || n == "print" || n == "eprintln" || n == "dbg" { self.cx.rep.dropped.push(format!("{}: {n}!", self.full)); continue; }
                if !n.starts_with("__vx") {
                    match self.macro_expr(&m.mac.clone()) {
                        Some(mut e) => { if m.semi_token.is_some() { if let Expr::Call(c) = &mut e { if last_of(&c.func) == "vx_reject" { c.func = Box::new(parse_quote!(vx_reject::<()>)); } } } let semi = m.semi_token.or(if n.starts_with("assert") { Some(Default::default()) } else { None }); self.hit(&n); s = Stmt::Expr(e, semi); let hits = std::mem::take(&mut self.hits); self.place(&mut out, s, hits); continue; }
                        None => { self.cx.rep.unsupported.push(format!("{}: macro {n}!", self.full)); continue; }
                    }
                }
            }
            // remember locals that hold a converted pointer
            if let Stmt::Local(l) = &s {
                if let (Pat::Ident(p), Some(i)) = (&l.pat, &l.init) { if matches!(&*i.expr, Expr::Cast(c) if matches!(&*c.ty, Type::Ptr(q) if matches!(q.mutability, PointerMutability::Mut(_)))) { self.cast_locals.insert(p.ident.to_string()); } }
            }
            self.visit_stmt_mut(&mut s);
            let mut hits = std::mem::take(&mut self.hits);
            // text after the value of a block goes after the statement that uses the value
            let plain = |e: &Expr| !matches!(e, Expr::If(_) | Expr::Match(_) | Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Block(_) | Expr::Unsafe(_));
            if matches!(&s, Stmt::Expr(e, None) if plain(e)) {
                let up: Vec<_> = hits.iter().filter(|(n, k)| self.con.after.iter().any(|a| a.0 == *n && a.1 == *k)).cloned().collect();
                hits.retain(|h| !up.contains(h));
                carried.extend(up);
            }
            if std::mem::take(&mut self.splice) {
                if let Stmt::Expr(Expr::Block(x), _) = s { out.extend(x.block.stmts); continue; }
            }
            self.place(&mut out, s, hits);
        }
        b.stmts = out;
        self.hits = saved;
        self.hits.extend(carried);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        self.desugar(e);
        self.ref_patterns(e);
        if let Expr::Return(r) = e { if !self.con.post.is_empty() { if let Some(x) = r.expr.take() { let mut x = *x; self.visit_expr_mut(&mut x); let s = self.stmt(&self.con.post.clone()); let id = self.result_name(); *e = parse_quote!({ let #id = #x; #s return #id; }); return; } } }
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                self.loops += 1;
                let k = self.loops;
                let mut wrap: Option<(Pat, Pat, Expr, Expr)> = None;
                if let Expr::ForLoop(f) = e {
                    let b = crate::inline::continued(&f.body);
                    if b != f.body { self.rule("R4 continue as if and else"); f.body = b; }
                    // for (a,b) in X.iter().zip(Y)
                    if let Expr::MethodCall(z) = &*f.expr { if z.method == "zip" && z.args.len() == 1 { if let Pat::Tuple(t) = &*f.pat { if t.elems.len() == 2 { wrap = Some((t.elems[0].clone(), t.elems[1].clone(), (*z.receiver).clone(), z.args[0].clone())); } } } }
                }
                if let Some((a, bb, x, y)) = wrap {
                    self.rule("R4 iterator adaptors as loops");
                    let x = if let Expr::MethodCall(m) = &x { if m.method == "iter" { (*m.receiver).clone() } else { x.clone() } } else { x.clone() };
                    let y = if let Expr::MethodCall(m) = &y { if m.method == "into_iter" && m.args.is_empty() { (*m.receiver).clone() } else { y.clone() } } else { y.clone() };
                    if let Expr::ForLoop(f) = e.clone() {
                        let body = f.body.stmts;
                        *e = parse_quote!(while let Some((#a, #bb)) = vx_z.next() { #(#body)* });
                        visit_mut::visit_expr_mut(self, e);
                        self.add_inv(e, k);
                        let (mut x2, mut y2) = (x, y);
                        self.visit_expr_mut(&mut x2); self.visit_expr_mut(&mut y2);
                        *e = parse_quote!({ let mut vx_z = VxZip::new(#x2, #y2); #e });
                    }
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
                self.add_inv(e, k);
                return;
            }
            _ => {}
        }
        // macros in expression position
        if let Expr::Macro(m) = e {
            let n = last(&m.mac.path);
            if !n.starts_with("__vx") {
                match self.macro_expr(&m.mac.clone()) { Some(x) => { self.hit(&n); *e = x; } None => self.cx.rep.unsupported.push(format!("{}: macro {n}!", self.full)) }
            }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match e {
            Expr::Unsafe(u) => { self.rule("R9 unsafe keyword dropped, its obligations stay as preconditions"); let b = &u.block; new = Some(parse_quote!(#b)); }
            Expr::Cast(c) => if let Type::Ptr(p) = &*c.ty { let x = &c.expr; new = Some(match p.mutability { PointerMutability::Mut(_) => parse_quote!(PtrMut::new(#x)), _ => parse_quote!((#x)) }); } else if let Type::Path(p) = &*c.ty { if p.path.is_ident("PtrMut") {} },
            Expr::Reference(r) => {
                if let Expr::Unary(u) = &*r.expr { if matches!(u.op, UnOp::Deref(_)) { if let Expr::Field(f) = &*u.expr { if let (Expr::Path(b), Member::Named(n)) = (&*f.base, &f.member) { if b.path.is_ident("self") && self.rawmut.contains(&n.to_string()) {
                    let x = &u.expr;
                    new = Some(if r.mutability.is_some() { parse_quote!(#x.vx_mut()) } else { parse_quote!(#x.vx_ref()) });
                } } } } }
            }
            Expr::Struct(s) => {
                let n = last(&s.path);
                let n = if n == "Self" { self.self_struct.clone().unwrap_or_default() } else { n };
                let key = format!("{}::{n}", self.module);
                let fs = self.cx.structs.get(&key).cloned().unwrap_or_default();
                for f in s.fields.iter_mut() {
                    if let Member::Named(m) = &f.member {
                        if let Some((_, t)) = fs.iter().find(|x| *m == x.0) {
                            if matches!(t, Type::Ptr(p) if matches!(p.mutability, PointerMutability::Mut(_))) {
                                let is_cast = matches!(&f.expr, Expr::Path(p) if p.path.get_ident().map_or(false, |i| self.cast_locals.contains(&i.to_string())));
                                if !is_cast { let x = &f.expr; f.expr = parse_quote!(PtrMut::new(#x)); f.colon_token = Some(Default::default()); }
                            }
                            let txt = f.expr.to_token_stream().to_string().replace(' ', "");
                            if txt == "Default::default()" || txt == "PhantomData::default()" {
                                let tn = if let Type::Path(p) = t { last(&p.path) } else { String::new() };
                                f.expr = match tn.as_str() { "HashMap" => parse_quote!(HashMap::new()), "Vec" => parse_quote!(Vec::new()), "PhantomData" => parse_quote!(PhantomData), _ => f.expr.clone() };
                            }
                        }
                    }
                }
            }
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = last(&p.path);
                    let txt = p.path.to_token_stream().to_string().replace(' ', "");
                    self.hit(&n);
                    if txt == "RwLock::new" { c.args.push(parse_quote!(h)); }
                    else if n == "drop" { c.func = parse_quote!(vx_drop); }
                    else if n == "query" && p.qself.is_some() {
                        self.rule("R2 heap argument");
                        let g = self.permission();
                        let rest: Vec<Expr> = c.args.iter().cloned().collect();
                        c.args = parse_quote!(#g, h #(, #rest)*);
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                self.hit(&n);
                let recv = (*m.receiver).clone();
                if let Some(r) = rename(&n) { m.method = r; }
                else if (n == "read" || n == "write") && m.args.is_empty() { self.rule("R2 heap argument"); m.args.push(parse_quote!(h)); }
                else if n == "downcast_ref" || n == "downcast_mut" {
                    if let Some(t) = &m.turbofish {
                        let mut a = t.args.first().cloned();
                        let f;
                        let ts = a.to_token_stream().to_string().replace(' ', "");
                        if ts.starts_with("SparseSet<") {
                            if let Some(GenericArgument::Type(Type::Path(p))) = &a { if let PathArguments::AngleBracketed(x) = &p.path.segments.last().unwrap().arguments { a = x.args.last().cloned(); } }
                            f = if n == "downcast_ref" { quote!(cs_downcast_ref) } else { quote!(cs_downcast_mut) };
                        } else { f = if n == "downcast_ref" { quote!(rs_downcast_ref) } else { quote!(rs_downcast_mut) }; }
                        let mm: Option<Token![mut]> = if n == "downcast_mut" { Some(Default::default()) } else { None };
                        self.rule("R11 downcast call");
                        new = Some(parse_quote!(#f::<#a>(& #mm *#recv)));
                    }
                }
                else if n == "expect" || n == "unwrap" {
                    if self.con.panics.is_some() {
                        let r = self.reject();
                        new = Some(parse_quote!(match (#recv) { Some(vx_x) => vx_x, None => #r }));
                    } else if n == "expect" { new = Some(parse_quote!(#recv.unwrap())); }
                }
                else if self.heap_call(&n, Some(&recv)) {
                    self.rule("R2 heap argument");
                    let mut v: Vec<Expr> = vec![];
                    if self.panicking.contains(&n) { v.push(self.permission()); }
                    v.push(parse_quote!(h));
                    v.extend(m.args.iter().cloned());
                    m.args = v.into_iter().collect();
                }
                else if self.panicking.contains(&n) && self.cx.c.fns.iter().any(|(k, c)| c.panics.is_some() && !c.heap && k.ends_with(&format!("::{n}"))) {
                    let mut v: Vec<Expr> = vec![self.permission()];
                    v.extend(m.args.iter().cloned());
                    m.args = v.into_iter().collect();
                }
            }
            _ => {}
        }
        if let Some(n) = new { *e = n; }
    }
}
impl<'c> BodyRw<'c> {
    fn place(&mut self, out: &mut Vec<Stmt>, s: Stmt, hits: Vec<(String, usize)>) {
        for (n, k) in &hits { let t: Vec<String> = self.con.before.iter().filter(|a| a.0 == *n && a.1 == *k).map(|a| a.2.clone()).collect(); for x in t { let y = self.stmt(&x); out.push(y); } }
        out.push(s);
        for (n, k) in &hits { let t: Vec<String> = self.con.after.iter().filter(|a| a.0 == *n && a.1 == *k).map(|a| a.2.clone()).collect(); for x in t { let y = self.stmt(&x); out.push(y); } }
    }
    fn add_inv(&mut self, e: &mut Expr, k: usize) {
        let l = self.con.loops.get(&k).cloned().unwrap_or_default();
        let inv = self.cx.text(l.inv.clone());
        let invs: Stmt = parse_quote!(__vx_inv!(#inv););
        let start = if l.start.is_empty() { None } else { Some(self.stmt(&l.start)) };
        let end = if l.end.is_empty() { None } else { Some(self.stmt(&l.end)) };
        let body = match e { Expr::ForLoop(f) => &mut f.body, Expr::While(f) => &mut f.body, Expr::Loop(f) => &mut f.body, _ => return };
        if let Some(s) = start { body.stmts.insert(0, s); }
        if probing() { let s = self.stmt("proof { assert(false); } // vx_probe\n"); body.stmts.insert(0, s); }
        if let Some(s) = end { if let Some(Stmt::Expr(_, semi @ None)) = body.stmts.last_mut() { *semi = Some(Default::default()); } body.stmts.push(s); }
        if !l.inv.trim().is_empty() { body.stmts.insert(0, invs); }
        if let (Expr::ForLoop(f), Some(it)) = (&mut *e, &l.it) { let n = self.cx.text(it.clone()); let x = &f.expr; f.expr = Box::new(parse_quote!(__vx_it!(#n, #x))); }
        if !l.before.is_empty() || !l.after.is_empty() {
            let b = self.stmt(&l.before); let a = self.stmt(&l.after);
            *e = parse_quote!({ #b #e #a });
            self.splice = true;
        }
    }
}

fn probing() -> bool { std::env::var("XT_PROBE").is_ok() }
fn last_of(e: &Expr) -> String { if let Expr::Path(p) = e { last(&p.path) } else { String::new() } }

fn parse_quote_pat(n: &str) -> Pat { let i = Ident::new(n, proc_macro2::Span::call_site()); Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i, subpat: None }) }

/// a `loop` whose first step takes the next element and leaves at `None` is a `while let` with what is done at `None` put behind it
fn head_tests(b: &mut Block) -> bool {
    fn is_none(p: &Pat) -> bool { match p { Pat::Ident(i) => i.ident == "None", Pat::Path(p) => p.path.is_ident("None"), Pat::Wild(_) => true, _ => false } }
    fn some_pat(p: &Pat) -> Option<Pat> { if let Pat::TupleStruct(t) = p { if t.path.is_ident("Some") && t.elems.len() == 1 { return Some(t.elems[0].clone()); } } None }
    fn strip(e: &Expr) -> Expr { match e { Expr::Block(b) if b.label.is_none() && b.block.stmts.len() == 1 => match &b.block.stmts[0] { Stmt::Expr(x, _) => strip(x), _ => e.clone() }, _ => e.clone() } }
    /// the exit at `None`: nothing (break) or a return
    fn exit(e: &Expr) -> Option<Option<Expr>> { match strip(e) { Expr::Break(b) if b.label.is_none() && b.expr.is_none() => Some(None), r @ Expr::Return(_) => Some(Some(r)), _ => None } }
    fn body(e: &Expr) -> Vec<Stmt> { match e { Expr::Block(b) if b.label.is_none() => { let mut v = b.block.stmts.clone(); if let Some(Stmt::Expr(x, semi @ None)) = v.last_mut() { if !matches!(x, Expr::If(_) | Expr::Match(_) | Expr::Block(_)) { *semi = Some(Default::default()); } } v } x => vec![Stmt::Expr(x.clone(), Some(Default::default()))] } }
    /// what the loop iterates: pattern, source, the exit, the remaining statements
    fn split(stmts: &[Stmt]) -> Option<(Pat, Expr, Option<Expr>, Vec<Stmt>)> {
        let first = stmts.first()?;
        let rest = stmts[1..].to_vec();
        let arms = |m: &ExprMatch| -> Option<(Pat, Expr, Expr)> {
            if m.arms.len() != 2 { return None; }
            let (s, n) = if some_pat(&m.arms[0].pat).is_some() { (0, 1) } else { (1, 0) };
            if !is_none(&m.arms[n].pat) || n == 0 && matches!(m.arms[0].pat, Pat::Wild(_)) { return None; }
            Some((some_pat(&m.arms[s].pat)?, (*m.arms[s].body).clone(), (*m.arms[n].body).clone()))
        };
        match first {
            Stmt::Local(l) => {
                let init = l.init.as_ref()?;
                if let Some((_, d)) = &init.diverge { return Some((some_pat(&l.pat)?, (*init.expr).clone(), exit(d)?, rest)); }
                match &*init.expr {
                    Expr::Try(t) => Some((l.pat.clone(), (*t.expr).clone(), Some(parse_quote!(return None)), rest)),
                    Expr::Match(m) => { let (p, yes, no) = arms(m)?; if let (Pat::Ident(i), Expr::Path(y)) = (&p, strip(&yes)) { if y.path.is_ident(&i.ident) { return Some((l.pat.clone(), (*m.expr).clone(), exit(&no)?, rest)); } } None }
                    _ => None,
                }
            }
            Stmt::Expr(Expr::Match(m), _) if rest.is_empty() => { let (p, yes, no) = arms(m)?; Some((p, (*m.expr).clone(), exit(&no)?, body(&yes))) }
            Stmt::Expr(Expr::If(i), _) if rest.is_empty() => {
                let Expr::Let(l) = &*i.cond else { return None };
                let (_, no) = i.else_branch.as_ref()?;
                Some((some_pat(&l.pat)?, (*l.expr).clone(), exit(no)?, i.then_branch.stmts.clone()))
            }
            _ => None,
        }
    }
    struct V(bool);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut out = vec![];
            let n = b.stmts.len();
            for (k, st) in b.stmts.drain(..).enumerate() {
                // `loop { if c { break; } .. }`
                if let Stmt::Expr(Expr::Loop(l), _) = &st {
                    if let (None, Some(Stmt::Expr(Expr::If(i), _))) = (&l.label, l.body.stmts.first()) {
                        let leave = match &i.then_branch.stmts[..] { [Stmt::Expr(x, _)] => exit(x), _ => None };
                        let rest = &l.body.stmts[1..];
                        let plain = !matches!(&*i.cond, Expr::Let(_)) && (i.else_branch.is_none());
                        if let (true, Some(ex)) = (plain, leave) {
                            if ex.is_none() || crate::breaks_of(&parse_quote!({ #(#rest)* })) == 0 {
                                let c: Expr = match &*i.cond {
                                    Expr::Binary(b) => { let mut b = b.clone(); match b.op {
                                        BinOp::Gt(_) => { b.op = parse_quote!(<=); Expr::Binary(b) } BinOp::Ge(_) => { b.op = parse_quote!(<); Expr::Binary(b) }
                                        BinOp::Lt(_) => { b.op = parse_quote!(>=); Expr::Binary(b) } BinOp::Le(_) => { b.op = parse_quote!(>); Expr::Binary(b) }
                                        _ => { let c = &i.cond; parse_quote!(!(#c)) } } }
                                    c => parse_quote!(!(#c)),
                                };
                                out.push(parse_quote!(while #c { #(#rest)* }));
                                if let Some(r) = ex { out.push(Stmt::Expr(r, Some(Default::default()))); }
                                self.0 = true;
                                continue;
                            }
                        }
                    }
                }
                if let Stmt::Expr(Expr::Loop(l), semi) = &st {
                    if l.label.is_none() {
                        if let Some((p, src, ex, rest)) = split(&l.body.stmts) {
                            if ex.is_some() && crate::breaks_of(&parse_quote!({ #(#rest)* })) > 0 { out.push(st); continue; }
                            out.push(parse_quote!(while let Some(#p) = #src { #(#rest)* }));
                            match ex {
                                // the loop was the value of the block: what is returned is the value
                                Some(Expr::Return(r)) if k + 1 == n && semi.is_none() => { let v = r.expr; out.push(Stmt::Expr(parse_quote!(return #v), Some(Default::default()))); }
                                Some(r) => out.push(Stmt::Expr(r, Some(Default::default()))),
                                None => {}
                            }
                            self.0 = true;
                            continue;
                        }
                    }
                }
                out.push(st);
            }
            b.stmts = out;
        }
    }
    let mut v = V(false);
    v.visit_block_mut(b);
    // a final `return v;` of the body is its value
    if v.0 { if let Some(Stmt::Expr(Expr::Return(r), Some(_))) = b.stmts.last().cloned() { if let Some(x) = r.expr { b.stmts.pop(); b.stmts.push(Stmt::Expr(*x, None)); } } }
    v.0
}

/// `let mut i = a; while i < n { ..; i += 1; }` with a local `n` and `i` used nowhere else is `for i in a..n { .. }`
fn counted(b: &mut Block) -> bool {
    fn mentions(ts: proc_macro2::TokenStream, n: &str) -> usize { ts.into_iter().map(|t| match t { proc_macro2::TokenTree::Group(g) => mentions(g.stream(), n), proc_macro2::TokenTree::Ident(i) => (i == n) as usize, _ => 0 }).sum() }
    struct Cont(bool);
    impl VisitMut for Cont {
        fn visit_expr_continue_mut(&mut self, _: &mut ExprContinue) { self.0 = true }
    }
    struct Writes<'a>(&'a str, bool);
    impl<'a> VisitMut for Writes<'a> {
        fn visit_expr_assign_mut(&mut self, e: &mut ExprAssign) { if mentions(e.left.to_token_stream(), self.0) > 0 { self.1 = true; } visit_mut::visit_expr_assign_mut(self, e) }
        fn visit_expr_binary_mut(&mut self, e: &mut ExprBinary) { if e.op.to_token_stream().to_string().ends_with('=') && !matches!(e.op, BinOp::Eq(_) | BinOp::Le(_) | BinOp::Ge(_) | BinOp::Ne(_)) && mentions(e.left.to_token_stream(), self.0) > 0 { self.1 = true; } visit_mut::visit_expr_binary_mut(self, e) }
        fn visit_expr_reference_mut(&mut self, e: &mut ExprReference) { if e.mutability.is_some() && mentions(e.expr.to_token_stream(), self.0) > 0 { self.1 = true; } visit_mut::visit_expr_reference_mut(self, e) }
    }
    struct V(bool);
    impl VisitMut for V {
        fn visit_block_mut(&mut self, b: &mut Block) {
            visit_mut::visit_block_mut(self, b);
            let mut k = 0;
            while k + 1 < b.stmts.len() {
                let new = (|| -> Option<Stmt> {
                    let Stmt::Local(l) = &b.stmts[k] else { return None };
                    let (Pat::Ident(i), Some(init)) = (&l.pat, &l.init) else { return None };
                    if i.mutability.is_none() || init.diverge.is_some() { return None; }
                    let Stmt::Expr(Expr::While(w), _) = &b.stmts[k + 1] else { return None };
                    let Expr::Binary(c) = &*w.cond else { return None };
                    let n = i.ident.to_string();
                    let is = |e: &Expr, n: &str| matches!(e, Expr::Path(p) if p.path.is_ident(n));
                    if !matches!(c.op, BinOp::Lt(_)) || !is(&c.left, &n) || w.label.is_some() { return None; }
                    let Expr::Path(end) = &*c.right else { return None };
                    let end_n = end.path.get_ident()?.to_string();
                    let (last, body) = w.body.stmts.split_last()?;
                    let Stmt::Expr(Expr::Binary(inc), _) = last else { return None };
                    if !matches!(inc.op, BinOp::AddAssign(_)) || !is(&inc.left, &n) || inc.right.to_token_stream().to_string() != "1" { return None; }
                    let mut blk: Block = parse_quote!({ #(#body)* });
                    let mut ct = Cont(false); ct.visit_block_mut(&mut blk);
                    let mut wi = Writes(&n, false); wi.visit_block_mut(&mut blk);
                    let mut we = Writes(&end_n, false); we.visit_block_mut(&mut blk);
                    if ct.0 || wi.1 || we.1 { return None; }
                    if b.stmts[k + 2..].iter().any(|s| mentions(s.to_token_stream(), &n) > 0) { return None; }
                    let (a, p, e) = (&init.expr, &i.ident, &c.right);
                    Some(parse_quote!(for #p in #a .. #e { #(#body)* }))
                })();
                if let Some(s) = new { b.stmts[k] = s; b.stmts.remove(k + 1); self.0 = true; }
                k += 1;
            }
        }
    }
    let mut v = V(false);
    v.visit_block_mut(b);
    v.0
}

/// `xs.iter().any(p)` / `.all(p)` / `.find(p).is_some()` as the last expression of a body: a loop with an early return
fn tail_any(b: &mut Block) -> bool {
    let Some(Stmt::Expr(e, None)) = b.stmts.last() else { return false };
    let mut e = e;
    let mut neg = false;
    while let Expr::Unary(ExprUnary { op: UnOp::Not(_), expr, .. }) = e { neg = !neg; e = expr; }
    while let Expr::Paren(p) = e { e = &p.expr; }
    let Expr::MethodCall(mut m) = e.clone() else { return false };
    let mut name = m.method.to_string();
    if matches!(name.as_str(), "is_some" | "is_none") && m.args.is_empty() {
        let Expr::MethodCall(f) = &*m.receiver else { return false };
        if f.method != "find" && f.method != "position" { return false; }
        if name == "is_none" { neg = !neg; }
        m = f.clone(); name = "any".into();
    }
    if name != "any" && name != "all" || m.args.len() != 1 { return false; }
    let (Some((p, c)), Expr::MethodCall(it)) = (BodyRw::closure1(&m.args[0]), &*m.receiver) else { return false };
    if it.method != "iter" || !it.args.is_empty() { return false; }
    let src = &it.receiver;
    let (hit, end) = if name == "any" { (!neg, neg) } else { (neg, !neg) };
    let cond: Expr = if name == "any" { c } else { parse_quote!(!(#c)) };
    b.stmts.pop();
    b.stmts.push(parse_quote!(for #p in & #src { if #cond { return #hit; } }));
    b.stmts.push(Stmt::Expr(parse_quote!(#end), None));
    true
}

/// loops in the form the contracts know them; the same before and after
pub fn normalise(b: &mut Block) -> Vec<&'static str> {
    let mut r = vec![];
    if tail_any(b) { r.push("R4 iterator adaptors as loops"); }
    if counted(b) { r.push("R4 counting `while` as `for`"); }
    if head_tests(b) { r.push("R4 `loop` as `while`"); }
    r
}
