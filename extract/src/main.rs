//! Mechanical extractor: reads /repo/src, rewrites the constructs Verus has no front end for
//! (each rewrite is a numbered rule, counted and reported), and puts the contracts of
//! /verif/contracts around the functions.  It never invents executable statements of the crate:
//! every executable token in the output is a token of /repo/src or the fixed expansion of a rule.
//!
//! usage: xecs-extract REPO_SRC OUT.rs REPORT.json CONTRACT_FILE...
mod contracts;
mod inline;
mod printer;
mod rewrite;
use contracts::*;
use printer::pp;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::path::Path;
use syn::visit_mut::VisitMut;
use syn::*;

#[derive(Default)]
pub struct Report {
    pub rules: BTreeMap<&'static str, usize>,
    pub missing: Vec<String>,
    pub uncontracted: Vec<String>,
    pub unsupported: Vec<String>,
    pub functions: Vec<String>,
    pub loops_without_invariant: Vec<String>,
    pub dropped: Vec<String>,
    pub stubbed: Vec<String>,
}
impl Report { pub fn rule(&mut self, r: &'static str) { *self.rules.entry(r).or_insert(0) += 1; } }

pub struct Ctx {
    pub c: Contracts,
    pub rep: Report,
    /// struct name (module::Name) -> field -> type
    pub structs: HashMap<String, Vec<(String, Type)>>,
    pub texts: Vec<String>,
    pub used: BTreeSet<String>,
    pub fns: Vec<(String, String)>,
    pub shape: BTreeMap<String, Vec<String>>, pub binders: BTreeMap<String, Vec<String>>, pub renamed: Vec<String>,
    pub targets: HashMap<String, Type>,
    pub helpers: Vec<inline::Helper>,
}
impl Ctx {
    pub fn text(&mut self, s: String) -> proc_macro2::Literal { self.texts.push(s); proc_macro2::Literal::usize_unsuffixed(self.texts.len() - 1) }
}

fn has_cfg_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) }

fn type_key(t: &Type, params: &HashSet<String>) -> String {
    // textual key of a self type: generic arguments dropped when all are plain parameters
    fn go(t: &Type, params: &HashSet<String>, top: bool) -> String {
        match t {
            Type::Reference(r) => format!("&{}{}", if r.mutability.is_some() { "mut " } else { "" }, go(&r.elem, params, false)),
            Type::Tuple(tt) => format!("({})", tt.elems.iter().map(|e| go(e, params, false)).collect::<Vec<_>>().join(",")),
            Type::Path(p) => {
                let s = p.path.segments.last().unwrap();
                let mut args = vec![];
                if let PathArguments::AngleBracketed(a) = &s.arguments { for x in &a.args { if let GenericArgument::Type(t) = x { args.push(t.clone()); } } }
                let plain = args.iter().all(|a| if let Type::Path(p) = a { p.path.get_ident().map_or(false, |i| params.contains(&i.to_string())) } else { false });
                if args.is_empty() || (plain && top) { s.ident.to_string() } else { format!("{}<{}>", s.ident, args.iter().map(|a| go(a, params, false)).collect::<Vec<_>>().join(",")) }
            }
            Type::TraitObject(o) => { let mut s = "dyn".to_string(); for b in &o.bounds { if let TypeParamBound::Trait(t) = b { s += " "; s += &t.path.segments.last().unwrap().ident.to_string(); } } s }
            Type::Paren(p) => go(&p.elem, params, top),
            o => o.to_token_stream().to_string(),
        }
    }
    go(t, params, true)
}
/// R16: nothing that can make a value disappear without its drop, or be dropped twice
const UNOWNED: [&str; 26] = ["forget", "ManuallyDrop", "MaybeUninit", "transmute", "transmute_copy", "zeroed", "uninitialized", "leak", "into_raw", "from_raw", "into_raw_parts", "from_raw_parts", "from_raw_parts_mut",
    "ptr", "copy_nonoverlapping", "swap_nonoverlapping", "set_len", "drop_in_place", "assume_init", "read_unaligned", "write_unaligned", "read_volatile", "write_volatile", "Rc", "as_mut_ptr", "spare_capacity_mut"];
fn scan_ownership(f: &File, module: &str, cx: &mut Ctx) {
    // paths, method and type names only: a field or local may be called `ptr`
    struct V(BTreeSet<String>);
    impl VisitMut for V {
        fn visit_path_mut(&mut self, p: &mut syn::Path) { if p.segments.len() > 1 || UNOWNED.contains(&p.segments[0].ident.to_string().as_str()) && p.segments[0].ident != "ptr" { for s in &p.segments { let n = s.ident.to_string(); if UNOWNED.contains(&n.as_str()) { self.0.insert(n); } } } visit_mut::visit_path_mut(self, p) }
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) { let n = m.method.to_string(); if UNOWNED.contains(&n.as_str()) { self.0.insert(n); } visit_mut::visit_expr_method_call_mut(self, m) }
        fn visit_use_tree_mut(&mut self, t: &mut UseTree) { fn go(t: &UseTree, o: &mut BTreeSet<String>) { match t { UseTree::Path(p) => { if p.ident == "ptr" { o.insert("ptr".into()); } go(&p.tree, o) } UseTree::Name(n) => { let n = n.ident.to_string(); if UNOWNED.contains(&n.as_str()) { o.insert(n); } } UseTree::Rename(n) => { let n = n.ident.to_string(); if UNOWNED.contains(&n.as_str()) { o.insert(n); } } UseTree::Group(g) => for x in &g.items { go(x, o) }, _ => {} } } go(t, &mut self.0) }
        fn visit_item_mod_mut(&mut self, m: &mut ItemMod) { if !has_cfg_test(&m.attrs) { visit_mut::visit_item_mod_mut(self, m) } }
        fn visit_item_fn_mut(&mut self, m: &mut ItemFn) { if !has_cfg_test(&m.attrs) { visit_mut::visit_item_fn_mut(self, m) } }
        fn visit_item_impl_mut(&mut self, m: &mut ItemImpl) { if !has_cfg_test(&m.attrs) { visit_mut::visit_item_impl_mut(self, m) } }
    }
    let mut v = V(BTreeSet::new());
    v.visit_file_mut(&mut f.clone());
    if v.0.is_empty() { cx.rep.rule("R16 files without a primitive that leaks or duplicates a value"); }
    for n in v.0 { cx.rep.unsupported.push(format!("{module}: `{n}` can leak or duplicate a value")); }
}
fn generic_names(g: &Generics) -> HashSet<String> { g.type_params().map(|p| p.ident.to_string()).collect() }
/// locals of outside that a loop's body assigns, breaks out of it, returns from inside it
pub fn breaks_of(b: &Block) -> usize { loop_load(b).rsplit(',').nth(1).and_then(|n| n.parse().ok()).unwrap_or(0) }
fn loop_load(body: &Block) -> String {
    struct V { breaks: usize, returns: usize, depth: usize, set: BTreeSet<String>, own: BTreeSet<String> }
    fn root(e: &Expr) -> Option<String> {
        match e {
            Expr::Path(p) => p.path.get_ident().map(|i| i.to_string()),
            Expr::Field(f) => root(&f.base),
            Expr::Index(i) => root(&i.expr),
            Expr::Paren(p) => root(&p.expr),
            _ => None,
        }
    }
    impl VisitMut for V {
        fn visit_expr_break_mut(&mut self, b: &mut ExprBreak) { if self.depth == 0 || b.label.is_some() { self.breaks += 1; } visit_mut::visit_expr_break_mut(self, b) }
        fn visit_expr_return_mut(&mut self, e: &mut ExprReturn) { self.returns += 1; visit_mut::visit_expr_return_mut(self, e) }
        fn visit_expr_try_mut(&mut self, e: &mut ExprTry) { self.returns += 1; visit_mut::visit_expr_try_mut(self, e) }
        fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) { self.depth += 1; visit_mut::visit_expr_for_loop_mut(self, e); self.depth -= 1; }
        fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) { self.depth += 1; visit_mut::visit_expr_while_mut(self, e); self.depth -= 1; }
        fn visit_expr_loop_mut(&mut self, e: &mut ExprLoop) { self.depth += 1; visit_mut::visit_expr_loop_mut(self, e); self.depth -= 1; }
        fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
        fn visit_expr_assign_mut(&mut self, e: &mut ExprAssign) { if let Some(n) = root(&e.left) { self.set.insert(n); } visit_mut::visit_expr_assign_mut(self, e) }
        fn visit_expr_binary_mut(&mut self, e: &mut ExprBinary) {
            if matches!(e.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitXorAssign(_)) { if let Some(n) = root(&e.left) { self.set.insert(n); } }
            visit_mut::visit_expr_binary_mut(self, e)
        }
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.own.insert(p.ident.to_string()); visit_mut::visit_pat_ident_mut(self, p) }
    }
    let mut v = V { breaks: 0, returns: 0, depth: 0, set: BTreeSet::new(), own: BTreeSet::new() };
    v.visit_block_mut(&mut body.clone());
    let carried = v.set.iter().filter(|n| *n != "self" && !v.own.contains(*n)).count();
    format!(" #{},{},{}", carried, v.breaks, v.returns)
}
/// loops (kind, header, breaks and carried locals) and closures of a body, in order
fn shape_of(b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_expr_for_loop_mut(&mut self, e: &mut ExprForLoop) { self.0.push(format!("for {}{}", e.expr.to_token_stream(), loop_load(&e.body))); visit_mut::visit_expr_for_loop_mut(self, e) }
        fn visit_expr_while_mut(&mut self, e: &mut ExprWhile) { self.0.push(format!("while {}{}", e.cond.to_token_stream(), loop_load(&e.body))); visit_mut::visit_expr_while_mut(self, e) }
        fn visit_expr_loop_mut(&mut self, e: &mut ExprLoop) { self.0.push(format!("loop{}", loop_load(&e.body))); visit_mut::visit_expr_loop_mut(self, e) }
        fn visit_expr_closure_mut(&mut self, e: &mut ExprClosure) { self.0.push("closure".into()); visit_mut::visit_expr_closure_mut(self, e) }
    }
    let mut v = V(vec![]);
    let mut b = b.clone();
    v.visit_block_mut(&mut b);
    v.0
}

/// the names a function binds, in order
fn binders_of(sig: &Signature, b: &Block) -> Vec<String> {
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { let n = p.ident.to_string(); if !n.starts_with(|c: char| c.is_uppercase()) { self.0.push(n); } visit_mut::visit_pat_ident_mut(self, p) }
        fn visit_macro_mut(&mut self, _: &mut Macro) {}
    }
    let mut v = V(vec![]);
    v.visit_signature_mut(&mut sig.clone());
    v.visit_block_mut(&mut b.clone());
    v.0
}
/// old name -> new name, only for names that are gone and names that were not there
/// `VxQ1`, `VxQ2`, ... in ghost text: the type arguments of the first, second, ... `query` call, in source order
fn queried(b: &Block) -> Vec<(String, String)> {
    struct V(Vec<String>);
    impl VisitMut for V {
        fn visit_expr_method_call_mut(&mut self, m: &mut ExprMethodCall) {
            visit_mut::visit_expr_method_call_mut(self, m);
            if m.method == "query" { self.0.push(m.turbofish.as_ref().map(|t| t.args.to_token_stream().to_string()).unwrap_or_default()); }
        }
        fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
            visit_mut::visit_expr_call_mut(self, c);
            if let Expr::Path(p) = &*c.func {
                let s = &p.path.segments;
                if s.last().map_or(false, |l| l.ident == "query") {
                    let t = match &p.qself { Some(q) => q.ty.to_token_stream().to_string(), None => s.iter().rev().nth(1).map(|x| x.ident.to_string()).unwrap_or_default() };
                    self.0.push(t);
                }
            }
        }
    }
    let mut v = V(vec![]);
    v.visit_block_mut(&mut b.clone());
    (1..=5).map(|k| (format!("VxQ{k}"), match v.0.get(k - 1) { Some(t) if !t.is_empty() => t.clone(), _ => ["A", "B", "C", "D", "E"][k - 1].to_string() })).collect()
}
fn renaming(was: &[String], now: &[String]) -> Vec<(String, String)> {
    let (gone, fresh): (Vec<&String>, Vec<&String>) = (was.iter().filter(|x| !now.contains(x)).collect(), now.iter().filter(|x| !was.contains(x)).collect());
    if gone.is_empty() || fresh.is_empty() { return vec![]; }
    let a = was.iter().zip(now).take_while(|(x, y)| x == y).count();
    let z = was[a..].iter().rev().zip(now[a..].iter().rev()).take_while(|(x, y)| x == y).count();
    let (w, n) = (&was[a..was.len() - z], &now[a..now.len() - z]);
    let mut out: Vec<(String, String)> = vec![];
    if w.len() == n.len() {
        for (x, y) in w.iter().zip(n) { if gone.contains(&x) && fresh.contains(&y) { if let Some(m) = out.iter().find(|m| m.0 == *x) { if m.1 != *y { return vec![]; } } else { out.push((x.clone(), y.clone())); } } }
    } else {
        let uniq = |l: &Vec<&String>| l.iter().all(|x| *x == l[0]);
        if uniq(&gone) && uniq(&fresh) { out.push((gone[0].clone(), fresh[0].clone())); }
    }
    out
}

fn collect_structs(file: &File, module: &str, cx: &mut Ctx) {
    for it in &file.items {
        if let Item::Struct(s) = it {
            let fs = s.fields.iter().map(|f| (f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default(), f.ty.clone())).collect();
            cx.structs.insert(format!("{module}::{}", s.ident), fs);
        }
    }
}

/// functions without a contract that may be put in at their calls (R15)
fn collect_helpers(file: &File, module: &str, cx: &mut Ctx) {
    let add = |full: String, ty: Option<String>, sig: &Signature, b: &Block, vis: &Visibility, g: &HashSet<String>, cx: &mut Ctx| {
        if cx.c.fns.contains_key(&full) || matches!(vis, Visibility::Public(_)) { return; }
        if let Some(mut h) = inline::candidate(full, ty, sig, b, g) { if module == "sparse_set" { rewrite::Mono.visit_block_mut(&mut h.block); rewrite::Mono.visit_signature_mut(&mut h.sig); } cx.helpers.push(h); }
    };
    for it in &file.items { match it {
        Item::Fn(f) if !has_cfg_test(&f.attrs) => add(format!("{module}::{}", f.sig.ident), None, &f.sig, &f.block, &f.vis, &HashSet::new(), cx),
        Item::Impl(i) if i.trait_.is_none() && !has_cfg_test(&i.attrs) => {
            let g = generic_names(&i.generics);
            let ty = type_key(&i.self_ty, &g);
            if ty.starts_with("dyn ") { continue; }
            let st = if let Type::Path(p) = &*i.self_ty { Some(p.path.segments.last().unwrap().ident.to_string()) } else { None };
            for x in &i.items { if let ImplItem::Fn(f) = x { if !has_cfg_test(&f.attrs) { add(format!("{module}::{ty}::{}", f.sig.ident), st.clone(), &f.sig, &f.block, &f.vis, &g, cx); } } }
        }
        _ => {}
    } }
}

fn vis_pub() -> Visibility { parse_quote!(pub) }

struct Emit<'c> { cx: &'c mut Ctx, module: String, file: String, out: String }
impl<'c> Emit<'c> {
    fn line(&mut self, s: &str) { self.out.push_str(s); self.out.push('\n'); }
    fn types(&mut self) -> rewrite::TypeRw<'_> { rewrite::TypeRw { rep: &mut self.cx.rep, self_query: None } }

    fn emit_fn(&mut self, key: &str, self_struct: Option<&str>, vis: Option<Visibility>, sig: &Signature, block: Option<&Block>, in_trait: bool) {
        let full = format!("{}::{}", self.module, key);
        self.cx.used.insert(full.clone());
        let con = self.cx.c.fns.get(&full).cloned();
        let start = sig.fn_token.span.start().line;
        let end = block.map(|b| b.brace_token.span.close().end().line).unwrap_or(start);
        if self.cx.helpers.iter().any(|h| h.full == full) { self.cx.rep.rule("R15 new private functions put in at their calls"); self.cx.rep.dropped.push(format!("{full}: put in at its calls")); return; }
        let mut inlined: Option<Block> = None;
        if let (Some(b), false) = (block, self.cx.helpers.is_empty()) {
            let mut b2 = b.clone();
            let hs = self.cx.helpers.clone();
            let mut i = inline::Inliner { helpers: &hs, self_ty: self_struct.map(|s| s.to_string()), done: vec![], depth: 0, n: 0 };
            i.run(&mut b2);
            if !i.done.is_empty() { inlined = Some(b2); }
        }
        let block = inlined.as_ref().or(block);
        if let Some(b) = block { let mut b = b.clone(); rewrite::normalise(&mut b); let s = shape_of(&b).into_iter().filter(|x| x != "closure").collect(); self.cx.shape.insert(full.clone(), s); }
        let mut con = con;
        if let Some(b) = block {
            let now = binders_of(sig, b);
            if let (Some(c), Some(was)) = (con.as_mut(), self.cx.c.binders.get(&full)) {
                let m = renaming(was, &now);
                if !m.is_empty() { c.rename(&m); self.cx.renamed.push(format!("{full}: {}", m.iter().map(|m| format!("{} is now {}", m.0, m.1)).collect::<Vec<_>>().join(", "))); }
            }
            self.cx.binders.insert(full.clone(), now);
            if let Some(c) = con.as_mut() { let m = queried(b); c.rename(&m); }
        }
        let con = match con {
            Some(c) => c,
            None => { self.cx.rep.uncontracted.push(full.clone()); FnContract::default() }
        };
        if con.skip { self.cx.rep.dropped.push(format!("{full}: {}", con.skip_why)); return; }
        self.cx.rep.functions.push(full.clone());
        let mut sig = sig.clone();
        sig.safety = Safety::Default;
        // R1: types
        {
            let mut t = rewrite::TypeRw { rep: &mut self.cx.rep, self_query: con.ret_type.clone() };
            t.visit_signature_mut(&mut sig);
        }
        for i in sig.inputs.iter_mut() { if let FnArg::Typed(p) = i { if let Pat::Ident(_) = &*p.pat {} } }
        let name = sig.ident.to_string();
        if let Some(n) = rewrite::rename(&name) { sig.ident = n; }
        // R2: heap / permission parameters
        let mut extra: Vec<FnArg> = vec![];
        if con.panics.is_some() && !con.no_allow { extra.push(parse_quote!(Ghost(allow): Ghost<bool>)); }
        if con.heap { extra.push(parse_quote!(h: &mut Hp)); }
        if !extra.is_empty() {
            self.cx.rep.rule("R2 heap parameter");
            let at = if matches!(sig.inputs.first(), Some(FnArg::Receiver(_))) { 1 } else { 0 };
            let mut v: Vec<FnArg> = sig.inputs.iter().cloned().collect();
            for (k, e) in extra.into_iter().enumerate() { v.insert(at + k, e); }
            sig.inputs = v.into_iter().collect();
        }
        let gens = &sig.generics;
        let wh = &sig.generics.where_clause;
        let ident = &sig.ident;
        let inputs = &sig.inputs;
        let mut head = String::new();
        // XT_EXTERNAL: functions whose text the verifier does not accept on this tree keep their contract only (the caller reports them)
        let stub = block.is_some() && (std::env::var("XT_STUB").is_ok() && !self.cx.c.fns.contains_key(&full) || std::env::var("XT_EXTERNAL").map_or(false, |l| l.split('\n').any(|x| x == full)));
        if stub || con.external_body { self.cx.rep.stubbed.push(full.clone()); }
        if stub { head += "#[verifier::external_body]\n"; }
        for a in &con.attrs { head += a; head.push('\n'); }
        if let Some(v) = vis { head += &pp(v.to_token_stream(), &self.cx.texts); head.push(' '); }
        head += &pp(quote!(fn #ident #gens (#inputs)), &self.cx.texts);
        if let ReturnType::Type(_, t) = &sig.output {
            head += &format!(" -> ({}: {})", con.ret.clone().unwrap_or("r".into()), pp(t.to_token_stream(), &self.cx.texts));
        }
        if let Some(w) = wh { head.push(' '); head += &pp(w.to_token_stream(), &self.cx.texts); }
        head.push('\n');
        // contract clauses
        let mut req: Vec<String> = con.requires.clone();
        let mut ens: Vec<String> = con.ensures.clone();
        if let Some(p) = &con.panics {
            if con.no_allow { /* trait-level: handled by the contract text */ } else { req.push(format!("({p}) ==> allow,")); }
            if !con.inherit { ens.push(format!("!({}),", con.panics_old.clone().unwrap_or(p.clone()))); }
        }
        let no_head = con.inherit;
        if !no_head && !req.is_empty() { head += "    requires\n"; for r in &req { head += &format!("        {}{}\n", r, if r.trim_end().ends_with(',') { "" } else { "," }); } }
        if !ens.is_empty() { head += "    ensures\n"; for r in &ens { head += &format!("        {}{}\n", r, if r.trim_end().ends_with(',') { "" } else { "," }); } }
        if !con.decreases.is_empty() { head += &format!("    decreases {}\n", con.decreases); }
        if con.opens_none { head += "    opens_invariants none\n"; }
        self.line(&format!("// @src {} {} {} {}", self.file, start, end, full));
        self.out.push_str(&head);
        match block {
            None => self.line(";"),
            Some(b) => {
                let mut b = b.clone();
                if con.external_body || stub {
                    self.line("{ unimplemented!() }");
                    return;
                }
                let mut rw = rewrite::BodyRw::new(self.cx, &self.module, self_struct, full.clone(), con.clone(), in_trait);
                rw.run(&mut b);
                // closures that are still there after R4
                let c = shape_of(&b).into_iter().filter(|x| x == "closure").collect::<Vec<_>>();
                self.cx.shape.get_mut(&full).unwrap().extend(c);
                let s = pp(b.to_token_stream(), &self.cx.texts);
                self.line(&s);
            }
        }
        self.cx.fns.push((full, String::new()));
    }

    fn emit_file(&mut self, file: &File, subs: &dyn Fn(&mut Emit, &str)) {
        for it in &file.items {
            match it {
                Item::Use(u) => {
                    let s = u.to_token_stream().to_string().replace(' ', "");
                    if s.contains("parking_lot") || s.contains("::fmt") || s.contains("std::any") || s.contains("std::collections") || s.starts_with("usestd") { self.cx.rep.rule("R0 std/parking_lot imports replaced by the shim prelude"); continue; }
                    if let UseTree::Path(p) = &u.tree { let n = p.ident.to_string(); let path = if self.module.is_empty() { n } else { format!("{}::{n}", self.module) }; if self.cx.c.skip_mods.contains(&path) { continue; } }
                    let mut u = u.clone();
                    if !matches!(u.vis, Visibility::Inherited) { u.vis = vis_pub(); }
                    let t = pp(u.to_token_stream(), &self.cx.texts);
                    self.line("#[allow(unused_imports)]");
                    self.line(&t);
                }
                Item::Mod(m) => {
                    if has_cfg_test(&m.attrs) { continue; }
                    let n = m.ident.to_string();
                    let path = if self.module.is_empty() { n.clone() } else { format!("{}::{n}", self.module) };
                    if self.cx.c.skip_mods.contains(&path) { self.cx.rep.dropped.push(format!("module {path}")); continue; }
                    subs(self, &n);
                }
                Item::Type(t) => { let mut t = t.clone(); t.attrs.clear(); t.vis = vis_pub(); self.types().visit_item_type_mut(&mut t); let s = pp(t.to_token_stream(), &self.cx.texts); self.line(&s); }
                Item::Struct(s) => {
                    let mut s = s.clone();
                    let mut derives = vec![];
                    for a in &s.attrs { if a.path().is_ident("derive") { for d in ["Clone", "Copy"] { if a.to_token_stream().to_string().contains(d) && !self.cx.c.no_derive.contains(&format!("{}::{}", self.module, s.ident)) { derives.push(d); } } } }
                    s.attrs.clear(); s.vis = vis_pub();
                    // a raw pointer field borrows for the struct's own lifetime parameter
                    let lt = s.generics.lifetimes().next().map(|l| l.lifetime.clone());
                    for f in s.fields.iter_mut() { f.attrs.clear(); f.vis = vis_pub();
                        rewrite::TypeRw { rep: &mut self.cx.rep, self_query: None }.ptrs(&mut f.ty, lt.as_ref()); }
                    if self.module == "sparse_set" { rewrite::mono_generics(&mut s.generics, &mut self.cx.rep); }
                    let key = format!("{}::{}", self.module, s.ident);
                    if let Some(a) = self.cx.c.type_attrs.get(&key).cloned() { self.line(&a); }
                    self.types().visit_item_struct_mut(&mut s);
                    if self.module == "sparse_set" { rewrite::Mono.visit_item_struct_mut(&mut s); }
                    if !derives.is_empty() && derives.contains(&"Copy") { self.line(&format!("#[derive({})]", derives.join(","))); }
                    let t = pp(s.to_token_stream(), &self.cx.texts); self.line(&t);
                }
                Item::Enum(e) => {
                    let mut e = e.clone();
                    let d: String = e.attrs.iter().map(|a| a.to_token_stream().to_string()).collect();
                    e.attrs.clear(); e.vis = vis_pub();
                    if d.contains("Copy") { self.line("#[derive(Clone, Copy)]"); }
                    self.types().visit_item_enum_mut(&mut e);
                    let t = pp(e.to_token_stream(), &self.cx.texts); self.line(&t);
                    if d.contains("PartialEq") {
                        self.cx.rep.rule("R6 derived equality expanded");
                        let id = &e.ident;
                        let arms: Vec<_> = e.variants.iter().map(|v| { let v = &v.ident; quote!((#id :: #v (x), #id :: #v (y)) => x.eq(y),) }).collect();
                        let f: ItemFn = parse_quote!(fn eq(&self, other: &Self) -> bool { match (self, other) { #(#arms)* _ => false } });
                        self.line(&format!("impl {id} {{"));
                        let key = format!("{}::eq", e.ident);
                        self.emit_fn(&key, None, Some(vis_pub()), &f.sig, Some(&f.block), false);
                        self.line("}");
                    }
                }
                Item::Trait(t) => {
                    let full = format!("{}::{}", self.module, t.ident);
                    if self.cx.c.skip_items.contains(&full) { self.cx.rep.dropped.push(full); continue; }
                    let (id, g, sup) = (&t.ident, &t.generics, &t.supertraits);
                    let sup2: Vec<_> = sup.iter().filter(|b| { let s = b.to_token_stream().to_string(); s != "Send" && s != "Sync" }).collect();
                    let w = &t.generics.where_clause;
                    let head = if sup2.is_empty() { quote!(pub trait #id #g #w) } else { quote!(pub trait #id #g : #(#sup2)+* #w) };
                    let s = pp(head, &self.cx.texts); self.line(&format!("{s} {{"));
                    if let Some(x) = self.cx.c.trait_items.get(&full).cloned() { self.line(&x); }
                    for i in &t.items {
                        match i {
                            TraitItem::Type(x) => { let mut x = x.clone(); x.attrs.clear(); let s = pp(x.to_token_stream(), &self.cx.texts); self.line(&s); }
                            TraitItem::Fn(f) => self.emit_fn(&format!("{}::{}", t.ident, f.sig.ident), None, None, &f.sig, f.default.as_ref(), true),
                            o => self.cx.rep.unsupported.push(format!("trait item {}", o.to_token_stream())),
                        }
                    }
                    self.line("}");
                }
                Item::Impl(i) => self.emit_impl(i),
                Item::Fn(f) => { if has_cfg_test(&f.attrs) { continue; } self.emit_fn(&f.sig.ident.to_string(), None, Some(vis_pub()), &f.sig, Some(&f.block), false) }
                Item::Const(c) if c.ident != "_" => { if has_cfg_test(&c.attrs) { continue; } let mut c = c.clone(); c.attrs.clear(); c.vis = vis_pub(); self.types().visit_item_const_mut(&mut c); let s = pp(c.to_token_stream(), &self.cx.texts); self.line(&s); }
                o => self.cx.rep.unsupported.push(format!("{}: item {}", self.file, o.to_token_stream().to_string().chars().take(60).collect::<String>())),
            }
        }
        if let Some(x) = self.cx.c.mod_items.get(&self.module).cloned() { self.line(&x); }
    }

    fn emit_impl(&mut self, i: &ItemImpl) {
        if has_cfg_test(&i.attrs) { return; }
        let params = generic_names(&i.generics);
        let ty = type_key(&i.self_ty, &params);
        let tr = i.trait_.as_ref().map(|(p, _)| p.segments.last().unwrap().ident.to_string());
        if let Some(t) = &tr {
            if ["Debug", "Display", "ExactSizeIterator", "Component", "Resource", "Drop"].contains(&t.as_str()) && !(t == "Drop") {
                if t == "Component" || t == "Resource" { /* blanket marker impls live in the shim */ }
                if t != "Debug" && t != "Display" && !i.items.is_empty() { self.cx.rep.unsupported.push(format!("{}: impl {t} for {ty} has members", self.module)); }
                self.cx.rep.dropped.push(format!("{}: impl {t} for {ty}", self.module)); return;
            }
            if t == "Drop" { self.cx.rep.unsupported.push(format!("{}: impl Drop for {ty}", self.module)); return; }
        }
        if ty.starts_with("dyn ") {
            // downcasts: pinned text, replaced by trusted functions of the shim
            for it in &i.items {
                if let ImplItem::Fn(f) = it {
                    let key = format!("{}::{}::{}", self.module, ty, f.sig.ident);
                    let body = f.block.to_token_stream().to_string().replace(' ', "");
                    self.cx.used.insert(key.clone());
                    match self.cx.c.pins.get(&key) {
                        Some(p) if p.replace(' ', "") == body => { self.cx.rep.rule("R11 pinned downcast bodies"); self.cx.rep.dropped.push(format!("{key}: body pinned, trusted")); }
                        _ => self.cx.rep.unsupported.push(format!("{key}: body is not the pinned downcast")),
                    }
                }
            }
            return;
        }
        let inherent = tr.as_ref().map_or(true, |t| ["PartialEq", "Deref", "DerefMut"].contains(&t.as_str()));
        if tr.is_some() && inherent { self.cx.rep.rule("R7 operator traits as inherent methods"); }
        let key_ty = match &tr { Some(t) => format!("{ty}@{t}"), None => ty.clone() };
        let self_struct = if let Type::Path(p) = &*i.self_ty { Some(p.path.segments.last().unwrap().ident.to_string()) } else { None };
        let mut im = i.clone();
        if self.module == "sparse_set" { rewrite::mono_generics(&mut im.generics, &mut self.cx.rep); rewrite::Mono.visit_item_impl_mut(&mut im); }
        { let mut t = self.types(); t.visit_generics_mut(&mut im.generics); t.visit_type_mut(&mut im.self_ty); if let Some((p, _)) = &mut im.trait_ { t.visit_path_mut(p); } }
        let g = &im.generics; let w = &im.generics.where_clause; let st = &im.self_ty;
        let (_, _, _) = (g, w, st);
        let head = match (&im.trait_, inherent) { (Some((p, _)), false) => quote!(impl #g #p for #st #w), _ => quote!(impl #g #st #w) };
        let s = pp(head, &self.cx.texts);
        self.line(&format!("{s} {{"));
        let full = format!("{}::{}", self.module, key_ty);
        if let Some(x) = self.cx.c.trait_items.get(&full).cloned() { self.line(&x); self.cx.used.insert(full.clone()); }
        let tkey = format!("{}::{}", self.module, ty);
        let target: Option<Type> = im.items.iter().find_map(|x| if let ImplItem::Type(t) = x { (t.ident == "Target").then(|| t.ty.clone()) } else { None });
        if let Some(t) = &target { self.cx.targets.insert(tkey.clone(), t.clone()); }
        let target = target.or_else(|| self.cx.targets.get(&tkey).cloned());
        if tr.as_deref() == Some("Iterator") && !im.items.iter().any(|x| matches!(x, ImplItem::Fn(f) if f.sig.ident == "size_hint")) {
            self.cx.rep.rule("R13 core's default size_hint spelled out");
            let f: ImplItemFn = parse_quote!(fn size_hint(&self) -> (usize, Option<usize>) { (0, None) });
            self.emit_fn(&format!("{key_ty}::size_hint"), self_struct.as_deref(), None, &f.sig, Some(&f.block), false);
        }
        for it in &im.items {
            match it {
                ImplItem::Type(t) => { if inherent { continue; } let mut t = t.clone(); t.attrs.clear(); self.types().visit_impl_item_type_mut(&mut t); let s = pp(t.to_token_stream(), &self.cx.texts); self.line(&s); }
                ImplItem::Fn(f) => {
                    let mut f = f.clone();
                    if let (true, Some(t)) = (inherent, &target) { rewrite::Target(t.clone()).visit_impl_item_fn_mut(&mut f); }
                    let vis = if tr.is_none() || inherent { Some(vis_pub()) } else { None };
                    self.emit_fn(&format!("{key_ty}::{}", f.sig.ident), self_struct.as_deref(), vis, &f.sig, Some(&f.block), false);
                }
                o => self.cx.rep.unsupported.push(format!("impl item {}", o.to_token_stream())),
            }
        }
        self.line("}");
    }
}

fn load(dir: &Path, name: &str, inline: &str) -> Option<(std::path::PathBuf, String)> {
    for p in [dir.join(format!("{name}.rs")), dir.join(name).join("mod.rs")] {
        if let Ok(s) = std::fs::read_to_string(&p) { return Some((p, s)); }
    }
    let _ = inline;
    None
}

fn walk_collect(dir: &Path, name: &str, module: &str, cx: &mut Ctx) {
    let Some((p, s)) = (if module.is_empty() { Some((dir.join("lib.rs"), std::fs::read_to_string(dir.join("lib.rs")).unwrap())) } else { load(dir, name, module) }) else { return };
    let Ok(f) = parse_file(&s) else { cx.rep.unsupported.push(format!("{} does not parse", p.display())); return };
    scan_ownership(&f, module, cx);
    collect_structs(&f, module, cx);
    collect_helpers(&f, module, cx);
    let sub = if module.is_empty() { dir.to_path_buf() } else { dir.join(name) };
    for it in &f.items { if let Item::Mod(m) = it { if !has_cfg_test(&m.attrs) && m.content.is_none() { let n = m.ident.to_string(); let path = if module.is_empty() { n.clone() } else { format!("{module}::{n}") }; walk_collect(&sub, &n, &path, cx); } } }
}

fn walk_emit(dir: &Path, root: &Path, name: &str, module: &str, cx: &mut Ctx, out: &mut String) {
    let Some((p, s)) = (if module.is_empty() { Some((dir.join("lib.rs"), std::fs::read_to_string(dir.join("lib.rs")).unwrap())) } else { load(dir, name, module) }) else { cx.rep.unsupported.push(format!("module {module} has no file")); return };
    let Ok(f) = parse_file(&s) else { return };
    let rel = format!("src/{}", p.strip_prefix(root).unwrap().display());
    let sub = if module.is_empty() { dir.to_path_buf() } else { dir.join(name) };
    let mut e = Emit { cx, module: module.to_string(), file: rel, out: String::new() };
    let root = root.to_path_buf();
    e.emit_file(&f, &|e: &mut Emit, n: &str| {
        let path = if e.module.is_empty() { n.to_string() } else { format!("{}::{n}", e.module) };
        let mut o = String::new();
        walk_emit(&sub, &root, n, &path, e.cx, &mut o);
        e.out.push_str(&format!("pub mod {n} {{\n#[allow(unused_imports)] use vstd::prelude::*; #[allow(unused_imports)] use crate::shim::*; #[allow(unused_imports)] use crate::spec::*; #[allow(unused_imports)] use crate::gspec::*; #[allow(unused_imports)] use crate::wspec::*;\n{o}\n}}\n"));
    });
    let s = std::mem::take(&mut e.out);
    // nested modules were emitted in place; they close and reopen the verus block
    out.push_str(&s);
}

fn js(s: &str) -> String { let mut o = String::from("\""); for c in s.chars() { match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 => o += " ", c => o.push(c) } } o + "\"" }
fn jl(v: &[String]) -> String { format!("[{}]", v.iter().map(|s| js(s)).collect::<Vec<_>>().join(",")) }

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (src, outp, rep) = (Path::new(&a[1]), &a[2], &a[3]);
    let mut c = Contracts::default();
    for f in &a[4..] { c.load(f); }
    let mut cx = Ctx { c, rep: Report::default(), structs: HashMap::new(), texts: vec![], used: BTreeSet::new(), fns: vec![], shape: BTreeMap::new(), binders: BTreeMap::new(), renamed: vec![], targets: HashMap::new(), helpers: vec![] };
    walk_collect(src, "", "", &mut cx);
    {
        // a name that is also a name of the crate's own functions or of the shim would be ambiguous at a call
        let mut names: HashSet<String> = cx.c.fns.keys().filter_map(|k| k.rsplit("::").next().map(|s| s.to_string())).collect();
        let toks: Vec<&str> = cx.c.prelude.split(|c: char| !c.is_alphanumeric() && c != '_').collect();
        for w in toks.windows(2) { if w[0] == "fn" { names.insert(w[1].to_string()); } }
        for n in ["push", "pop", "get", "get_mut", "insert", "remove", "swap", "len", "iter", "next", "clone", "take", "map", "find", "min", "max", "new", "default", "from", "into", "drop", "eq"] { names.insert(n.into()); }
        cx.helpers.retain(|h| !names.contains(&h.sig.ident.to_string()));
        let dup: Vec<String> = cx.helpers.iter().map(|h| h.sig.ident.to_string()).collect();
        cx.helpers.retain(|h| dup.iter().filter(|d| **d == h.sig.ident.to_string()).count() == 1);
    }
    let mut out = String::new();
    walk_emit(src, src, "", "", &mut cx, &mut out);
    // unwrap the nesting: `pub mod` blocks inside a verus block are fine for Verus
    let mut full = String::from("#![allow(unused, dead_code, non_snake_case)]\n");
    full += "#[allow(unused_imports)] use vstd::prelude::*;\n#[allow(unused_imports)] use crate::shim::*;\n#[allow(unused_imports)] use crate::spec::*;\n#[allow(unused_imports)] use crate::gspec::*;\n#[allow(unused_imports)] use crate::wspec::*;\n";
    full += &cx.c.prelude.clone();
    full += "verus! {\n";
    full += &out.lines().map(|l| format!("{l}\n")).collect::<String>();
    full += "\nfn main() {}\n}\n";
    std::fs::write(outp, full).unwrap();
    let defined: BTreeSet<String> = cx.c.fns.keys().cloned().collect();
    for d in &defined { if !cx.used.contains(d) { cx.rep.missing.push(d.clone()); } }
    let items: Vec<String> = cx.c.trait_items.keys().filter(|k| k.contains('@') && !cx.used.contains(*k)).cloned().collect();
    cx.rep.missing.extend(items);
    let r = &cx.rep;
    let rules = r.rules.iter().map(|(k, v)| format!("{}:{v}", js(k))).collect::<Vec<_>>().join(",");
    let shape = cx.shape.iter().map(|(k, v)| format!("{}:{}", js(k), jl(&v.iter().map(|s| s.to_string()).collect::<Vec<_>>()))).collect::<Vec<_>>().join(",");
    let bind = cx.binders.iter().map(|(k, v)| format!("{}:{}", js(k), jl(v))).collect::<Vec<_>>().join(",");
    std::fs::write(rep, format!("{{\"renamed\":{},\"binders\":{{{}}},\"functions\":{},\"missing\":{},\"uncontracted\":{},\"unsupported\":{},\"loops_without_invariant\":{},\"dropped\":{},\"stubbed\":{},\"rules\":{{{}}},\"shape\":{{{}}}}}\n",
        jl(&cx.renamed), bind, jl(&r.functions), jl(&r.missing), jl(&r.uncontracted), jl(&r.unsupported), jl(&r.loops_without_invariant), jl(&r.dropped), jl(&r.stubbed), rules, shape)).unwrap();
}
