//! R15: a private function of /repo that has no contract (one that a change introduced) is put in at its calls,
//! so that the text under contract stays the code that runs.  Only done where the substitution is exact:
//! no early exit left in the helper, no recursion, an unambiguous name, arguments bound once.
use crate::*;
use syn::punctuated::Punctuated;

#[derive(Clone)]
pub struct Helper { pub full: String, pub self_ty: Option<String>, pub sig: Signature, pub block: Block, pub generics: HashSet<String>, pub tail_only: bool }

fn idents(t: proc_macro2::TokenStream, out: &mut HashSet<String>) {
    for x in t { match x { proc_macro2::TokenTree::Ident(i) => { out.insert(i.to_string()); } proc_macro2::TokenTree::Group(g) => idents(g.stream(), out), _ => {} } }
}
pub fn ids_of<T: ToTokens>(t: &T) -> HashSet<String> { let mut s = HashSet::new(); idents(t.to_token_stream(), &mut s); s }

struct Bound(HashSet<String>);
impl VisitMut for Bound { fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.0.insert(p.ident.to_string()); visit_mut::visit_pat_ident_mut(self, p) } }
fn bound_in(b: &Block) -> HashSet<String> { let mut v = Bound(HashSet::new()); v.visit_block_mut(&mut b.clone()); v.0 }

struct Exits(bool);
impl VisitMut for Exits {
    fn visit_expr_return_mut(&mut self, _: &mut ExprReturn) { self.0 = true }
    fn visit_expr_try_mut(&mut self, _: &mut ExprTry) { self.0 = true }
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) { self.0 = true }
    fn visit_macro_mut(&mut self, m: &mut Macro) { if ids_of(&m.tokens).contains("return") { self.0 = true } }
}
fn exits(b: &Block) -> bool { let mut v = Exits(false); v.visit_block_mut(&mut b.clone()); v.0 }

fn returned(b: &Block) -> Option<Block> {
    // a block that ends with `return e` as a block with the value e
    let mut b = b.clone();
    match b.stmts.pop() { Some(Stmt::Expr(Expr::Return(r), _)) => { if let Some(e) = r.expr { b.stmts.push(Stmt::Expr(*e, None)); } Some(b) } _ => None }
}
/// `if c { return x; } rest` and `let P = e else { return x; }; rest` as one expression, so that no early exit is left
fn structured(b: &Block) -> Block {
    let mut out: Vec<Stmt> = vec![];
    let n = b.stmts.len();
    for (i, s) in b.stmts.iter().enumerate() {
        let rest = || -> Block { structured(&Block { brace_token: b.brace_token, stmts: b.stmts[i + 1..].to_vec() }) };
        match s {
            Stmt::Expr(Expr::Return(r), _) if i + 1 == n => { if let Some(e) = &r.expr { out.push(Stmt::Expr((**e).clone(), None)); } }
            Stmt::Expr(Expr::If(f), _) if f.else_branch.is_none() && i + 1 < n => {
                if let Some(t) = returned(&f.then_branch) { let (c, r) = (&f.cond, rest()); out.push(Stmt::Expr(parse_quote!(if #c #t else #r), None)); return Block { brace_token: b.brace_token, stmts: out }; }
                out.push(s.clone());
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init { if let Some((_, d)) = &init.diverge { if let Expr::Block(db) = &**d { if let Some(t) = returned(&db.block) {
                    let (p, e, r) = (&l.pat, &init.expr, rest());
                    out.push(Stmt::Expr(parse_quote!(match #e { #p => #r, _ => #t }), None)); return Block { brace_token: b.brace_token, stmts: out };
                } } } }
                out.push(s.clone());
            }
            _ => out.push(s.clone()),
        }
    }
    Block { brace_token: b.brace_token, stmts: out }
}

fn ends_continue(b: &Block) -> Option<Block> {
    let mut b = b.clone();
    match b.stmts.pop() { Some(Stmt::Expr(Expr::Continue(c), _)) if c.label.is_none() => Some(b), _ => None }
}
/// the body of a `for` loop with `continue` spelled out as `if`/`else` over the rest of the body
pub fn continued(b: &Block) -> Block {
    let mut out: Vec<Stmt> = vec![];
    for (i, s) in b.stmts.iter().enumerate() {
        let rest = |pre: Vec<Stmt>| -> Block { continued(&Block { brace_token: b.brace_token, stmts: pre.into_iter().chain(b.stmts[i + 1..].iter().cloned()).collect() }) };
        let done = |mut out: Vec<Stmt>, e: Expr| { out.push(Stmt::Expr(e, None)); Block { brace_token: b.brace_token, stmts: out } };
        match s {
            Stmt::Expr(Expr::Continue(c), _) if c.label.is_none() && i + 1 == b.stmts.len() => {}
            Stmt::Expr(Expr::If(f), _) => {
                let c = &f.cond;
                if let Some(t) = ends_continue(&f.then_branch) {
                    let pre = match &f.else_branch { None => vec![], Some((_, e)) => vec![Stmt::Expr((**e).clone(), Some(Default::default()))] };
                    let r = rest(pre);
                    return done(out, parse_quote!(if #c #t else #r));
                }
                if let Some((_, e)) = &f.else_branch { if let Expr::Block(eb) = &**e { if let Some(t) = ends_continue(&eb.block) {
                    let r = rest(f.then_branch.stmts.clone());
                    return done(out, parse_quote!(if #c #r else #t));
                } } }
                out.push(s.clone());
            }
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    let (p, e) = (&l.pat, &init.expr);
                    if let Some((_, d)) = &init.diverge { if let Expr::Block(db) = &**d { if let Some(t) = ends_continue(&db.block) {
                        let r = rest(vec![]);
                        return done(out, parse_quote!(match #e { #p => #r, _ => #t }));
                    } } }
                    if let (Expr::Match(m), None) = (&**e, &init.diverge) {
                        let skip = |a: &Arm| match &*a.body { Expr::Continue(c) => c.label.is_none(), Expr::Block(b) => ends_continue(&b.block).is_some(), _ => false };
                        if m.arms.iter().any(skip) && m.arms.iter().filter(|a| !skip(a)).count() == 1 {
                            let mut m = m.clone();
                            for a in m.arms.iter_mut() {
                                a.comma = Some(Default::default());
                                if skip(a) { let t = match &*a.body { Expr::Block(b) => ends_continue(&b.block).unwrap(), _ => parse_quote!({}) }; a.body = Box::new(parse_quote!(#t)); }
                                else { let v = &a.body; let r = rest(vec![parse_quote!(let #p = #v;)]); a.body = Box::new(parse_quote!(#r)); }
                            }
                            return done(out, Expr::Match(m));
                        }
                    }
                }
                out.push(s.clone());
            }
            _ => out.push(s.clone()),
        }
    }
    Block { brace_token: b.brace_token, stmts: out }
}

pub fn candidate(full: String, self_ty: Option<String>, sig: &Signature, block: &Block, extra: &HashSet<String>) -> Option<Helper> {
    let mut g: HashSet<String> = generic_names(&sig.generics);
    let block = structured(block);
    if ids_of(&block).contains(&sig.ident.to_string()) { return None; }
    for i in &sig.inputs { if let FnArg::Typed(t) = i { match &*t.pat { Pat::Ident(p) if p.by_ref.is_none() && p.subpat.is_none() => {} _ => return None } if matches!(&*t.ty, Type::ImplTrait(_)) { g.insert("impl".into()); } } }
    let _ = extra;
    let tail_only = exits(&block);
    Some(Helper { full, self_ty, sig: sig.clone(), block, generics: g, tail_only })
}

fn place(e: &Expr) -> bool { match e { Expr::Path(p) => p.path.get_ident().is_some(), Expr::Field(f) => place(&f.base), Expr::Paren(p) => place(&p.expr), _ => false } }

/// puts `to` (a place, possibly borrowed) for the variable `name`
struct Subst<'a> { name: &'a str, place: Expr, borrow: Option<bool> }
impl<'a> Subst<'a> {
    fn is(&self, e: &Expr) -> bool { matches!(e, Expr::Path(p) if p.path.is_ident(self.name)) }
    fn bare(&self) -> Expr { let p = &self.place; if matches!(p, Expr::Path(_) | Expr::Field(_)) { p.clone() } else { parse_quote!((#p)) } }
    fn tokens(&self, m: &mut Macro) {
        // a plain replacement inside macro arguments: parse them as expressions
        if let Ok(mut a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            let mut me = Subst { name: self.name, place: self.place.clone(), borrow: self.borrow };
            for x in a.iter_mut() { me.visit_expr_mut(x); }
            m.tokens = a.to_token_stream();
        }
    }
}
impl<'a> VisitMut for Subst<'a> {
    fn visit_macro_mut(&mut self, m: &mut Macro) { self.tokens(m) }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        let b = self.bare();
        match e {
            Expr::MethodCall(m) if self.is(&m.receiver) => { *m.receiver = b; for a in m.args.iter_mut() { self.visit_expr_mut(a); } return; }
            Expr::Field(f) if self.is(&f.base) => { *f.base = b; return; }
            Expr::Index(i) if self.is(&i.expr) => { *i.expr = b; self.visit_expr_mut(&mut i.index); return; }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => { if self.borrow.is_some() { *e = b } else { *u.expr = b } return; }
            _ => {}
        }
        if self.is(e) { *e = match self.borrow { Some(true) => parse_quote!(&mut #b), Some(false) => parse_quote!(& #b), None => b }; return; }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub struct Inliner<'a> { pub helpers: &'a [Helper], pub self_ty: Option<String>, pub done: Vec<String>, pub depth: usize, pub n: usize }
impl<'a> Inliner<'a> {
    fn find(&self, name: &str, method: bool, recv_self: bool) -> Option<Helper> {
        let h: Vec<_> = self.helpers.iter().filter(|h| h.sig.ident == name).collect();
        if h.len() != 1 { return None; }
        let h = h[0];
        let takes_self = matches!(h.sig.inputs.first(), Some(FnArg::Receiver(_)));
        if method != takes_self { return None; }
        if recv_self && h.self_ty != self.self_ty { return None; }
        Some(h.clone())
    }
    fn build(&mut self, h: &Helper, recv: Option<&Expr>, args: Vec<Expr>, turbofish: bool) -> Option<Block> {
        if self.depth > 5 { return None; }
        let params: Vec<(String, bool, Type)> = h.sig.inputs.iter().filter_map(|i| if let FnArg::Typed(t) = i { if let Pat::Ident(p) = &*t.pat { Some((p.ident.to_string(), p.mutability.is_some(), (*t.ty).clone())) } else { None } } else { None }).collect();
        if params.len() != args.len() { return None; }
        let used = ids_of(&h.block);
        if turbofish || h.generics.iter().any(|g| used.contains(g)) { return None; }
        let mut block = h.block.clone();
        let bound = bound_in(&block);
        let mut pre: Vec<Stmt> = vec![];
        let mut taken = HashSet::new();
        for a in &args { taken.extend(ids_of(a)); }
        if let Some(r) = recv { taken.extend(ids_of(r)); }
        let clash = taken.iter().any(|x| bound.contains(x));
        let mut subs: Vec<(String, Expr, Option<bool>)> = vec![];
        // the receiver
        if let Some(r) = recv {
            if matches!(r, Expr::Path(p) if p.path.is_ident("self")) {}
            else if place(r) && !clash { subs.push(("self".into(), r.clone(), None)); }
            else { return None; }
        }
        for ((name, mutable, ty), a) in params.iter().zip(args.iter()) {
            if matches!(a, Expr::Path(p) if p.path.is_ident(name)) && !*mutable && !bound.contains(name) { continue; }
            let (inner, bor) = match a { Expr::Reference(r) => ((*r.expr).clone(), Some(r.mutability.is_some())), x => (x.clone(), None) };
            let is_ref = matches!(ty, Type::Reference(_));
            if place(&inner) && !*mutable && !clash && (bor.is_some() || matches!(&inner, Expr::Path(_)) && (is_ref || bor.is_none())) && bor.is_none() == !matches!(a, Expr::Reference(_)) { subs.push((name.clone(), inner, bor)); continue; }
            self.n += 1;
            let id = Ident::new(name, proc_macro2::Span::call_site());
            let typed = { let u = ids_of(ty); !u.iter().any(|x| h.generics.contains(x)) && !u.contains("impl") && !u.contains("Self") };
            // bound before anything of the helper runs; evaluated in the order of the call
            let tmp = Ident::new(&format!("vx_a{}", self.n), proc_macro2::Span::call_site());
            let needs_tmp = args.len() > 1 && params.iter().any(|p| taken.contains(&p.0));
            let m: Option<Token![mut]> = if *mutable { Some(Default::default()) } else { None };
            let simple = !typed || !matches!(ty, Type::Reference(_));
            let bind = |p: Ident, m: Option<Token![mut]>, e: Expr| -> Stmt { if simple { parse_quote!(let #m #p = #e;) } else { parse_quote!(let #m #p: #ty = #e;) } };
            if needs_tmp { pre.push(bind(tmp.clone(), None, a.clone())); block.stmts.insert(0, parse_quote!(let #m #id = #tmp;)); }
            else { pre.push(bind(id, m, a.clone())); }
        }
        // simultaneous substitution: go through fresh names first
        let fresh: Vec<String> = (0..subs.len()).map(|k| format!("vx_s{}_{k}", self.n)).collect();
        for (k, (name, _, _)) in subs.iter().enumerate() { let f = Ident::new(&fresh[k], proc_macro2::Span::call_site()); Subst { name, place: parse_quote!(#f), borrow: None }.visit_block_mut(&mut block); }
        for (k, (_, p, b)) in subs.iter().enumerate() { Subst { name: &fresh[k], place: p.clone(), borrow: *b }.visit_block_mut(&mut block); }
        self.n += 1;
        let mut stmts = pre; stmts.extend(block.stmts);
        self.done.push(h.full.clone());
        let mut b = Block { brace_token: h.block.brace_token, stmts };
        self.depth += 1; self.visit_block_mut(&mut b); self.depth -= 1;
        Some(b)
    }
    fn call(&mut self, e: &Expr, tail: bool) -> Option<Block> {
        match e {
            Expr::MethodCall(m) => {
                let rs = matches!(&*m.receiver, Expr::Path(p) if p.path.is_ident("self"));
                let h = self.find(&m.method.to_string(), true, rs)?;
                if h.tail_only && !tail { return None; }
                self.build(&h, Some(&m.receiver), m.args.iter().cloned().collect(), m.turbofish.is_some())
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let l = p.path.segments.last()?;
                let tf = !matches!(l.arguments, PathArguments::None);
                let name = l.ident.to_string();
                if let Some(h) = self.find(&name, false, false) { if h.tail_only && !tail { return None; } return self.build(&h, None, c.args.iter().cloned().collect(), tf); }
                let h = self.find(&name, true, false)?;
                if h.tail_only && !tail || c.args.is_empty() { return None; }
                let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                let r = a.remove(0);
                let r = match r { Expr::Reference(x) => (*x.expr).clone(), x => x };
                self.build(&h, Some(&r), a, tf)
            }
            _ => None,
        }
    }
    pub fn run(&mut self, b: &mut Block) {
        if self.helpers.is_empty() { return; }
        // the value of the body, where even a helper with early exits fits
        if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
            if semi.is_none() { if let Some(x) = self.call(e, true) { if exits(&x) || true { b.stmts.pop(); let rest = x; self.visit_block_mut(b); self.flat(b, rest, true); return; } } }
        }
        self.visit_block_mut(b);
    }
    fn flat(&self, b: &mut Block, x: Block, tail: bool) {
        let names = bound_in(&x);
        let seen = ids_of(&*b);
        if tail || names.iter().all(|n| !seen.contains(n)) { b.stmts.extend(x.stmts); } else { b.stmts.push(Stmt::Expr(parse_quote!(#x), None)); }
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        let all: Vec<HashSet<String>> = stmts.iter().map(ids_of).collect();
        let mut out: Vec<Stmt> = vec![];
        for (i, mut s) in stmts.into_iter().enumerate() {
            if let Stmt::Expr(e, semi) = &s {
                if let Some(mut x) = self.call(e, false) {
                    let names = bound_in(&x);
                    let later = all[i + 1..].iter().any(|l| names.iter().any(|n| l.contains(n)));
                    if semi.is_some() { if let Some(Stmt::Expr(_, sm)) = x.stmts.last_mut() { if sm.is_none() { *sm = Some(Default::default()); } } }
                    if !later { out.extend(x.stmts); } else { out.push(Stmt::Expr(parse_quote!(#x), *semi)); }
                    continue;
                }
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
        }
        b.stmts = out;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Return(r) = e { if let Some(x) = &r.expr { if let Some(b) = self.call(x, true) { *e = parse_quote!(return #b); return; } } }
        if let Some(b) = self.call(e, false) {
            *e = if b.stmts.len() == 1 { if let Stmt::Expr(x, None) = &b.stmts[0] { parse_quote!((#x)) } else { parse_quote!(#b) } } else { parse_quote!(#b) };
        }
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if let Ok(mut a) = m.parse_body_with(Punctuated::<Expr, Token![,]>::parse_terminated) {
            let before = a.to_token_stream().to_string();
            for x in a.iter_mut() { self.visit_expr_mut(x); }
            if a.to_token_stream().to_string() != before { m.tokens = a.to_token_stream(); }
        }
    }
}
