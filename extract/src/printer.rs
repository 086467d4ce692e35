//! Prints a token stream with line breaks, expanding the placeholders put in by the rewriter.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};
fn lit(g: &TokenTree) -> usize { if let TokenTree::Group(g) = g { g.stream().into_iter().next().unwrap().to_string().parse().unwrap() } else { panic!() } }
pub fn pp(ts: TokenStream, texts: &[String]) -> String { let mut o = String::new(); go(ts, texts, &mut o, 1); o }
fn nl(o: &mut String, d: usize) { while o.ends_with(' ') { o.pop(); } o.push('\n'); for _ in 0..d { o.push_str("    "); } }
fn go(ts: TokenStream, texts: &[String], o: &mut String, d: usize) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut i = 0;
    while i < v.len() {
        match &v[i] {
            TokenTree::Ident(id) if id == "__vx_stmt" => { nl(o, d); o.push_str(texts[lit(&v[i + 2])].trim_end()); nl(o, d); i += 4; continue; }
            TokenTree::Ident(id) if id == "__vx_expr" => { o.push_str(texts[lit(&v[i + 2])].trim_end()); o.push(' '); i += 3; continue; }
            TokenTree::Ident(id) if id == "__vx_it" => {
                if let TokenTree::Group(g) = &v[i + 2] {
                    let w: Vec<TokenTree> = g.stream().into_iter().collect();
                    let n: usize = w[0].to_string().parse().unwrap();
                    o.push_str(&texts[n]); o.push_str(": ");
                    go(w[2..].iter().cloned().collect(), texts, o, d);
                }
                i += 3; continue;
            }
            TokenTree::Group(g) => {
                let s = g.stream();
                match g.delimiter() {
                    Delimiter::Brace => {
                        let mut w: Vec<TokenTree> = s.into_iter().collect();
                        if w.len() >= 4 && matches!(&w[0], TokenTree::Ident(i) if i == "__vx_inv") {
                            nl(o, d + 1); o.push_str(texts[lit(&w[2])].trim_end()); nl(o, d);
                            w.drain(0..4);
                        }
                        o.push('{');
                        if w.is_empty() { o.push_str("} "); } else { nl(o, d + 1); go(w.into_iter().collect(), texts, o, d + 1); nl(o, d); o.push_str("} ");
                            if !matches!(v.get(i + 1), Some(TokenTree::Punct(_)) | None) && !matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else") { nl(o, d); } }
                    }
                    dl => { let (a, b) = match dl { Delimiter::Parenthesis => ("(", ") "), Delimiter::Bracket => ("[", "] "), _ => ("", "") };
                        o.push_str(a); go(s, texts, o, d); while o.ends_with(' ') { o.pop(); } o.push_str(b); }
                }
            }
            TokenTree::Punct(p) => {
                let c = p.as_char();
                if c == ';' { while o.ends_with(' ') { o.pop(); } o.push(';'); nl(o, d); }
                else { o.push(c); if p.spacing() == Spacing::Alone && c != '\'' { o.push(' '); } }
            }
            TokenTree::Ident(id) => {
                o.push_str(&id.to_string());
                let tight = matches!(v.get(i + 1), Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis);
                if !tight || ["in", "if", "match", "while", "return", "let", "mut", "else", "for"].contains(&id.to_string().as_str()) { o.push(' '); }
            }
            TokenTree::Literal(l) => { o.push_str(&l.to_string()); o.push(' '); }
        }
        i += 1;
    }
    while o.ends_with(' ') { o.pop(); }
    o.push(' ');
}
