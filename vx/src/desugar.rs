//! Source-level rewriting of a file before its functions are extracted. Each rule is an
//! equivalence of Rust programs; a site a rule cannot handle is left as it stands.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::ToTokens;
use std::collections::BTreeSet;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}
/// replace [s,e) keeping the line numbers of what follows where that is possible
fn put(text: &str, s: usize, e: usize, new: &str) -> String {
    let lost = text[s..e].matches('\n').count().saturating_sub(new.matches('\n').count());
    format!("{}{}{}{}", &text[..s], new, "\n".repeat(lost), &text[e..])
}
fn is_p(t: &TokenTree, c: char) -> bool { matches!(t, TokenTree::Punct(p) if p.as_char() == c) }

// ---- R17: a local macro without parameters is its body -----------------------------
struct Mac { name: String, def: (usize, usize), body: String }
fn find_mac(ts: TokenStream, text: &str, out: &mut Vec<Mac>) {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "macro_rules" && i + 3 < v.len() && is_p(&v[i + 1], '!') {
                if let (TokenTree::Ident(n), TokenTree::Group(g)) = (&v[i + 2], &v[i + 3]) {
                    let w: Vec<TokenTree> = g.stream().into_iter().collect();
                    if w.len() >= 4 && w.len() <= 5 {
                        if let (TokenTree::Group(p), TokenTree::Group(b)) = (&w[0], &w[3]) {
                            if p.stream().is_empty() && is_p(&w[1], '=') && is_p(&w[2], '>') {
                                let (a, z) = (b.span_open().byte_range().end, b.span_close().byte_range().start);
                                out.push(Mac { name: n.to_string(), def: (id.span().byte_range().start, g.span_close().byte_range().end), body: format!("{{{}}}", &text[a..z]) });
                            }
                        }
                    }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] { find_mac(g.stream(), text, out); }
    }
}
fn find_use(ts: TokenStream, name: &str) -> Option<(usize, usize)> {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    for i in 0..v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == name && i + 2 < v.len() && is_p(&v[i + 1], '!') {
                if let TokenTree::Group(g) = &v[i + 2] {
                    if g.stream().is_empty() { return Some((id.span().byte_range().start, g.span_close().byte_range().end)); }
                }
            }
        }
        if let TokenTree::Group(g) = &v[i] {
            let _ = Delimiter::None;
            if let Some(r) = find_use(g.stream(), name) { return Some(r); }
        }
    }
    None
}
pub fn macros(mut text: String) -> (String, usize) {
    let mut n = 0;
    loop {
        let Ok(ts) = text.parse::<TokenStream>() else { return (text, n) };
        let mut ms = vec![];
        find_mac(ts, &text, &mut ms);
        let Some(m) = ms.into_iter().next() else { return (text, n) };
        text = put(&text, m.def.0, m.def.1, "");
        let body: String = strip_comments(&m.body).replace('\n', " ");
        loop {
            let Ok(ts) = text.parse::<TokenStream>() else { return (text, n) };
            let Some((s, e)) = find_use(ts, &m.name) else { break };
            text = put(&text, s, e, &body);
            n += 1;
            if n > 60 { return (text, n); }
        }
    }
}
fn strip_comments(s: &str) -> String {
    s.lines().map(|l| match l.find("//") { Some(k) if l[..k].matches('"').count() % 2 == 0 => &l[..k], _ => l }).collect::<Vec<_>>().join("\n")
}

// ---- R18: early returns of a closure become nested conditionals ---------------------
struct HasRet(bool);
impl<'a> Visit<'a> for HasRet {
    fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
    fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    fn visit_expr_async(&mut self, _: &'a syn::ExprAsync) {}
    fn visit_item(&mut self, _: &'a syn::Item) {}
}
fn ret_s(s: &syn::Stmt) -> bool { let mut h = HasRet(false); h.visit_stmt(s); h.0 }
fn ret_e(s: &syn::Expr) -> bool { let mut h = HasRet(false); h.visit_expr(s); h.0 }
fn seal(b: &[syn::Stmt], rest: &[syn::Stmt]) -> Vec<syn::Stmt> {
    let mut v = b.to_vec();
    if !rest.is_empty() {
        if let Some(syn::Stmt::Expr(_, s @ None)) = v.last_mut() { *s = Some(Default::default()); }
        v.extend(rest.iter().cloned());
    }
    v
}
fn unret(st: &[syn::Stmt], depth: usize) -> Option<String> {
    if depth > 12 { return None; }
    let mut out = String::from("{ ");
    for (i, s) in st.iter().enumerate() {
        if !ret_s(s) { out.push_str(&s.to_token_stream().to_string()); out.push(' '); continue; }
        let rest = &st[i + 1..];
        match s {
            syn::Stmt::Expr(syn::Expr::Return(r), _) => {
                match &r.expr { Some(e) if !ret_e(e) => out.push_str(&e.to_token_stream().to_string()), None => {}, _ => return None }
                out.push_str(" }");
                return Some(out);
            }
            syn::Stmt::Expr(syn::Expr::If(f), _) => {
                if ret_e(&f.cond) { return None; }
                let t = unret(&seal(&f.then_branch.stmts, rest), depth + 1)?;
                let e = match &f.else_branch {
                    None => unret(rest, depth + 1)?,
                    Some((_, b)) => match &**b {
                        syn::Expr::Block(b) => unret(&seal(&b.block.stmts, rest), depth + 1)?,
                        syn::Expr::If(g) => unret(&seal(&[syn::Stmt::Expr(syn::Expr::If(g.clone()), None)], rest), depth + 1)?,
                        _ => return None,
                    },
                };
                out.push_str(&format!("if {} {} else {} }}", f.cond.to_token_stream(), t, e));
                return Some(out);
            }
            syn::Stmt::Expr(syn::Expr::Match(m), _) => {
                if ret_e(&m.expr) || m.arms.iter().any(|a| a.guard.as_ref().map_or(false, |g| ret_e(&g.1))) { return None; }
                out.push_str(&format!("match {} {{ ", m.expr.to_token_stream()));
                for a in &m.arms {
                    let stmts = match &*a.body { syn::Expr::Block(b) => b.block.stmts.clone(), e => vec![syn::Stmt::Expr(e.clone(), None)] };
                    let g = a.guard.as_ref().map_or(String::new(), |g| format!("if {}", g.1.to_token_stream()));
                    out.push_str(&format!("{} {} => {} ", a.pat.to_token_stream(), g, unret(&seal(&stmts, rest), depth + 1)?));
                }
                out.push_str("} }");
                return Some(out);
            }
            _ => return None,
        }
    }
    out.push('}');
    Some(out)
}
struct Clo { hit: Option<(usize, usize, String)>, from: usize }
impl<'a> Visit<'a> for Clo {
    fn visit_expr_closure(&mut self, c: &'a syn::ExprClosure) {
        if self.hit.is_none() && rng(c).0 >= self.from {
            if let syn::Expr::Block(b) = &*c.body {
                if ret_e(&c.body) {
                    if let Some(t) = unret(&b.block.stmts, 0) { let r = rng(&*c.body); self.hit = Some((r.0, r.1, t)); return; }
                }
            }
        }
        visit::visit_expr_closure(self, c);
    }
}
pub fn returns(mut text: String) -> (String, usize) {
    let mut n = 0;
    while n < 20 {
        let Ok(f) = syn::parse_file(&text) else { break };
        let mut c = Clo { hit: None, from: 0 };
        c.visit_file(&f);
        let Some((s, e, t)) = c.hit else { break };
        text = put(&text, s, e, &t);
        n += 1;
    }
    (text, n)
}

// ---- R19: a call of a local closure is its body -----------------------------------------
struct Bound(BTreeSet<String>);
impl<'a> Visit<'a> for Bound {
    fn visit_pat_ident(&mut self, p: &'a syn::PatIdent) { self.0.insert(p.ident.to_string()); visit::visit_pat_ident(self, p); }
}
struct Uses { name: String, calls: Vec<(usize, usize, Vec<(usize, usize)>)>, other: usize }
impl<'a> Visit<'a> for Uses {
    fn visit_expr_call(&mut self, c: &'a syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            if p.path.is_ident(&self.name) {
                let r = rng(c);
                self.calls.push((r.0, r.1, c.args.iter().map(|a| rng(a)).collect()));
                for a in &c.args { self.visit_expr(a); }
                return;
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if p.path.is_ident(&self.name) { self.other += 1; } }
    fn visit_macro(&mut self, m: &'a syn::Macro) { if idents(m.tokens.clone()).contains(&self.name) { self.other += 1; } }
}
fn idents(ts: TokenStream) -> BTreeSet<String> {
    let mut s = BTreeSet::new();
    for t in ts { match t { TokenTree::Ident(i) => { s.insert(i.to_string()); } TokenTree::Group(g) => s.extend(idents(g.stream())), _ => {} } }
    s
}
struct Beta<'t> { text: &'t str, new: Option<String> }
impl<'a, 't> Visit<'a> for Beta<'t> {
    fn visit_block(&mut self, b: &'a syn::Block) {
        if self.new.is_some() { return; }
        for (i, s) in b.stmts.iter().enumerate() {
            let syn::Stmt::Local(l) = s else { continue };
            let (syn::Pat::Ident(id), Some(init)) = (&l.pat, &l.init) else { continue };
            let syn::Expr::Closure(c) = &*init.expr else { continue };
            if c.capture.is_some() || c.asyncness.is_some() || id.mutability.is_some() || ret_e(&c.body) { continue; }
            let mut u = Uses { name: id.ident.to_string(), calls: vec![], other: 0 };
            let mut bd = Bound(BTreeSet::new());
            for s in &b.stmts[i + 1..] { u.visit_stmt(s); bd.visit_stmt(s); }
            if u.other > 0 || u.calls.is_empty() { continue; }
            let mut ps = Bound(BTreeSet::new());
            for p in &c.inputs { ps.visit_pat(p); }
            let free: BTreeSet<String> = idents(c.body.to_token_stream()).difference(&ps.0).cloned().collect();
            if free.intersection(&bd.0).next().is_some() || u.calls.iter().any(|k| k.2.len() != c.inputs.len()) { continue; }
            let mut t = self.text.to_string();
            let br = rng(&*c.body);
            let body = strip_comments(&self.text[br.0..br.1]).replace('\n', " ");
            u.calls.sort();
            for (s, e, args) in u.calls.iter().rev() {
                let mut x = String::from("{ ");
                for (k, p) in c.inputs.iter().enumerate() {
                    let a = &self.text[args[k].0..args[k].1];
                    let mu = matches!(p, syn::Pat::Type(q) if matches!(&*q.ty, syn::Type::Reference(r) if r.mutability.is_some()));
                    x.push_str(&format!("let {} = {}; ", p.to_token_stream(), if mu { format!("&mut *({})", a) } else { a.to_string() }));
                }
                x.push_str(&format!("{} }}", body));
                t = put(&t, *s, *e, &x);
            }
            let lr = rng(l);
            self.new = Some(put(&t, lr.0, lr.1, ""));
            return;
        }
        visit::visit_block(self, b);
    }
}
pub fn closures(mut text: String) -> (String, usize) {
    let mut n = 0;
    while n < 20 {
        let Ok(f) = syn::parse_file(&text) else { break };
        let mut b = Beta { text: &text, new: None };
        b.visit_file(&f);
        let Some(t) = b.new else { break };
        text = t;
        n += 1;
    }
    (text, n)
}
