//! vx: mechanical extraction of real functions from /repo into a Verus unit.
//!
//! usage: vx <repo> <unit-template> <out.rs> <map.json>
//!
//! The template is Verus text with `//@` directives (see /verif/DESIGN.md).
//! Every extracted item is the source text of /repo with the span edits listed
//! in the map (kind + source line), nothing else.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
mod desugar;
use syn::spanned::Spanned;
use syn::visit::{self, Visit};

#[derive(Clone, Debug)]
struct Edit {
    start: usize,
    end: usize,
    text: String,
    kind: &'static str,
    prio: i32,
}

struct Src {
    path: String,
    text: String,
    file: syn::File,
}

fn rng<T: Spanned>(t: &T) -> (usize, usize) {
    let r = t.span().byte_range();
    (r.start, r.end)
}

fn die(msg: String) -> ! {
    eprintln!("vx: {}", msg);
    std::process::exit(3)
}

// ---- cfg evaluation ---------------------------------------------------
fn cfg_true(meta: &syn::Meta) -> bool {
    match meta {
        syn::Meta::Path(p) => {
            let n = p.get_ident().map(|i| i.to_string()).unwrap_or_default();
            match n.as_str() {
                "test" | "hyper_verif" | "kani" | "miri" | "hyper_unstable_ffi"
                | "hyper_unstable_tracing" => false,
                // what release builds run; debug_assert! stays an obligation
                "debug_assertions" => false,
                "unix" => true,
                _ => false,
            }
        }
        syn::Meta::NameValue(nv) => {
            let n = nv.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let v = if let syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. }) = &nv.value {
                s.value()
            } else {
                String::new()
            };
            match n.as_str() {
                "feature" => matches!(v.as_str(), "client" | "server" | "http1" | "http2" | "full"),
                "target_pointer_width" => v == "64",
                _ => false,
            }
        }
        syn::Meta::List(l) => {
            let n = l.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let items: Vec<syn::Meta> = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect())
                .unwrap_or_default();
            match n.as_str() {
                "all" => items.iter().all(cfg_true),
                "any" => items.iter().any(cfg_true),
                "not" => !items.iter().all(cfg_true),
                _ => false,
            }
        }
    }
}

fn attrs_on(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().all(|a| {
        if a.path().is_ident("cfg") {
            match a.parse_args::<syn::Meta>() {
                Ok(m) => cfg_true(&m),
                Err(_) => false,
            }
        } else {
            true
        }
    })
}

// ---- item lookup ------------------------------------------------------
fn norm(ts: impl quote::ToTokens) -> String {
    ts.to_token_stream().to_string().replace(' ', "")
}

fn ty_base(ty: &syn::Type) -> String {
    match ty {
        syn::Type::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        syn::Type::Reference(r) => ty_base(&r.elem),
        _ => norm(ty),
    }
}

enum Found<'a> {
    Free(&'a syn::ItemFn),
    Method(&'a syn::ItemImpl, &'a syn::ImplItemFn),
    TraitMethod(#[allow(dead_code)] &'a syn::ItemTrait, #[allow(dead_code)] &'a syn::TraitItemFn),
}

fn all_items<'a>(items: &'a [syn::Item], out: &mut Vec<&'a syn::Item>) {
    // items local to a function body
    fn local<'a>(b: &'a syn::Block, out: &mut Vec<&'a syn::Item>) {
        for s in &b.stmts {
            if let syn::Stmt::Item(it) = s {
                if matches!(it, syn::Item::Impl(_) | syn::Item::Struct(_) | syn::Item::Enum(_)) { all_items(std::slice::from_ref(it), out); }
            }
        }
    }
    for it in items {
        let attrs: &[syn::Attribute] = match it {
            syn::Item::Fn(x) => &x.attrs,
            syn::Item::Impl(x) => &x.attrs,
            syn::Item::Mod(x) => &x.attrs,
            syn::Item::Struct(x) => &x.attrs,
            syn::Item::Enum(x) => &x.attrs,
            syn::Item::Const(x) => &x.attrs,
            syn::Item::Static(x) => &x.attrs,
            syn::Item::Macro(x) => &x.attrs,
            syn::Item::Trait(x) => &x.attrs,
            _ => &[],
        };
        if !attrs_on(attrs) {
            continue;
        }
        if let syn::Item::Macro(m) = it {
            // pin_project! { items }: its items as they stand (#[pin] and #[project..] dropped)
            if m.mac.path.is_ident("pin_project") {
                if let Ok(f) = syn::parse2::<syn::File>(m.mac.tokens.clone()) {
                    let f: &'static syn::File = Box::leak(Box::new(f));
                    all_items(&f.items, out);
                }
            }
        }
        if let syn::Item::Mod(m) = it {
            if let Some((_, its)) = &m.content {
                if m.ident != "tests" && m.ident != "verif" {
                    all_items(its, out);
                }
            }
        }
        out.push(it);
        match it {
            syn::Item::Fn(f) => local(&f.block, out),
            syn::Item::Impl(im) => for ii in &im.items { if let syn::ImplItem::Fn(f) = ii { if attrs_on(&f.attrs) { local(&f.block, out); } } },
            _ => {}
        }
    }
}

fn find_fn<'a>(items: &[&'a syn::Item], spec: &str) -> Option<Found<'a>> {
    // spec: `name` | `Type::name` | `<Trait for Type>::name`
    if let Some(rest) = spec.strip_prefix('<') {
        let (hdr, name) = rest.split_once(">::")?;
        let (tr, ty) = hdr.split_once(" for ")?;
        let mut hits = vec![];
        for it in items {
            if let syn::Item::Impl(im) = it {
                if let Some((_, path, _)) = &im.trait_ {
                    let trn = path.segments.last().unwrap().ident.to_string();
                    if (trn == tr || norm(path) == tr.replace(' ', ""))
                        && (ty_base(&im.self_ty) == ty || norm(&im.self_ty) == ty.replace(' ', ""))
                    {
                        for ii in &im.items {
                            if let syn::ImplItem::Fn(f) = ii {
                                if f.sig.ident == name && attrs_on(&f.attrs) {
                                    hits.push(Found::Method(im, f));
                                }
                            }
                        }
                    }
                }
            }
        }
        return hits.into_iter().next();
    }
    if let Some((ty, name)) = spec.rsplit_once("::") {
        for it in items {
            if let syn::Item::Impl(im) = it {
                if im.trait_.is_none() && (ty_base(&im.self_ty) == ty || norm(&im.self_ty) == ty.replace(' ', "")) {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == name && attrs_on(&f.attrs) {
                                return Some(Found::Method(im, f));
                            }
                        }
                    }
                }
            }
            if let syn::Item::Trait(t) = it {
                if t.ident == ty {
                    for ii in &t.items {
                        if let syn::TraitItem::Fn(f) = ii {
                            if f.sig.ident == name && f.default.is_some() {
                                return Some(Found::TraitMethod(t, f));
                            }
                        }
                    }
                }
            }
        }
        // fall back: trait impl methods
        for it in items {
            if let syn::Item::Impl(im) = it {
                if im.trait_.is_some() && ty_base(&im.self_ty) == ty {
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(f) = ii {
                            if f.sig.ident == name && attrs_on(&f.attrs) {
                                return Some(Found::Method(im, f));
                            }
                        }
                    }
                }
            }
        }
        return None;
    }
    for it in items {
        if let syn::Item::Fn(f) = it {
            if f.sig.ident == spec {
                return Some(Found::Free(f));
            }
        }
    }
    // a function nested in the body of a free function or of a method
    for it in items {
        if let syn::Item::Impl(im) = it {
            for ii in &im.items {
                if let syn::ImplItem::Fn(f) = ii {
                    if !attrs_on(&f.attrs) { continue; }
                    for st in &f.block.stmts {
                        if let syn::Stmt::Item(syn::Item::Fn(g)) = st {
                            if g.sig.ident == spec && attrs_on(&g.attrs) {
                                return Some(Found::Free(g));
                            }
                        }
                    }
                }
            }
        }
        if let syn::Item::Fn(f) = it {
            for st in &f.block.stmts {
                if let syn::Stmt::Item(syn::Item::Fn(g)) = st {
                    if g.sig.ident == spec {
                        return Some(Found::Free(g));
                    }
                }
            }
        }
    }
    None
}

// ---- edit collection --------------------------------------------------
#[derive(Default, Clone)]
struct FnOpts {
    poll: Option<String>, // "result" | "option_result" | "none"
    mutself: bool,
    panics: bool,
    combin: BTreeSet<String>,
    fors: HashMap<usize, String>,
    fordefault: Option<String>,
    mrename: HashMap<String, String>,
}

struct Walk<'a> {
    edits: Vec<Edit>,
    loops: Vec<(usize, usize)>, // (offset of `{`, offset of closing `}`), preorder
    loop_kinds: Vec<String>,
    poll_ret: bool,
    src: &'a str,
    calls: BTreeSet<String>,
    opts: FnOpts,
    for_patches: Vec<(usize, usize)>,
}

const DROP_ATTR: &[&str] = &[
    "doc", "inline", "must_use", "allow", "cfg", "cfg_attr", "derive", "track_caller", "cold", "deny", "expect", "warn", "non_exhaustive", "repr", "deprecated", "default", "pin", "project",
];

impl<'a> Walk<'a> {
    fn push(&mut self, start: usize, end: usize, text: impl Into<String>, kind: &'static str) {
        self.edits.push(Edit { start, end, text: text.into(), kind, prio: 0 });
    }
    fn drop_attrs(&mut self, attrs: &[syn::Attribute]) {
        for a in attrs {
            let n = a.path().segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if DROP_ATTR.contains(&n.as_str()) {
                let (s, e) = rng(a);
                self.push(s, e, "", "attr");
            }
        }
    }
    fn vis(&mut self, v: &syn::Visibility, anchor: usize) {
        match v {
            syn::Visibility::Inherited => self.push(anchor, anchor, "pub ", "visibility"),
            syn::Visibility::Public(_) => {}
            syn::Visibility::Restricted(r) => {
                let (s, e) = rng(r);
                self.push(s, e, "pub", "visibility");
            }
        }
    }
    // token-level: ready!(X)? -> ready_try!(X)
    fn tokens(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            if let TokenTree::Ident(id) = &v[i] {
                if id == "ready" && i + 3 < v.len() {
                    if let (TokenTree::Punct(b), TokenTree::Group(g), TokenTree::Punct(q)) =
                        (&v[i + 1], &v[i + 2], &v[i + 3])
                    {
                        if b.as_char() == '!' && q.as_char() == '?' && g.delimiter() == Delimiter::Parenthesis {
                            let r = id.span().byte_range();
                            self.push(r.start, r.end, "ready_try", "R2 ready!(..)?");
                            let r = q.span().byte_range();
                            self.push(r.start, r.end, "", "R2 ready!(..)?");
                        }
                    }
                }
                // call-like identifiers inside macros
                if i + 1 < v.len() {
                    if let TokenTree::Group(g) = &v[i + 1] {
                        if g.delimiter() == Delimiter::Parenthesis {
                            self.calls.insert(id.to_string());
                        }
                    }
                }
            }
            if let TokenTree::Group(g) = &v[i] {
                self.tokens(g.stream());
            }
            i += 1;
        }
    }
}

fn is_self_ready_try(e: &syn::ExprTry) -> bool {
    if let syn::Expr::Macro(m) = &*e.expr {
        return m.mac.path.is_ident("ready");
    }
    false
}

/// unlabelled `break v` of one loop (not of loops or closures inside it)
struct ValBreaks { out: Vec<(usize, usize, usize)> }
impl<'ast> Visit<'ast> for ValBreaks {
    fn visit_expr_break(&mut self, e: &'ast syn::ExprBreak) {
        if let (None, Some(v)) = (&e.label, &e.expr) {
            let (vs, ve) = rng(&**v);
            self.out.push((rng(&e.break_token).0, vs, ve));
        }
    }
    fn visit_expr_loop(&mut self, _: &'ast syn::ExprLoop) {}
    fn visit_expr_while(&mut self, _: &'ast syn::ExprWhile) {}
    fn visit_expr_for_loop(&mut self, _: &'ast syn::ExprForLoop) {}
    fn visit_expr_closure(&mut self, _: &'ast syn::ExprClosure) {}
    fn visit_item(&mut self, _: &'ast syn::Item) {}
}

impl<'ast, 'a> Visit<'ast> for Walk<'a> {
    fn visit_attribute(&mut self, a: &'ast syn::Attribute) {
        let n = a.path().segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if DROP_ATTR.contains(&n.as_str()) {
            let (s, e) = rng(a);
            self.push(s, e, "", "attr");
        }
    }
    fn visit_block(&mut self, b: &'ast syn::Block) {
        for st in &b.stmts {
            let attrs: &[syn::Attribute] = match st {
                syn::Stmt::Local(l) => &l.attrs,
                syn::Stmt::Expr(e, _) => expr_attrs(e),
                syn::Stmt::Macro(m) => &m.attrs,
                syn::Stmt::Item(syn::Item::Use(u)) => &u.attrs,
                syn::Stmt::Item(syn::Item::Fn(u)) => &u.attrs,
                syn::Stmt::Item(syn::Item::Struct(_) | syn::Item::Enum(_) | syn::Item::Impl(_)) => {
                    // named items of a body do not capture: lifted out, extracted on their own
                    let (s, e) = rng(st);
                    self.push(s, e, "", "R20 local item lifted");
                    continue;
                }
                _ => &[],
            };
            if !attrs_on(attrs) {
                let (s, e) = rng(st);
                self.push(s, e, "", "R5 cfg-disabled");
                continue;
            }
            self.visit_stmt(st);
        }
    }
    fn visit_expr_match(&mut self, m: &'ast syn::ExprMatch) {
        // `match s { &mut C1 | &mut C2 => .. }` -> `_ if *s == C1 || *s == C2 => ..`
        if let syn::Expr::Path(sp) = &*m.expr {
            let sr = rng(sp);
            let st = self.src[sr.0..sr.1].to_string();
            for a in &m.arms {
                let cases: Vec<&syn::Pat> = match &a.pat {
                    syn::Pat::Or(o) => o.cases.iter().collect(),
                    p => vec![p],
                };
                let mut conds = vec![];
                for c in &cases {
                    if let syn::Pat::Path(q) = c {
                        if module_const(q) {
                            let x = rng(q);
                            conds.push(format!("{} == {}", st, &self.src[x.0..x.1]));
                        }
                    }
                    if let syn::Pat::Reference(r) = c {
                        if let syn::Pat::Path(_) = &*r.pat {
                            let x = rng(&*r.pat);
                            conds.push(format!("*{} == {}", st, &self.src[x.0..x.1]));
                        }
                    }
                }
                if !conds.is_empty() && conds.len() == cases.len() && a.guard.is_none() {
                    let r = rng(&a.pat);
                    self.push(r.0, r.1, format!("_ if {}", conds.join(" || ")), "R14 reference pattern over a constant");
                }
            }
        }
        visit::visit_expr_match(self, m);
    }
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        // `if let module::CONST = x` -> `if x == module::CONST`
        if let (syn::Pat::Path(q), syn::Expr::Path(_)) = (&*l.pat, &*l.expr) {
            if module_const(q) {
                let (a, b, w) = (rng(q), rng(&*l.expr), rng(l));
                let t = format!("{} == {}", &self.src[b.0..b.1], &self.src[a.0..a.1]);
                self.push(w.0, w.1, t, "R14 reference pattern over a constant");
                return;
            }
        }
        visit::visit_expr_let(self, l);
    }
    fn visit_arm(&mut self, a: &'ast syn::Arm) {
        if !attrs_on(&a.attrs) {
            let (s, mut e) = rng(a);
            if a.comma.is_none() {
                // nothing
            } else if let Some(c) = &a.comma {
                e = e.max(rng(c).1);
            }
            self.push(s, e, "", "R5 cfg-disabled");
            return;
        }
        visit::visit_arm(self, a);
    }
    fn visit_expr_struct(&mut self, s: &'ast syn::ExprStruct) {
        for f in &s.fields {
            if !attrs_on(&f.attrs) {
                let (a, mut b) = rng(f);
                let rest = &self.src[b..];
                let t = rest.trim_start();
                if t.starts_with(',') {
                    b += rest.len() - t.len() + 1;
                }
                self.push(a, b, "", "R5 cfg-disabled");
            }
        }
        visit::visit_path(self, &s.path);
        for f in &s.fields {
            if attrs_on(&f.attrs) {
                for a in &f.attrs {
                    self.visit_attribute(a);
                }
                self.visit_expr(&f.expr);
            }
        }
        if let Some(r) = &s.rest {
            self.visit_expr(r);
        }
    }
    fn visit_macro(&mut self, m: &'ast syn::Macro) {
        let n = m.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
        if n == "debug_assert" || n == "debug_assert_eq" || n == "debug_assert_ne" || n == "assert" || n == "assert_eq" {
            // checked as proof obligations by the macro of the same purpose in the prelude
            let r = m.path.span().byte_range();
            if self.opts.panics && !n.starts_with("debug") {
                self.push(r.start, r.end, format!("r{}", n), "R1 assertion -> run-time refusal");
            } else {
                self.push(r.start, r.end, format!("v{}", n), "R1 assertion -> obligation");
            }
        }
        if matches!(n.as_str(), "panic" | "unreachable" | "todo" | "unimplemented") {
            let r = m.path.span().byte_range();
            if self.opts.panics && n == "panic" {
                self.push(r.start, r.end, "rpanic".to_string(), "R1 panic -> run-time refusal");
            } else {
                self.push(r.start, r.end, format!("v{}", n), "R1 panic -> obligation");
            }
        }
        self.tokens(m.tokens.clone());
        // `ready!(expr)`: also visit the inner expression so that nested `?` are handled
        if n == "ready" || n == "matches" {
            if let Ok(e) = m.parse_body::<syn::Expr>() {
                // token-level edits were already collected for ready!()?; avoid doubles
                let before = self.edits.len();
                struct_visit(self, &e);
                let added: Vec<Edit> = self.edits.drain(before..).collect();
                for a in added {
                    if !self.edits.iter().any(|x| x.start == a.start && x.end == a.end && x.text == a.text) {
                        self.edits.push(a);
                    }
                }
            }
        }
    }
    fn visit_expr_try(&mut self, e: &'ast syn::ExprTry) {
        if is_self_ready_try(e) {
            if let syn::Expr::Macro(m) = &*e.expr {
                let r = rng(&m.mac.path);
                self.push(r.0, r.1, "ready_try", "R2 ready!(..)?");
                let q = rng(&e.question_token);
                self.push(q.0, q.1, "", "R2 ready!(..)?");
                self.visit_macro(&m.mac);
            }
            return;
        }
        if self.poll_ret {
            let r = rng(&*e.expr);
            let mac = match self.opts.poll.as_deref() {
                Some(x) if x != "result" => format!("poll_try_{}!", x),
                _ => "poll_try!".to_string(),
            };
            self.edits.push(Edit { start: r.0, end: r.0, text: format!("{}(", mac), kind: "R2 ?", prio: -1 });
            let q = rng(&e.question_token);
            self.push(q.0, q.1, ")", "R2 ?");
        }
        visit::visit_expr_try(self, e);
    }
    /// R21: a non-short-circuit operator on bool is its definition (typed: an integer operand does not type-check).
    fn visit_expr_binary(&mut self, e: &'ast syn::ExprBinary) {
        use syn::BinOp::*;
        let op = match e.op { BitOr(_) | BitOrAssign(_) => "||", BitAnd(_) | BitAndAssign(_) => "&&", _ => "" };
        let assign = matches!(e.op, BitOrAssign(_) | BitAndAssign(_));
        let (l, r) = (rng(&*e.left), rng(&*e.right));
        if assign && !intish(&e.right) && !intish(&e.left) {
            let place = self.src[l.0..l.1].to_string();
            self.push(l.0, r.0, "{ let vx_b: bool = ", "R21 bool operator");
            self.push(r.1, r.1, format!("; let vx_a: bool = {} {} vx_b; {} = vx_a; }}", place, op, place), "R21 bool operator");
            self.visit_expr(&e.right);
            return;
        }
        if !op.is_empty() && !assign && (boolish(&e.left) || boolish(&e.right)) {
            self.push(l.0, l.0, "({ let vx_a: bool = ", "R21 bool operator");
            self.push(l.1, r.0, "; let vx_b: bool = ", "R21 bool operator");
            self.push(r.1, r.1, format!("; vx_a {} vx_b }})", op), "R21 bool operator");
        }
        visit::visit_expr_binary(self, e);
    }
    fn visit_expr_loop(&mut self, e: &'ast syn::ExprLoop) {
        let b = rng(&e.body);
        self.loops.push(b);
        self.loop_kinds.push("loop".into());
        let mut f = ValBreaks { out: vec![] };
        f.visit_block(&e.body);
        if !f.out.is_empty() && e.label.is_none() {
            // loop { .. break v; .. }  ->  { let x; loop { .. { x = v; break } .. } x }
            let n = self.loops.len() - 1;
            let (st, en) = rng(e);
            self.edits.push(Edit { start: st, end: st, text: format!("{{ let vx_b{}; ", n), kind: "R16 break value", prio: -4 });
            for (bs, vs, ve) in f.out {
                self.edits.push(Edit { start: bs, end: vs, text: format!("{{ vx_b{} = ", n), kind: "R16 break value", prio: -3 });
                self.push(ve, ve, "; break; }", "R16 break value");
            }
            self.edits.push(Edit { start: en, end: en, text: format!(" vx_b{} }}", n), kind: "R16 break value", prio: 9 });
        }
        visit::visit_expr_loop(self, e);
    }
    fn visit_expr_while(&mut self, e: &'ast syn::ExprWhile) {
        let b = rng(&e.body);
        self.loops.push(b);
        self.loop_kinds.push("while".into());
        if let syn::Expr::Let(l) = &*e.cond {
            // while let P = E { B }  ->  loop { if let P = E { B } else { break } }
            let (s, _) = rng(e);
            let w = rng(&e.while_token);
            let _ = (s, l);
            self.push(w.0, w.1, "loop /*VXINV*/ { if", "R4 while-let");
            self.push(b.1, b.1, " else { break; } }", "R4 while-let");
        }
        visit::visit_expr_while(self, e);
    }
    fn visit_expr_for_loop(&mut self, e: &'ast syn::ExprForLoop) {
        let b = rng(&e.body);
        self.loops.push(b);
        self.loop_kinds.push(format!("for {} in {}", norm(&e.pat), norm(&e.expr)));
        let r = rng(&*e.expr);
        self.for_patches.push(r);
        let n = self.loops.len() - 1;
        let dflt = if matches!(&*e.expr, syn::Expr::Range(_)) { None } else { self.opts.fordefault.clone() };
        if let Some(k) = self.opts.fors.get(&n).cloned().or(dflt) {
            // for P in E { B } -> { let mut it = E; loop { match it.next() { None => break, Some(P) => { B } } } }
            let (s, en) = rng(e);
            let ft = rng(&e.for_token);
            let pt = rng(&*e.pat);
            let before = self.edits.len();
            self.visit_expr(&e.expr);
            let sub: Vec<Edit> = self.edits.drain(before..).collect();
            let et = apply(self.src, r, sub);
            let init = match k.as_str() {
                "into" => format!("({}).into_iter()", et),
                "next" => et,
                k if k.starts_with("fn:") => format!("{}({})", &k[3..], et),
                m => format!("({}).{}()", et, m),
            };
            self.edits.push(Edit { start: s, end: s, text: format!("{{ let mut vx_it{} = {}; ", n, init), kind: "R9 for desugar", prio: -4 });
            self.edits.push(Edit { start: ft.0, end: pt.0, text: format!("loop /*VXINV*/ {{ match vx_it{}.next() {{ None => break, Some(", n), kind: "R9 for desugar", prio: 0 });
            self.edits.push(Edit { start: pt.1, end: b.0, text: ") => ".into(), kind: "R9 for desugar", prio: 0 });
            self.push(en, en, " } } }", "R9 for desugar");
            if let syn::Pat::Reference(pr) = &*e.pat {
                // `&pat` over a reference to a Copy item -> deref in a let
                let inner = rng(&*pr.pat);
                let it = self.src[inner.0..inner.1].to_string();
                let it = it.trim_start_matches('(').trim_end_matches(')').to_string();
                self.push(pt.0, pt.1, format!("vx_ref{}", n), "R9 for desugar");
                self.edits.push(Edit { start: b.0 + 1, end: b.0 + 1, text: format!(" let {} = *vx_ref{};", it, n), kind: "R9 for desugar", prio: -8 });
            } else {
                self.visit_pat(&e.pat);
            }
            self.visit_block(&e.body);
            return;
        }
        visit::visit_expr_for_loop(self, e);
    }
    fn visit_expr_call(&mut self, e: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*e.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            self.calls.insert(segs.join("::"));
        }
        visit::visit_expr_call(self, e);
    }
    fn visit_expr_path(&mut self, e: &'ast syn::ExprPath) {
        if self.opts.mutself && e.path.is_ident("self") {
            let r = rng(e);
            self.push(r.0, r.1, "vx_self", "R13 mut self");
        }
        visit::visit_expr_path(self, e);
    }
    fn visit_expr_lit(&mut self, e: &'ast syn::ExprLit) {
        // b"..." -> &[..] (the verifier does not know the contents of byte string literals)
        if let syn::Lit::ByteStr(b) = &e.lit {
            let r = rng(e);
            let v = b.value();
            let t: Vec<String> = v.iter().enumerate().map(|(i, x)| if i == 0 { format!("{}u8", x) } else { x.to_string() }).collect();
            self.push(r.0, r.1, if v.is_empty() { "(&[0u8; 0])".to_string() } else { format!("(&[{}])", t.join(", ")) }, "R10 byte string literal");
        }
    }
    fn visit_pat(&mut self, p: &'ast syn::Pat) {
        if let syn::Pat::Lit(_) = p { return; }
        visit::visit_pat(self, p);
    }
    fn visit_expr_cast(&mut self, e: &'ast syn::ExprCast) {
        // X as &[u8] (an unsizing cast) -> vx_slice(X)
        if let syn::Type::Reference(r) = &*e.ty {
            if let syn::Type::Slice(_) = &*r.elem {
                let ir = rng(&*e.expr);
                let er = rng(e);
                self.edits.push(Edit { start: ir.0, end: ir.0, text: "vx_slice(".into(), kind: "R11 unsizing cast", prio: -1 });
                self.push(ir.1, er.1, ")", "R11 unsizing cast");
            }
        }
        visit::visit_expr_cast(self, e);
    }
    fn visit_expr_method_call(&mut self, e: &'ast syn::ExprMethodCall) {
        self.calls.insert(format!(".{}", e.method));
        let m = e.method.to_string();
        if let Some(t) = self.opts.mrename.get(&m).cloned() {
            let r = rng(&e.method);
            self.push(r.0, r.1, t, "R12 method of a foreign type renamed");
        }
        if self.opts.combin.contains(&m) || self.opts.combin.iter().any(|c| c.starts_with(&format!("{}=", m))) {
            if e.args.len() == 1 {
                if let syn::Expr::Closure(c) = &e.args[0] {
                    let kind = self
                        .opts
                        .combin
                        .iter()
                        .find_map(|x| x.strip_prefix(&format!("{}=", m)).map(|s| s.to_string()))
                        .unwrap_or_else(|| m.clone());
                    // RECV.m(|p| B) -> inl_kind!(RECV ; p ; B)
                    let rr = rng(&*e.receiver);
                    let pr = if c.inputs.len() == 1 {
                        let r = rng(&c.inputs[0]);
                        self.src[r.0..r.1].to_string()
                    } else {
                        "".to_string()
                    };
                    let br = rng(&*c.body);
                    let er = rng(e);
                    self.edits.push(Edit { start: rr.0, end: rr.0, text: format!("inl_{}!(", kind), kind: "R6 combinator inlined", prio: -1 });
                    self.push(rr.1, br.0, format!("; {} => ", pr), "R6 combinator inlined");
                    self.push(br.1, er.1, ")", "R6 combinator inlined");
                    self.visit_expr(&e.receiver);
                    self.visit_expr(&c.body);
                    return;
                }
            }
        }
        visit::visit_expr_method_call(self, e);
    }
    fn visit_item_fn(&mut self, f: &'ast syn::ItemFn) {
        // nested fn items inside bodies are dropped (must be extracted separately)
        let r = rng(f);
        self.push(r.0, r.1, "", "nested fn item moved out");
    }
    fn visit_item_use(&mut self, _u: &'ast syn::ItemUse) {}
}

fn struct_visit(w: &mut Walk, e: &syn::Expr) {
    // safe: the lifetime is only used for visiting
    let e2: &syn::Expr = unsafe { std::mem::transmute(e) };
    w.visit_expr(e2);
}

fn expr_attrs(e: &syn::Expr) -> &[syn::Attribute] {
    use syn::Expr::*;
    match e {
        Block(x) => &x.attrs,
        If(x) => &x.attrs,
        Match(x) => &x.attrs,
        Call(x) => &x.attrs,
        MethodCall(x) => &x.attrs,
        Macro(x) => &x.attrs,
        Assign(x) => &x.attrs,
        Return(x) => &x.attrs,
        Loop(x) => &x.attrs,
        While(x) => &x.attrs,
        ForLoop(x) => &x.attrs,
        Unsafe(x) => &x.attrs,
        _ => &[],
    }
}

fn apply(text: &str, base: (usize, usize), mut edits: Vec<Edit>) -> String {
    edits.retain(|e| e.start >= base.0 && e.end <= base.1);
    // remove edits nested in a deletion
    let dels: Vec<(usize, usize)> = edits
        .iter()
        .filter(|e| e.end > e.start)
        .map(|e| (e.start, e.end))
        .collect();
    let mut seen = BTreeSet::new();
    edits.retain(|e| {
        let k = (e.start, e.end, e.text.clone(), e.kind);
        if e.end > e.start || e.kind != "ghost" {
            if e.end > e.start && !seen.insert(k) {
                return false;
            }
        }
        !dels.iter().any(|d| {
            (d.0 <= e.start && e.end <= d.1)
                && (d.0, d.1) != (e.start, e.end)
                && !(e.start == e.end && (e.start == d.0 || e.start == d.1))
        })
    });
    // insertions at same offset: stable by prio; outer (-1) prefix goes first
    edits.sort_by(|a, b| (a.start, a.prio, a.end).cmp(&(b.start, b.prio, b.end)));
    let mut out = String::new();
    let mut pos = base.0;
    for e in edits {
        if e.start < pos {
            // overlapping edits: keep first
            if e.end <= pos && e.start == e.end {
                out.push_str(&e.text);
            }
            continue;
        }
        out.push_str(&text[pos..e.start]);
        out.push_str(&e.text);
        pos = e.end;
    }
    out.push_str(&text[pos..base.1]);
    out
}

// ---- template ---------------------------------------------------------
fn intish(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_) | syn::Lit::Byte(_)),
        syn::Expr::Binary(b) => matches!(b.op, syn::BinOp::Shl(_) | syn::BinOp::Shr(_) | syn::BinOp::Add(_) | syn::BinOp::Sub(_)) || intish(&b.left) || intish(&b.right),
        syn::Expr::Unary(u) => intish(&u.expr),
        syn::Expr::Paren(p) => intish(&p.expr),
        syn::Expr::Cast(_) => true,
        _ => false,
    }
}

fn boolish(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Bool(_)),
        syn::Expr::Binary(b) => {
            use syn::BinOp::*;
            matches!(b.op, Eq(_) | Ne(_) | Lt(_) | Le(_) | Gt(_) | Ge(_) | And(_) | Or(_)) || (matches!(b.op, BitOr(_) | BitAnd(_)) && (boolish(&b.left) || boolish(&b.right)))
        }
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Not(_)) && !intish(&u.expr),
        syn::Expr::Paren(p) => boolish(&p.expr),
        syn::Expr::Macro(m) => m.mac.path.is_ident("matches"),
        syn::Expr::MethodCall(m) => {
            let n = m.method.to_string();
            ["is_", "has_", "can_", "wants_", "starts_with", "ends_with", "contains", "eq_"].iter().any(|p| n.starts_with(p))
        }
        _ => false,
    }
}

#[derive(Default, Debug)]
struct FnDir {
    spec: String,
    opts: HashMap<String, String>,
    clauses: String,
    loops: BTreeMap<usize, String>,
    ghosts: Vec<(String, String)>, // (anchor, text)
    substs: Vec<(String, String)>, // documented textual substitutions
}

struct Ctx<'a> {
    srcs: &'a HashMap<String, Src>,
    cur: String,
    out: String,
    map: Vec<Value>,
    problems: Vec<String>,
    extracted: BTreeSet<(String, String)>,
    calls: Vec<(String, String, BTreeSet<String>)>,
    ops_edits: Vec<Value>,
    mrename: HashMap<String, String>,
    fordefault: Option<String>,
}

fn line_of(text: &str, off: usize) -> usize {
    text[..off].bytes().filter(|b| *b == b'\n').count() + 1
}

impl<'a> Ctx<'a> {
    fn src(&self) -> &'a Src {
        self.srcs.get(&self.cur).unwrap_or_else(|| die(format!("no //@ source before item: {}", self.cur)))
    }
    fn record(&mut self, name: &str, edits: &[Edit], src: &Src) {
        for e in edits {
            if e.kind == "attr" || e.kind == "visibility" || e.kind == "ghost" {
                continue;
            }
            self.ops_edits.push(json!({"fn": name, "file": src.path, "line": line_of(&src.text, e.start), "edit": e.kind}));
        }
    }

    fn emit_fn(&mut self, d: &FnDir, in_impl: bool) {
        let src = self.src();
        let mut items = vec![];
        all_items(&src.file.items, &mut items);
        let found = match find_fn(&items, &d.spec) {
            Some(f) => f,
            None if d.opts.contains_key("optional") => return,
            None => {
                self.problems.push(format!("lost anchor: function `{}` not found in {}", d.spec, src.path));
                return;
            }
        };
        let mut w = Walk {
            edits: vec![],
            loops: vec![],
            loop_kinds: vec![],
            poll_ret: false,
            src: &src.text,
            calls: BTreeSet::new(),
            opts: FnOpts::default(),
            for_patches: vec![],
        };
        let (sig, block, vis, attrs, whole, im): (
            &syn::Signature,
            &syn::Block,
            Option<&syn::Visibility>,
            &[syn::Attribute],
            (usize, usize),
            Option<&syn::ItemImpl>,
        ) = match &found {
            Found::Free(f) => (&f.sig, &f.block, Some(&f.vis), &f.attrs, rng(*f), None),
            Found::Method(im, f) => (
                &f.sig,
                &f.block,
                if im.trait_.is_some() { None } else { Some(&f.vis) },
                &f.attrs,
                rng(*f),
                Some(im),
            ),
            Found::TraitMethod(_, f) => (&f.sig, f.default.as_ref().unwrap(), None, &f.attrs, rng(*f), None),
        };
        let ret_s = match &sig.output {
            syn::ReturnType::Default => String::new(),
            syn::ReturnType::Type(_, t) => norm(t),
        };
        w.poll_ret = ret_s.starts_with("Poll<");
        if let Some(p) = d.opts.get("poll") {
            w.opts.poll = Some(p.clone());
            if p == "none" {
                w.poll_ret = false;
            }
            if p == "force" {
                w.poll_ret = true;
                w.opts.poll = None;
            }
        } else if ret_s.starts_with("Poll<Option<Result") || ret_s.starts_with("Poll<Option<crate::Result") {
            w.opts.poll = Some("option".into());
        }
        w.opts.panics = d.opts.contains_key("panics");
        for k in ["combin"] {
            if let Some(v) = d.opts.get(k) {
                for x in v.split(',') {
                    w.opts.combin.insert(x.to_string());
                }
            }
        }
        for (k, v) in &d.opts {
            if let Some(n) = k.strip_prefix("for").and_then(|x| x.parse::<usize>().ok()) {
                w.opts.fors.insert(n, v.clone());
            }
        }
        w.opts.mrename = self.mrename.clone();
        if !d.opts.contains_key("nofor") {
            w.opts.fordefault = self.fordefault.clone();
        }
        w.drop_attrs(attrs);
        // visibility
        if let Some(v) = vis {
            let anchor = rng(sig).0;
            w.vis(v, anchor);
        }
        let mut arg_lets = String::new();
        if let Some(syn::FnArg::Receiver(rc)) = sig.inputs.first() {
            if let (None, Some(m)) = (&rc.reference, &rc.mutability) {
                let r = rng(m);
                w.push(r.0, r.1, "", "R13 mut self");
                arg_lets.push_str("let mut vx_self = self;");
                w.opts.mutself = true;
            }
        }
        for (i, a) in sig.inputs.iter().enumerate() {
            if let syn::FnArg::Typed(t) = a {
                w.drop_attrs(&t.attrs);
                let destructures = !matches!(&*t.pat, syn::Pat::Ident(_) | syn::Pat::Wild(_));
                if matches!(&*t.pat, syn::Pat::Wild(_)) {
                    let r = rng(&*t.pat);
                    w.push(r.0, r.1, format!("vx_arg{}", i), "R8 argument pattern");
                }
                if destructures {
                    let r = rng(&*t.pat);
                    arg_lets.push_str(&format!("let {} = vx_arg{};", &src.text[r.0..r.1], i));
                    w.push(r.0, r.1, format!("vx_arg{}", i), "R8 argument pattern");
                }
            }
        }
        // drop `async`/`const`
        if let Some(c) = &sig.constness {
            let r = rng(c);
            w.push(r.0, r.1, "", "attr");
        }
        // a function the verifier rejects as a program (an unsupported construct): its
        // body is left out, so that the rest of the unit can still be decided; reported
        // as undecided by the caller
        let isolated = std::env::var("VX_ISOLATE").map_or(false, |v| {
            let key = format!("{}@{}@{}", d.spec, src.path, line_of(&src.text, whole.0));
            v.split('|').any(|x| x == key)
        });
        let trusted = d.opts.contains_key("trusted") || isolated;
        if !trusted {
            w.visit_block(block);
        } else {
            let r = rng(block);
            w.edits.push(Edit { start: r.0, end: r.1, text: "{ unimplemented!() }".into(), kind: "trusted body dropped", prio: 9 });
        }
        // return naming
        if let syn::ReturnType::Type(_, t) = &sig.output {
            let r = rng(&**t);
            let rn = d.opts.get("ret").cloned().unwrap_or_else(|| "r".into());
            if rn != "-" {
                w.push(r.0, r.0, format!("({}: ", rn), "ghost");
                w.push(r.1, r.1, ")", "ghost");
            }
        }
        // contract
        let brng = rng(block);
        let has_where = sig.generics.where_clause.is_some();
        let mut pre = String::new();
        if has_where {
            // ensure trailing comma
            let wr = rng(sig.generics.where_clause.as_ref().unwrap());
            let wt = src.text[wr.0..wr.1].trim_end();
            if !wt.ends_with(',') {
                pre.push(',');
            }
        }
        if !d.clauses.trim().is_empty() {
            pre.push('\n');
            pre.push_str(d.clauses.trim_end());
            pre.push('\n');
        }
        w.edits.push(Edit { start: brng.0, end: brng.0, text: pre, kind: "ghost", prio: 5 });
        if !arg_lets.is_empty() && !isolated {
            w.edits.push(Edit { start: brng.0 + 1, end: brng.0 + 1, text: format!("\n{}\n", arg_lets), kind: "R8 argument pattern", prio: -9 });
        }
        // loops
        if w.loops.len() != d.loops.len() && !(d.opts.contains_key("anyloops")) && !isolated {
            self.problems.push(format!(
                "lost anchor: `{}` has {} loops, contract has {} loop specs",
                d.spec,
                w.loops.len(),
                d.loops.len()
            ));
        }
        for (i, l) in w.loops.clone().iter().enumerate() {
            if let Some(t) = d.loops.get(&i) {
                let iswl = w.edits.iter().any(|e| (e.kind == "R4 while-let" || e.kind == "R9 for desugar") && e.start == l.1 && e.end == l.1);
                if iswl {
                    // put invariants at the VXINV marker of this loop
                    let mut best: Option<usize> = None;
                    for (k, e) in w.edits.iter().enumerate() {
                        if (e.kind == "R4 while-let" || e.kind == "R9 for desugar") && e.text.contains("VXINV") && e.start < l.0 {
                            if best.map(|b| w.edits[b].start < e.start).unwrap_or(true) {
                                best = Some(k);
                            }
                        }
                    }
                    if let Some(b) = best {
                        w.edits[b].text = w.edits[b].text.replace("/*VXINV*/", &format!("\n{}\n", t.trim_end()));
                    }
                } else {
                    w.edits.push(Edit { start: l.0, end: l.0, text: format!("\n{}\n", t.trim_end()), kind: "ghost", prio: 5 });
                }
            }
            if let Some(it) = d.opts.get(&format!("iter{}", i)) {
                // for p in E -> for p in it: E
                if w.loop_kinds[i].starts_with("for ") {
                    // find for-patch by order
                    let idx = w.loop_kinds[..i].iter().filter(|k| k.starts_with("for ")).count();
                    let r = w.for_patches[idx];
                    w.edits.push(Edit { start: r.0, end: r.0, text: format!("{}: ", it), kind: "ghost", prio: -2 });
                }
            }
        }
        // ghosts
        for (anchor, text) in &d.ghosts {
            if isolated {
                continue;
            }
            let t = format!("\n{}\n", text.trim_end());
            let a = anchor.trim();
            if a == "start" {
                w.edits.push(Edit { start: brng.0 + 1, end: brng.0 + 1, text: t, kind: "ghost", prio: 0 });
            } else if a == "end" {
                w.edits.push(Edit { start: brng.1 - 1, end: brng.1 - 1, text: t, kind: "ghost", prio: 0 });
            } else if a == "before-tail" {
                if let Some(syn::Stmt::Expr(e, None)) = block.stmts.last() {
                    let r = rng(e);
                    w.edits.push(Edit { start: r.0, end: r.0, text: t, kind: "ghost", prio: -5 });
                }
            } else if let Some(rest) = a.strip_prefix("loop ") {
                let mut p = rest.split_whitespace();
                let n: usize = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let wh = p.next().unwrap_or("start");
                if let Some(l) = w.loops.get(n).cloned() {
                    let off = if wh == "start" { l.0 + 1 } else { l.1 - 1 };
                    w.edits.push(Edit { start: off, end: off, text: t, kind: "ghost", prio: 0 });
                } else {
                    self.problems.push(format!("lost anchor: `{}` loop {} for ghost code", d.spec, n));
                }
            } else if let Some(rest) = a.strip_prefix("before ").or_else(|| a.strip_prefix("after ")) {
                let before = a.starts_with("before ");
                let rest = rest.trim();
                // `pat` | last `pat` | all `pat` | #k `pat`
                let (sel, pat) = match rest.find('`') { Some(k) => (rest[..k].trim(), rest[k..].trim_matches('`')), None => ("", rest) };
                let body = &src.text[brng.0..brng.1];
                let hits: Vec<usize> = body.match_indices(pat).map(|x| x.0).collect();
                let hits: Vec<usize> = match sel {
                    "all" => hits,
                    "last" => hits.last().cloned().into_iter().collect(),
                    "" => hits.first().cloned().into_iter().collect(),
                    k => hits.get(k.trim_start_matches('#').parse::<usize>().unwrap_or_else(|_| die(format!("bad ghost anchor {}", a)))).cloned().into_iter().collect(),
                };
                match hits.len() {
                    n if n > 0 => for o in hits {
                        let off = brng.0 + o + if before { 0 } else { pat.len() };
                        w.edits.push(Edit { start: off, end: off, text: t.clone(), kind: "ghost", prio: -3 });
                    },
                    _ => self.problems.push(format!("lost anchor: `{}` pattern `{}` for ghost code", d.spec, pat)),
                }
            } else {
                die(format!("bad ghost anchor {}", a));
            }
        }
        // documented textual substitutions (R7), counted and reported
        for (from, to) in &d.substs {
            let text = &src.text[whole.0..if isolated { brng.0 } else { whole.1 }];
            let mut any = false;
            let mut p = 0;
            while let Some(o) = text[p..].find(from.as_str()) {
                let s = whole.0 + p + o;
                w.edits.push(Edit { start: s, end: s + from.len(), text: to.clone(), kind: "R7 substitution", prio: 0 });
                p += o + from.len();
                any = true;
            }
            if !any && !isolated {
                self.problems.push(format!("lost anchor: `{}` substitution source `{}` not found", d.spec, from));
            }
        }
        let edits = w.edits.clone();
        let body = apply(&src.text, whole, edits.clone());
        let rec: Vec<Edit> = edits;
        self.record(&d.spec, &rec, src);
        let start_line = self.out.bytes().filter(|b| *b == b'\n').count() + 1;
        if let Some(a) = d.opts.get("attr") {
            for x in a.split(';') {
                let s = format!("#[verifier::{}]\n", x);
                if !in_impl && im.is_some() {
                    // placed inside impl below
                }
                let _ = s;
            }
        }
        let mut attr_text = String::new();
        if trusted {
            attr_text.push_str("#[verifier::external_body]\n");
        }
        if let Some(a) = d.opts.get("attr") {
            for x in a.split(';') {
                attr_text.push_str(&format!("#[verifier::{}]\n", x));
            }
        }
        if in_impl || im.is_none() {
            self.out.push_str(&attr_text);
            self.out.push_str(&body);
            self.out.push('\n');
        } else {
            let im = im.unwrap();
            let hdr = match d.opts.get("impl") {
                Some(h) => h.clone(),
                None => {
                    let s = rng(im).0;
                    let hs = rng(&im.impl_token).0;
                    let _ = s;
                    let br = im.brace_token.span.open().byte_range();
                    src.text[hs..br.start].trim_end().to_string()
                }
            };
            self.out.push_str(&format!("{} {{\n{}{}\n}}\n", hdr, attr_text, body));
        }
        let end_line = self.out.bytes().filter(|b| *b == b'\n').count() + 1;
        let external = trusted;
        let (ss, se) = (line_of(&src.text, whole.0), line_of(&src.text, whole.1));
        self.map.push(json!({
            "fn": d.spec, "file": src.path, "src_lines": [ss, se], "out_lines": [start_line, end_line],
            "contract": !d.clauses.trim().is_empty() || (in_impl && im.map_or(false, |i| i.trait_.is_some())), "trusted": external, "isolated": isolated, "loops": w.loops.len(), "auto": false,
            "loop_kinds": w.loop_kinds,
        }));
        self.extracted.insert((self.cur.clone(), sig.ident.to_string()));
        self.calls.push((self.cur.clone(), d.spec.clone(), w.calls.clone()));
    }

    fn emit_item(&mut self, kind: &str, name: &str, opts: &HashMap<String, String>) {
        let src = self.src();
        let mut items = vec![];
        all_items(&src.file.items, &mut items);
        let mut w = Walk {
            edits: vec![],
            loops: vec![],
            loop_kinds: vec![],
            poll_ret: opts.contains_key("pollret"),
            src: &src.text,
            calls: BTreeSet::new(),
            opts: FnOpts::default(),
            for_patches: vec![],
        };
        if kind == "implconst" {
            // associated consts of an inherent impl: Type::A,B
            let (ty, names) = name.rsplit_once("::").unwrap_or_else(|| die(name.into()));
            for n in names.split(',') {
                let mut ok = false;
                for it in &items {
                    if let syn::Item::Impl(im) = it {
                        if im.trait_.is_none() && ty_base(&im.self_ty) == ty {
                            for ii in &im.items {
                                if let syn::ImplItem::Const(c) = ii {
                                    if c.ident == n && attrs_on(&c.attrs) {
                                        let mut w2 = Walk { edits: vec![], loops: vec![], loop_kinds: vec![], poll_ret: false, src: &src.text, calls: BTreeSet::new(), opts: FnOpts::default(), for_patches: vec![] };
                                        w2.drop_attrs(&c.attrs);
                                        let a = rng(&c.const_token).0;
                                        w2.vis(&c.vis, a);
                                        let t = apply(&src.text, rng(c), w2.edits);
                                        let hs = rng(&im.impl_token).0;
                                        let br = im.brace_token.span.open().byte_range();
                                        self.out.push_str(&format!("{} {{\n{}\n}}\n", src.text[hs..br.start].trim_end(), t));
                                        ok = true;
                                    }
                                }
                            }
                        }
                    }
                }
                if !ok {
                    self.problems.push(format!("lost anchor: assoc const {}::{}", ty, n));
                }
            }
            return;
        }
        for it in &items {
            let (k, n) = match it {
                syn::Item::Const(c) => ("const", c.ident.to_string()),
                syn::Item::Static(c) => ("static", c.ident.to_string()),
                syn::Item::Struct(c) => ("struct", c.ident.to_string()),
                syn::Item::Enum(c) => ("enum", c.ident.to_string()),
                syn::Item::Type(c) => ("type", c.ident.to_string()),
                syn::Item::Macro(m) => match &m.ident {
                    Some(i) => ("macro", i.to_string()),
                    None => continue,
                },
                _ => continue,
            };
            if k != kind || n != name {
                continue;
            }
            match it {
                syn::Item::Const(c) => {
                    w.drop_attrs(&c.attrs);
                    let a = rng(&c.const_token).0;
                    w.vis(&c.vis, a);
                }
                syn::Item::Struct(s) => {
                    w.drop_attrs(&s.attrs);
                    let a = rng(&s.struct_token).0;
                    w.vis(&s.vis, a);
                    for f in &s.fields {
                        if !attrs_on(&f.attrs) {
                            let (a, mut b) = rng(f);
                            let rest = &src.text[b..];
                            let t = rest.trim_start();
                            if t.starts_with(',') {
                                b += rest.len() - t.len() + 1;
                            }
                            w.push(a, b, "", "R5 cfg-disabled");
                            continue;
                        }
                        w.drop_attrs(&f.attrs);
                        let a = match &f.ident {
                            Some(i) => rng(i).0,
                            None => rng(&f.ty).0,
                        };
                        w.vis(&f.vis, a);
                    }
                }
                syn::Item::Enum(e) => {
                    w.drop_attrs(&e.attrs);
                    let a = rng(&e.enum_token).0;
                    w.vis(&e.vis, a);
                    for v in &e.variants {
                        if !attrs_on(&v.attrs) {
                            let (a, mut b) = rng(v);
                            let rest = &src.text[b..];
                            let t = rest.trim_start();
                            if t.starts_with(',') {
                                b += rest.len() - t.len() + 1;
                            }
                            w.push(a, b, "", "R5 cfg-disabled");
                            continue;
                        }
                        w.drop_attrs(&v.attrs);
                        for f in &v.fields {
                            w.drop_attrs(&f.attrs);
                        }
                    }
                }
                syn::Item::Type(t) => {
                    w.drop_attrs(&t.attrs);
                    let a = rng(&t.type_token).0;
                    w.vis(&t.vis, a);
                }
                syn::Item::Macro(m) => {
                    w.drop_attrs(&m.attrs);
                    w.tokens(m.mac.tokens.clone());
                }
                syn::Item::Static(c) => {
                    w.drop_attrs(&c.attrs);
                }
                _ => {}
            }
            if let (syn::Item::Static(c), Some(en)) = (it, opts.get("ensures")) {
                // R15: a static is the value of its initialiser
                self.record(name, &[Edit { start: rng(c).0, end: rng(c).0, text: String::new(), kind: "R15 static as function", prio: 0 }], src);
                let (t, x) = (rng(&*c.ty), rng(&*c.expr));
                self.out.push_str(&format!("pub fn {}() -> (r: {})\n    ensures {}\n{{\n    let r = {};\n    {}\n    r\n}}\n", name, &src.text[t.0..t.1], en, &src.text[x.0..x.1],
                    opts.get("proof").map(|p| format!("proof {{ {} }}", p)).unwrap_or_default()));
                return;
            }
            let r = rng(*it);
            let edits = w.edits.clone();
            let rec = edits.clone();
            let mut t = apply(&src.text, r, edits);
            if let Some(v) = opts.get("replace") {
                for pair in v.split(";;") {
                    if let Some((a, b)) = pair.split_once("=>") {
                        t = t.replace(a.trim(), b.trim());
                    }
                }
            }
            self.record(name, &rec, src);
            if let Some(d) = opts.get("derive") {
                self.out.push_str(&format!("#[derive({})]\n", d));
            }
            if let Some(d) = opts.get("attr") {
                for x in d.split(';') {
                    self.out.push_str(&format!("#[verifier::{}]\n", x));
                }
            }
            self.out.push_str(&t);
            self.out.push('\n');
            return;
        }
        self.problems.push(format!("lost anchor: {} {} not found in {}", kind, name, src.path));
    }
}

/// `module::CONST` (not an enum variant)
fn module_const(q: &syn::PatPath) -> bool {
    let n = q.path.segments.len();
    if n < 2 { return false; }
    let (m, c) = (q.path.segments[n - 2].ident.to_string(), q.path.segments[n - 1].ident.to_string());
    m.chars().all(|c| c.is_ascii_lowercase() || c == '_') && c.chars().all(|c| c.is_ascii_uppercase() || c == '_' || c.is_ascii_digit())
}
// ---- gsubst: token-level rewriting of a source file before it is parsed (R7) ----
#[derive(Clone, Debug)]
struct Tok { s: usize, e: usize, t: String, ident: bool }
fn flat(ts: TokenStream, out: &mut Vec<Tok>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => {
                let (o, c) = match g.delimiter() { Delimiter::Parenthesis => ("(", ")"), Delimiter::Brace => ("{", "}"), Delimiter::Bracket => ("[", "]"), Delimiter::None => ("", "") };
                let a = g.span_open().byte_range();
                let b = g.span_close().byte_range();
                out.push(Tok { s: a.start, e: a.end, t: o.into(), ident: false });
                flat(g.stream(), out);
                out.push(Tok { s: b.start, e: b.end, t: c.into(), ident: false });
            }
            TokenTree::Ident(i) => { let r = i.span().byte_range(); out.push(Tok { s: r.start, e: r.end, t: i.to_string(), ident: true }); }
            TokenTree::Punct(p) => { let r = p.span().byte_range(); out.push(Tok { s: r.start, e: r.end, t: p.as_char().to_string(), ident: false }); }
            TokenTree::Literal(l) => { let r = l.span().byte_range(); out.push(Tok { s: r.start, e: r.end, t: l.to_string(), ident: false }); }
        }
    }
}
fn toks(text: &str) -> Vec<Tok> {
    let ts: TokenStream = text.parse().unwrap_or_else(|e| die(format!("tokens of `{}`: {}", &text[..text.len().min(80)], e)));
    let mut v = vec![];
    flat(ts, &mut v);
    v
}
/// match pattern tokens `pat[j..]` at `src[i..]`; `$x` takes a balanced, non-empty run without `;` (lazily)
fn tmatch(src: &[Tok], i: usize, pat: &[Tok], j: usize, b: &mut Vec<(String, usize, usize)>) -> Option<usize> {
    if j == pat.len() { return Some(i); }
    if pat[j].t == "$" && j + 1 < pat.len() && pat[j + 1].ident {
        let name = pat[j + 1].t.clone();
        let first = j == 0;
        if let Some((_, a, z)) = b.iter().find(|x| x.0 == name).cloned() {
            let n = z - a;
            if i + n > src.len() || (0..n).any(|k| src[i + k].t != src[a + k].t) { return None; }
            return tmatch(src, i + n, pat, j + 2, b);
        }
        if first && i > 0 && (src[i - 1].t == "." || src[i - 1].t == ":") { return None; }
        let mut depth = 0i32;
        let mut k = i;
        while k < src.len() {
            let t = &src[k].t;
            if first && !(src[k].ident || t == "." || t == ":") { return None; }
            if t == "(" || t == "[" || t == "{" { depth += 1; }
            if t == ")" || t == "]" || t == "}" { depth -= 1; }
            if depth < 0 || (depth == 0 && t == ";" && !name.starts_with("body")) { return None; }
            k += 1;
            if depth == 0 {
                b.push((name.clone(), i, k));
                if let Some(r) = tmatch(src, k, pat, j + 2, b) { return Some(r); }
                while b.last().map(|x| x.0 != name).unwrap_or(false) { b.pop(); }
                b.pop();
            }
        }
        return None;
    }
    if i < src.len() && src[i].t == pat[j].t { tmatch(src, i + 1, pat, j + 1, b) } else { None }
}
fn gsubst(text: &str, from: &str, to: &str) -> (String, usize) {
    let src = toks(text);
    let pat = toks(from);
    let mut out = String::new();
    let (mut pos, mut i, mut n) = (0, 0, 0);
    while i < src.len() {
        let mut b = vec![];
        if let Some(e) = tmatch(&src, i, &pat, 0, &mut b) {
            if e > i {
                let (s, z) = (src[i].s, src[e - 1].e);
                out.push_str(&text[pos..s]);
                let mut r = to.to_string();
                b.sort_by_key(|x| std::cmp::Reverse(x.0.len()));
                for (name, a, k) in &b { r = r.replace(&format!("${}", name), &text[src[*a].s..src[*k - 1].e]); }
                let lost = text[s..z].matches('\n').count().saturating_sub(r.matches('\n').count());
                out.push_str(&r);
                out.push_str(&"\n".repeat(lost));
                pos = z;
                i = e;
                n += 1;
                continue;
            }
        }
        i += 1;
    }
    out.push_str(&text[pos..]);
    (out, n)
}

/// gsubst within the functions named `name` only
fn gsubst_in(text: &str, name: &str, from: &str, to: &str) -> (String, usize) {
    let src = toks(text);
    let (mut out, mut pos, mut n) = (String::new(), 0, 0);
    let mut i = 0;
    while i + 1 < src.len() {
        if src[i].t == "fn" && src[i + 1].t == name {
            let mut k = i + 2;
            let mut depth = 0i32;
            while k < src.len() {
                match src[k].t.as_str() {
                    "{" | "(" | "[" => depth += 1,
                    "}" | ")" | "]" => { depth -= 1; if depth == 0 && src[k].t == "}" { break; } }
                    _ => {}
                }
                k += 1;
            }
            if k < src.len() {
                let (a, z) = (src[i].s, src[k].e);
                out.push_str(&text[pos..a]);
                let (t, c) = gsubst(&text[a..z], from, to);
                out.push_str(&t);
                n += c;
                pos = z;
                i = k;
            }
        }
        i += 1;
    }
    out.push_str(&text[pos..]);
    (out, n)
}

fn parse_opts(s: &str) -> (Vec<String>, HashMap<String, String>) {
    // words; key=value with value possibly "quoted"
    let mut words = vec![];
    let mut opts = HashMap::new();
    let cs: Vec<char> = s.chars().collect();
    let mut i = 0;
    while i < cs.len() {
        while i < cs.len() && cs[i].is_whitespace() {
            i += 1;
        }
        if i >= cs.len() {
            break;
        }
        let mut w = String::new();
        let mut q = false;
        let mut angle = 0i32;
        while i < cs.len() && (q || angle > 0 || !cs[i].is_whitespace()) {
            if cs[i] == '"' {
                q = !q;
            } else {
                if !q && cs[i] == '<' {
                    angle += 1;
                }
                if !q && cs[i] == '>' {
                    angle -= 1;
                }
                w.push(cs[i]);
            }
            i += 1;
        }
        if let Some((k, v)) = w.split_once('=') {
            if !k.contains('<') && !k.contains(':') {
                opts.insert(k.to_string(), v.to_string());
                continue;
            }
        }
        words.push(w);
    }
    (words, opts)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    if a.len() < 5 {
        die("usage: vx <repo> <template> <out.rs> <map.json>".into());
    }
    let repo = &a[1];
    // include support
    fn load(path: &str, dir: &std::path::Path) -> String {
        let t = std::fs::read_to_string(path).unwrap_or_else(|e| die(format!("{}: {}", path, e)));
        let mut out = String::new();
        for l in t.lines() {
            if let Some(f) = l.trim().strip_prefix("//@ include ") {
                let p = dir.join(f.trim());
                out.push_str(&load(p.to_str().unwrap(), dir));
            } else {
                out.push_str(l);
                out.push('\n');
            }
        }
        out
    }
    let tpath = std::path::Path::new(&a[2]);
    let tmpl = load(&a[2], tpath.parent().unwrap());
    // collect sources
    let mut srcs: HashMap<String, Src> = HashMap::new();
    let mut gs: HashMap<String, Vec<(String, String)>> = HashMap::new();
    let mut gcur = String::new();
    let mut ds: BTreeMap<String, Vec<String>> = BTreeMap::new();
    for l in tmpl.lines() {
        if let Some(r) = l.trim().strip_prefix("//@ desugar ") { ds.entry(gcur.clone()).or_default().extend(r.split_whitespace().map(|x| x.to_string())); }
        if let Some(p) = l.trim().strip_prefix("//@ source ") { gcur = p.trim().to_string(); }
        if let Some(r) = l.trim().strip_prefix("//@ gsubst ") {
            let (f, to) = r.split_once("` => `").unwrap_or_else(|| die(l.into()));
            gs.entry(gcur.clone()).or_default().push((f.trim_start().trim_start_matches('`').to_string(), to.trim_end().trim_end_matches('`').replace("\\n", "\n")));
        }
    }
    let mut gcount: Vec<(String, String, usize)> = vec![];
    for l in tmpl.lines() {
        if let Some(p) = l.trim().strip_prefix("//@ source ") {
            let p = p.trim().to_string();
            if srcs.contains_key(&p) {
                continue;
            }
            let text = match std::fs::read_to_string(format!("{}/{}", repo, p)) {
                Ok(t) => t,
                Err(e) => die(format!("{}: {}", p, e)),
            };
            let mut text = match text.find("\n#[cfg(test)]\nmod ") { Some(k) => format!("{}mod __vx_cut {{}}\n", &text[..k + 1]), None => text };
            for (f, to) in gs.get(&p).cloned().unwrap_or_default() {
                let (t, n) = match f.strip_prefix('@').and_then(|r| r.split_once('`')) {
                    Some((name, pat)) => gsubst_in(&text, name.trim(), pat, &to),
                    None => gsubst(&text, &f, &to),
                };
                text = t;
                gcount.push((p.clone(), f, n));
            }
            for d in ds.get(&p).cloned().unwrap_or_default() {
                let (t, n) = match d.as_str() { "macros" => desugar::macros(text), "returns" => desugar::returns(text), "closures" => desugar::closures(text), _ => die(format!("desugar {}", d)) };
                text = t;
                gcount.push((p.clone(), format!("desugar {}", d), n));
            }
            let file = match syn::parse_file(&text) {
                Ok(f) => f,
                Err(e) => die(format!("parse {}: {}", p, e)),
            };
            srcs.insert(p.clone(), Src { path: p.clone(), text, file });
        }
    }
    let mut cx = Ctx {
        srcs: &srcs,
        cur: String::new(),
        out: String::new(),
        map: vec![],
        problems: vec![],
        extracted: BTreeSet::new(),
        calls: vec![],
        ops_edits: vec![],
        mrename: HashMap::new(),
        fordefault: None,
    };
    for (f, pat, n) in &gcount {
        for _ in 0..*n { cx.ops_edits.push(json!({"fn": "*", "file": f, "line": 0, "edit": format!("R7 substitution of `{}`", pat)})); }
    }
    let mut in_impl: Option<String> = None;
    let mut fnd: Option<FnDir> = None;
    let mut sect: String = String::new(); // where raw text goes: "", "clauses", "loop N", "ghost"
    let mut skip: BTreeSet<String> = BTreeSet::new();
    macro_rules! flush {
        () => {
            if let Some(mut d) = fnd.take() {
                if let Some(h) = &in_impl {
                    if !d.spec.contains("::") {
                        d.spec = format!("{}::{}", h, d.spec);
                    }
                    cx.emit_fn(&d, true);
                } else {
                    cx.emit_fn(&d, false);
                }
            }
            sect.clear();
        };
    }
    for l in tmpl.lines() {
        let t = l.trim();
        if let Some(dir) = t.strip_prefix("//@ ") {
            let (cmd, rest) = dir.split_once(' ').unwrap_or((dir, ""));
            match cmd {
                "source" => {
                    flush!();
                    cx.cur = rest.trim().to_string();
                }
                "item" => {
                    flush!();
                    let (w, o) = parse_opts(rest);
                    if w.len() < 2 {
                        die(format!("bad item directive: {}", l));
                    }
                    cx.emit_item(&w[0], &w[1], &o);
                }
                "fn" => {
                    flush!();
                    let (w, o) = parse_opts(rest);
                    fnd = Some(FnDir { spec: w.join(" "), opts: o, ..Default::default() });
                    sect = "clauses".into();
                }
                "loop" => {
                    let n: usize = rest.trim().parse().unwrap_or_else(|_| die(l.into()));
                    fnd.as_mut().unwrap_or_else(|| die(l.into())).loops.insert(n, String::new());
                    sect = format!("loop {}", n);
                }
                "ghost" => {
                    fnd.as_mut().unwrap_or_else(|| die(l.into())).ghosts.push((rest.trim().to_string(), String::new()));
                    sect = "ghost".into();
                }
                "subst" | "rsubst" => {
                    // //@ subst `from` => `to`
                    let (f, to) = rest.split_once("` => `").unwrap_or_else(|| die(l.into()));
                    let f = f.trim_start().trim_start_matches('`').to_string();
                    let f = if cmd == "subst" { f.replace("\\n", "\n") } else { f };
                    let to = to.trim_end().trim_end_matches('`').to_string();
                    fnd.as_mut().unwrap_or_else(|| die(l.into())).substs.push((f, to));
                }
                "end" => {
                    flush!();
                }
                "impl" => {
                    // //@ impl <Trait for Type> `header text`
                    flush!();
                    let (a, b) = rest.split_once('`').unwrap_or_else(|| die(l.into()));
                    in_impl = Some(a.trim().to_string());
                    cx.out.push_str(&format!("{} {{\n", b.trim_end().trim_end_matches('`')));
                }
                "endimpl" => {
                    flush!();
                    in_impl = None;
                    cx.out.push_str("}\n");
                }
                "mrename" => {
                    flush!();
                    for x in rest.split_whitespace() {
                        let (a, b) = x.split_once('=').unwrap_or_else(|| die(l.into()));
                        cx.mrename.insert(a.into(), b.into());
                    }
                }
                "gsubst" | "desugar" => {
                    flush!();
                }
                "fordefault" => {
                    flush!();
                    cx.fordefault = Some(rest.trim().to_string());
                }
                "noauto" => {
                    for x in rest.split_whitespace() {
                        skip.insert(x.to_string());
                    }
                }
                _ => die(format!("unknown directive {}", l)),
            }
            continue;
        }
        match sect.as_str() {
            "" => {
                cx.out.push_str(l);
                cx.out.push('\n');
            }
            "clauses" => {
                let d = fnd.as_mut().unwrap();
                d.clauses.push_str(l);
                d.clauses.push('\n');
            }
            "ghost" => {
                let g = fnd.as_mut().unwrap().ghosts.last_mut().unwrap();
                g.1.push_str(l);
                g.1.push('\n');
            }
            s => {
                let n: usize = s[5..].parse().unwrap();
                let x = fnd.as_mut().unwrap().loops.get_mut(&n).unwrap();
                x.push_str(l);
                x.push('\n');
            }
        }
    }
    flush!();
    // ---- auto-include helper functions -------------------------------
    let mut auto_helpers = vec![];
    let mut work = std::mem::take(&mut cx.calls);
    let mut done: BTreeSet<(String, String)> = BTreeSet::new();
    let mut extra = String::new();
    let mut guard = 0;
    while let Some((file, caller, calls)) = work.pop() {
        guard += 1;
        if guard > 400 {
            break;
        }
        cx.cur = file.clone();
        let src = cx.src();
        let mut items = vec![];
        all_items(&src.file.items, &mut items);
        for c in &calls {
            let last = c.rsplit("::").next().unwrap().trim_start_matches('.').to_string();
            if skip.contains(&last) || skip.contains(c) {
                continue;
            }
            if cx.extracted.contains(&(file.clone(), last.clone())) || done.contains(&(file.clone(), last.clone())) {
                continue;
            }
            // candidate: free fn, or inherent method in this file
            let mut cand: Option<String> = None;
            if !c.starts_with('.') && find_fn(&items, &last).is_some() {
                cand = Some(last.clone());
            } else {
                for it in &items {
                    if let syn::Item::Impl(im) = it {
                        if im.trait_.is_none() {
                            let ty = ty_base(&im.self_ty);
                            for ii in &im.items {
                                if let syn::ImplItem::Fn(f) = ii {
                                    if f.sig.ident == last && attrs_on(&f.attrs) {
                                        cand = Some(format!("{}::{}", ty, last));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if let Some(spec) = cand {
                done.insert((file.clone(), last.clone()));
                let d = FnDir { spec: spec.clone(), opts: HashMap::from([("anyloops".to_string(), "1".to_string())]), ..Default::default() };
                let keep = std::mem::take(&mut cx.out);
                cx.emit_fn(&d, false);
                let got = std::mem::replace(&mut cx.out, keep);
                extra.push_str(&got);
                auto_helpers.push(json!({"fn": spec, "called_from": caller}));
                if let Some(x) = cx.calls.pop() {
                    work.push(x);
                }
            }
        }
    }
    let pos = cx.out.find("//VX-AUTO").or_else(|| cx.out.rfind("} // verus!")).unwrap_or(cx.out.len());
    cx.out.insert_str(pos, &extra);
    // fix out_lines for everything by re-scan is unnecessary: auto helpers come last
    std::fs::write(&a[3], &cx.out).unwrap();
    let m = json!({
        "functions": cx.map, "problems": cx.problems, "auto_helpers": auto_helpers, "edits": cx.ops_edits,
    });
    std::fs::write(&a[4], serde_json::to_string_pretty(&m).unwrap()).unwrap();
}
