//! Syntactic normalisation of a Rust function body into the dialect Verus accepts.
//! Every rule is listed in DESIGN.md ("What the extraction does").
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{HashMap, HashSet};
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

#[derive(Default, Clone)]
pub struct Annot {
    pub loops: HashMap<usize, String>,
    pub loop_ens: HashMap<usize, String>,
    pub loop_dec: HashMap<usize, String>,
    pub closures: HashMap<usize, String>,
    pub hints: Vec<(String, String)>,
    pub derefs: HashSet<String>,
    pub substs: Vec<(String, String)>,
    pub rawloops: HashSet<usize>,
    pub isolate: HashSet<usize>,
    pub unchain: HashSet<String>,
    pub lift: HashSet<String>,
    pub liftargs: HashSet<String>,
}

pub fn marker(kind: &str, id: usize) -> Stmt {
    let k = syn::Ident::new(kind, proc_macro2::Span::call_site());
    parse_quote! { #k!(#id); }
}

// ---------------------------------------------------------------- anchors
struct CallFinder<'a> { name: &'a str, k: usize, seen: usize, hit: bool }
impl<'ast, 'a> syn::visit::Visit<'ast> for CallFinder<'a> {
    fn visit_expr_method_call(&mut self, m: &'ast ExprMethodCall) {
        syn::visit::visit_expr_method_call(self, m);
        if m.method == self.name { self.seen += 1; if self.seen == self.k { self.hit = true; } }
    }
    fn visit_expr_call(&mut self, m: &'ast ExprCall) {
        syn::visit::visit_expr_call(self, m);
        if let Expr::Path(p) = &*m.func {
            if p.path.segments.last().map(|s| s.ident == self.name).unwrap_or(false) {
                self.seen += 1; if self.seen == self.k { self.hit = true; }
            }
        }
    }
}

/// Number the loops in source order: a marker becomes the first statement of each loop body.
pub struct LoopNumber { pub n: usize }
impl VisitMut for LoopNumber {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(f) => { self.n += 1; let id = self.n; visit_mut::visit_expr_for_loop_mut(self, f); f.body.stmts.insert(0, marker("vx_loop", id)); }
            Expr::While(f) => { self.n += 1; let id = self.n; visit_mut::visit_expr_while_mut(self, f); f.body.stmts.insert(0, marker("vx_loop", id)); }
            Expr::Loop(f) => { self.n += 1; let id = self.n; visit_mut::visit_expr_loop_mut(self, f); f.body.stmts.insert(0, marker("vx_loop", id)); }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

fn loop_body(e: &mut Expr) -> Option<&mut Block> {
    match e { Expr::ForLoop(f) => Some(&mut f.body), Expr::While(f) => Some(&mut f.body), Expr::Loop(f) => Some(&mut f.body), _ => None }
}
pub fn marker_id(s: &Stmt, kind: &str) -> Option<usize> {
    if let Stmt::Macro(m) = s { if m.mac.path.is_ident(kind) { return m.mac.tokens.to_string().replace("usize","").trim().parse().ok(); } }
    None
}
pub fn loop_id(b: &Block) -> Option<usize> { b.stmts.first().and_then(|s| marker_id(s, "vx_loop")) }

enum Where { LoopTop(usize), LoopIn(usize, bool), LoopOut(usize, bool), Call(String, usize, bool), LetAfter(String, usize), If(usize, bool), Arm(usize) }

struct HintInsert { w: Where, id: usize, done: bool, ifn: usize, letn: usize, armn: usize, seen: usize }
impl HintInsert {
    fn in_block(&mut self, b: &mut Block) {
        // recurse first so that the innermost block wins
        if let Where::Call(name, k, after) = &self.w {
            let (name, k, after) = (name.clone(), *k, *after);
            for i in 0..b.stmts.len() {
                let mut f = CallFinder { name: &name, k: k - self.seen, seen: 0, hit: false };
                syn::visit::Visit::visit_stmt(&mut f, &b.stmts[i]);
                if !f.hit { self.seen += f.seen; continue; }
                let before = self.seen;
                visit_mut::visit_stmt_mut(self, &mut b.stmts[i]);
                if self.done { return; }
                self.seen = before;
                if after {
                    if let Stmt::Expr(e, None) = &b.stmts[i] {
                        if i + 1 == b.stmts.len() && !matches!(e, Expr::If(_)|Expr::While(_)|Expr::ForLoop(_)|Expr::Loop(_)) {
                            let e2 = e.clone();
                            let v = quote::format_ident!("vx_t{}", self.id);
                            b.stmts[i] = parse_quote! { let #v = #e2; };
                            b.stmts.push(marker("vx_hint", self.id));
                            b.stmts.push(Stmt::Expr(parse_quote! { #v }, None));
                            self.done = true; return;
                        }
                    }
                    b.stmts.insert(i + 1, marker("vx_hint", self.id));
                } else { b.stmts.insert(i, marker("vx_hint", self.id)); }
                self.done = true; return;
            }
            return;
        }
        for s in b.stmts.iter_mut() { if self.done { return; } visit_mut::visit_stmt_mut(self, s); }
        if self.done { return; }
        match &self.w {
            Where::LoopOut(n, after) => {
                for i in 0..b.stmts.len() {
                    let hit = match &mut b.stmts[i] { Stmt::Expr(e, _) => loop_body(e).and_then(|x| loop_id(x)) == Some(*n), _ => false };
                    if hit {
                        if *after { b.stmts.insert(i + 1, marker("vx_hint", self.id)); } else { b.stmts.insert(i, marker("vx_hint", self.id)); }
                        self.done = true; return;
                    }
                }
            }
            Where::LetAfter(name, k) => {
                for i in 0..b.stmts.len() {
                    if let Stmt::Local(l) = &b.stmts[i] {
                        let t = l.pat.to_token_stream().to_string();
                        if t.split(|c: char| !(c.is_alphanumeric() || c == '_')).any(|x| x == name) {
                            self.letn += 1;
                            if self.letn == *k { b.stmts.insert(i + 1, marker("vx_hint", self.id)); self.done = true; return; }
                        }
                    }
                }
            }
            _ => {}
        }
    }
}
impl VisitMut for HintInsert {
    fn visit_block_mut(&mut self, b: &mut Block) { self.in_block(b); }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if self.done { return; }
        if let Where::LoopTop(n) = &self.w {
            if let Some(b) = loop_body(e) {
                if loop_id(b) == Some(*n) { b.stmts.insert(1, marker("vx_hinttop", self.id)); self.done = true; return; }
            }
        }
        if let Where::LoopIn(n, end) = &self.w {
            if let Some(b) = loop_body(e) {
                if loop_id(b) == Some(*n) {
                    if *end {
                        let l = b.stmts.len();
                        if let Stmt::Expr(_, semi) = &mut b.stmts[l - 1] { if semi.is_none() { *semi = Some(Default::default()); } }
                        b.stmts.push(marker("vx_hint", self.id)); } else { b.stmts.insert(1, marker("vx_hint", self.id)); }
                    self.done = true; return;
                }
            }
        }
        if let Where::If(k, els) = self.w {
            if let Expr::If(i) = e {
                self.ifn += 1;
                if self.ifn == k {
                    if els {
                        match &mut i.else_branch {
                            Some((_, x)) => { if let Expr::Block(b) = &mut **x { b.block.stmts.insert(0, marker("vx_hint", self.id)); self.done = true; } }
                            None => { let m = marker("vx_hint", self.id); i.else_branch = Some((Default::default(), Box::new(parse_quote! {{ #m }}))); self.done = true; }
                        }
                    } else { i.then_branch.stmts.insert(0, marker("vx_hint", self.id)); self.done = true; }
                    return;
                }
            }
        }
        if let Where::Arm(k) = self.w {
            if let Expr::Match(m) = e {
                for a in m.arms.iter_mut() {
                    self.armn += 1;
                    if self.armn == k { let mk = marker("vx_hint", self.id); let b = &a.body; a.body = Box::new(parse_quote! {{ #mk #b }}); self.done = true; return; }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn insert_hints(b: &mut Block, annot: &Annot) -> Res<()> {
    for (id, (anchor, _)) in annot.hints.iter().enumerate() {
        let parts: Vec<&str> = anchor.split_whitespace().collect();
        let bad = || format!("bad anchor `{anchor}`");
        if anchor.starts_with("args ") { continue; }
        if anchor == "start" { b.stmts.insert(0, marker("vx_hint", id)); continue; }
        if anchor == "end" {
            match b.stmts.pop() {
                Some(Stmt::Expr(e, None)) => { if matches!(e, Expr::ForLoop(_) | Expr::While(_)) { b.stmts.push(Stmt::Expr(e, None)); b.stmts.push(marker("vx_hint", id)); } else {
                    let v = quote::format_ident!("vx_res");
                    b.stmts.push(parse_quote! { let #v = #e; }); b.stmts.push(marker("vx_hint", id)); b.stmts.push(Stmt::Expr(parse_quote! { #v }, None)); } }
                Some(s) => { b.stmts.push(s); b.stmts.push(marker("vx_hint", id)); }
                None => b.stmts.push(marker("vx_hint", id)),
            }
            continue;
        }
        let w = if let Some(rest) = anchor.strip_prefix("loop") {
            let (n, p) = rest.split_once('.').ok_or_else(bad)?;
            let n: usize = n.parse().map_err(|_| bad())?;
            match p { "top" => Where::LoopTop(n), "start" => Where::LoopIn(n, false), "end" => Where::LoopIn(n, true), "before" => Where::LoopOut(n, false), "after" => Where::LoopOut(n, true), _ => return Err(bad()) }
        } else if parts.len() >= 3 && (parts[0] == "before" || parts[0] == "after") && parts[1] == "call" {
            Where::Call(parts[2].into(), parts.get(3).map(|x| x.parse().unwrap()).unwrap_or(1), parts[0] == "after")
        } else if parts.len() >= 3 && parts[0] == "after" && parts[1] == "let" {
            Where::LetAfter(parts[2].into(), parts.get(3).map(|x| x.parse().unwrap()).unwrap_or(1))
        } else if parts.len() == 2 && parts[0] == "then" { Where::If(parts[1].parse().map_err(|_| bad())?, false) }
        else if parts.len() == 2 && parts[0] == "else" { Where::If(parts[1].parse().map_err(|_| bad())?, true) }
        else if parts.len() == 2 && parts[0] == "arm" { Where::Arm(parts[1].parse().map_err(|_| bad())?) }
        else { return Err(bad()); };
        let mut h = HintInsert { w, id, done: false, ifn: 0, letn: 0, armn: 0, seen: 0 };
        h.in_block(b);
        if !h.done { return Err(format!("lost anchor `{anchor}`")); }
    }
    Ok(())
}

// ---------------------------------------------------------------- rewriting
const RENAME: &[&str] = &["iter", "into_iter", "keys", "values", "iter_mut", "cloned", "copied", "collect", "map", "filter", "filter_map", "enumerate", "chain",
    "zip", "skip", "rev", "max", "min", "sum", "all", "any", "count", "extend", "retain", "sort_unstable", "sort_by_key", "sort_by_cached_key", "sorted_by_key",
    "min_by_key", "max_by_key", "unique", "combinations", "tuple_combinations", "flat_map", "drain", "into_keys", "into_values", "to_vec", "reverse", "borrow",
    "get_unchecked", "get_unchecked_mut", "clone_from_slice", "pow", "saturating_pow", "next_power_of_two", "trailing_zeros", "split_at_mut", "intersection", "difference", "union_iter",
    "collect_vec", "is_sorted_by_key", "unwrap_unchecked", "dedup", "resize", "sum1", "last", "first", "append", "get_mut", "swap", "inc", "concat", "split_whitespace", "lines", "parse", "trim", "as_bytes", "from_iter", "take", "try_into"];
const MUTATING: &[&str] = &["insert", "push", "remove", "pop", "extend", "clear", "append", "sort_unstable", "retain", "drain", "entry", "get_mut", "iter_mut", "as_mut", "or_default", "reverse", "resize"];

pub struct Norm<'a> { pub lifted: std::collections::HashMap<String, usize>, pub fresh: usize, pub errs: Vec<String>, pub refs: HashSet<String>, pub annot: &'a Annot, pub closure_n: usize, pub closures_used: HashSet<usize> }

/// `format!("a{x}b")` with plain `{name}` pieces only: the concatenation of the pieces
fn fmt_expr(m: &Macro) -> Option<Expr> {
    let l: LitStr = m.parse_body().ok()?;
    let t = l.value();
    let mut cur = String::new(); let mut parts: Vec<Expr> = vec![];
    let mut it = t.chars().peekable();
    let flush = |cur: &mut String, parts: &mut Vec<Expr>| { if !cur.is_empty() { let x = cur.clone(); parts.push(parse_quote! { vx_lit(#x) }); cur.clear(); } };
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{'); }
            '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}'); }
            '{' => { let mut n = String::new(); loop { match it.next()? { '}' => break, x => n.push(x) } } let i: Ident = parse_str(&n).ok()?; flush(&mut cur, &mut parts); parts.push(parse_quote! { vx_disp(&#i) }); }
            '}' => return None,
            x => cur.push(x),
        }
    }
    flush(&mut cur, &mut parts);
    let mut ps = parts.into_iter(); let first = match ps.next() { Some(f) => f, None => parse_quote! { vx_lit("") } };
    Some(ps.fold(first, |a, b| parse_quote! { vx_cat(#a, #b) }))
}
fn path_last(e: &Expr) -> Option<String> { if let Expr::Path(p) = e { p.path.segments.last().map(|s| s.ident.to_string()) } else { None } }
fn strip_paren(e: &Expr) -> &Expr { match e { Expr::Paren(p) => strip_paren(&p.expr), Expr::Group(p) => strip_paren(&p.expr), _ => e } }

impl<'a> Norm<'a> {
    fn tmp(&mut self) -> Ident { self.fresh += 1; quote::format_ident!("vxp{}", self.fresh) }
    /// Remove reference patterns; returns the `let`s to run after the match.
    fn unref_pat(&mut self, p: &mut Pat) -> Vec<Stmt> {
        match p {
            Pat::Reference(r) => {
                let t = self.tmp();
                let inner = (*r.pat).clone();
                *p = parse_quote! { #t };
                let mut inner2 = inner;
                if let Pat::Paren(pp) = &inner2 { inner2 = (*pp.pat).clone(); }
                let more = self.unref_pat(&mut inner2);
                let mut v: Vec<Stmt> = vec![parse_quote! { let #inner2 = *#t; }];
                v.extend(more); v
            }
            Pat::Tuple(t) => t.elems.iter_mut().flat_map(|x| self.unref_pat(x)).collect(),
            Pat::TupleStruct(t) => t.elems.iter_mut().flat_map(|x| self.unref_pat(x)).collect(),
            Pat::Paren(t) => self.unref_pat(&mut t.pat),
            Pat::Type(t) => self.unref_pat(&mut t.pat),
            _ => vec![],
        }
    }
    fn is_ref(&self, e: &Expr) -> bool {
        match strip_paren(e) { Expr::Path(p) => p.path.get_ident().map(|i| self.refs.contains(&i.to_string())).unwrap_or(false), Expr::Reference(_) => true, _ => false }
    }
    fn deref(&self, e: &Expr) -> Expr { match strip_paren(e) { Expr::Reference(r) => (*r.expr).clone(), x => parse_quote! { *#x } } }
    fn index_mut_ctx(e: &mut Expr) {
        // a[b] (possibly nested in field / method receiver) in a mutable place context
        match e {
            Expr::Index(i) => { Self::index_mut_ctx(&mut i.expr); let a = &i.expr; let b = &i.index; *e = parse_quote! { (*(#a).vx_index_mut(#b)) }; }
            Expr::Field(f) => Self::index_mut_ctx(&mut f.base),
            Expr::Paren(p) => Self::index_mut_ctx(&mut p.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => Self::index_mut_ctx(&mut u.expr),
            _ => {}
        }
    }
    fn macro_expr(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last()?.ident.to_string();
        let args = || -> Vec<Expr> { m.parse_body_with(punctuated::Punctuated::<Expr, Token![,]>::parse_terminated).map(|p| p.into_iter().collect()).unwrap_or_default() };
        match name.as_str() {
            "panic" | "unimplemented" | "unreachable" | "todo" => Some(parse_quote! { vx_panic() }),
            "assert" | "debug_assert" => { let a = args(); let c = a.first()?; Some(parse_quote! { vx_assert(#c) }) }
            "assert_eq" | "debug_assert_eq" => { let a = args(); let (x, y) = (a.first()?, a.get(1)?); let (x, y) = if matches!(strip_paren(x), Expr::Reference(_)) && matches!(strip_paren(y), Expr::Reference(_)) { (self.deref(x), self.deref(y)) } else { (x.clone(), y.clone()) }; Some(parse_quote! { vx_assert(#x == #y) }) }
            "assert_ne" | "debug_assert_ne" => { let a = args(); let (x, y) = (a.first()?, a.get(1)?); Some(parse_quote! { vx_assert(#x != #y) }) }
            "format" => Some(fmt_expr(m).unwrap_or_else(|| parse_quote! { vx_format() })),
            "println" | "eprintln" | "print" => Some(parse_quote! { () }),
            "vec" => {
                if let Ok((a, n)) = m.parse_body_with(|i: parse::ParseStream| { let a: Expr = i.parse()?; let _: Token![;] = i.parse()?; let n: Expr = i.parse()?; Ok((a, n)) }) {
                    return Some(parse_quote! { vx_vec_repeat(#a, #n) });
                }
                let a = args();
                Some(parse_quote! { vx_vec_from([#(#a),*]) })
            }
            _ => None,
        }
    }
    fn expand_stmt(&mut self, s: Stmt, out: &mut Vec<Stmt>) {
        match s {
            Stmt::Expr(Expr::ForLoop(f), _) => {
                let id = loop_id(&f.body).unwrap_or(0);
                let mut pat = (*f.pat).clone();
                let lets = self.unref_pat(&mut pat);
                let mut body: Vec<Stmt> = f.body.stmts.clone();
                let label = &f.label;
                let e = &f.expr;
                if let Expr::MethodCall(m) = &**e {
                    if m.method == "by_ref" {
                        let r = &m.receiver;
                        let mut b = vec![body.remove(0), parse_quote! { let #pat = #r.vx_take(); }];
                        b.extend(lets); b.extend(body);
                        out.push(Stmt::Expr(parse_quote! { #label while #r.vx_more() { #(#b)* } }, None));
                        return;
                    }
                }
                let it = quote::format_ident!("it{}", id);
                // `for (k, v) in m.iter_mut()` and `for v in m.values_mut()` over a map: every key once, with a mutable reference to its value
                if let Expr::MethodCall(m) = &**e {
                    let parts = match (&pat, m.method.to_string().as_str()) {
                        (Pat::Tuple(t), "iter_mut") if t.elems.len() == 2 => Some((Some(t.elems[0].clone()), t.elems[1].clone())),
                        (p, "values_mut") => Some((None, p.clone())),
                        _ => None,
                    };
                    if let (Some((kp, vp)), true) = (parts, m.args.is_empty()) {
                        let (r, vk) = (&m.receiver, quote::format_ident!("vxk{}", id));
                        out.push(parse_quote! { let mut #it = #r.vx_key_list(); });
                        out.push(marker("vx_iter", id));
                        let mut b = vec![body.remove(0), parse_quote! { let #vk = #it.vx_take(); }];
                        if let Some(kp) = kp { if !matches!(kp, Pat::Wild(_)) { b.push(parse_quote! { let #kp = &#vk; }); } }
                        b.push(parse_quote! { let #vp = #r.vx_get_mut(&#vk).unwrap(); });
                        b.extend(lets); b.extend(body);
                        out.push(Stmt::Expr(parse_quote! { #label while #it.vx_more() { #(#b)* } }, None));
                        return;
                    }
                }
                // `for p in f(x).iter()...`: name the temporary the iterator borrows from
                let mut e = (**e).clone();
                fn hoist(e: &mut Expr) -> Option<&mut Expr> {
                    if let Expr::MethodCall(m) = e {
                        if (m.method == "iter" || m.method == "iter_mut") && matches!(&*m.receiver, Expr::MethodCall(_) | Expr::Call(_) | Expr::Array(_)) { return Some(&mut *m.receiver); }
                        return hoist(&mut m.receiver);
                    }
                    None
                }
                if let Some(r) = hoist(&mut e) {
                    let t = quote::format_ident!("vxs{}", id); let mut x = r.clone();
                    if matches!(x, Expr::Array(_)) { x = parse_quote! { vx_vec_from(#x) }; }
                    *r = parse_quote! { #t };
                    out.push(parse_quote! { let #t = #x; });
                }
                // `&(a + b)` inside the iterated expression: name the temporary, which lives as long as the loop
                struct RefTmp { id: usize, lets: Vec<Stmt> }
                impl VisitMut for RefTmp {
                    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
                    fn visit_expr_reference_mut(&mut self, r: &mut ExprReference) {
                        if r.mutability.is_none() && matches!(strip_paren(&r.expr), Expr::Binary(_)) {
                            let t = quote::format_ident!("vxs{}_{}", self.id, self.lets.len() + 1); let x = strip_paren(&r.expr).clone();
                            self.lets.push(parse_quote! { let #t = #x; }); *r.expr = parse_quote! { #t };
                        } else { syn::visit_mut::visit_expr_reference_mut(self, r); }
                    }
                }
                let mut rt = RefTmp { id, lets: vec![] }; rt.visit_expr_mut(&mut e); out.extend(rt.lets);
                // `for p in &e` is `for p in e.iter()`
                if let Expr::Reference(r) = &e { if r.mutability.is_none() { let x = &r.expr; e = parse_quote! { (#x).vx_iter() }; } }
                // `for &p in e`, e a variable: the items of e are references
                if matches!(&*f.pat, Pat::Reference(_)) && matches!(&e, Expr::Path(_)) { e = parse_quote! { (#e).vx_iter() }; }
                out.push(parse_quote! { let mut #it = (#e).vx_src(); });
                out.push(marker("vx_iter", id));
                let mut b = vec![body.remove(0)];
                b.push(parse_quote! { let #pat = #it.vx_take(); });
                b.extend(lets); b.extend(body);
                out.push(Stmt::Expr(parse_quote! { #label while #it.vx_more() { #(#b)* } }, None));
            }
            // (a, b) = (x, y): the right-hand sides are evaluated first
            Stmt::Expr(Expr::Assign(a), _) if matches!((strip_paren(&a.left), strip_paren(&a.right)), (Expr::Tuple(l), Expr::Tuple(r)) if l.elems.len() == r.elems.len()) => {
                if let (Expr::Tuple(l), Expr::Tuple(r)) = (strip_paren(&a.left), strip_paren(&a.right)) {
                    let ts: Vec<Ident> = r.elems.iter().map(|_| self.tmp()).collect();
                    for (t, x) in ts.iter().zip(r.elems.iter()) { out.push(parse_quote! { let #t = #x; }); }
                    for (t, x) in ts.iter().zip(l.elems.iter()) { out.push(parse_quote! { #x = #t; }); }
                }
            }
            Stmt::Expr(Expr::While(w), semi) if matches!(*w.cond, Expr::Let(_)) => {
                if let Expr::Let(l) = &*w.cond {
                    let mut pat = (*l.pat).clone();
                    let lets = self.unref_pat(&mut pat);
                    let e = &l.expr;
                    let mut body = w.body.stmts.clone();
                    let mk = body.remove(0);
                    let label = &w.label;
                    let _ = semi;
                    let mut tops = vec![];
                    let mut k = 0;
                    while k < body.len() { if marker_id(&body[k], "vx_hinttop").is_some() { tops.push(body.remove(k)); } else if marker_id(&body[k], "vx_hint").is_some() { k += 1; } else { break; } }
                    out.push(Stmt::Expr(parse_quote! { #label loop { #mk #(#tops)* match #e { #pat => { #(#lets)* #(#body)* } _ => { break; } } } }, None));
                }
            }
            // drop pure statements without effect: a bare literal, unit or path
            Stmt::Expr(Expr::Lit(_), Some(_)) | Stmt::Expr(Expr::Path(_), Some(_)) => {}
            Stmt::Expr(Expr::Tuple(t), Some(_)) if t.elems.is_empty() => {}
            Stmt::Local(l) if matches!(&l.pat, Pat::Wild(_)) && l.init.as_ref().map(|i| matches!(&*i.expr, Expr::Lit(_) | Expr::Path(_) | Expr::Tuple(_))).unwrap_or(false) => {}
            Stmt::Expr(Expr::Assign(a), semi) if matches!(&*a.left, Expr::Tuple(_)) => {
                if let Expr::Tuple(t) = &*a.left {
                    let names: Vec<Ident> = t.elems.iter().map(|_| self.tmp()).collect();
                    let r = &a.right;
                    out.push(parse_quote! { let (#(#names),*) = #r; });
                    for (x, n) in t.elems.iter().zip(names) { out.push(parse_quote! { #x = #n; }); }
                    let _ = semi;
                }
            }
            Stmt::Local(mut l) => {
                let lets = self.unref_pat(&mut l.pat);
                out.push(Stmt::Local(l)); out.extend(lets);
            }
            Stmt::Macro(m) if m.mac.path.is_ident("vx_hinttop") => { let id = marker_id(&Stmt::Macro(m), "vx_hinttop").unwrap(); out.push(marker("vx_hint", id)); }
            Stmt::Macro(m) if m.mac.path.is_ident("vx_hint") || m.mac.path.is_ident("vx_loop") || m.mac.path.is_ident("vx_iter") => out.push(Stmt::Macro(m)),
            Stmt::Macro(m) => match self.macro_expr(&m.mac) {
                Some(e) => out.push(Stmt::Expr(e, if m.semi_token.is_some() { Some(Default::default()) } else { None })),
                None => out.push(Stmt::Macro(m)),
            },
            Stmt::Item(Item::Fn(_)) | Stmt::Item(Item::Use(_)) => {}
            s => out.push(s),
        }
    }
}

impl<'a> VisitMut for Norm<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        let mut todo: std::collections::VecDeque<Stmt> = std::mem::take(&mut b.stmts).into();
        while let Some(mut s) = todo.pop_front() {
            // name the (first) argument of a call
            if !self.annot.lift.is_empty() {
                let e = match &mut s { Stmt::Local(l) => l.init.as_mut().map(|i| &mut *i.expr), Stmt::Expr(e, _) => Some(e), _ => None };
                let hit = match e {
                    Some(Expr::MethodCall(m)) if self.annot.lift.contains(&m.method.to_string()) => Some((m.method.to_string(), &mut m.args)),
                    Some(Expr::Call(c)) => match path_last(&c.func) { Some(n) if self.annot.lift.contains(&n) => Some((n, &mut c.args)), _ => None },
                    _ => None,
                };
                if let Some((n, args)) = hit {
                    if let Some(a) = args.first_mut() {
                        let tag = format!("{n}_a");
                        if !a.to_token_stream().to_string().starts_with(&tag) {
                            let k = self.lifted.entry(n.clone()).or_insert(0); *k += 1;
                            let v = quote::format_ident!("{}{}", tag, *k);
                            let x = a.clone();
                            *a = parse_quote! { #v };
                            todo.push_front(s);
                            todo.push_front(parse_quote! { let #v = #x; });
                            continue;
                        }
                    }
                }
            }
            // name the arguments of a call that are method calls themselves
            if !self.annot.liftargs.is_empty() {
                let e = match &mut s { Stmt::Local(l) => l.init.as_mut().map(|i| &mut *i.expr), Stmt::Expr(e, _) => Some(e), _ => None };
                let hit = match e {
                    Some(Expr::MethodCall(m)) if self.annot.liftargs.contains(&m.method.to_string()) => Some((m.method.to_string(), &mut m.args)),
                    Some(Expr::Call(c)) => match path_last(&c.func) { Some(n) if self.annot.liftargs.contains(&n) => Some((n, &mut c.args)), _ => None },
                    _ => None,
                };
                if let Some((n, args)) = hit {
                    if args.iter().any(|a| matches!(a, Expr::MethodCall(_))) {
                        let k = self.lifted.entry(n.clone()).or_insert(0); *k += 1;
                        let mut lets: Vec<Stmt> = vec![];
                        for (i, a) in args.iter_mut().enumerate() {
                            if matches!(a, Expr::MethodCall(_)) {
                                let v = quote::format_ident!("{}_a{}_{}", n, *k, i + 1);
                                let x = a.clone(); *a = parse_quote! { #v };
                                lets.push(parse_quote! { let #v = #x; });
                            }
                        }
                        todo.push_front(s);
                        let want = format!("args {n} {k}");
                        if let Some(id) = self.annot.hints.iter().position(|h| h.0.trim() == want) { todo.push_front(marker("vx_hint", id)); }
                        for l in lets.into_iter().rev() { todo.push_front(l); }
                        continue;
                    }
                }
            }
            // name the intermediate results of a method chain
            if let Stmt::Local(l) = &mut s {
                let t = l.pat.to_token_stream().to_string();
                if let Some(nm) = t.split(|c: char| !(c.is_alphanumeric() || c == '_')).find(|x| self.annot.unchain.contains(*x)) {
                    if let Some(i) = &mut l.init {
                        let mut links: Vec<Expr> = vec![];
                        fn go(e: &mut Expr, nm: &str, links: &mut Vec<Expr>) {
                            if let Expr::MethodCall(m) = e {
                                if matches!(&*m.receiver, Expr::MethodCall(_)) {
                                    go(&mut m.receiver, nm, links);
                                    links.push((*m.receiver).clone());
                                    let v = quote::format_ident!("{}_{}", nm, links.len());
                                    *m.receiver = parse_quote! { #v };
                                }
                            }
                        }
                        go(&mut i.expr, nm, &mut links);
                        for (k, x) in links.into_iter().enumerate() {
                            let v = quote::format_ident!("{}_{}", nm, k + 1);
                            out.push(parse_quote! { let mut #v = #x; });
                        }
                    }
                }
            }
            if let Stmt::Local(l) = &mut s { l.attrs.clear(); }
            if let Stmt::Expr(e, _) = &mut s { clear_attrs(e); }
            self.expand_stmt(s, &mut out);
        }
        let mut out2: Vec<Stmt> = vec![];
        for mut s in out {
            // entry(k).and_modify(|p| B);
            if let Stmt::Expr(Expr::MethodCall(m), Some(_)) = &s {
                if m.method == "and_modify" {
                    if let (Expr::MethodCall(en), Some(Expr::Closure(c))) = (&*m.receiver, m.args.first()) {
                        if en.method == "entry" {
                            let (r, k, p, bd) = (&en.receiver, &en.args[0], &c.inputs[0], &c.body);
                            s = parse_quote! { if let Some(#p) = #r.get_mut(&(#k)) { #bd; } };
                        }
                    }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            out2.push(s);
        }
        b.stmts = out2;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        clear_attrs(e);
        // ---- before children
        match e {
            Expr::Macro(m) => { if let Some(x) = self.macro_expr(&m.mac) { *e = x; } }
            Expr::Unsafe(u) => { let b = &u.block; *e = parse_quote! { #b }; }
            Expr::Assign(a) => Self::index_mut_ctx(&mut a.left),
            Expr::Reference(r) if r.mutability.is_some() => Self::index_mut_ctx(&mut r.expr),
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_)) => {
                Self::index_mut_ctx(&mut b.left);
                if matches!(b.op, BinOp::BitAndAssign(_)) { let (l, r) = (&b.left, &b.right); *e = parse_quote! { #l = vx_and(#l, #r) }; }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Add(_) | BinOp::Sub(_) | BinOp::Mul(_)) => {
                let known = |x: &Expr| match strip_paren(x) { Expr::Path(p) => p.path.get_ident().map(|i| self.annot.derefs.contains(&i.to_string())).unwrap_or(false), _ => false };
                if known(&b.left) { let l = self.deref(&b.left); *b.left = l; }
                if known(&b.right) { let r = self.deref(&b.right); *b.right = r; }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Gt(_) | BinOp::Ge(_)) => {
                let (lr, rr) = (self.is_ref(&b.left), self.is_ref(&b.right));
                let amp = matches!(strip_paren(&b.left), Expr::Reference(_)) || matches!(strip_paren(&b.right), Expr::Reference(_));
                if amp || (lr && rr) { let l = self.deref(&b.left); let r = self.deref(&b.right); *b.left = l; *b.right = r; }
            }
            _ => {}
        }
        if let Expr::Binary(b) = e { if matches!(b.op, BinOp::Mul(_)) && [&b.left, &b.right].iter().any(|x| matches!(strip_paren(x), Expr::Lit(l) if matches!(l.lit, Lit::Float(_)))) { let (x, y) = (&b.left, &b.right); *e = parse_quote! { vx_fmul(#x, #y) }; } }
        if let Expr::Match(m) = e {
            // a match on string literals is a chain of comparisons
            let lit = |p: &Pat| -> Option<Expr> { if let Pat::TupleStruct(t) = p { if t.path.is_ident("Some") && t.elems.len() == 1 { if let Pat::Lit(l) = &t.elems[0] { if matches!(l.lit, Lit::Str(_)) { let l = &l.lit; return Some(parse_quote! { #l }); } } } } None };
            if m.arms.len() >= 2 && m.arms.iter().all(|a| a.guard.is_none()) && m.arms[..m.arms.len() - 1].iter().all(|a| lit(&a.pat).is_some()) && matches!(m.arms[m.arms.len() - 1].pat, Pat::Wild(_)) {
                let v = self.tmp(); let x = &m.expr;
                let mut tail: Expr = { let b = &m.arms[m.arms.len() - 1].body; parse_quote! {{ #b }} };
                for a in m.arms[..m.arms.len() - 1].iter().rev() { let l = lit(&a.pat).unwrap(); let b = &a.body; tail = parse_quote! { if vx_is_str(&#v, #l) { #b } else { #tail } }; }
                *e = parse_quote! {{ let #v = #x; #tail }};
                self.visit_expr_mut(e); return;
            }
        }
        if let Expr::Match(m) = e {
            if let Expr::MethodCall(s) = &mut *m.expr { if s.method == "entry" { s.method = Ident::new("vx_match_entry", s.method.span()); } }
            for a in m.arms.iter_mut() {
                let lets = self.unref_pat(&mut a.pat);
                if !lets.is_empty() { if a.guard.is_some() { self.errs.push("reference pattern with guard".into()); } let b = &a.body; a.body = Box::new(parse_quote! {{ #(#lets)* #b }}); }
            }
        }
        if let Expr::If(i) = e {
            if let Expr::Let(l) = &mut *i.cond {
                let lets = self.unref_pat(&mut l.pat);
                for (k, s) in lets.into_iter().enumerate() { i.then_branch.stmts.insert(k, s); }
            }
        }
        if let Expr::MethodCall(m) = e {
            let name = m.method.to_string();
            if name == "and_then" && m.args.len() == 1 && path_last(&m.args[0]).as_deref() == Some("to_str") { let r = &m.receiver; *e = parse_quote! { #r.vx_to_str() }; self.visit_expr_mut(e); return; }
            // X.map(|u| *u.borrow())  is the identity on value sources
            if name == "map" {
                if let Some(Expr::Closure(c)) = m.args.first() {
                    let p = c.inputs.first().map(|p| p.to_token_stream().to_string()).unwrap_or_default();
                    let b = c.body.to_token_stream().to_string().replace(' ', "");
                    if b == format!("*{p}.borrow()") { let r = (*m.receiver).clone(); *e = r; self.visit_expr_mut(e); return; }
                }
            }
            if name == "unwrap_or_else" {
                if let Some(Expr::Closure(c)) = m.args.first() {
                    let r = &m.receiver; let bd = &c.body; let t = self.tmp();
                    if c.inputs.is_empty() { *e = parse_quote! { (match #r { Some(#t) => #t, None => #bd }) }; self.visit_expr_mut(e); return; }
                }
            }
            if name == "expect" { m.args.clear(); m.method = Ident::new("unwrap", m.method.span()); }
            if name == "or_insert_with" {
                match m.args.first().cloned() {
                    Some(Expr::Closure(c)) if c.inputs.is_empty() => { m.args[0] = (*c.body).clone(); m.method = Ident::new("or_insert", m.method.span()); }
                    Some(Expr::Path(p)) => { m.args[0] = parse_quote! { #p() }; m.method = Ident::new("or_insert", m.method.span()); }
                    _ => {}
                }
            }
            if (name == "min" || name == "max") && m.args.len() == 1 {
                let (r, a) = (&m.receiver, &m.args[0]); let (x, y) = (self.tmp(), self.tmp());
                *e = if name == "min" { parse_quote! {{ let #x = #r; let #y = #a; if #x <= #y { #x } else { #y } }} } else { parse_quote! {{ let #x = #r; let #y = #a; if #x <= #y { #y } else { #x } }} };
                self.visit_expr_mut(e); return;
            }
            if name == "union" || name == "set" || name == "resize" {}
            if MUTATING.contains(&name.as_str()) { Self::index_mut_ctx(&mut m.receiver); }
        }
        if let Expr::Call(c) = e {
            if let Some(l) = path_last(&c.func) {
                if (l == "min" || l == "max") && c.args.len() == 2 {
                    let (r, a) = (&c.args[0], &c.args[1]); let (x, y) = (self.tmp(), self.tmp());
                    *e = if l == "min" { parse_quote! {{ let #x = #r; let #y = #a; if #x <= #y { #x } else { #y } }} } else { parse_quote! {{ let #x = #r; let #y = #a; if #x <= #y { #y } else { #x } }} };
                    self.visit_expr_mut(e); return;
                }
                let full = c.func.to_token_stream().to_string().replace(' ', "");
                if full == "Box::new" { let a = &c.args[0]; *e = parse_quote! { (#a).vx_box() }; self.visit_expr_mut(e); return; }
                if full == "Default::default" && c.args.is_empty() { *e = parse_quote! { VxDefault::vx_default() }; return; }
                if full == "std::mem::take" { let a = &c.args[0]; *e = parse_quote! { vx_mem_take(#a) }; self.visit_expr_mut(e); return; }
                if full == "std::mem::replace" { let (a, b) = (&c.args[0], &c.args[1]); *e = parse_quote! { vx_mem_replace(#a, #b) }; self.visit_expr_mut(e); return; }
                if full == "std::iter::once" || full == "iter::once" { let a = &c.args[0]; *e = parse_quote! { vx_once(#a) }; self.visit_expr_mut(e); return; }
                if full.starts_with("iter::empty") || full.starts_with("std::iter::empty") { *e = parse_quote! { vx_empty() }; return; }
                if l == "default" && c.args.is_empty() { if let Expr::Path(p) = &mut *c.func { let n = p.path.segments.len(); p.path.segments[n - 1].ident = quote::format_ident!("vx_default"); } }
                if l == "from_iter" { if let Expr::Path(p) = &mut *c.func { let n = p.path.segments.len(); if n >= 2 && p.path.segments[n-2].ident != "Self" { p.path.segments[n - 1].ident = quote::format_ident!("vx_from_iter"); } } }
                if l == "with_capacity_and_hasher" { if let Expr::Path(p) = &mut *c.func { let n = p.path.segments.len(); p.path.segments[n - 1].ident = quote::format_ident!("vx_with_capacity"); } let a = c.args[0].clone(); c.args.clear(); c.args.push(a); }
            }
        }
        // ---- children
        if let Expr::Closure(c) = e {
            self.closure_n += 1;
            let id = self.closure_n;
            let mut lets = vec![];
            let mut names = vec![];
            for p in c.inputs.iter_mut() {
                let mut q = p.clone();
                let more = match &q {
                    Pat::Ident(i) => { names.push(i.ident.clone()); continue; }
                    Pat::Type(_) => { names.push(quote::format_ident!("_vxt")); continue; }
                    _ => { let t = self.tmp(); let more = self.unref_pat(&mut q); lets.push(parse_quote! { let #q = #t; }); *p = parse_quote! { #t }; names.push(t); more }
                };
                lets.extend::<Vec<Stmt>>(more);
            }
            let b = &c.body;
            let body: Block = match &**b { Expr::Block(bb) if lets.is_empty() => bb.block.clone(), _ => parse_quote! {{ #(#lets)* #b }} };
            let mut body = body;
            self.visit_block_mut(&mut body);
            if self.annot.closures.contains_key(&id) {
                self.closures_used.insert(id);
                let args: Vec<Ident> = names;
                // printed by the printer: vx_closure!(id, args, body)
                *e = parse_quote! { vx_closure!(#id ; #(#args),* ; #body) };
            } else { c.body = Box::new(parse_quote! { #body }); }
            return;
        }
        visit_mut::visit_expr_mut(self, e);
        // ---- after children
        match e {
            Expr::Range(r) if matches!(r.limits, RangeLimits::Closed(_)) && r.start.is_some() && r.end.is_some() => { let (a, b) = (&r.start, &r.end); *e = parse_quote! { vx_incl(#a, #b) }; }
            Expr::Index(i) => { let (a, b) = (&i.expr, &i.index); *e = parse_quote! { (*(#a).vx_index(#b)) }; }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if RENAME.contains(&n.as_str()) && !(n == "get_mut" && false) { m.method = quote::format_ident!("vx_{}", n); }
                m.turbofish = m.turbofish.take();
            }
            _ => {}
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) { map_type(t); }
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.segments.len() > 2 && p.segments[0].ident == "std" && p.segments[1].ident == "io" { p.leading_colon = None; p.segments = p.segments.iter().skip(1).cloned().collect(); }
    }
}

fn clear_attrs(e: &mut Expr) {
    match e { Expr::ForLoop(f) => f.attrs.clear(), Expr::While(f) => f.attrs.clear(), Expr::If(f) => f.attrs.clear(), Expr::MethodCall(f) => f.attrs.clear(), Expr::Call(f) => f.attrs.clear(), Expr::Block(f) => f.attrs.clear(), Expr::Match(f) => f.attrs.clear(), _ => {} }
}

/// Box<dyn Iterator<Item=&'a T> + 'a>  and  impl Iterator<Item=&T>  become  RIt<'a, T>; of values: It<T>.
pub fn map_type(t: &mut Type) {
    let bounds = match t {
        Type::Path(p) if p.path.segments.last().map(|s| s.ident == "Box").unwrap_or(false) => {
            if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                if let Some(GenericArgument::Type(Type::TraitObject(o))) = a.args.first() { Some(o.bounds.clone()) } else { None }
            } else { None }
        }
        Type::ImplTrait(i) => Some(i.bounds.clone()),
        _ => None,
    };
    if let Some(bs) = bounds {
        for b in bs.iter() {
            if let TypeParamBound::Trait(tb) = b {
                let s = tb.path.segments.last().unwrap();
                if s.ident == "BufRead" || s.ident == "Write" { let n = quote::format_ident!("Vx{}", s.ident); *t = parse_quote! { #n }; return; }
                if s.ident == "Iterator" || s.ident == "IntoIterator" {
                    if let PathArguments::AngleBracketed(a) = &s.arguments {
                        for g in a.args.iter() { if let GenericArgument::AssocType(at) = g { if at.ident == "Item" {
                            let mut item = at.ty.clone();
                            map_type(&mut item);
                            *t = match &item { Type::Reference(r) => { let el = &r.elem; match &r.lifetime { Some(l) => parse_quote! { RIt<#l, #el> }, None => parse_quote! { RIt<'_, #el> } } } x => parse_quote! { It<#x> } };
                            return;
                        } } }
                    }
                }
            }
        }
    }
    if let Type::Path(p) = t { if p.path.segments.len() == 2 && p.path.segments[0].ident == "Self" && p.path.segments[1].ident == "Item" {} }
    visit_mut::visit_type_mut(&mut TypeMap, t);
}
/// replace a type parameter by another type name (impl<G> Trait for G: the parameter is Self)
pub struct TyRename { pub from: String, pub to: String }
impl VisitMut for TyRename {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_none() && p.segments.len() > 1 && p.segments[0].ident == self.from && p.segments[0].arguments.is_none() { p.segments[0].ident = Ident::new(&self.to, p.segments[0].ident.span()); }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t { if p.qself.is_none() && p.path.is_ident(&self.from) { let n = Ident::new(&self.to, proc_macro2::Span::call_site()); *t = parse_quote! { #n }; } }
    }
}
/// renames a local variable (its name clashes with a specification function)
pub struct LocalRename { pub from: String, pub to: String }
impl VisitMut for LocalRename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { if p.ident == self.from { p.ident = Ident::new(&self.to, p.ident.span()); } visit_mut::visit_pat_ident_mut(self, p); }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) { if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].ident == self.from { p.path.segments[0].ident = Ident::new(&self.to, p.path.segments[0].ident.span()); } }
}
pub struct TypeMap;
impl VisitMut for TypeMap { fn visit_type_mut(&mut self, t: &mut Type) { map_type(t); } }

// ---------------------------------------------------------------- printing
pub struct Printer<'a> { pub annot: &'a Annot, pub out: String, pub ind: usize, pub probe: bool }
impl<'a> Printer<'a> {
    fn nl(&mut self) { while self.out.ends_with(' ') { self.out.pop(); } self.out.push('\n'); for _ in 0..self.ind { self.out.push_str("    "); } }
    fn text(&mut self, t: &str) { for l in t.lines() { self.nl(); self.out.push_str(l); } self.nl(); }
    fn loop_head(&mut self, id: usize, forloop: bool) {
        let mut inv = self.annot.loops.get(&id).cloned().unwrap_or_default();
        if forloop && !self.annot.rawloops.contains(&id) { inv = format!("it{id}.seq() == it{id}_s, it{id}.pos() <= it{id}_s.len(),\n{inv}"); }
        if self.annot.rawloops.contains(&id) { self.text(&inv); } else if !inv.trim().is_empty() { self.text(&format!("  invariant\n{inv}")); }
        if let Some(e) = self.annot.loop_ens.get(&id) { self.text(&format!("  ensures\n{e}")); }
        if let Some(e) = self.annot.loop_dec.get(&id) { self.text(&format!("  decreases {e}")); }
        else if forloop { self.text(&format!("  decreases it{id}_s.len() - it{id}.pos()")); }
    }
    pub fn tokens(&mut self, ts: TokenStream, forids: &HashSet<usize>) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < v.len() {
            match &v[i] {
                TokenTree::Ident(id) if i + 2 < v.len() && matches!(&v[i + 1], TokenTree::Punct(p) if p.as_char() == '!') && matches!(&v[i+2], TokenTree::Group(_)) && id.to_string().starts_with("vx_") => {
                    let name = id.to_string();
                    let g = if let TokenTree::Group(g) = &v[i + 2] { g.clone() } else { unreachable!() };
                    if name == "vx_closure" {
                        let parts: Vec<TokenTree> = g.stream().into_iter().collect();
                        let n: usize = parts[0].to_string().replace("usize", "").parse().unwrap();
                        let body = parts.last().unwrap().clone();
                        let hd = self.annot.closures[&n].clone();
                        self.out.push_str(&hd); self.out.push(' ');
                        self.tokens(TokenStream::from(body), forids);
                        i += 3; continue;
                    }
                    let n: usize = g.stream().to_string().replace("usize", "").trim().parse().unwrap_or(0);
                    match name.as_str() {
                        "vx_hint" => { let t = self.annot.hints[n].1.clone(); self.text(&t); }
                        "vx_iter" => { let t = format!("let ghost it{n}_s = it{n}.seq();{}", if self.annot.isolate.contains(&n) { "\n#[verifier::loop_isolation(true)]" } else { "" }); self.text(&t); }
                        _ => {}
                    }
                    i += 3;
                    if i < v.len() { if let TokenTree::Punct(p) = &v[i] { if p.as_char() == ';' { i += 1; } } }
                    continue;
                }
                TokenTree::Group(g) => {
                    match g.delimiter() {
                        Delimiter::Brace => {
                            // loop body?
                            let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                            let mut skip = 0;
                            if inner.len() >= 4 {
                                if let TokenTree::Ident(x) = &inner[0] { if x == "vx_loop" {
                                    if let TokenTree::Group(n) = &inner[2] {
                                        let id: usize = n.stream().to_string().replace("usize", "").trim().parse().unwrap();
                                        self.loop_head(id, forids.contains(&id));
                                        skip = 4;
                                    }
                                } }
                            }
                            self.out.push('{'); self.ind += 1; self.nl();
                            self.tokens(inner.into_iter().skip(skip).collect(), forids);
                            self.ind -= 1; self.nl(); self.out.push_str("} ");
                            let next_else = matches!(v.get(i + 1), Some(TokenTree::Ident(x)) if x == "else");
                            let next_p = matches!(v.get(i + 1), Some(TokenTree::Punct(_)));
                            if !next_else && !next_p { self.nl(); }
                        }
                        d => {
                            let (a, b) = match d { Delimiter::Parenthesis => ("(", ")"), Delimiter::Bracket => ("[", "]"), _ => ("", "") };
                            while self.out.ends_with(' ') && d == Delimiter::Parenthesis { self.out.pop(); if self.out.ends_with("in") || self.out.ends_with("=") || self.out.ends_with("match") || self.out.ends_with("return") || self.out.ends_with("if") { self.out.push(' '); break; } }
                            self.out.push_str(a); self.tokens(g.stream(), forids);
                            while self.out.ends_with(' ') { self.out.pop(); }
                            self.out.push_str(b); self.out.push(' ');
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ';' | ',' | '.' | '?') { while self.out.ends_with(' ') { self.out.pop(); } }
                    self.out.push(c);
                    if c == ';' { self.nl(); }
                    else if p.spacing() == proc_macro2::Spacing::Alone && !matches!(c, '.' | '&' | '*' | '!') { self.out.push(' '); }
                }
                TokenTree::Ident(x) => { self.out.push_str(&x.to_string()); self.out.push(' '); }
                TokenTree::Literal(x) => { self.out.push_str(&x.to_string()); self.out.push(' '); }
            }
            i += 1;
        }
    }
}

struct ForIds { ids: HashSet<usize> }
impl VisitMut for ForIds {
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        let byref = matches!(&*f.expr, Expr::MethodCall(m) if m.method == "by_ref");
        if let Some(i) = loop_id(&f.body) { if !byref { self.ids.insert(i); } }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}

pub struct Out { pub text: String, pub loops: usize, pub closures: usize }

pub fn body(block: &Block, annot: &Annot, refs: HashSet<String>, ind: usize) -> Res<Out> {
    let mut b = block.clone();
    let mut ln = LoopNumber { n: 0 };
    ln.visit_block_mut(&mut b);
    for k in annot.loops.keys().chain(annot.loop_dec.keys()) { if *k > ln.n { return Err(format!("lost anchor: loop {k} (function has {} loops)", ln.n)); } }
    insert_hints(&mut b, annot)?;
    let mut fi = ForIds { ids: Default::default() };
    fi.visit_block_mut(&mut b);
    let mut refs = refs; refs.extend(annot.derefs.iter().cloned());
    let mut n = Norm { lifted: Default::default(), fresh: 0, errs: vec![], refs, annot, closure_n: 0, closures_used: Default::default() };
    n.visit_block_mut(&mut b);
    if !n.errs.is_empty() { return Err(n.errs.join("; ")); }
    for k in annot.closures.keys() { if !n.closures_used.contains(k) { return Err(format!("lost anchor: closure {k} (function has {})", n.closure_n)); } }
    let mut p = Printer { annot, out: String::new(), ind, probe: false };
    p.tokens(b.to_token_stream(), &fi.ids);
    let closures = n.closure_n;
    Ok(Out { text: p.out, loops: ln.n, closures })
}
#[allow(unused)]
fn _q() -> TokenStream { quote! {} }
