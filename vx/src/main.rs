//! vx: extract functions of /repo/src into a Verus file, guided by contract templates.
//! usage: vx --src DIR --out FILE.rs --map FILE.json [--external id]... [--probe id]... TEMPLATE...
mod norm;
use norm::*;
use quote::ToTokens;
use std::collections::{HashMap, HashSet};
use syn::visit_mut::VisitMut;
use syn::*;

struct FnSrc { sig: Signature, block: Option<Block>, line: usize }

fn attrs_test(a: &[Attribute]) -> bool { a.iter().any(|a| a.path().is_ident("cfg") && a.to_token_stream().to_string().contains("test")) }

fn type_name(t: &Type) -> String { match t { Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(), Type::Reference(r) => type_name(&r.elem), _ => t.to_token_stream().to_string() } }

fn find_fn(f: &File, cont: &str, name: &str) -> Res<FnSrc> {
    let mut hits = vec![];
    fn nested(b: &Block, name: &str) -> Option<FnSrc> {
        struct V<'a> { name: &'a str, hit: Option<ItemFn> }
        impl<'a, 'ast> syn::visit::Visit<'ast> for V<'a> { fn visit_item_fn(&mut self, i: &'ast ItemFn) { if i.sig.ident == self.name { self.hit = Some(i.clone()); } syn::visit::visit_item_fn(self, i); } }
        let mut v = V { name, hit: None };
        syn::visit::Visit::visit_block(&mut v, b);
        v.hit.map(|i| FnSrc { sig: i.sig.clone(), block: Some((*i.block).clone()), line: i.sig.ident.span().start().line })
    }
    let parts: Vec<&str> = cont.split(':').collect();
    for it in &f.items {
        match it {
            Item::Fn(i) if parts[0] == "free" && i.sig.ident == name => hits.push(FnSrc { sig: i.sig.clone(), block: Some((*i.block).clone()), line: i.sig.ident.span().start().line }),
            Item::Fn(i) if parts[0] == "nested" && parts[1] == i.sig.ident.to_string() => { if let Some(x) = nested(&i.block, name) { hits.push(x); } }
            Item::Trait(t) if parts[0] == "trait" && t.ident == parts[1] => for x in &t.items { if let TraitItem::Fn(m) = x { if m.sig.ident == name { hits.push(FnSrc { sig: m.sig.clone(), block: m.default.clone(), line: m.sig.ident.span().start().line }); } } },
            Item::Impl(im) if !attrs_test(&im.attrs) => {
                let ty = type_name(&im.self_ty);
                let tr = im.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().ident.to_string());
                for x in &im.items { if let ImplItem::Fn(m) = x {
                    if attrs_test(&m.attrs) { continue; }
                    let ok = match (parts[0], parts.len()) { ("impl", 2) => tr.is_none() && ty == parts[1], ("impl", 3) => tr.as_deref() == Some(parts[1]) && (ty == parts[2] || parts[2] == "*"), _ => false };
                    if ok && m.sig.ident == name { hits.push(FnSrc { sig: m.sig.clone(), block: Some(m.block.clone()), line: m.sig.ident.span().start().line }); }
                    if parts[0] == "nested" && m.sig.ident == parts[1] { if let Some(x) = nested(&m.block, name) { hits.push(x); } }
                } }
            }
            _ => {}
        }
    }
    match hits.len() { 1 => Ok(hits.pop().unwrap()), 0 => Err(format!("function {cont} {name} not found")), n => Err(format!("{n} functions match {cont} {name}")) }
}

fn pm_types(sig: &mut Signature, self_ty: Option<&str>) {
    // generics: V: Borrow<X>, I: IntoIterator<Item = V>  ==>  I: VxSrc<X>
    let mut borrow: HashMap<String, Type> = HashMap::new();
    let mut preds: Vec<(String, Type, TypeParamBound)> = vec![];
    let mut order: Vec<GenericParam> = vec![];
    for g in sig.generics.params.iter() {
        if let GenericParam::Type(t) = g { for b in &t.bounds { preds.push((t.ident.to_string(), parse_str(&t.ident.to_string()).unwrap(), b.clone())); } let mut t2 = t.clone(); t2.bounds.clear(); t2.colon_token = None; order.push(GenericParam::Type(t2)); } else { order.push(g.clone()); }
    }
    let mut other_where: Vec<WherePredicate> = vec![];
    if let Some(w) = &sig.generics.where_clause {
        for p in &w.predicates { if let WherePredicate::Type(t) = p { for b in &t.bounds {
            if t.bounded_ty.to_token_stream().to_string() == "Self" { continue; }
            preds.push((t.bounded_ty.to_token_stream().to_string(), t.bounded_ty.clone(), b.clone())); } } else { other_where.push(p.clone()); } }
    }
    let bound_info = |b: &TypeParamBound| -> Option<(String, Option<Type>, Option<Type>)> { if let TypeParamBound::Trait(t) = b { let s = t.path.segments.last().unwrap(); let mut first = None; let mut item = None;
        if let PathArguments::AngleBracketed(a) = &s.arguments { for g in &a.args { match g { GenericArgument::Type(t) => first = Some(t.clone()), GenericArgument::AssocType(x) if x.ident == "Item" => item = Some(x.ty.clone()), _ => {} } } }
        Some((s.ident.to_string(), first, item)) } else { None } };
    for (n, _, b) in &preds { if let Some((k, Some(f), _)) = bound_info(b) { if k == "Borrow" { borrow.insert(n.clone(), f); } } }
    let mut bounds: HashMap<String, Vec<String>> = HashMap::new();
    for (n, _, b) in &preds {
        match bound_info(b) {
            Some((k, _, Some(item))) if k == "IntoIterator" || k == "Iterator" => {
                let s = item.to_token_stream().to_string();
                let x = if let Some(x) = borrow.get(&s) { x.to_token_stream().to_string() } else { match &item { Type::Reference(r) => r.elem.to_token_stream().to_string(), t => t.to_token_stream().to_string() } };
                bounds.entry(n.clone()).or_default().push(format!("VxSrc<{x}>"));
            }
            Some((k, _, _)) if k == "Borrow" => {}
            None => {}
            Some(_) => bounds.entry(n.clone()).or_default().push(b.to_token_stream().to_string()),
        }
    }
    let mut extra: Vec<(String, String)> = vec![];
    // impl Trait arguments
    for (k, a) in sig.inputs.iter_mut().enumerate() {
        if let FnArg::Typed(t) = a {
            let (refd, inner) = match &*t.ty { Type::Reference(r) => (true, (*r.elem).clone()), x => (false, x.clone()) };
            if let Type::ImplTrait(i) = inner { let gname = format!("VxA{k}"); let g = quote::format_ident!("{}", gname); let b = i.bounds.to_token_stream().to_string(); *t.ty = if refd { parse_quote! { &#g } } else { parse_quote! { #g } }; extra.push((gname, b)); }
            if let Pat::Ident(p) = &mut *t.pat { p.by_ref = None; }
            map_type(&mut t.ty);
        }
    }
    if let ReturnType::Type(_, t) = &mut sig.output { map_type(t); }
    let mut ps: Vec<String> = vec![];
    for g in order { match g { GenericParam::Type(t) => { let n = t.ident.to_string(); if borrow.contains_key(&n) { continue; } match bounds.get(&n) { Some(b) => ps.push(format!("{n}: {}", b.join(" + "))), None => ps.push(n) } } x => ps.push(x.to_token_stream().to_string()) } }
    for (n, b) in extra { ps.push(format!("{n}: {b}")); }
    let gs = format!("fn f<{}>() {{}}", ps.join(", "));
    let f: ItemFn = parse_str(&gs).unwrap_or_else(|_| panic!("generics {gs}"));
    sig.generics = f.sig.generics;
    let _ = self_ty;
}

fn esc(s: &str) -> String { s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', "\\n").replace('\t', " ") }
fn fnv(s: &str) -> u64 { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } h }

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let (mut src, mut outf, mut mapf) = (String::new(), String::new(), String::new());
    let mut external: HashSet<String> = HashSet::new();
    let mut probe = false;
    let mut templates = vec![];
    let mut i = 0;
    while i < args.len() {
        match args[i].as_str() {
            "--src" => { src = args[i + 1].clone(); i += 1; }
            "--out" => { outf = args[i + 1].clone(); i += 1; }
            "--map" => { mapf = args[i + 1].clone(); i += 1; }
            "--external" => { external.insert(args[i + 1].clone()); i += 1; }
            "--probe" => probe = true,
            t => templates.push(t.to_string()),
        }
        i += 1;
    }
    let mut files: HashMap<String, File> = HashMap::new();
    let mut out = String::new();
    let mut records: Vec<String> = vec![];
    for t in &templates {
        let text = std::fs::read_to_string(t).unwrap_or_else(|e| panic!("{t}: {e}"));
        let tname = std::path::Path::new(t).file_stem().unwrap().to_string_lossy().to_string();
        let mut props_default = String::new();
        let lines: Vec<&str> = text.lines().collect();
        let mut k = 0;
        while k < lines.len() {
            let l = lines[k];
            let tl = l.trim_start();
            if let Some(d) = tl.strip_prefix("//@ ") {
                let w: Vec<&str> = d.split_whitespace().collect();
                match w[0] {
                    "props" => { props_default = w[1..].join(","); }
                    "needs" => {}
                    "struct" | "enum" => {
                        let f = load(&mut files, &src, w[1]);
                        let mut found = false;
                        for it in &f.items {
                            match it {
                                Item::Struct(s) if s.ident == w[2] => {
                                    let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote! { pub };
                                    for fl in s.fields.iter_mut() { fl.vis = parse_quote! { pub }; fl.attrs.clear(); }
                                    s.generics.where_clause = s.generics.where_clause.take();
                                    TypeMap.visit_item_struct_mut(&mut s);
                                    for a in &w[3..] { out.push_str(&format!("#[{a}]\n")); }
                                    out.push_str(&pretty(s.to_token_stream())); found = true; }
                                Item::Enum(s) if s.ident == w[2] => { let mut s = s.clone(); s.attrs.clear(); s.vis = parse_quote! { pub }; for a in &w[3..] { out.push_str(&format!("#[{a}]\n")); } for v in s.variants.iter_mut() { v.attrs.clear(); } out.push_str(&pretty(s.to_token_stream())); found = true; }
                                _ => {}
                            }
                        }
                        if !found { records.push(format!("{{\"id\":\"struct {}\",\"file\":\"{}\",\"status\":\"lost\",\"why\":\"type not found\",\"props\":\"{}\",\"template\":\"{}\",\"lo\":0,\"hi\":0}}", w[2], w[1], props_default, tname)); }
                        out.push('\n');
                    }
                    "fn" => {
                        let (file, cont, name) = (w[1], w[2], w[3]);
                        let mut props = props_default.clone();
                        let mut trusted = false;
                        for o in &w[4..] { if let Some(p) = o.strip_prefix("props=") { props = p.into(); } if *o == "trusted" { trusted = true; } }
                        let mut annot = Annot::default();
                        let (mut req, mut ens, mut attr, mut ret, mut sigtext, mut decr) = (String::new(), String::new(), String::new(), "r".to_string(), String::new(), String::new());
                        let mut asname = name.to_string();
                        let mut noreq = false;
                        let mut renames: Vec<(String, String)> = vec![]; let mut locals: Vec<(String, String)> = vec![];
                        k += 1;
                        let mut cur: Option<(String, String)> = None;
                        let mut pend: Vec<(String, String)> = vec![];
                        while k < lines.len() {
                            let tl = lines[k].trim_start();
                            if let Some(d) = tl.strip_prefix("//@ ") {
                                if let Some(c) = cur.take() { pend.push(c); }
                                if d.trim() == "end" { break; }
                                cur = Some((d.trim().to_string(), String::new()));
                            } else if let Some(c) = &mut cur { c.1.push_str(lines[k]); c.1.push('\n'); }
                            k += 1;
                        }
                        for (h, t) in pend {
                            let (key, rest) = h.split_once(' ').unwrap_or((h.as_str(), ""));
                            let body = if t.trim().is_empty() { rest.to_string() } else if (key == "requires" || key == "ensures") && !rest.trim().is_empty() { format!("{}\n{}", rest, t) } else { t.clone() };
                            match key {
                                "requires" => req = body, "ensures" => ens = body, "attr" => { attr.push_str(rest); attr.push('\n'); } "ret" => ret = rest.to_string(), "sig" => sigtext = rest.to_string(), "decreases" => decr = rest.to_string(),
                                "as" => asname = rest.to_string(), "noreq" => noreq = true,
                                "local" => { let (a, b) = rest.split_once(' ').expect("local"); locals.push((a.into(), b.trim().into())); }
                                "rename" => { let (a, b) = rest.split_once(' ').expect("rename"); renames.push((a.into(), b.trim().into())); }
                                "loop" => { annot.loops.insert(rest.trim().parse().unwrap(), t); }
                                "isolate" => { annot.isolate.insert(rest.trim().parse().unwrap()); }
                                "rawloop" => { let n: usize = rest.trim().parse().unwrap(); annot.loops.insert(n, t); annot.rawloops.insert(n); }
                                "loopens" => { annot.loop_ens.insert(rest.trim().parse().unwrap(), t); }
                                "loopdec" => { let (n, x) = rest.split_once(' ').unwrap(); annot.loop_dec.insert(n.parse().unwrap(), x.to_string()); }
                                "closure" => { let (n, x) = rest.split_once(' ').unwrap(); annot.closures.insert(n.parse().unwrap(), format!("{x} {}", t.trim())); }
                                "hint" => annot.hints.push((rest.trim().to_string(), t)),
                                "deref" => { for x in rest.split_whitespace() { annot.derefs.insert(x.into()); } }
                                "unchain" => { annot.unchain.insert(rest.trim().to_string()); }
                                "lift" => { annot.lift.insert(rest.trim().to_string()); }
                                "liftargs" => { annot.liftargs.insert(rest.trim().to_string()); }
                                "subst" => { let (a, b) = rest.split_once(" => ").expect("subst"); annot.substs.push((a.trim().into(), b.trim().into())); }
                                x => panic!("{t}: unknown section {x}"),
                            }
                        }
                        let id = format!("{}::{}::{}", file.trim_end_matches(".rs"), cont, asname);
                        let f = load(&mut files, &src, file);
                        let lo = out.lines().count() + 1;
                        let mut status = "verified".to_string();
                        let mut why = String::new();
                        let (mut loops, mut closures, mut line, mut hash) = (0, 0, 0, 0u64);
                        let fs = find_fn(f, cont, name);
                        let is_decl = cont.starts_with("trait:");
                        let mut sigp = sigtext.clone();
                        let mut bodyp = None;
                        let mut decl = false;
                        match fs {
                            Ok(fs) => {
                                line = fs.line;
                                let mut sig = fs.sig.clone();
                                let refs: HashSet<String> = sig.inputs.iter().filter_map(|a| if let FnArg::Typed(t) = a { if let (Pat::Ident(p), Type::Reference(_)) = (&*t.pat, &*t.ty) { Some(p.ident.to_string()) } else { None } } else { None }).collect();
                                for (a, b) in &renames { TyRename { from: a.clone(), to: b.clone() }.visit_signature_mut(&mut sig); }
                                pm_types(&mut sig, None);
                                if sigp.is_empty() {
                                    let out_ty = match &sig.output { ReturnType::Default => String::new(), ReturnType::Type(_, t) => format!("-> ({ret}: {})", t.to_token_stream()) };
                                    let gens = sig.generics.to_token_stream().to_string();
                                    let inputs = sig.inputs.to_token_stream().to_string();
                                    sigp = format!("fn {}{}({}) {}", asname, gens, inputs, out_ty);
                                    
                                }
                                match &fs.block {
                                    Some(b) => {
                                        let mut txt = b.to_token_stream().to_string();
                                        hash = fnv(&txt);
                                        let mut bb = b.clone();
                                        let mut err = None;
                                        if !annot.substs.is_empty() {
                                            let sq = |s: &str| s.chars().filter(|c| !c.is_whitespace()).collect::<String>();
                                            for (a, r) in &annot.substs {
                                                // token-wise replace on whitespace-free text mapped back
                                                let na = sq(a);
                                                let mut idx = vec![]; let mut flat = String::new();
                                                for (p, c) in txt.char_indices() { if !c.is_whitespace() { flat.push(c); for _ in 0..c.len_utf8() { idx.push(p); } } }
                                                match flat.find(&na) { Some(s) => { let st = idx[s]; let en = idx[s + na.len() - 1] + 1; txt = format!("{} {} {}", &txt[..st], r, &txt[en..]); } None => { err = Some(format!("lost anchor: subst `{a}`")); } }
                                            }
                                            if err.is_none() { match parse_str::<Block>(&txt) { Ok(b2) => bb = b2, Err(e) => err = Some(format!("subst parse: {e}")) } }
                                        }
                                        for (a, b) in &renames { TyRename { from: a.clone(), to: b.clone() }.visit_block_mut(&mut bb); }
                                        for (a, b) in &locals { norm::LocalRename { from: a.clone(), to: b.clone() }.visit_block_mut(&mut bb); }
                                        if trusted { status = "trusted".into(); }
                                        else if external.contains(&id) { status = "external".into(); }
                                        else if let Some(e) = err { status = "lost".into(); why = e; }
                                        else { match norm::body(&bb, &annot, refs, 1) { Ok(o) => { bodyp = Some(o.text); loops = o.loops; closures = o.closures; } Err(e) => { status = "lost".into(); why = e; } } }
                                    }
                                    None => { decl = is_decl; status = "declared".into(); }
                                }
                            }
                            Err(e) => { status = "lost".into(); why = e; }
                        }
                        if !attr.is_empty() { out.push_str(&attr); }
                        let _ = noreq;
                        if bodyp.is_none() && !decl { out.push_str("#[verifier::external_body]\n"); }
                        else if !decl { out.push_str("#[verifier::loop_isolation(false)]\n"); }
                        let inherent = !(cont.starts_with("trait:") || cont.matches(':').count() == 2);
                        out.push_str(&format!("{}{}\n", if inherent { "pub " } else { "" }, sigp));
                        if !req.trim().is_empty() { out.push_str(&format!("    requires\n{req}\n")); }
                        if !ens.trim().is_empty() { out.push_str(&format!("    ensures\n{ens}\n")); }
                        if !decr.is_empty() { out.push_str(&format!("    decreases {decr}\n")); }
                        let mut probed = false;
                        match bodyp {
                            Some(mut b) => { if probe { b = b.replacen('{', "{ proof { assert(false); } ", 1); probed = true; } out.push_str(&b); out.push('\n'); }
                            None if decl => out.push_str(";\n"),
                            None => out.push_str("{ unimplemented!() }\n"),
                        }
                        let hi = out.lines().count();
                        records.push(format!("{{\"id\":\"{}\",\"file\":\"{}\",\"srcline\":{},\"status\":\"{}\",\"why\":\"{}\",\"props\":\"{}\",\"template\":\"{}\",\"lo\":{},\"hi\":{},\"loops\":{},\"closures\":{},\"hash\":\"{:016x}\",\"probed\":{},\"ensures\":\"{}\"}}", esc(&id), file, line, status, esc(&why), props, tname, lo, hi, loops, closures, hash, probed, esc(&ens)));
                    }
                    x => panic!("{t}:{k}: unknown directive {x}"),
                }
            } else { out.push_str(l); out.push('\n'); }
            k += 1;
        }
    }
    std::fs::write(&outf, &out).unwrap();
    std::fs::write(&mapf, format!("[{}]", records.join(",\n"))).unwrap();
}

fn load<'a>(files: &'a mut HashMap<String, File>, src: &str, f: &str) -> &'a File {
    if !files.contains_key(f) {
        let t = std::fs::read_to_string(format!("{src}/{f}")).unwrap_or_default();
        let p = syn::parse_file(&t).unwrap_or_else(|_| File { shebang: None, attrs: vec![], items: vec![] });
        files.insert(f.to_string(), p);
    }
    &files[f]
}
fn pretty(ts: proc_macro2::TokenStream) -> String { let a = Annot::default(); let mut p = Printer { annot: &a, out: String::new(), ind: 0, probe: false }; p.tokens(ts, &Default::default()); p.out }
