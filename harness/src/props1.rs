// C01..C10
use crate::base::*;
use crate::ck;
use graphbench::compare::*;
use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::operations::*;
use graphbench::ordgraph::OrdGraph;
use std::collections::{BTreeMap, BTreeSet};

fn case(op: &str, g: G, h: G, p: Vec<u64>) -> Case { Case { op: op.into(), g, h, p, ..Default::default() } }
fn c1(op: &str, g: G) -> Case { case(op, g, G::default(), vec![]) }

pub fn generate(prop: &str, c: &mut Ctx) {
    let mut r = c.rng.clone();
    match prop {
        "C01" | "C02" => {
            let dir = prop == "C02";
            // all histories of length 3 over three vertices
            let mut ops = vec![];
            for u in 0..3u64 { ops.push([0, u, 0]); ops.push([1, u, 0]); for v in 0..3u64 { ops.push([2, u, v]); ops.push([3, u, v]); } }
            for a in &ops { for b in &ops { for d in &ops { c.case(case("histx", G::default(), G::default(), [*a, *b, *d].concat())); } } }
            // every single operation on every small graph
            all_graphs(if dir { 2 } else { 3 }, true, &mut |g| { for o in &ops { c.case(case("histg", g.clone(), G::default(), o.to_vec())); } });
            while c.time_left() {
                let n = r.range(1, 9) as usize;
                let l: Vec<u64> = labels(&mut r, n, u32::MAX).into_iter().map(|x| x as u64).chain(std::iter::once(u32::MAX as u64)).collect();
                let mut p = vec![];
                let heavy = r.chance(0.5);
                for _ in 0..r.range(1, 120) { let o = if heavy && r.chance(0.6) { 2 } else { let k = if r.chance(0.1) { 6 } else { 4 }; r.below(k) }; p.extend([o, r.pick(&l), r.pick(&l)]); }
                let g = if r.chance(0.5) { let n = r.range(1, 8) as usize; rdigraph(&mut r, n, true, dir, 1 << 20) } else { G::default() };
                c.case(case("hist", g, G::default(), p));
            }
        }
        "C03" => {
            for n in 0..=14u64 { for op in ["path", "cycle", "matching", "star", "clique", "independent", "dpath", "dcycle", "dmatching", "dstar", "dclique", "dindependent"] { c.case(case(op, G::default(), G::default(), vec![n])); } }
            for s in 0..=8u64 { for t in 0..=8u64 { for op in ["biclique", "dbiclique", "grid", "dgrid"] { c.case(case(op, G::default(), G::default(), vec![s, t])); } } }
            for (s, t) in [(0u64, u32::MAX as u64), (u32::MAX as u64, 0), (65536, 0)] { for op in ["grid", "dgrid"] { c.case(case(op, G::default(), G::default(), vec![s, t])); } }
            for k in 0..=4u32 { for code in 0..4u64.pow(k) { let mut x = code; let mut p = vec![]; for _ in 0..k { p.push(x % 4); x /= 4; } c.case(case("kpartite", G::default(), G::default(), p)); } }
            while c.time_left() {
                let big = r.range(15, 90);
                let op = r.pick(&["path", "cycle", "matching", "star", "clique", "independent", "dpath", "dcycle", "dmatching", "dstar", "dclique", "dindependent"]);
                c.case(case(op, G::default(), G::default(), vec![big]));
                let op = r.pick(&["biclique", "dbiclique", "grid", "dgrid"]);
                let (s, t) = (r.range(0, 25), r.range(0, 25));
                c.case(case(op, G::default(), G::default(), vec![s, t]));
                let k = r.range(0, 6); let p: Vec<u64> = (0..k).map(|_| r.range(0, 7)).collect();
                c.case(case("kpartite", G::default(), G::default(), p));
            }
        }
        "C04" => {
            for n in 0..=3 { for pi in perms(n) { all_graphs(n, true, &mut |mut g| { g.v = pi.clone(); c.case(c1("ord", g)); }); } }
            all_graphs(3, true, &mut |g| { for k in 0..1u32 << g.e.len() { let mut h = g.clone(); for (i, x) in h.e.iter_mut().enumerate() { if k >> i & 1 == 1 { *x = (x.1, x.0); } } c.case(c1("dord", h)); } });
            while c.time_left() { let n = r.range(0, 12) as usize; let g = rgraph(&mut r, n, true, u32::MAX); c.case(c1("ord", g)); let g = rdigraph(&mut r, n, true, true, u32::MAX); c.case(c1("dord", g)); }
        }
        "C05" => {
            all_graphs(3, true, &mut |g| { for s in 0..8u64 { for rad in 0..3u64 { let mut p = vec![rad]; for v in 0..3 { if s >> v & 1 == 1 { p.push(v); } } c.case(case("u", g.clone(), G::default(), p.clone())); c.case(case("d", g.clone(), G::default(), p)); } } });
            while c.time_left() {
                let n = r.range(1, 14) as usize;
                let rad = if r.chance(0.05) { r.range(5, 200) } else { r.below(5) };
                let g = rdigraph(&mut r, n, true, true, u32::MAX);
                let mut p = vec![rad];
                for _ in 0..r.below(5) { p.push(r.pick(&g.v) as u64); }
                c.case(case("d", g.clone(), G::default(), p.clone()));
                c.case(case("u", g, G::default(), p));
            }
        }
        "C06" => {
            all_graphs(3, true, &mut |g| { for s in 0..8u64 { let p: Vec<u64> = (0..3).filter(|v| s >> v & 1 == 1).collect(); c.case(case("sub", g.clone(), G::default(), p)); } c.case(c1("rm", g.clone())); c.case(c1("drm", g)); });
            while c.time_left() {
                let n = r.range(1, 12) as usize;
                let g = rgraph(&mut r, n, true, u32::MAX);
                let mut p = vec![]; for v in &g.v { if r.chance(0.5) { p.push(*v as u64); } } if !p.is_empty() && r.chance(0.3) { p.push(p[0]); }
                r.shuffle(&mut p);
                c.case(case("sub", g.clone(), G::default(), p));
                c.case(c1("rm", g.clone()));
                let d = rdigraph(&mut r, n, true, true, u32::MAX); c.case(c1("drm", d.clone()));
                let mut h = rgraph(&mut r, n, true, 20); let l = g.v.clone(); for _ in 0..r.below(4) { h.v.push(r.pick(&l)); h.e.push((r.pick(&l), r.pick(&h.v.clone()))); } if r.chance(0.5) { let e = h.e.clone(); h.e.extend(e.iter().map(|x| (x.1, x.0))); h.v.extend(h.v.clone()); }
                c.case(case("add", g, h.clone(), vec![])); c.case(case("dadd", d, h, vec![]));
            }
        }
        "C07" => {
            all_graphs(2, true, &mut |g| all_graphs(2, true, &mut |h| { c.case(case("union", g.clone(), h.clone(), vec![])); c.case(case("dunion", G { v: g.v.clone(), e: g.e.iter().map(|x| (x.1, x.0)).collect() }, h.clone(), vec![])); }));
            for (x, y) in [(0u32, 3u32), (5, 7), (7, 5)] { for op in ["union", "dunion"] { c.case(case(op, G::default(), G { v: vec![x, y], e: vec![(y, x)] }, vec![])); c.case(case(op, G { v: vec![x, y], e: vec![(y, x)] }, G::default(), vec![])); c.case(case(op, G::default(), G::default(), vec![])); } }
            while c.time_left() {
                let (n, m) = (r.below(9) as usize, r.below(9) as usize);
                let mx = if r.chance(0.3) { 1 << 30 } else { 60 };
                let (g, h) = (rgraph(&mut r, n, true, mx), rgraph(&mut r, m, true, mx));
                c.case(case("union", g.clone(), h, vec![])); c.case(c1("norm", g));
                let (g, h) = (rdigraph(&mut r, n, true, true, mx), rdigraph(&mut r, m, true, true, mx));
                c.case(case("dunion", g.clone(), h, vec![])); c.case(c1("dnorm", g));
                let n = r.below(9) as usize; let g = rdigraph(&mut r, n, true, true, u32::MAX); c.case(c1("norm", g.clone())); c.case(c1("dnorm", g));
            }
        }
        "C08" => {
            all_graphs(3, true, &mut |g| { for u in 0..3u64 { for v in 0..3u64 { c.case(case("pair", g.clone(), G::default(), vec![u, v])); } for s in 0..8u64 { let mut p = vec![u]; for v in 0..3 { if s >> v & 1 == 1 { p.push(v); } } c.case(case("into", g.clone(), G::default(), p.clone())); c.case(case("contract", g.clone(), G::default(), p)); } } });
            all_graphs(4, false, &mut |g| { for s in 0..16u64 { let mut p = vec![0]; for v in 0..4 { if s >> v & 1 == 1 { p.push(v); } } c.case(case("into", g.clone(), G::default(), p)); } });
            while c.time_left() {
                let n = r.range(1, 10) as usize; let g = rgraph(&mut r, n, true, u32::MAX);
                let mut p = vec![r.pick(&g.v) as u64]; for _ in 0..r.below(6) { p.push(r.pick(&g.v) as u64); }
                c.case(case("into", g.clone(), G::default(), p.clone())); c.case(case("contract", g.clone(), G::default(), p));
                let p = vec![r.pick(&g.v) as u64, r.pick(&g.v) as u64]; c.case(case("pair", g, G::default(), p));
            }
        }
        "C09" => {
            let mut small = vec![]; for n in 0..=3 { all_graphs(n, true, &mut |g| small.push(g)); }
            for g in &small { c.case(c1("invert", g.clone())); for t in 0..3 { if g.e.iter().all(|x| x.0 != x.1) { c.case(case("subdivide", g.clone(), G::default(), vec![t])); } } for h in &small { for op in ["merge", "intersect", "lex", "cart"] { if h.v.len() + g.v.len() <= 5 { c.case(case(op, g.clone(), h.clone(), vec![])); } } } }
            while c.time_left() {
                let (n, m) = (r.below(8) as usize, r.below(6) as usize);
                let (g, mut h) = (rgraph(&mut r, n, true, 1 << 30), rgraph(&mut r, m, true, 1 << 30));
                c.case(case("lex", g.clone(), h.clone(), vec![])); c.case(case("cart", g.clone(), h.clone(), vec![])); c.case(c1("invert", g.clone()));
                if n > 0 { for v in &g.v { if r.chance(0.6) { h.v.push(*v); } } for e in &g.e { if r.chance(0.6) { h.e.push(*e); } } for _ in 0..r.below(4) { h.e.push((r.pick(&g.v), r.pick(&g.v))); } h.v = { let mut s = BTreeSet::new(); h.v.into_iter().filter(|x| s.insert(*x)).collect() }; }
                c.case(case("merge", g.clone(), h.clone(), vec![])); c.case(case("intersect", g.clone(), h, vec![]));
                let g = rgraph(&mut r, n, false, 1 << 30); let t = r.below(5); c.case(case("subdivide", g, G::default(), vec![t]));
            }
        }
        "C10" => {
            let mut small = vec![]; for n in 0..=3 { all_graphs(n, n < 3, &mut |g| small.push(g)); }
            for g in &small { for h in &small { for op in ["cmp", "dcmp"] { c.case(case(op, g.clone(), h.clone(), vec![])); } } }
            let mut four = vec![]; all_graphs(4, false, &mut |g| four.push(g));
            for g in &four { for h in &four { if g.e.len() == h.e.len() { for op in ["cmp", "dcmp"] { c.case(case(op, g.clone(), h.clone(), vec![])); } } } }
            while c.time_left() {
                let n = r.below(8) as usize; let mx = if r.chance(0.5) { 12 } else { u32::MAX }; let g = rdigraph(&mut r, n, true, true, mx);
                let mut h = g.clone(); for x in h.e.iter_mut() { if r.chance(0.3) { *x = (x.1, x.0); } }
                match r.below(4) { // same degrees, same ids: an exchange of two edges, or a permutation of the ids
                    0 => for _ in 0..3 { if h.e.len() > 1 { let (i, j) = (r.below(h.e.len() as u64) as usize, r.below(h.e.len() as u64) as usize); let (a, b) = (h.e[i], h.e[j]); if i != j { h.e[i] = (a.0, b.1); h.e[j] = (b.0, a.1); } } },
                    1 => { let mut q = h.v.clone(); r.shuffle(&mut q); let m: BTreeMap<u32, u32> = h.v.iter().cloned().zip(q).collect(); for x in h.e.iter_mut() { *x = (m[&x.0], m[&x.1]); } }
                    _ => {}
                }
                for _ in 0..r.below(3) { match r.below(4) { 0 => { if !h.e.is_empty() { let i = r.below(h.e.len() as u64) as usize; h.e.remove(i); } } 1 => { if !h.v.is_empty() { let (a, b) = (r.pick(&h.v), r.pick(&h.v)); h.e.push((a, b)); } } 2 => { let x = r.below(20) as u32; if !h.v.contains(&x) { h.v.push(x); } } _ => { if !h.v.is_empty() { let v = r.pick(&h.v); h.v.retain(|x| *x != v); h.e.retain(|x| x.0 != v && x.1 != v); } } } }
                r.shuffle(&mut h.e); r.shuffle(&mut h.v);
                c.case(case("cmp", g.clone(), h.clone(), vec![])); c.case(case("cmp", h.clone(), g.clone(), vec![])); c.case(case("dcmp", g.clone(), h.clone(), vec![])); c.case(case("dcmp", h, g, vec![]));
            }
        }
        _ => {}
    }
}

pub fn run(c: &Case) -> R {
    match c.prop.as_str() {
        "C01" => hist(c),
        "C02" => dhist(c),
        "C03" => gens(c),
        "C04" => if c.op == "ord" { iter_u(c) } else { iter_d(c) },
        "C05" => nbh(c),
        "C06" => bulk(c),
        "C07" => union(c),
        "C08" => contract(c),
        "C09" => ops(c),
        "C10" => cmp(c),
        _ => Ok(()),
    }
}

fn hist(c: &Case) -> R {
    let mut g = c.g.edit(); let mut m = c.g.m();
    check_graph(&g, &m, "initial")?;
    for (i, t) in c.p.chunks(3).enumerate() {
        let (u, v) = (t[1] as u32, t[2] as u32);
        let (got, want, what) = match t[0] {
            0 => (g.add_vertex(&u), m.v.insert(u), format!("add_vertex({u})")),
            1 => (g.remove_vertex(&u), m.rmv(u), format!("remove_vertex({u})")),
            2 => (g.add_edge(&u, &v), m.adde(u, v), format!("add_edge({u},{v})")),
            3 => (g.remove_edge(&u, &v), m.e.remove(&nrm(u, v)), format!("remove_edge({u},{v})")),
            4 => { g = g.clone(); (true, true, "clone".into()) }
            _ => { g = m.e.iter().copied().collect(); m.v = m.e.iter().flat_map(|e| [e.0, e.1]).collect(); (true, true, "from_iter".into()) }
        };
        ck!(got == want, "step {i}: {what} returned {got}, expected {want}");
        if i % 5 == 0 || i + 1 == c.p.len() / 3 { check_graph(&g, &m, &format!("after step {i} {what}"))?; }
    }
    Ok(())
}
fn dhist(c: &Case) -> R {
    let mut g = c.g.digraph(); let mut m = c.g.d();
    check_digraph(&g, &m, "initial")?;
    for (i, t) in c.p.chunks(3).enumerate() {
        let (u, v) = (t[1] as u32, t[2] as u32);
        let (got, want, what) = match t[0] {
            0 => (g.add_vertex(&u), m.v.insert(u), format!("add_vertex({u})")),
            1 => (g.remove_vertex(&u), m.rmv(u), format!("remove_vertex({u})")),
            2 => (g.add_arc(&u, &v), m.adda(u, v), format!("add_arc({u},{v})")),
            3 => (g.remove_arc(&u, &v), m.a.remove(&(u, v)), format!("remove_arc({u},{v})")),
            4 => { g = g.clone(); (true, true, "clone".into()) }
            _ => { g = m.a.iter().copied().collect(); m.v = m.a.iter().flat_map(|e| [e.0, e.1]).collect(); (true, true, "from_iter".into()) }
        };
        ck!(got == want, "step {i}: {what} returned {got}, expected {want}");
        if i % 5 == 0 || i + 1 == c.p.len() / 3 { check_digraph(&g, &m, &format!("after step {i} {what}"))?; }
    }
    Ok(())
}

fn gens(c: &Case) -> R {
    let p: Vec<u32> = c.p.iter().map(|x| *x as u32).collect();
    let mut m = D::default();
    let (dir, name) = match c.op.strip_prefix('d') { Some(s) => (true, s), None => (false, c.op.as_str()) };
    let n = p.first().copied().unwrap_or(0);
    match name {
        "path" => { m.v.extend(0..n); for i in 1..n { m.adda(i - 1, i); } }
        "cycle" => { for i in 0..n { m.adda(i, (i + 1) % n); } }
        "matching" => { for i in 0..n { m.adda(i, i + n); } }
        "star" => { m.v.extend(0..=n); for i in 1..=n { m.adda(0, i); } }
        "clique" => { m.v.extend(0..n); for i in 0..n { for j in i + 1..n { m.adda(i, j); } } }
        "independent" => m.v.extend(0..n),
        "biclique" => { m.v.extend(0..p[0] + p[1]); for i in 0..p[0] { for j in p[0]..p[0] + p[1] { m.adda(i, j); } } }
        "grid" => { let (s, t) = (p[0], p[1]); if s > 0 && t > 0 { m.v.extend(0..s * t); for y in 0..s { for x in 0..t { if x + 1 < t { m.adda(y * t + x, y * t + x + 1); } if y + 1 < s { m.adda(y * t + x, (y + 1) * t + x); } } } } }
        "kpartite" => { let tot: u32 = p.iter().sum(); m.v.extend(0..tot); let part: Vec<usize> = p.iter().enumerate().flat_map(|(i, s)| std::iter::repeat(i).take(*s as usize)).collect(); for a in 0..tot { for b in a + 1..tot { if part[a as usize] != part[b as usize] { m.adda(a, b); } } } }
        _ => {}
    }
    let what = format!("{}{p:?}", c.op);
    if dir {
        let g = match name { "path" => EditDigraph::path(n), "cycle" => EditDigraph::cycle(n), "matching" => EditDigraph::matching(n), "star" => EditDigraph::star(n), "clique" => EditDigraph::clique(n), "independent" => EditDigraph::independent(n), "biclique" => EditDigraph::biclique(p[0], p[1]), _ => EditDigraph::grid(p[0], p[1]) };
        check_digraph(&g, &m, &what)
    } else {
        let g = match name { "path" => EditGraph::path(n), "cycle" => EditGraph::cycle(n), "matching" => EditGraph::matching(n), "star" => EditGraph::star(n), "clique" => EditGraph::clique(n), "independent" => EditGraph::independent(n), "biclique" => EditGraph::biclique(p[0], p[1]), "kpartite" => EditGraph::complete_kpartite(p.iter()), _ => EditGraph::grid(p[0], p[1]) };
        let mut u = M::default(); u.v = m.v.clone(); for (a, b) in m.a { u.e.insert(nrm(a, b)); }
        check_graph(&g, &u, &what)
    }
}

fn drain<I: Iterator>(mut it: I, lim: usize, what: &str) -> Result<Vec<I::Item>, String> {
    let mut v = vec![];
    while let Some(x) = it.next() { v.push(x); if v.len() > lim { return Err(format!("{what}: yields more than {lim} items")); } }
    for _ in 0..3 { if it.next().is_some() { return Err(format!("{what}: yields an item after the end")); } }
    Ok(v)
}
fn iter_on<T: Graph>(g: &T, m: &M, what: &str) -> R {
    let lim = m.e.len() + m.v.len() + 3;
    let want: Vec<(u32, u32)> = m.e.iter().copied().collect();
    let mut es: Vec<(u32, u32)> = drain(g.edges(), lim, &format!("{what} edges"))?.into_iter().collect(); es.sort_unstable();
    ck!(es == want, "{what}: edges() {es:?} expected {want:?}");
    let mx = drain(g.vertices_and_edges(), lim, &format!("{what} vertices_and_edges"))?;
    let (mut vs, mut es) = (vec![], vec![]);
    for x in mx { match x { VertexOrEdge::V(v) => vs.push(v), VertexOrEdge::E((a, b)) => es.push(nrm(a, b)) } }
    es.sort_unstable(); vs.sort_unstable();
    ck!(vs == m.v.iter().copied().collect::<Vec<_>>(), "{what}: vertices of vertices_and_edges() {vs:?} expected {:?}", m.v);
    ck!(es == want, "{what}: edges of vertices_and_edges() {es:?} expected {want:?}");
    let am = m.adjmap();
    let ns = drain(g.neighbourhoods(), lim, &format!("{what} neighbourhoods"))?;
    let mut got = BTreeMap::new(); let k = ns.len();
    for (v, it) in ns { got.insert(v, sorted(it.copied())); }
    ck!(k == m.v.len() && got == am, "{what}: neighbourhoods() {got:?} expected {am:?}");
    Ok(())
}
fn iter_u(c: &Case) -> R {
    let m = c.g.m();
    iter_on(&c.g.edit(), &m, "EditGraph")?;
    iter_on(&c.g.vg(), &m, "ordered view")?;
    if m.e.iter().all(|(a, b)| a != b) {
        let og = OrdGraph::with_ordering(&c.g.edit(), c.g.v.iter());
        iter_on(&og, &m, "OrdGraph")?;
        let pos = |x: &u32| c.g.v.iter().position(|y| y == x).unwrap();
        let ns = drain(og.left_neighbourhoods(), m.v.len() + 2, "left_neighbourhoods")?;
        ck!(ns.iter().map(|x| x.0).collect::<Vec<_>>() == c.g.v, "left_neighbourhoods(): vertices {:?}", ns.iter().map(|x| x.0).collect::<Vec<_>>());
        for (v, l) in ns { let mut w: Vec<u32> = m.nb(v).into_iter().filter(|x| pos(x) < pos(&v)).collect(); w.sort_by_key(|x| pos(x)); ck!(l == w, "left_neighbourhoods(): {v} -> {l:?} expected {w:?}"); }
    }
    Ok(())
}
fn iter_d(c: &Case) -> R {
    let m = c.g.d(); let g = c.g.digraph();
    let lim = m.a.len() + m.v.len() + 3;
    let mut a = drain(g.arcs(), lim, "arcs")?; a.sort_unstable();
    let want: Vec<_> = m.a.iter().copied().collect();
    ck!(a == want, "arcs() {a:?} expected {want:?}");
    for inn in [true, false] {
        let ns = if inn { drain(g.in_neighbourhoods(), lim, "in_neighbourhoods")? } else { drain(g.out_neighbourhoods(), lim, "out_neighbourhoods")? };
        let k = ns.len(); let got: BTreeMap<u32, Vec<u32>> = ns.into_iter().map(|(v, i)| (v, sorted(i.copied()))).collect();
        let want: BTreeMap<u32, Vec<u32>> = m.v.iter().map(|v| (*v, if inn { m.ins(*v) } else { m.outs(*v) })).collect();
        ck!(k == m.v.len() && got == want, "{}_neighbourhoods() {got:?} expected {want:?}", if inn { "in" } else { "out" });
    }
    Ok(())
}

fn nbh_on<T: Graph>(g: &T, m: &M, s: &[u32], r: usize, what: &str) -> R {
    let set: BTreeSet<u32> = s.iter().copied().collect();
    let all: BTreeSet<u32> = s.iter().flat_map(|x| m.nb(*x)).collect();
    let open: BTreeSet<u32> = all.difference(&set).copied().collect();
    let got = vset(g.neighbourhood(s.iter())); ck!(got == open, "{what}: neighbourhood({s:?}) {got:?} expected {open:?}");
    let got = vset(g.neighbourhood(s.iter().copied())); ck!(got == open, "{what}: neighbourhood by value({s:?}) {got:?}");
    let closed: BTreeSet<u32> = all.union(&set).copied().collect();
    let got = vset(g.closed_neighbourhood(s.iter())); ck!(got == closed, "{what}: closed_neighbourhood({s:?}) {got:?} expected {closed:?}");
    let d = m.bfs(s, &|_| true);
    let ball: BTreeSet<u32> = d.iter().filter(|x| (*x.1 as usize) <= r).map(|x| *x.0).collect();
    let got = vset(g.r_neighbourhood(s.iter(), r)); ck!(got == ball, "{what}: r_neighbourhood({s:?},{r}) {got:?} expected {ball:?}");
    if let Some(u) = s.first() { let d = m.bfs(&[*u], &|_| true); let ball: BTreeSet<u32> = d.iter().filter(|x| (*x.1 as usize) <= r).map(|x| *x.0).collect(); let got = vset(g.r_neighbours(u, r)); ck!(got == ball, "{what}: r_neighbours({u},{r}) {got:?} expected {ball:?}"); }
    Ok(())
}
fn nbh(c: &Case) -> R {
    let r = c.p[0] as usize; let s: Vec<u32> = c.p[1..].iter().map(|x| *x as u32).collect();
    let m = c.g.m();
    if c.op == "u" {
        nbh_on(&c.g.edit(), &m, &s, r, "EditGraph")?; nbh_on(&c.g.vg(), &m, &s, r, "ordered view")?;
        let want: BTreeMap<u32, u32> = m.v.iter().map(|v| (*v, m.deg(*v) as u32)).collect();
        for got in [c.g.edit().degrees(), c.g.vg().degrees()] { let got: BTreeMap<u32, u32> = got.into_iter().collect(); ck!(got == want, "degrees() {got:?} expected {want:?}"); }
    } else {
        let g = c.g.digraph(); let d = c.g.d();
        nbh_on(&g, &m, &s, r, "EditDigraph")?;
        let set: BTreeSet<u32> = s.iter().copied().collect();
        for inn in [true, false] {
            let w: BTreeSet<u32> = s.iter().flat_map(|x| if inn { d.ins(*x) } else { d.outs(*x) }).filter(|x| !set.contains(x)).collect();
            let got = if inn { vset(g.in_neighbourhood(s.iter())) } else { vset(g.out_neighbourhood(s.iter())) };
            ck!(got == w, "{}_neighbourhood({s:?}) {got:?} expected {w:?}", if inn { "in" } else { "out" });
            let got: BTreeMap<u32, u32> = (if inn { g.in_degrees() } else { g.out_degrees() }).into_iter().collect();
            let w: BTreeMap<u32, u32> = d.v.iter().map(|v| (*v, (if inn { d.ins(*v) } else { d.outs(*v) }).len() as u32)).collect();
            ck!(got == w, "{}_degrees() {got:?} expected {w:?}", if inn { "in" } else { "out" });
        }
        let got: BTreeMap<u32, u32> = g.degrees().into_iter().collect();
        let w: BTreeMap<u32, u32> = d.v.iter().map(|v| (*v, (d.ins(*v).len() + d.outs(*v).len()) as u32)).collect();
        ck!(got == w, "degrees() {got:?} expected {w:?}");
    }
    Ok(())
}

fn bulk(c: &Case) -> R {
    match c.op.as_str() {
        "sub" => {
            let s: Vec<u32> = c.p.iter().map(|x| *x as u32).collect();
            let m = c.g.m(); let mut w = M::default(); w.v = s.iter().copied().collect(); w.e = m.e.iter().filter(|(a, b)| w.v.contains(a) && w.v.contains(b)).copied().collect();
            check_graph(&c.g.edit().subgraph::<EditGraph, _, _>(s.iter()), &w, "subgraph of EditGraph")?;
            check_graph(&c.g.vg().subgraph::<EditGraph, _, _>(s.iter().copied()), &w, "subgraph of ordered view")?;
            check_graph(&c.g.digraph().subgraph::<EditGraph, _, _>(s.iter()), &w, "subgraph of EditDigraph")
        }
        "rm" => {
            let mut m = c.g.m();
            let mut g = c.g.edit(); let k = g.remove_isolates(); let iso: Vec<u32> = m.v.iter().copied().filter(|v| m.deg(*v) == 0).collect();
            let mut w = m.clone(); for v in &iso { w.v.remove(v); }
            ck!(k == iso.len(), "remove_isolates returned {k} expected {}", iso.len()); check_graph(&g, &w, "after remove_isolates")?;
            let mut g = c.g.edit(); let k = g.remove_loops(); let n0 = m.e.len(); m.e.retain(|e| e.0 != e.1);
            ck!(k == n0 - m.e.len(), "remove_loops returned {k} expected {}", n0 - m.e.len()); check_graph(&g, &m, "after remove_loops")
        }
        "drm" => {
            let mut m = c.g.d();
            let mut g = c.g.digraph(); let k = g.remove_isolates(); let iso: Vec<u32> = m.v.iter().copied().filter(|v| m.ins(*v).len() + m.outs(*v).len() == 0).collect();
            let mut w = m.clone(); for v in &iso { w.v.remove(v); }
            ck!(k == iso.len(), "remove_isolates returned {k} expected {}", iso.len()); check_digraph(&g, &w, "after remove_isolates")?;
            let mut g = c.g.digraph(); let k = g.remove_loops(); let n0 = m.a.len(); m.a.retain(|e| e.0 != e.1);
            ck!(k == n0 - m.a.len(), "remove_loops returned {k} expected {}", n0 - m.a.len()); check_digraph(&g, &m, "after remove_loops")
        }
        "add" => {
            let mut m = c.g.m(); let mut g = c.g.edit();
            let w: u32 = c.h.v.iter().map(|v| m.v.insert(*v) as u32).sum(); let k = g.add_vertices(c.h.v.iter());
            ck!(k == w, "add_vertices returned {k} expected {w}"); check_graph(&g, &m, "after add_vertices")?;
            let w: u32 = c.h.e.iter().map(|e| m.adde(e.0, e.1) as u32).sum(); let k = g.add_edges(c.h.e.iter().copied());
            ck!(k == w, "add_edges returned {k} expected {w}"); check_graph(&g, &m, "after add_edges")
        }
        _ => {
            let mut m = c.g.d(); let mut g = c.g.digraph();
            let w: u32 = c.h.v.iter().map(|v| m.v.insert(*v) as u32).sum(); let k = g.add_vertices(c.h.v.iter());
            ck!(k == w, "add_vertices returned {k} expected {w}"); check_digraph(&g, &m, "after add_vertices")?;
            let w: u32 = c.h.e.iter().map(|e| m.adda(e.0, e.1) as u32).sum(); let k = g.add_arcs(c.h.e.iter());
            ck!(k == w, "add_arcs returned {k} expected {w}"); check_digraph(&g, &m, "after add_arcs")
        }
    }
}

fn offset(res: &BTreeSet<u32>, g: &BTreeSet<u32>, h: &BTreeSet<u32>) -> Result<u32, String> {
    ck!(g.iter().all(|v| res.contains(v)), "first graph's vertices {g:?} are not all in the union {res:?}");
    let new: Vec<u32> = res.difference(g).copied().collect();
    if h.is_empty() { return Ok(0); }
    ck!(new.len() == h.len() && new[0] >= *h.iter().next().unwrap(), "the union has {} vertices beside the first graph's, expected {}", new.len(), h.len());
    Ok(new[0] - h.iter().next().unwrap())
}
fn union(c: &Case) -> R {
    match c.op.as_str() {
        "union" => {
            let (a, b) = (c.g.m(), c.h.m());
            let add = |a: &M, b: &M, o: u32| { let mut w = a.clone(); for v in &b.v { w.v.insert(v + o); } for e in &b.e { w.e.insert((e.0 + o, e.1 + o)); } w };
            let r = c.g.edit().disj_union(&c.h.edit()); let o = offset(&vset(r.vertices().copied()), &a.v, &b.v)?; check_graph(&r, &add(&a, &b, o), "disj_union")?;
            let r = c.g.edit().disj_union(&c.h.vg()); let o = offset(&vset(r.vertices().copied()), &a.v, &b.v)?; check_graph(&r, &add(&a, &b, o), "disj_union with another graph type")?;
            // unions of lists: the union of the first two, then the third
            let gs = [c.g.edit(), c.h.edit(), c.g.edit()];
            for k in 0..=3 {
                let r = EditGraph::disj_unions(gs[..k].iter());
                let mut w = EditGraph::new(); for g in &gs[..k] { w = w.disj_union(g); }
                let mut wm = M::default(); for v in w.vertices() { wm.v.insert(*v); for u in w.neighbours(v) { wm.e.insert(nrm(*u, *v)); } }
                check_graph(&r, &wm, "disj_unions")?;
                ck!(r.num_vertices() == gs[..k].iter().map(|g| g.num_vertices()).sum::<usize>() && r.num_edges() == gs[..k].iter().map(|g| g.num_edges()).sum::<usize>(), "disj_unions: vertex or edge count");
            }
            Ok(())
        }
        "dunion" => {
            let (a, b) = (c.g.d(), c.h.d());
            let add = |a: &D, b: &D, o: u32| { let mut w = a.clone(); for v in &b.v { w.v.insert(v + o); } for e in &b.a { w.a.insert((e.0 + o, e.1 + o)); } w };
            let r = c.g.digraph().disj_union(&c.h.digraph()); let o = offset(&vset(r.vertices().copied()), &a.v, &b.v)?; check_digraph(&r, &add(&a, &b, o), "disj_union")?;
            let gs = [c.g.digraph(), c.h.digraph(), c.g.digraph()];
            for k in 0..=3 {
                let r = EditDigraph::disj_unions(gs[..k].iter());
                let mut w = EditDigraph::new(); for g in &gs[..k] { w = w.disj_union(g); }
                let mut wm = D::default(); for v in w.vertices() { wm.v.insert(*v); for u in w.out_neighbours(v) { wm.a.insert((*v, *u)); } }
                check_digraph(&r, &wm, "disj_unions")?;
                ck!(r.num_vertices() == gs[..k].iter().map(|g| g.num_vertices()).sum::<usize>() && r.num_edges() == gs[..k].iter().map(|g| g.num_edges()).sum::<usize>(), "disj_unions: vertex or arc count");
            }
            Ok(())
        }
        "norm" => {
            let m = c.g.m(); let id: BTreeMap<u32, u32> = m.v.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect();
            let (g, map) = c.g.edit().normalize();
            let w = M { v: id.values().copied().collect(), e: m.e.iter().map(|e| (id[&e.0], id[&e.1])).collect() };
            let want: BTreeMap<u32, u32> = id.iter().map(|(a, b)| (*b, *a)).collect(); let got: BTreeMap<u32, u32> = map.into_iter().collect();
            ck!(got == want, "normalize map {got:?} expected {want:?}");
            check_graph(&g, &w, "normalize")
        }
        _ => {
            let m = c.g.d(); let id: BTreeMap<u32, u32> = m.v.iter().enumerate().map(|(i, v)| (*v, i as u32)).collect();
            let (g, map) = c.g.digraph().normalize();
            let w = D { v: id.values().copied().collect(), a: m.a.iter().map(|e| (id[&e.0], id[&e.1])).collect() };
            let want: BTreeMap<u32, u32> = id.iter().map(|(a, b)| (*b, *a)).collect(); let got: BTreeMap<u32, u32> = map.into_iter().collect();
            ck!(got == want, "normalize map {got:?} expected {want:?}");
            check_digraph(&g, &w, "normalize")
        }
    }
}

fn contract(c: &Case) -> R {
    let m = c.g.m(); let mut g = c.g.edit();
    let x = c.p[0] as u32; let rest: Vec<u32> = c.p[1..].iter().map(|v| *v as u32).collect();
    match c.op.as_str() {
        "pair" => g.contract_pair(&x, &rest[0]),
        "into" => g.contract_into(&x, rest.iter()),
        _ => { let r = g.contract(std::iter::once(x).chain(rest.iter().copied())); ck!(r == x, "contract returned {r} expected {x}"); }
    }
    let s: BTreeSet<u32> = rest.iter().copied().filter(|v| *v != x).collect();
    let mut w = M { v: m.v.difference(&s).copied().collect(), e: m.e.iter().filter(|e| !s.contains(&e.0) && !s.contains(&e.1)).copied().collect() };
    for y in &m.v { if *y != x && !s.contains(y) && s.iter().any(|z| m.adj(*z, *y)) { w.e.insert(nrm(x, *y)); } }
    check_graph(&g, &w, &format!("{} {x} {rest:?}", c.op))
}

fn prod(r: &(EditGraph, VertexMap<(u32, u32)>), a: &M, b: &M, adj: &dyn Fn((u32, u32), (u32, u32)) -> bool, what: &str) -> R {
    let (g, map) = r;
    let pairs: BTreeSet<(u32, u32)> = a.v.iter().flat_map(|x| b.v.iter().map(move |y| (*x, *y))).collect();
    let got: BTreeSet<(u32, u32)> = map.values().copied().collect();
    ck!(map.len() == pairs.len() && got == pairs, "{what}: the vertex map is not a bijection onto all pairs");
    let mut w = M { v: map.keys().copied().collect(), ..Default::default() };
    for (i, p) in map { for (j, q) in map { if adj(*p, *q) { w.e.insert(nrm(*i, *j)); } } }
    check_graph(g, &w, what)
}
fn ops(c: &Case) -> R {
    let (a, b) = (c.g.m(), c.h.m());
    let two = |f: &dyn Fn(usize) -> R| -> R { f(0)?; f(1) };
    match c.op.as_str() {
        "invert" => {
            let mut w = M { v: a.v.clone(), ..Default::default() }; for x in &a.v { for y in &a.v { if x < y && !a.adj(*x, *y) { w.e.insert((*x, *y)); } } }
            check_graph(&GraphOperations::invert(&c.g.edit()), &w, "invert")?; check_graph(&GraphOperations::invert(&c.g.vg()), &w, "invert")
        }
        "merge" => { let w = M { v: a.v.union(&b.v).copied().collect(), e: a.e.union(&b.e).copied().collect() }; check_graph(&c.g.edit().merge(&c.h.edit()), &w, "merge")?; check_graph(&c.g.vg().merge(&c.h.vg()), &w, "merge") }
        "intersect" => { let w = M { v: a.v.intersection(&b.v).copied().collect(), e: a.e.intersection(&b.e).copied().collect() }; check_graph(&c.g.edit().intersect(&c.h.edit()), &w, "intersect")?; check_graph(&c.g.vg().intersect(&c.h.vg()), &w, "intersect") }
        "subdivide" => two(&|k| {
            let t = c.p[0] as usize;
            let r = if k == 0 { c.g.edit().subdivide(t as u32) } else { c.g.vg().subdivide(t as u32) };
            let mut rm = M::default(); for v in r.vertices() { rm.v.insert(*v); for u in r.neighbours(v) { rm.e.insert(nrm(*u, *v)); } }
            check_graph(&r, &rm, "subdivide")?;
            if t == 0 { return check_graph(&r, &a, "subdivide(0)"); }
            ck!(a.v.iter().all(|v| rm.v.contains(v)), "subdivide: original vertices missing");
            ck!(rm.v.len() == a.v.len() + t * a.e.len(), "subdivide({t}): {} vertices expected {}", rm.v.len(), a.v.len() + t * a.e.len());
            ck!(rm.e.len() == (t + 1) * a.e.len(), "subdivide({t}): {} edges expected {}", rm.e.len(), (t + 1) * a.e.len());
            let am = rm.adjmap(); let mut seen = BTreeSet::new();
            for s in rm.v.difference(&a.v) { ck!(am[s].len() == 2, "subdivide: new vertex {s} has degree {}", am[s].len()); }
            for u in &a.v { for f in &am[u] {
                ck!(!a.v.contains(f), "subdivide: original vertices {u},{f} still adjacent");
                let (mut prev, mut cur, mut len) = (*u, *f, 1); while !a.v.contains(&cur) && len <= t + 1 { let nx = if am[&cur][0] == prev { am[&cur][1] } else { am[&cur][0] }; prev = cur; cur = nx; len += 1; }
                ck!(a.v.contains(&cur) && len == t + 1, "subdivide({t}): path from {u} has length {len}");
                ck!(a.adj(*u, cur), "subdivide: {u} connected to {cur} without an edge"); seen.insert(nrm(*u, cur));
            } }
            ck!(seen == a.e, "subdivide: edges {seen:?} expected {:?}", a.e);
            Ok(())
        }),
        "lex" => { let adj = |p: (u32, u32), q: (u32, u32)| b.adj(p.1, q.1) || (p.1 == q.1 && a.adj(p.0, q.0)); prod(&c.g.edit().lexicographic_product(&c.h.edit()), &a, &b, &adj, "lexicographic_product")?; prod(&c.g.vg().lexicographic_product(&c.h.vg()), &a, &b, &adj, "lexicographic_product") }
        _ => { let adj = |p: (u32, u32), q: (u32, u32)| (p.0 == q.0 && b.adj(p.1, q.1)) || (p.1 == q.1 && a.adj(p.0, q.0)); prod(&c.g.edit().cartesian_product(&c.h.edit()), &a, &b, &adj, "cartesian_product")?; prod(&c.g.vg().cartesian_product(&c.h.vg()), &a, &b, &adj, "cartesian_product") }
    }
}

fn cmp(c: &Case) -> R {
    let (a, b) = (c.g.m(), c.h.m());
    let sub = a.v.is_subset(&b.v) && a.e.is_subset(&b.e); let sup = b.v.is_subset(&a.v) && b.e.is_subset(&a.e);
    let want = match (sub, sup) { (true, true) => SubgraphRel::Eq, (true, false) => SubgraphRel::Sub, (false, true) => SubgraphRel::Sup, _ => SubgraphRel::Incomp };
    if c.op == "cmp" {
        let got = c.g.edit().compare_subgraph(&c.h.edit()); ck!(got == want, "compare_subgraph {got:?} expected {want:?}");
        let got = c.g.vg().compare_subgraph(&c.h.vg()); ck!(got == want, "compare_subgraph (ordered view) {got:?} expected {want:?}");
        let (x, y) = (c.g.edit(), c.h.edit());
        ck!((x == y) == (a == b) && (y == x) == (a == b), "== gives {} expected {}", x == y, a == b);
        let z = x.clone(); ck!(z == x && x == z, "clone differs from the original"); check_graph(&z, &a, "clone")
    } else {
        let (x, y) = (c.g.digraph(), c.h.digraph()); let (da, db) = (c.g.d(), c.h.d());
        let got = x.compare_subgraph(&y); ck!(got == want, "compare_subgraph on digraphs {got:?} expected {want:?}");
        ck!((x == y) == (da == db) && (y == x) == (da == db), "== gives {} expected {}", x == y, da == db);
        let z = x.clone(); ck!(z == x && x == z, "clone differs from the original"); check_digraph(&z, &da, "clone")
    }
}
