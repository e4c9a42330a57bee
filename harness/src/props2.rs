// C11..C21
use crate::base::*;
use crate::ck;
use graphbench::algorithms::*;
use graphbench::degengraph::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::iterators::*;
use graphbench::ordgraph::OrdGraph;
use graphbench::reachgraph::*;
use std::collections::{BTreeMap, BTreeSet};

fn case(op: &str, g: G, p: Vec<u64>) -> Case { Case { op: op.into(), g, p, ..Default::default() } }
/// every loop-free graph on up to n vertices with every ordering
fn all_ordered(n: u32, f: &mut dyn FnMut(G)) { for k in 0..=n { for pi in perms(k) { all_graphs(k, false, &mut |mut g| { g.v = pi.clone(); f(g); }); } } }
/// random loop-free graph; g.v is the ordering: random, natural or by degeneracy
fn rord(r: &mut Rng, n: usize) -> G { let mut g = rgraph(r, n, false, u32::MAX); match r.below(3) { 0 => g.v.sort_unstable(), 1 => { let o = g.edit().degeneracy().2; if sorted(o.iter().copied()) == sorted(g.v.iter().copied()) { g.v = o; } } _ => {} } g }
fn bigdeg(r: &mut Rng) -> G {
    let mut g = G::default();
    match r.below(6) {
        5 => { let n = r.range(130, 180) as u32; for i in 0..n { for j in i + 1..n { g.e.push((i, j)); } } let mut t = n; for _ in 0..r.range(1, 4) { let c = t; t += 1; for _ in 0..r.range(60, 330) { g.e.push((c, t)); t += 1; } } g.v = (0..t).collect(); }
        0 => { let n = r.range(120, 700) as u32; g.v = (0..=n).collect(); g.e = (1..=n).map(|i| (0, i)).collect(); }
        1 => { let n = r.range(126, 175) as u32; g.v = (0..n).collect(); for i in 0..n { for j in i + 1..n { g.e.push((i, j)); } } }
        2 => { let (s, t) = (r.range(125, 150) as u32, r.range(125, 160) as u32); g.v = (0..s + t).collect(); for i in 0..s { for j in 0..t { g.e.push((i, s + j)); } } }
        3 => { let n = r.range(150, 230) as u32; let p = r.range(60, 98) as f64 / 100.0; g.v = (0..n).collect(); for i in 0..n { for j in i + 1..n { if r.chance(p) { g.e.push((i, j)); } } } }
        _ => { let n = r.range(130, 170) as u32; g.v = (0..n + 6).collect(); for i in 0..n { for j in i + 1..n { if r.chance(0.97) { g.e.push((i, j)); } } } for k in 0..6 { let m = r.below(n as u64); for _ in 0..m { g.e.push((n + k, r.below(n as u64) as u32)); } } }
    }
    g
}

pub fn generate(prop: &str, c: &mut Ctx) {
    let mut r = c.rng.clone();
    match prop {
        "C11" => { for n in 0..=4 { all_graphs(n, n < 4, &mut |g| c.case(case("comp", g, vec![]))); } while c.time_left() { let n = r.range(1, 40) as usize; c.case(case("comp", rgraph(&mut r, n, true, u32::MAX), vec![])); } }
        "C12" => {
            for n in 0..=5 { all_graphs(n, false, &mut |g| c.case(case("deg", g, vec![]))); }
            for n in [127u32, 128, 129, 130, 131, 132, 133, 134, 258, 259, 260, 261] { let mut g = G { v: (0..n).collect(), e: vec![] }; for i in 0..n { for j in i + 1..n { g.e.push((i, j)); } } c.case(case("deg", g, vec![])); }
            while c.time_left() { for _ in 0..300 { let n = r.range(1, 30) as usize; c.case(case("deg", rgraph(&mut r, n, false, u32::MAX), vec![])); } c.case(case("deg", bigdeg(&mut r), vec![])); }
        }
        "C13" => { for n in 0..=4 { all_graphs(n, true, &mut |g| c.case(case("bip", g, vec![]))); } for pi in perms(4) { all_graphs(4, false, &mut |mut g| { g.v = pi.clone(); c.case(case("bip", g, vec![])); }); } while c.time_left() { let n = r.range(1, 20) as usize; let l = r.chance(0.2); c.case(case("bip", rgraph(&mut r, n, l, u32::MAX), vec![])); } }
        "C14" => {
            all_ordered(4, &mut |g| { c.case(case("ord", g.clone(), vec![])); for u in 0..g.v.len() { for v in 0..g.v.len() { c.case(case("swap", g.clone(), vec![u as u64, v as u64])); } } });
            while c.time_left() { let n = r.range(1, 14) as usize; let g = rord(&mut r, n); let mut p = vec![]; for _ in 0..r.below(12) { p.push(r.pick(&g.v) as u64); p.push(if r.chance(0.9) { r.pick(&g.v) as u64 } else { 999_999_937 }); } c.case(case("swap", g, p)); }
        }
        "C15" => { all_ordered(4, &mut |g| c.case(case("deg", g, vec![]))); while c.time_left() { let n = r.below(20) as usize; let g = if n == 0 { G::default() } else { rord(&mut r, n) }; c.case(case("deg", g, vec![])); } }
        "C16" => { all_ordered(4, &mut |g| for d in 1..=5 { c.case(case("reach", g.clone(), vec![d])); }); while c.time_left() { let n = r.below(18) as usize; let g = if n == 0 { G::default() } else if n > 4 && r.chance(0.2) { let mut g = G::default(); let l = n as u32; let mut p: Vec<u32> = (1..l - 1).collect(); if r.chance(0.5) { p.reverse(); } g.e = (1..l).map(|i| (i - 1, i)).collect(); g.v = vec![0, l - 1]; g.v.extend(p); if r.chance(0.3) { let k = r.below(l as u64) as usize; g.v.swap(0, k); } g } else { rord(&mut r, n) }; let d = r.range(1, 7); c.case(case("reach", g, vec![d])); } }
        "C17" => { all_ordered(4, &mut |g| for d in 0..=4 { c.case(case("reach", g.clone(), vec![d])); }); while c.time_left() { let n = r.range(1, 16) as usize; let g = rord(&mut r, n); let d = if r.chance(0.05) { r.range(6, 300) } else { r.below(6) }; c.case(case("reach", g, vec![d])); } }
        "C18" => { all_ordered(4, &mut |g| c.case(case("col", g, vec![]))); while c.time_left() { let n = r.range(1, 25) as usize; let g = rord(&mut r, n); c.case(case("col", g, vec![])); } }
        "C19" => {
            all_ordered(4, &mut |g| for d in 0..=3 { c.case(case("dom", g.clone(), vec![d, 0])); });
            c.case(case("dom", G { v: vec![0, 1, 2], e: vec![(0, 1)] }, vec![32768, 0])); c.case(case("dom", G { v: vec![0, 1], e: vec![] }, vec![40000, 1, 1]));
            while c.time_left() { let n = r.range(1, 22) as usize; let g = rord(&mut r, n); let d = r.below(6); let mut p = vec![d, r.below(2)]; if p[1] == 1 { for v in &g.v { if r.chance(0.5) { p.push(*v as u64); } } } c.case(case("dom", g, p)); if r.chance(0.02) { let n = r.range(1, 5) as usize; let g = rgraph(&mut r, n, false, 100); let d = r.range(30000, 70000); c.case(case("dom", g, vec![d, 0])); } }
        }
        "C20" => {
            all_ordered(4, &mut |g| for d in 0..=5 { let mut p = vec![d]; p.extend(g.v.iter().map(|x| *x as u64)); c.case(case("scat", g.clone(), p)); });
            c.case(case("scat", G { v: vec![0, 1, 2], e: vec![(0, 1)] }, vec![65536, 0, 1, 2]));
            while c.time_left() { let n = r.range(1, 22) as usize; let g = rord(&mut r, n); let mut p = vec![r.below(10)]; let q = r.range(20, 100) as f64 / 100.0; for v in &g.v { if r.chance(q) { p.push(*v as u64); } } c.case(case("scat", g, p)); }
        }
        "C21" => { all_ordered(4, &mut |g| c.case(case("cliq", g, vec![]))); all_graphs(5, false, &mut |g| c.case(case("cliq", g, vec![]))); while c.time_left() { let n = r.range(1, 15) as usize; let g = rord(&mut r, n); c.case(case("cliq", g, vec![])); } }
        _ => {}
    }
}

pub fn run(c: &Case) -> R {
    match c.prop.as_str() { "C11" => comp(c), "C12" => degen(c), "C13" => bip(c), "C14" => ord(c), "C15" => dgraph(c), "C16" => rgraph16(c), "C17" => reach(c), "C18" => col(c), "C19" => dom(c), "C20" => scat(c), "C21" => cliq(c), _ => Ok(()) }
}

fn comp_of(cs: Vec<VertexSet>, m: &M, w: &str) -> R {
    let mut got: BTreeSet<BTreeSet<u32>> = BTreeSet::new(); let k = cs.len(); let mut tot = 0;
    for x in cs { ck!(!x.is_empty(), "{w}: empty component"); tot += x.len(); got.insert(vset(x)); }
    let mut want = BTreeSet::new(); for v in &m.v { want.insert(m.bfs(&[*v], &|_| true).keys().copied().collect::<BTreeSet<u32>>()); }
    ck!(k == want.len() && tot == m.v.len() && got == want, "{w}: components {got:?} expected {want:?}"); Ok(())
}
fn comp(c: &Case) -> R { let m = c.g.m(); comp_of(c.g.edit().components(), &m, "EditGraph")?; comp_of(c.g.vg().components(), &m, "ordered view")?; comp_of(c.g.digraph().components(), &m, "EditDigraph") }

fn true_degeneracy(m: &M) -> usize {
    let am = m.adjmap(); let mut d: BTreeMap<u32, usize> = am.iter().map(|(v, n)| (*v, n.len())).collect(); let mut q: BTreeSet<(usize, u32)> = d.iter().map(|(v, d)| (*d, *v)).collect(); let mut k = 0;
    while let Some((x, v)) = q.pop_first() { k = k.max(x); d.remove(&v); for u in &am[&v] { if let Some(y) = d.get_mut(u) { q.remove(&(*y, *u)); *y -= 1; q.insert((*y, *u)); } } }
    k
}
fn deg_of<T: Graph>(g: &T, m: &M, w: &str) -> R {
    let (lo, up, ord, _) = g.degeneracy();
    ck!(sorted(ord.iter().copied()) == m.v.iter().copied().collect::<Vec<_>>(), "{w}: the ordering {:?} does not list every vertex exactly once", &ord[..ord.len().min(30)]);
    let pos: BTreeMap<u32, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let k = true_degeneracy(m);
    for (v, n) in m.adjmap() { let l = n.iter().filter(|x| pos[x] < pos[&v]).count(); ck!(l <= up as usize, "{w}: vertex {v} has {l} earlier neighbours, upper bound {up}"); }
    ck!(lo as usize <= k && k <= up as usize, "{w}: lower bound {lo}, true degeneracy {k}, upper bound {up}");
    Ok(())
}
fn degen(c: &Case) -> R { let m = c.g.m(); deg_of(&c.g.edit(), &m, "EditGraph")?; if m.v.len() < 200 { deg_of(&c.g.vg(), &m, "ordered view")?; } Ok(()) }

fn bip_of(w: BipartiteWitness, m: &M, what: &str) -> R {
    match w {
        BipartiteWitness::Bipartition(a, b) => { let (a, b) = (vset(a), vset(b)); ck!(a.is_disjoint(&b) && a.union(&b).copied().collect::<BTreeSet<_>>() == m.v, "{what}: sides {a:?} {b:?} do not partition the vertices"); for (x, y) in &m.e { ck!(a.contains(x) != a.contains(y), "{what}: edge {x}-{y} inside a side"); } Ok(()) }
        BipartiteWitness::OddCycle(p) => { ck!(p.len() % 2 == 1, "{what}: cycle {p:?} has even length"); ck!(vset(p.clone()).len() == p.len(), "{what}: cycle {p:?} repeats a vertex"); for i in 0..p.len() { ck!(m.adj(p[i], p[(i + 1) % p.len()]), "{what}: consecutive vertices {} {} of the cycle {p:?} are not adjacent", p[i], p[(i + 1) % p.len()]); } Ok(()) }
    }
}
fn bip(c: &Case) -> R { let m = c.g.m(); bip_of(c.g.edit().is_bipartite(), &m, "EditGraph")?; bip_of(c.g.vg().is_bipartite(), &m, "ordered view") }

fn lefts(m: &M, ord: &[u32]) -> BTreeMap<u32, (Vec<u32>, Vec<u32>)> {
    let pos: BTreeMap<u32, usize> = ord.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    m.adjmap().into_iter().map(|(v, mut n)| { n.sort_by_key(|x| pos[x]); let (a, b): (Vec<u32>, Vec<u32>) = n.into_iter().partition(|x| pos[x] < pos[&v]); (v, (a, b)) }).collect()
}
fn linear<T: LinearGraph>(g: &T, m: &M, ord: &[u32], w: &str) -> R {
    let vs: Vec<u32> = g.vertices().copied().collect(); ck!(vs == ord, "{w}: vertices in order {vs:?} expected {ord:?}");
    let lr = lefts(m, ord);
    for v in &m.v {
        let (l, r) = &lr[v]; let got = g.left_neighbours(v); ck!(got == *l, "{w}: left_neighbours({v}) {got:?} expected {l:?}");
        ck!(g.left_degree(v) as usize == l.len() && g.right_degree(v) as usize == r.len(), "{w}: left/right degree of {v}: {} {} expected {} {}", g.left_degree(v), g.right_degree(v), l.len(), r.len());
    }
    let ld: BTreeMap<u32, u32> = g.left_degrees().into_iter().collect(); let rd: BTreeMap<u32, u32> = g.right_degrees().into_iter().collect();
    ck!(ld == lr.iter().map(|(v, x)| (*v, x.0.len() as u32)).collect(), "{w}: left_degrees {ld:?}"); ck!(rd == lr.iter().map(|(v, x)| (*v, x.1.len() as u32)).collect(), "{w}: right_degrees {rd:?}");
    ck!(g.max_left_degree() == ld.values().copied().max().unwrap_or(0) && g.max_right_degree() == rd.values().copied().max().unwrap_or(0), "{w}: max left/right degree");
    for k in 0..ord.len().min(4) { let s: Vec<u32> = ord[k..].iter().rev().copied().collect(); ck!(g.leftmost(s.iter()) == Some(ord[k]), "{w}: leftmost({s:?}) = {:?}", g.leftmost(s.iter())); let s: Vec<u32> = ord[..ord.len() - k].to_vec(); ck!(g.rightmost(s.iter()) == s.last().copied(), "{w}: rightmost({s:?}) = {:?}", g.rightmost(s.iter())); }
    ck!(g.leftmost(Vec::<u32>::new()).is_none() && g.rightmost(Vec::<u32>::new()).is_none(), "{w}: leftmost of nothing");
    for o in outside(&m.v) { ck!(g.left_degree(&o) == 0 && g.right_degree(&o) == 0, "{w}: left/right degree of missing {o}"); }
    Ok(())
}
fn ord_full(g: &OrdGraph, m: &M, ord: &[u32], w: &str) -> R {
    check_graph(g, m, w)?; linear(g, m, ord, w)?;
    let lr = lefts(m, ord);
    for (i, v) in ord.iter().enumerate() { ck!(g.index_of(v) == i, "{w}: index_of({v}) = {} expected {i}", g.index_of(v)); let got = g.right_neighbours(v); ck!(got == lr[v].1, "{w}: right_neighbours({v}) {got:?} expected {:?}", lr[v].1); }
    Ok(())
}
fn ord(c: &Case) -> R {
    let m = c.g.m(); let mut o = c.g.v.clone();
    ord_full(&OrdGraph::with_ordering(&c.g.vg(), o.iter()), &m, &o, "with_ordering (ordered view)")?;
    { let g = OrdGraph::by_degeneracy(&c.g.edit()); let oo: Vec<u32> = g.vertices().copied().collect(); ck!(sorted(oo.iter().copied()) == sorted(o.iter().copied()), "by_degeneracy: vertices {oo:?}"); ord_full(&g, &m, &oo, "by_degeneracy")?; }
    let mut g = OrdGraph::with_ordering(&c.g.edit(), o.iter().copied());
    ord_full(&g, &m, &o, "with_ordering")?;
    for t in c.p.chunks(2) {
        let (u, v) = (t[0] as u32, t[1] as u32); g.swap(&u, &v);
        if let (Some(i), Some(j)) = (o.iter().position(|x| *x == u), o.iter().position(|x| *x == v)) { o.swap(i, j); }
        ord_full(&g, &m, &o, &format!("after swap({u},{v})"))?;
    }
    Ok(())
}
fn degen_full(g: &DegenGraph, m: &M, ord: &[u32], w: &str) -> R {
    check_graph(g, m, w)?; linear(g, m, ord, w)?;
    let lr = lefts(m, ord);
    ck!(g.first() == ord.first().copied(), "{w}: first() = {:?}", g.first());
    let it: Vec<(u32, Vec<u32>)> = g.iter().map(|(v, s)| (v, s.to_vec())).collect(); let want: Vec<(u32, Vec<u32>)> = ord.iter().map(|v| (*v, lr[v].0.clone())).collect(); ck!(it == want, "{w}: iter() {it:?} expected {want:?}");
    for (i, v) in ord.iter().enumerate() {
        ck!(g.left_neighbours_slice(v) == &lr[v].0[..], "{w}: left_neighbours_slice({v})"); ck!(vset(g.right_neighbours(v).iter().copied()) == lr[v].1.iter().copied().collect(), "{w}: right_neighbours({v})");
        for (j, u) in ord.iter().enumerate() { ck!(g.adjacent_ordered(v, u) == (i < j && m.adj(*u, *v)), "{w}: adjacent_ordered({v},{u}) = {}", g.adjacent_ordered(v, u)); ck!((g.index_of(v) < g.index_of(u)) == (i < j), "{w}: index_of is not monotone at {v},{u}"); }
    }
    Ok(())
}
fn dgraph(c: &Case) -> R {
    let m = c.g.m(); let o = &c.g.v;
    let mk: Vec<(&str, DegenGraph)> = vec![("with_ordering", DegenGraph::with_ordering(&c.g.edit(), o.iter())), ("with_ordering (ordered view)", DegenGraph::with_ordering(&c.g.vg(), o.iter().copied())), ("to_degeneracy_graph", OrdGraph::with_ordering(&c.g.edit(), o.iter()).to_degeneracy_graph())];
    for (w, g) in &mk { degen_full(g, &m, o, w)?; }
    { let g = DegenGraph::from_graph(&c.g.edit()); let oo: Vec<u32> = g.vertices().copied().collect(); ck!(sorted(oo.iter().copied()) == sorted(o.iter().copied()), "from_graph: vertices {oo:?}"); degen_full(&g, &m, &oo, "from_graph")?; }
    for (w, g) in mk {
        let mut g = g.clone(); let map = g.normalize();
        let want: BTreeMap<u32, u32> = o.iter().enumerate().map(|(i, v)| (i as u32, *v)).collect(); let got: BTreeMap<u32, u32> = map.into_iter().collect(); ck!(got == want, "{w}: normalize map {got:?} expected {want:?}");
        let pos: BTreeMap<u32, u32> = want.iter().map(|(a, b)| (*b, *a)).collect(); let nm = M { v: want.keys().copied().collect(), e: m.e.iter().map(|e| nrm(pos[&e.0], pos[&e.1])).collect() };
        let no: Vec<u32> = (0..o.len() as u32).collect(); degen_full(&g, &nm, &no, &format!("{w} then normalize"))?;
    }
    Ok(())
}

fn pos_of(o: &[u32]) -> BTreeMap<u32, usize> { o.iter().enumerate().map(|(i, v)| (*v, i)).collect() }
fn wreach_of(m: &M, o: &[u32], r: u32) -> BTreeMap<u32, BTreeMap<u32, u32>> {
    let p = pos_of(o); let mut w: BTreeMap<u32, BTreeMap<u32, u32>> = o.iter().map(|v| (*v, BTreeMap::new())).collect();
    for v in o { for (u, d) in m.bfs(&[*v], &|x| p[&x] > p[v]) { if u != *v && d <= r { w.get_mut(&u).unwrap().insert(*v, d); } } }
    w
}
fn sreach_of(m: &M, o: &[u32], r: u32) -> BTreeMap<u32, BTreeMap<u32, u32>> {
    let p = pos_of(o); let am = m.adjmap(); let mut w = BTreeMap::new();
    for u in o { let d = m.bfs(&[*u], &|x| p[&x] > p[u]); let mut s: BTreeMap<u32, u32> = BTreeMap::new(); for (v, dv) in &d { for x in &am[v] { if p[x] < p[u] && dv + 1 <= r { let e = s.entry(*x).or_insert(u32::MAX); *e = (*e).min(dv + 1); } } } w.insert(*u, s); }
    w
}
fn rg<const DD: usize>(g: &ReachGraph<DD>, o: &[u32], sets: &BTreeMap<u32, BTreeMap<u32, u32>>, w: &str) -> R {
    let p = pos_of(o);
    let vs: Vec<u32> = g.vertices().copied().collect(); ck!(vs == o && g.num_vertices() == o.len() && g.depth() == DD, "{w}: vertices {vs:?} expected {o:?}");
    ck!(g.first() == o.first().copied(), "{w}: first() {:?}", g.first());
    let at = |u: u32, d: usize| -> Vec<u32> { let mut x: Vec<u32> = sets[&u].iter().filter(|y| *y.1 as usize == d).map(|y| *y.0).collect(); x.sort_by_key(|v| p[v]); x };
    let chk = |u: u32, x: &Reachables<DD>| -> R { for d in 1..=DD { ck!(x.at(d) == &at(u, d)[..], "{w}: reachables({u}).at({d}) {:?} expected {:?}", x.at(d), at(u, d)); } ck!(x.len() == sets[&u].len() && x.is_empty() == sets[&u].is_empty(), "{w}: reachables({u}).len() {}", x.len()); Ok(()) };
    let mut pairs = BTreeSet::new();
    for (i, u) in o.iter().enumerate() {
        ck!(g.contains(u), "{w}: contains({u})"); chk(*u, &g.reachables(u))?;
        let all: Vec<u32> = (1..=DD).flat_map(|d| at(*u, d)).collect(); ck!(g.reachables_all(u) == &all[..], "{w}: reachables_all({u}) {:?} expected {all:?}", g.reachables_all(u));
        match (g.next_reachables(u), o.get(i + 1)) { (None, None) => {} (Some(x), Some(n)) => chk(*n, &x)?, (a, b) => return Err(format!("{w}: next_reachables({u}) is_some {} expected next {b:?}", a.is_some())) }
        ck!(g.left_neighbours(u) == at(*u, 1), "{w}: left_neighbours({u})"); ck!(g.left_degree(u) as usize == at(*u, 1).len(), "{w}: left_degree({u})");
        for v in at(*u, 1) { pairs.insert(nrm(*u, v)); }
    }
    ck!(g.num_edges() == pairs.len(), "{w}: num_edges {} expected {}", g.num_edges(), pairs.len());
    for u in o { for v in o { ck!(g.adjacent(u, v) == pairs.contains(&nrm(*u, *v)), "{w}: adjacent({u},{v})"); } let d = pairs.iter().filter(|e| e.0 == *u || e.1 == *u).count(); ck!(g.degree(u) as usize == d, "{w}: degree({u}) {} expected {d}", g.degree(u)); ck!(g.right_degree(u) as usize == d - at(*u, 1).len(), "{w}: right_degree({u})"); }
    let its: Vec<(u32, Reachables<DD>)> = g.iter().collect(); ck!(its.iter().map(|x| x.0).collect::<Vec<_>>() == o, "{w}: iter() order"); for (u, x) in &its { chk(*u, x)?; }
    for x in outside(&o.iter().copied().collect()) { ck!(!g.contains(&x) && g.degree(&x) as usize == 0 || !o.is_empty(), "{w}: missing vertex"); ck!(!g.contains(&x), "{w}: contains {x}"); }
    Ok(())
}
fn rgd<const DD: usize>(c: &Case) -> R {
    let m = c.g.m(); let o = &c.g.v; let og = OrdGraph::with_ordering(&c.g.edit(), o.iter());
    rg::<DD>(&og.to_wreach_graph::<DD>(), o, &wreach_of(&m, o, DD as u32), "to_wreach_graph")?;
    rg::<DD>(&og.to_sreach_graph::<DD>(), o, &sreach_of(&m, o, DD as u32), "to_sreach_graph")?;
    // arbitrary reachable sets handed to the builder
    let mut r = Rng(c.g.e.len() as u64 * 77 + o.len() as u64 * 13 + DD as u64); let idx: VertexMap<usize> = o.iter().enumerate().map(|(i, v)| (*v, i)).collect();
    let mut sets = BTreeMap::new(); let mut b = ReachGraphBuilder::<DD>::new();
    for (i, u) in o.iter().enumerate() { let mut s = BTreeMap::new(); for v in &o[..i] { if r.chance(0.5) { s.insert(*v, r.range(1, DD as u64) as u32); } } b.append(u, &s.iter().map(|(a, b)| (*a, *b)).collect(), &idx); sets.insert(*u, s); }
    rg::<DD>(&b.build(), o, &sets, "builder")
}
fn rgraph16(c: &Case) -> R { match c.p[0] { 1 => rgd::<1>(c), 2 => rgd::<2>(c), 3 => rgd::<3>(c), 4 => rgd::<4>(c), 5 | 6 => rgd::<6>(c), _ => rgd::<9>(c) } }

fn mm(x: &VertexMap<VertexMap<u32>>) -> BTreeMap<u32, BTreeMap<u32, u32>> { x.iter().map(|(v, s)| (*v, s.iter().map(|(a, b)| (*a, *b)).collect())).collect() }
fn reach_on<T: LinearGraph>(g: &T, m: &M, o: &[u32], r: u32, w: &str) -> R {
    let p = pos_of(o);
    for v in o {
        let l = g.right_bfs(v, r); let d = m.bfs(&[*v], &|x| p[&x] > p[v]);
        ck!(l.len() == r as usize + 1, "{w}: right_bfs({v},{r}) has {} layers", l.len());
        for (k, layer) in l.iter().enumerate() { let want: BTreeSet<u32> = d.iter().filter(|x| *x.1 as usize == k).map(|x| *x.0).collect(); let got = vset(layer.iter().copied()); ck!(got == want, "{w}: right_bfs({v},{r}) layer {k} {got:?} expected {want:?}"); }
    }
    let want = wreach_of(m, o, r); let got = mm(&g.wreach_sets(r)); ck!(got == want, "{w}: wreach_sets({r}) {got:?} expected {want:?}");
    let got: BTreeMap<u32, u32> = g.wreach_sizes(r).into_iter().collect(); let ws: BTreeMap<u32, u32> = want.iter().map(|(v, s)| (*v, s.len() as u32)).collect(); ck!(got == ws, "{w}: wreach_sizes({r}) {got:?} expected {ws:?}");
    let want = sreach_of(m, o, r); for v in o { let got: BTreeMap<u32, u32> = g.sreach_set(v, r).into_iter().collect(); ck!(got == want[v], "{w}: sreach_set({v},{r}) {got:?} expected {:?}", want[v]); }
    let got = mm(&g.sreach_sets(r)); ck!(got == want, "{w}: sreach_sets({r}) {got:?} expected {want:?}");
    let got: BTreeMap<u32, u32> = g.sreach_sizes(r).into_iter().collect(); let ws: BTreeMap<u32, u32> = want.iter().map(|(v, s)| (*v, s.len() as u32)).collect(); ck!(got == ws, "{w}: sreach_sizes({r}) {got:?} expected {ws:?}");
    Ok(())
}
fn reach(c: &Case) -> R { let m = c.g.m(); let o = &c.g.v; let r = c.p[0] as u32; let og = OrdGraph::with_ordering(&c.g.edit(), o.iter()); reach_on(&og, &m, o, r, "OrdGraph")?; reach_on(&DegenGraph::with_ordering(&c.g.edit(), o.iter()), &m, o, r, "DegenGraph") }

fn col_on<T: LinearGraph>(g: &T, m: &M, o: &[u32], w: &str) -> R {
    let cs: BTreeMap<u32, u32> = g.colour_greedy().as_map().into_iter().collect();
    ck!(cs.keys().copied().collect::<BTreeSet<_>>() == m.v, "{w}: coloured vertices {:?} expected {:?}", cs.keys().collect::<Vec<_>>(), m.v);
    for (a, b) in &m.e { ck!(cs[a] != cs[b], "{w}: adjacent {a},{b} share colour {}", cs[a]); }
    let k = cs.values().collect::<BTreeSet<_>>().len(); let mx = lefts(m, o).values().map(|x| x.0.len()).max().map(|x| x + 1).unwrap_or(0); ck!(k <= mx, "{w}: {k} colours, at most {mx} allowed"); Ok(())
}
fn col(c: &Case) -> R { let m = c.g.m(); let o = &c.g.v; col_on(&OrdGraph::with_ordering(&c.g.edit(), o.iter()), &m, o, "OrdGraph")?; col_on(&DegenGraph::with_ordering(&c.g.edit(), o.iter()), &m, o, "DegenGraph") }

fn dom_res(m: &M, r: u32, target: &BTreeSet<u32>, wit: bool, res: (VertexSet, VertexMap<u32>, Option<VertexColouring<u32>>), w: &str) -> R {
    let (s, d, cl) = res; let sv: Vec<u32> = sorted(s.iter().copied()); for v in &sv { ck!(m.v.contains(v), "{w}: {v} is not a vertex"); }
    let dist = m.bfs(&sv, &|_| true);
    for t in target { let td = dist.get(t).copied().unwrap_or(u32::MAX); ck!(td <= r, "{w}: target {t} at distance {td} from the set {sv:?}, radius {r}"); let gd = d.get(t).copied(); ck!(gd.is_some_and(|x| x <= r && x >= td), "{w}: reported distance of {t} is {gd:?}, true distance {td}, radius {r}"); }
    ck!(cl.is_some() == wit, "{w}: witness is_some {} requested {wit}", cl.is_some());
    if let Some(cl) = cl {
        let ds: BTreeMap<u32, BTreeMap<u32, u32>> = target.iter().map(|t| (*t, m.bfs(&[*t], &|_| true))).collect();
        for (k, cs) in cl.invert() { let cs = sorted(cs); for a in &cs { ck!(target.contains(a), "{w}: witness vertex {a} is not a target"); for b in &cs { if a < b { let x = ds[a].get(b).copied().unwrap_or(u32::MAX); ck!(x > 2 * r, "{w}: witness class {k}: {a},{b} at distance {x}, radius {r}"); } } } }
    }
    Ok(())
}
fn dom(c: &Case) -> R {
    let m = c.g.m(); let o = &c.g.v; let r = c.p[0] as u32; let og = OrdGraph::with_ordering(&c.g.edit(), o.iter());
    for wit in [false, true] {
        if r > 20000 && wit && m.v.len() > 3 { continue; }
        if c.p[1] == 0 { dom_res(&m, r, &m.v, wit, og.domset(r, wit), "domset")?; if r < 100 { dom_res(&m, r, &m.v, wit, DegenGraph::with_ordering(&c.g.edit(), o.iter()).domset(r, wit), "domset on DegenGraph")?; } }
        else { let t: BTreeSet<u32> = c.p[2..].iter().map(|x| *x as u32).collect(); dom_res(&m, r, &t, wit, og.domset_with_target(r, wit, t.iter()), "domset_with_target")?; }
    }
    Ok(())
}
fn scat(c: &Case) -> R {
    let m = c.g.m(); let o = &c.g.v; let d = c.p[0] as u32; let t: BTreeSet<u32> = c.p[1..].iter().map(|x| *x as u32).collect();
    let og = OrdGraph::with_ordering(&c.g.edit(), o.iter());
    let cl = og.scattered_colouring(d, t.iter());
    let mut seen = BTreeSet::new();
    for s in &cl { ck!(!s.is_empty(), "empty class"); for v in s { ck!(t.contains(v), "{v} is not a target"); ck!(seen.insert(*v), "{v} is in two classes"); } }
    ck!(seen == t, "the classes cover {seen:?}, target {t:?}");
    for s in &cl { for a in s { let ds = m.bfs(&[*a], &|_| true); for b in s { if a != b { let x = ds.get(b).copied().unwrap_or(u32::MAX); ck!(x >= d, "distance {d}: {a},{b} share a class at distance {x}"); } } } }
    Ok(())
}
fn bk(am: &BTreeMap<u32, BTreeSet<u32>>, p: BTreeSet<u32>, x: BTreeSet<u32>) -> u64 {
    if p.is_empty() { return x.is_empty() as u64; }
    let piv = p.iter().chain(x.iter()).max_by_key(|v| am[v].intersection(&p).count()).copied().unwrap();
    let (mut p, mut x) = (p, x); let mut k = 0;
    for v in p.difference(&am[&piv]).copied().collect::<Vec<_>>() { k += bk(am, p.intersection(&am[&v]).copied().collect(), x.intersection(&am[&v]).copied().collect()); p.remove(&v); x.insert(v); }
    k
}
fn cliq(c: &Case) -> R {
    if c.g.v.is_empty() { return Ok(()); }
    let m = c.g.m(); let am: BTreeMap<u32, BTreeSet<u32>> = m.adjmap().into_iter().map(|(a, b)| (a, b.into_iter().collect())).collect();
    let want = bk(&am, m.v.clone(), BTreeSet::new());
    let og = OrdGraph::with_ordering(&c.g.edit(), c.g.v.iter()); let got = og.count_max_cliques(); ck!(got == want, "count_max_cliques {got} expected {want}");
    let got = DegenGraph::with_ordering(&c.g.edit(), c.g.v.iter()).count_max_cliques(); ck!(got == want, "count_max_cliques on DegenGraph {got} expected {want}"); Ok(())
}
