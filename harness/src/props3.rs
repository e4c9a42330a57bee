// C22..C27
use crate::base::*;
use crate::ck;
use graphbench::datastructures::sreach_trace_oracle::*;
use graphbench::degengraph::*;
use graphbench::dtfgraph::*;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use graphbench::io::*;
use graphbench::iterators::*;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufReader, Read};

fn case(op: &str, g: G, p: Vec<u64>) -> Case { Case { op: op.into(), g, p, ..Default::default() } }

pub fn generate(prop: &str, c: &mut Ctx) {
    let mut r = c.rng.clone();
    match prop {
        "C22" => { for n in 0..=4 { all_graphs(n, false, &mut |g| for d in 1..=4 { for f in 0..2 { c.case(case("aug", g.clone(), vec![d, f])); } }); } while c.time_left() { let n = r.range(1, 18) as usize; let g = rgraph(&mut r, n, false, u32::MAX); let (d, f) = (r.range(1, 6), r.below(3)); c.case(case("aug", g, vec![d, f])); } }
        "C23" => {
            for n in 0..=3 { all_graphs(n, false, &mut |g| for d in 1..=3 { c.case(case("hist", g.clone(), vec![3, d, 0])); c.case(case("hist", g.clone(), vec![3, d, 0, 4, 1, 0])); }); }
            while c.time_left() {
                let n = r.range(1, 12) as usize; let g = rgraph(&mut r, n, false, u32::MAX); let mut p = vec![]; let l: Vec<u64> = g.v.iter().map(|x| *x as u64).chain([7, 12345]).collect();
                for _ in 0..r.range(0, 14) { match r.below(5) { 0 => p.extend([5, r.pick(&l), 0]), 1 | 2 => p.extend([10 + r.below(4), r.pick(&l), r.pick(&l)]), 3 => p.extend([3, r.range(1, 4), r.below(2)]), _ => p.extend([4, r.range(1, 5), 0]) } }
                c.case(case("hist", g, p));
            }
        }
        "C24" => { for n in 0..=4 { all_graphs(n, false, &mut |g| for d in 0..=3 { c.case(case("dom", g.clone(), vec![d])); }); } while c.time_left() { let n = r.range(1, 25) as usize; let g = rgraph(&mut r, n, false, u32::MAX); let d = r.below(6); c.case(case("dom", g, vec![d])); } }
        "C25" => { for k in 0..=4u32 { for pi in perms(k) { all_graphs(k, false, &mut |mut g| { g.v = pi.clone(); for s in 0..1u64 << k { c.case(case("trace", g.clone(), (0..k as u64).filter(|i| s >> i & 1 == 1).collect())); } }); } } while c.time_left() { let n = r.range(1, 14) as usize; let g = rgraph(&mut r, n, false, u32::MAX); let mut p = vec![]; let q = r.range(1, 5); for v in &g.v { if r.below(6) < q && p.len() < 6 { p.push(*v as u64); } } c.case(case("trace", g, p)); } }
        "C26" => {
            let toks = ["0", "1", "17", "4294967295", "4294967296", "-1", "+3", "a", "", " ", "\t", "1.5", "007", "\u{a0}", "é", "١"]; let seps = [" ", "\t", "  ", " \t ", "\u{a0}", ","]; let ends = ["\n", "\r\n", "\n\n", "\r", ""];
            for a in toks { for b in toks { for s in [" ", ","] { for e in ["\n", ""] { let mut k = Case { op: "buf".into(), ..Default::default() }; k.bytes = format!("{a}{s}{b}{e}").into_bytes(); c.case(k); } } } }
            for b in [vec![0xffu8], vec![b'1', b' ', 0xc3, b'\n'], vec![b'1', b' ', b'2', b'\n', 0x80, b'\n'], vec![0], vec![]] { let k = Case { op: "buf".into(), bytes: b, ..Default::default() }; c.case(k); }
            while c.time_left() {
                let mut b: Vec<u8> = vec![];
                for _ in 0..r.below(8) { let good = r.chance(0.8); let t = |r: &mut Rng| if good { format!("{}", r.below(20)) } else { r.pick(&toks).to_string() }; let (x, y) = (t(&mut r), t(&mut r)); let s = if good { r.pick(&[" ", "\t", "  "]) } else { r.pick(&seps) }; let e = if r.chance(0.9) { r.pick(&["\n", "\r\n"]) } else { r.pick(&ends) }; b.extend(format!("{x}{s}{y}{e}").bytes()); if r.chance(0.03) { b.push(r.below(256) as u8); } }
                let mut p = vec![]; if r.chance(0.15) { p.push(r.below(b.len() as u64 + 1)); p.push(r.below(3)); }
                c.case(Case { op: "buf".into(), bytes: b.clone(), p, ..Default::default() });
                let mut b2: Vec<u8> = vec![]; for _ in 0..r.below(8) { b2.extend(if r.chance(0.85) { format!("{}\n", r.below(20)) } else { format!("{}{}", r.pick(&toks), r.pick(&ends)) }.bytes()); if r.chance(0.03) { b2.push(r.below(256) as u8); } }
                c.case(Case { op: "list".into(), bytes: b2, ..Default::default() });
                if r.chance(0.05) { let n = r.below(12) as usize; let g = rgraph(&mut r, n, true, u32::MAX); c.case(case("round", g, vec![])); c.case(Case { op: "file".into(), bytes: b, ..Default::default() }); }
            }
        }
        "C27" => {
            for a in 0..3u64 { for b in 0..3 { for x in 0..3 { for y in 0..3 { for k in 0..4u64 { c.case(case("vore", G::default(), vec![k, a, b, x, y])); } } } } }
            while c.time_left() {
                let n = r.below(10) as usize; let m = r.below(10) as usize;
                let mx = r.pick(&[3u64, 10, 1 << 30]);
                let mk = |r: &mut Rng, n: usize| { let mut e = vec![]; for _ in 0..n { e.push((r.below(15) as u32, r.below(mx) as u32)); } let mut s = BTreeSet::new(); e.into_iter().filter(|x| s.insert(x.0)).collect::<Vec<_>>() };
                let mut k = Case { op: "colour".into(), ..Default::default() }; k.g.e = mk(&mut r, n); k.h.e = mk(&mut r, m); k.p = (0..r.below(8)).map(|_| r.below(18)).collect(); c.case(k);
            }
        }
        _ => {}
    }
}
pub fn run(c: &Case) -> R { match c.prop.as_str() { "C22" => aug(c), "C23" => book(c), "C24" => dom(c), "C25" => trace(c), "C26" => io(c), "C27" => col(c), _ => Ok(()) } }

fn aug(c: &Case) -> R {
    let m = c.g.m(); let (d, f) = (c.p[0] as usize, c.p[1] as usize);
    let ds: BTreeMap<u32, BTreeMap<u32, u32>> = m.v.iter().map(|v| (*v, m.bfs(&[*v], &|_| true))).collect();
    for view in 0..2 {
        let mut h = if view == 0 { DTFGraph::orient(&c.g.edit()) } else { DTFGraph::orient(&c.g.vg()) };
        for step in if view == 0 { vec![d] } else { (1..=d).collect() } {
            h.augment(step, f);
            ck!(h.get_depth() == step, "augment({step}): depth {}", h.get_depth());
            for u in &m.v { for v in &m.v { if u != v { let w = ds[u].get(v).copied().filter(|x| *x as usize <= step); let got = h.small_distance(u, v); ck!(got == w, "depth {step}: small_distance({u},{v}) {got:?} expected {w:?}"); } } }
        }
    }
    Ok(())
}
type WA = BTreeSet<(u32, u32, usize)>;
fn check_dtf(h: &mut DTFGraph, vs: &BTreeSet<u32>, arcs: &WA, depth: usize, w: &str) -> R {
    ck!(h.get_depth() == depth, "{w}: depth {} expected {depth}", h.get_depth());
    ck!(h.num_vertices() == vs.len() && sorted(h.vertices().copied()) == vs.iter().copied().collect::<Vec<_>>(), "{w}: vertices");
    let at = |d: usize| arcs.iter().filter(|x| x.2 == d).map(|x| (x.0, x.1)).collect::<Vec<_>>();
    for d in 1..=depth + 2 { ck!(h.num_arcs_at_depth(d) == at(d).len(), "{w}: num_arcs_at_depth({d}) {} expected {}", h.num_arcs_at_depth(d), at(d).len()); }
    ck!(h.num_edges() == at(1).len(), "{w}: num_edges");
    let mut all: Vec<(u32, u32)> = arcs.iter().map(|x| (x.0, x.1)).collect(); all.sort_unstable();
    let mut got: Vec<(u32, u32)> = h.arcs().collect(); got.sort_unstable(); ck!(got == all, "{w}: arcs() {got:?} expected {all:?}");
    for d in 1..=depth { let mut got: Vec<(u32, u32)> = h.arcs_at(d).collect(); got.sort_unstable(); ck!(got == at(d), "{w}: arcs_at({d}) {got:?} expected {:?}", at(d)); }
    for u in vs {
        let i: Vec<_> = arcs.iter().filter(|x| x.1 == *u).collect(); let o: Vec<_> = arcs.iter().filter(|x| x.0 == *u).collect();
        ck!(h.in_degree(u) as usize == i.len() && h.out_degree(u) as usize == o.len() && h.degree(u) as usize == i.len() + o.len(), "{w}: degrees of {u}: in {} out {} expected {} {}", h.in_degree(u), h.out_degree(u), i.len(), o.len());
        for d in 1..=depth { ck!(sorted(h.in_neighbours_at(u, d).copied()) == arcs.iter().filter(|x| x.1 == *u && x.2 == d).map(|x| x.0).collect::<Vec<_>>(), "{w}: in_neighbours_at({u},{d})"); }
        ck!(sorted(h.in_neighbours(u).copied()) == sorted(i.iter().map(|x| x.0)), "{w}: in_neighbours({u})");
        for v in vs {
            let ws: Vec<usize> = arcs.iter().filter(|x| x.0 == *u && x.1 == *v).map(|x| x.2).collect();
            ck!(h.has_arc(u, v) == !ws.is_empty(), "{w}: has_arc({u},{v})"); ck!(h.get_arc_depth(u, v) == ws.iter().min().map(|x| *x as u32), "{w}: get_arc_depth({u},{v}) {:?}", h.get_arc_depth(u, v));
            for d in 1..=depth + 1 { ck!(h.has_arc_at(u, v, d) == ws.contains(&d), "{w}: has_arc_at({u},{v},{d})"); }
            ck!(h.adjacent(u, v) == arcs.iter().any(|x| (x.0, x.1) == (*u, *v) || (x.0, x.1) == (*v, *u)), "{w}: adjacent({u},{v})");
        }
    }
    let un: EditGraph = h.to_undirected(); let mut m = M { v: vs.clone(), ..Default::default() }; for x in arcs { m.e.insert(nrm(x.0, x.1)); } check_graph(&un, &m, &format!("{w}: to_undirected"))?;
    // arc-restricted copy: every second pair
    let keep: Vec<(u32, u32)> = m.e.iter().enumerate().filter(|(i, _)| i % 2 == 0).map(|(_, e)| *e).collect();
    let sub = h.edge_subgraph(keep.iter().copied()); let mut got: Vec<(u32, u32)> = sub.arcs().collect(); got.sort_unstable();
    let want: Vec<(u32, u32)> = arcs.iter().map(|x| (x.0, x.1)).filter(|x| keep.contains(&nrm(x.0, x.1))).collect::<BTreeSet<_>>().into_iter().collect();
    ck!(got == want && sub.num_vertices() == vs.len() && sub.num_arcs_at_depth(1) == want.len(), "{w}: edge_subgraph({keep:?}) arcs {got:?} expected {want:?}");
    for d in 1..=depth {
        { let l = h.layer(d); let ad = at(d);
        ck!(l.num_edges() == ad.len() && l.num_vertices() == vs.len(), "{w}: layer({d}) counts");
        for u in vs {
            let (i, o) = (ad.iter().filter(|x| x.1 == *u).count(), ad.iter().filter(|x| x.0 == *u).count());
            ck!(l.in_degree(u) as usize == i && l.out_degree(u) as usize == o && l.degree(u) as usize == i + o, "{w}: layer({d}) degrees of {u}: in {} out {} total {} expected {i} {o}", l.in_degree(u), l.out_degree(u), l.degree(u));
            ck!(sorted(l.in_neighbours(u).copied()) == ad.iter().filter(|x| x.1 == *u).map(|x| x.0).collect::<Vec<_>>(), "{w}: layer({d}) in_neighbours({u})");
            for v in vs { ck!(l.has_arc(u, v) == ad.contains(&(*u, *v)), "{w}: layer({d}) has_arc({u},{v})"); let a = ad.contains(&(*u, *v)) || ad.contains(&(*v, *u)); ck!(l.adjacent(u, v) == a, "{w}: layer({d}) adjacent({u},{v}) {} expected {a}", l.adjacent(u, v)); }
        } }
        ck!(h.get_depth() == depth, "{w}: layer({d}) changed the depth to {}", h.get_depth());
    }
    Ok(())
}
fn book(c: &Case) -> R {
    let m = c.g.m(); let mut h = DTFGraph::orient(&c.g.edit()); let mut vs = m.v.clone(); let mut depth = 1usize;
    let read = |h: &DTFGraph, vs: &BTreeSet<u32>, depth: usize| -> WA { let mut a = WA::new(); for u in vs { for v in vs { for d in 1..=depth { if h.has_arc_at(u, v, d) { a.insert((*u, *v, d)); } } } } a };
    let mut arcs = read(&h, &vs, 1);
    ck!(arcs.len() == m.e.len() && m.e.iter().all(|e| arcs.contains(&(e.0, e.1, 1)) != arcs.contains(&(e.1, e.0, 1))), "orient: arcs {arcs:?} are not an orientation of {:?}", m.e);
    check_dtf(&mut h, &vs, &arcs, depth, "orient")?;
    for (i, t) in c.p.chunks(3).enumerate() {
        let what = match t[0] {
            3 => { let d = t[1] as usize; h.augment(d, t[2] as usize); let before = arcs.clone(); depth = depth.max(d); arcs = read(&h, &vs, depth); ck!(before.iter().all(|a| arcs.contains(a)), "augment({d}) lost arcs"); format!("augment({d},{})", t[2]) }
            4 => { let d = t[1] as usize; let l = h.layer(d); let _ = l.num_edges(); depth = depth.max(d); format!("layer({d})") }
            5 => { h.add_vertex(t[1] as u32); vs.insert(t[1] as u32); format!("add_vertex({})", t[1]) }
            k => { let d = (k - 10) as usize + 1; let (u, v) = (t[1] as u32, t[2] as u32); if u == v { continue; } h.add_arc(&u, &v, d); depth = depth.max(d); vs.insert(u); vs.insert(v); arcs.insert((u, v, d)); format!("add_arc({u},{v},{d})") }
        };
        check_dtf(&mut h, &vs, &arcs, depth, &format!("step {i} {what}"))?;
    }
    Ok(())
}
fn dom(c: &Case) -> R {
    let m = c.g.m(); let r = c.p[0] as u32; let mut h = DTFGraph::orient(&c.g.edit()); let s = sorted(h.domset(r));
    for v in &s { ck!(m.v.contains(v), "{v} is not a vertex"); }
    let d = m.bfs(&s, &|_| true); for v in &m.v { ck!(d.get(v).is_some_and(|x| *x <= r), "vertex {v} at distance {:?} from {s:?}, radius {r}", d.get(v)); }
    Ok(())
}
fn trace(c: &Case) -> R {
    let m = c.g.m(); let g = DegenGraph::with_ordering(&c.g.edit(), c.g.v.iter());
    let set: BTreeSet<u32> = c.p.iter().map(|x| *x as u32).collect(); let inner: Vec<u32> = c.g.v.iter().copied().filter(|v| set.contains(v)).collect();
    let o = SReachTraceOracle::for_graph(&g);
    let mut want: BTreeMap<Vec<u32>, usize> = BTreeMap::new(); let mut nc = 0;
    for v in &m.v { if !set.contains(v) { let t: Vec<u32> = inner.iter().copied().filter(|x| m.adj(*x, *v)).collect(); nc += !t.is_empty() as usize; *want.entry(t).or_default() += 1; } }
    let got: BTreeMap<Vec<u32>, usize> = o.compute_traces(&inner, &g).into_iter().filter(|x| x.1 > 0).collect();
    ck!(got == want, "compute_traces({inner:?}) {got:?} expected {want:?}");
    let k = o.compute_neighbour_count(&inner, &g); ck!(k == nc, "compute_neighbour_count({inner:?}) {k} expected {nc}");
    for extra in 0..2u32 { let need = 2usize.pow(extra); let all = (0..1u32 << inner.len()).all(|s| { let t: Vec<u32> = inner.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(_, v)| *v).collect(); want.get(&t).copied().unwrap_or(0) >= need }); let got = o.is_shattered(inner.iter().rev(), inner.len() as u32 + extra, &g); ck!(got == all, "is_shattered({inner:?},{}) {got} expected {all}", inner.len() as u32 + extra); }
    Ok(())
}

/// delivers `data` in small pieces and then fails
struct Failing { data: Vec<u8>, at: usize, kind: u64, step: usize }
impl Read for Failing {
    fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> {
        if self.at >= self.data.len() { return Err(std::io::Error::new(match self.kind { 0 => std::io::ErrorKind::Other, 1 => std::io::ErrorKind::UnexpectedEof, _ => std::io::ErrorKind::ConnectionReset }, "read failure")); }
        let n = self.step.min(b.len()).min(self.data.len() - self.at); b[..n].copy_from_slice(&self.data[self.at..self.at + n]); self.at += n; Ok(n)
    }
}
fn lines(b: &[u8]) -> Option<Vec<String>> {
    let mut out = vec![]; let mut rest = b;
    while !rest.is_empty() { let (l, nl) = match rest.iter().position(|x| *x == b'\n') { Some(i) => { let l = &rest[..i]; rest = &rest[i + 1..]; (l, true) } None => { let l = rest; rest = &[]; (l, false) } }; let l = if nl && l.last() == Some(&b'\r') { &l[..l.len() - 1] } else { l }; out.push(String::from_utf8(l.to_vec()).ok()?); }
    Some(out)
}
fn want_graph(b: &[u8]) -> Option<M> {
    let mut m = M::default();
    for l in lines(b)? { let t: Vec<&str> = l.split_whitespace().collect(); if t.len() != 2 { return None; } m.adde(t[0].parse().ok()?, t[1].parse().ok()?); }
    Some(m)
}
fn scratch() -> std::path::PathBuf { use std::sync::atomic::*; static N: AtomicU64 = AtomicU64::new(0); let d = std::env::temp_dir().join(format!("gbh-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst))); std::fs::create_dir_all(&d).unwrap(); d }
struct Dir(std::path::PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
fn judge(got: std::io::Result<EditGraph>, want: &Option<M>, w: &str) -> R {
    match (got, want) { (Ok(g), Some(m)) => check_graph(&g, m, w), (Err(_), None) => Ok(()), (Ok(_), None) => Err(format!("{w}: accepted malformed input")), (Err(e), Some(_)) => Err(format!("{w}: rejected well-formed input: {e}")) }
}
fn io(c: &Case) -> R {
    let b = c.bytes.clone();
    match c.op.as_str() {
        "buf" => {
            if c.p.len() == 2 {
                let cut = (c.p[0] as usize).min(b.len());
                let mk = || Box::new(BufReader::with_capacity(5, Failing { data: b[..cut].to_vec(), at: 0, kind: c.p[1], step: 3 }));
                ck!(EditGraph::from_buf(mk()).is_err(), "EditGraph::from_buf: a failing reader must give an error");
                ck!(VertexSet::from_buf(mk()).is_err() && Vec::<u32>::from_buf(mk()).is_err(), "vertex list from_buf: a failing reader must give an error");
                return Ok(());
            }
            judge(EditGraph::from_buf(Box::new(BufReader::with_capacity(7, std::io::Cursor::new(b.clone())))), &want_graph(&b), "from_buf")
        }
        "list" => {
            let want: Option<Vec<u32>> = lines(&b).and_then(|l| l.iter().map(|x| x.trim().parse().ok()).collect());
            let g1 = Vec::<u32>::from_buf(Box::new(std::io::Cursor::new(b.clone()))).ok(); ck!(g1 == want, "Vec::from_buf {g1:?} expected {want:?}");
            let g2 = VertexSet::from_buf(Box::new(std::io::Cursor::new(b))).ok().map(vset); ck!(g2 == want.map(vset), "VertexSet::from_buf {g2:?}"); Ok(())
        }
        "file" => {
            let d = Dir(scratch()); let p = d.0.join("g.txt"); std::fs::write(&p, &b).unwrap(); let f = p.to_str().unwrap(); let w = want_graph(&b);
            judge(EditGraph::from_txt(f), &w, "from_txt")?; judge(EditGraph::from_file(f), &w, "from_file")?;
            // a plain file is not a gzip stream
            if !b.is_empty() { ck!(EditGraph::from_gzipped(f).is_err(), "from_gzipped accepted a file that is not gzip"); }
            ck!(EditGraph::from_txt(d.0.join("none.txt").to_str().unwrap()).is_err() && EditGraph::from_file(d.0.join("g.xyz").to_str().unwrap()).is_err(), "missing file"); Ok(())
        }
        _ => {
            let d = Dir(scratch()); let m = c.g.m(); let g = c.g.edit(); let (t, z) = (d.0.join("a.txt"), d.0.join("a.txt.gz")); let (t, z) = (t.to_str().unwrap(), z.to_str().unwrap());
            let mut w = M { e: m.e.clone(), ..Default::default() }; for e in &m.e { w.v.insert(e.0); w.v.insert(e.1); }
            g.write_txt(t).map_err(|e| e.to_string())?; g.write_gzipped(z).map_err(|e| e.to_string())?;
            judge(EditGraph::from_txt(t), &Some(w.clone()), "graph text round trip")?; judge(EditGraph::from_gzipped(z), &Some(w.clone()), "graph gzip round trip")?; judge(EditGraph::from_file(z), &Some(w), "graph file round trip")?;
            let seq = c.g.v.clone(); seq.write_txt(t).map_err(|e| e.to_string())?; seq.write_gzipped(z).map_err(|e| e.to_string())?;
            for r in [Vec::<u32>::from_txt(t), Vec::<u32>::from_file(t), Vec::<u32>::from_gzipped(z)] { let r = r.map_err(|e| e.to_string())?; ck!(r == seq, "sequence round trip {r:?} expected {seq:?}"); }
            let s: VertexSet = seq.iter().copied().collect(); s.write_txt(t).map_err(|e| e.to_string())?; s.write_gzipped(z).map_err(|e| e.to_string())?;
            for r in [VertexSet::from_txt(t), VertexSet::from_file(z), VertexSet::from_gzipped(z)] { let r = r.map_err(|e| e.to_string())?; ck!(r == s, "vertex set round trip"); }
            Ok(())
        }
    }
}

fn show(x: &Option<VertexOrEdge>) -> String { match x { None => "nothing".into(), Some(VertexOrEdge::V(v)) => format!("V({v})"), Some(VertexOrEdge::E((a, b))) => format!("E({a},{b})") } }
fn col(c: &Case) -> R {
    if c.op == "vore" {
        let p: Vec<u32> = c.p.iter().map(|x| *x as u32).collect();
        let a = if p[0] & 1 == 0 { VertexOrEdge::V(p[1]) } else { VertexOrEdge::E((p[1], p[2])) }; let b = if p[0] & 2 == 0 { VertexOrEdge::V(p[3]) } else { VertexOrEdge::E((p[3], p[4])) };
        let ends = |x: VertexOrEdge| -> BTreeSet<u32> { match x { VertexOrEdge::V(v) => [v].into(), VertexOrEdge::E((a, b)) => [a, b].into() } };
        let sh: BTreeSet<u32> = ends(a).intersection(&ends(b)).copied().collect();
        let got = a.intersection(b);
        let same_edge = matches!((a, b), (VertexOrEdge::E(x), VertexOrEdge::E(y)) if x == y || (x.1, x.0) == y);
        let ok = match got { None => sh.is_empty(), Some(VertexOrEdge::V(v)) => !same_edge && sh == [v].into(), Some(VertexOrEdge::E(e)) => same_edge && sh == [e.0, e.1].into() };
        ck!(ok, "intersection of {} and {} is {}, shared ends {sh:?}", show(&Some(a)), show(&Some(b)), show(&got));
        ck!(a.intersects(b) == !sh.is_empty(), "intersects {}", a.intersects(b));
        ck!(a.is_vertex() == (p[0] & 1 == 0) && a.is_edge() != a.is_vertex() && a.as_vertex().is_some() == a.is_vertex() && a.as_edge().is_some() == a.is_edge(), "is_vertex/is_edge");
        ck!(a.as_vertex().is_none_or(|v| v == p[1]) && a.as_edge().is_none_or(|e| e == (p[1], p[2])), "as_vertex/as_edge");
        return Ok(());
    }
    let a: BTreeMap<u32, u32> = c.g.e.iter().copied().collect(); let b: BTreeMap<u32, u32> = c.h.e.iter().copied().collect();
    let map: VertexMap<u32> = a.iter().map(|(x, y)| (*x, *y)).collect();
    let mut want: BTreeMap<u32, BTreeSet<u32>> = BTreeMap::new(); for (v, k) in &a { want.entry(*k).or_default().insert(*v); }
    let ca = VertexColouring::from_iter(a.iter().map(|(x, y)| (*x, *y)));
    for inv in [map.invert(), ca.invert()] { let got: BTreeMap<u32, BTreeSet<u32>> = inv.into_iter().map(|(k, s)| (k, vset(s))).collect(); ck!(got == want, "invert {got:?} expected {want:?}"); }
    for mj in [map.majority_set(), ca.majority_set()] { match mj { None => ck!(a.is_empty(), "majority_set None"), Some((s, k)) => { ck!(want.get(&k) == Some(&vset(s.iter().copied())), "majority_set {k} {s:?} is not a group"); ck!(want.values().all(|x| x.len() <= s.len()), "majority_set {s:?} is not largest"); } } }
    ck!(ca.len() == a.len() && sorted(ca.vertices().copied()) == a.keys().copied().collect::<Vec<_>>(), "vertices"); let mut cs: Vec<u32> = ca.colours().copied().collect(); cs.sort_unstable(); ck!(cs == want.keys().copied().collect::<Vec<_>>(), "colours {cs:?}");
    for v in 0..20 { ck!(ca.get(&v) == a.get(&v) && ca.contains(&v) == a.contains_key(&v), "get({v})"); }
    let sel: Vec<u32> = c.p.iter().map(|x| *x as u32).collect(); let sub: BTreeMap<u32, u32> = ca.subset(sel.iter()).as_map().into_iter().collect(); let ws: BTreeMap<u32, u32> = a.iter().filter(|x| sel.contains(x.0)).map(|(x, y)| (*x, *y)).collect(); ck!(sub == ws, "subset {sub:?} expected {ws:?}");
    let mut e = VertexColouring::from_iter(a.iter().map(|(x, y)| (*x, *y))); let cb = VertexColouring::from_iter(b.iter().map(|(x, y)| (*x, *y)));
    e.disjoint_extend(&cb); let e: BTreeMap<u32, u32> = e.as_map().into_iter().collect();
    let keys: BTreeSet<u32> = a.keys().chain(b.keys()).copied().collect(); ck!(e.keys().copied().collect::<BTreeSet<_>>() == keys, "disjoint_extend: vertices");
    for (v, k) in &a { ck!(e[v] == *k, "disjoint_extend changed the colour of {v}"); }
    for (v, k) in &b { if !a.contains_key(v) { ck!(!a.values().any(|x| x == &e[v]), "disjoint_extend: added vertex {v} got the used colour {}", e[v]); for (u, l) in &b { if !a.contains_key(u) { ck!((k == l) == (e[u] == e[v]), "disjoint_extend: classes of {u},{v} changed"); } } } }
    let sets: Vec<VertexSet> = want.values().map(|s| s.iter().copied().collect()).collect(); let fs: BTreeMap<u32, u32> = VertexColouring::from_sets(sets.clone()).as_map().into_iter().collect(); for (i, s) in sets.iter().enumerate() { for v in s { ck!(fs[v] == i as u32, "from_sets"); } } ck!(fs.len() == a.len(), "from_sets size");
    Ok(())
}
