use graphbench::editdigraph::EditDigraph;
use graphbench::editgraph::EditGraph;
use graphbench::graph::*;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet, HashMap, VecDeque};
use std::io::{Seek, SeekFrom, Write};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

pub type R = Result<(), String>;
thread_local! { pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()); }
pub static CASE_START: AtomicU64 = AtomicU64::new(0);
pub static CASE_NO: AtomicU64 = AtomicU64::new(0);
pub const HANG_SECS: u64 = 40;

#[macro_export]
macro_rules! ck { ($c:expr, $($a:tt)*) => { if !($c) { return Err(format!($($a)*)); } }; }

/// a graph description: vertices in insertion order, edges/arcs in insertion order
#[derive(Clone, Debug, PartialEq, Default)]
pub struct G { pub v: Vec<u32>, pub e: Vec<(u32, u32)> }
#[derive(Clone, Debug, Default)]
pub struct Case { pub prop: String, pub op: String, pub g: G, pub h: G, pub p: Vec<u64>, pub bytes: Vec<u8> }

fn csv<T: std::fmt::Display>(v: &[T]) -> String { v.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",") }
impl G {
    fn show(&self) -> String { format!("{}/{}", csv(&self.v), self.e.iter().map(|(a, b)| format!("{a}-{b}")).collect::<Vec<_>>().join(",")) }
    fn parse(s: &str) -> G {
        let (a, b) = s.split_once('/').unwrap();
        G { v: a.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), e: b.split(',').filter(|x| !x.is_empty()).map(|x| { let (p, q) = x.split_once('-').unwrap(); (p.parse().unwrap(), q.parse().unwrap()) }).collect() }
    }
    pub fn m(&self) -> M { let mut m = M::default(); for v in &self.v { m.v.insert(*v); } for &(a, b) in &self.e { m.v.insert(a); m.v.insert(b); m.e.insert(nrm(a, b)); } m }
    pub fn d(&self) -> D { let mut m = D::default(); for v in &self.v { m.v.insert(*v); } for &(a, b) in &self.e { m.v.insert(a); m.v.insert(b); m.a.insert((a, b)); } m }
    pub fn edit(&self) -> EditGraph { let mut g = EditGraph::new(); for v in &self.v { g.add_vertex(v); } for (a, b) in &self.e { g.add_edge(a, b); } g }
    pub fn digraph(&self) -> EditDigraph { let mut g = EditDigraph::new(); for v in &self.v { g.add_vertex(v); } for (a, b) in &self.e { g.add_arc(a, b); } g }
    /// the same graph delivering vertices and neighbours in insertion order
    pub fn vg(&self) -> VGraph { let mut g = VGraph::default(); for v in &self.v { g.addv(*v); } for &(a, b) in &self.e { g.adde(a, b); } g }
}
impl Case {
    pub fn show(&self) -> String { format!("{};{};{};{};{};{}", self.prop, self.op, self.g.show(), self.h.show(), csv(&self.p), self.bytes.iter().map(|b| format!("{b:02x}")).collect::<String>()) }
    pub fn parse(s: &str) -> Case {
        let f: Vec<&str> = s.trim_end_matches('\n').split(';').collect();
        Case { prop: f[0].into(), op: f[1].into(), g: G::parse(f[2]), h: G::parse(f[3]), p: f[4].split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect(), bytes: (0..f[5].len() / 2).map(|i| u8::from_str_radix(&f[5][2 * i..2 * i + 2], 16).unwrap()).collect() }
    }
}
pub fn nrm(a: u32, b: u32) -> (u32, u32) { if a <= b { (a, b) } else { (b, a) } }

#[derive(Clone, Debug, PartialEq, Default)]
pub struct M { pub v: BTreeSet<u32>, pub e: BTreeSet<(u32, u32)> }
impl M {
    pub fn adj(&self, a: u32, b: u32) -> bool { self.e.contains(&nrm(a, b)) }
    pub fn nb(&self, a: u32) -> BTreeSet<u32> { self.e.iter().filter_map(|&(x, y)| if x == a { Some(y) } else if y == a { Some(x) } else { None }).collect() }
    pub fn deg(&self, a: u32) -> usize { self.nb(a).len() + self.adj(a, a) as usize }
    pub fn adde(&mut self, a: u32, b: u32) -> bool { self.v.insert(a); self.v.insert(b); self.e.insert(nrm(a, b)) }
    pub fn rmv(&mut self, a: u32) -> bool { self.e.retain(|&(x, y)| x != a && y != a); self.v.remove(&a) }
    pub fn adjmap(&self) -> BTreeMap<u32, Vec<u32>> { let mut m: BTreeMap<u32, Vec<u32>> = self.v.iter().map(|v| (*v, vec![])).collect(); for &(a, b) in &self.e { m.get_mut(&a).unwrap().push(b); if a != b { m.get_mut(&b).unwrap().push(a); } } m }
    /// distances from a set of sources through vertices satisfying ok (sources always allowed)
    pub fn bfs(&self, src: &[u32], ok: &dyn Fn(u32) -> bool) -> BTreeMap<u32, u32> {
        let am = self.adjmap(); let mut d = BTreeMap::new(); let mut q = VecDeque::new();
        for s in src { if d.insert(*s, 0).is_none() { q.push_back(*s); } }
        while let Some(x) = q.pop_front() { let dx = d[&x]; for y in &am[&x] { if ok(*y) && !d.contains_key(y) { d.insert(*y, dx + 1); q.push_back(*y); } } }
        d
    }
    pub fn g(&self) -> G { G { v: self.v.iter().copied().collect(), e: self.e.iter().copied().collect() } }
}
#[derive(Clone, Debug, PartialEq, Default)]
pub struct D { pub v: BTreeSet<u32>, pub a: BTreeSet<(u32, u32)> }
impl D {
    pub fn outs(&self, u: u32) -> Vec<u32> { self.a.iter().filter(|x| x.0 == u).map(|x| x.1).collect() }
    pub fn ins(&self, u: u32) -> Vec<u32> { self.a.iter().filter(|x| x.1 == u).map(|x| x.0).collect() }
    pub fn adda(&mut self, a: u32, b: u32) -> bool { self.v.insert(a); self.v.insert(b); self.a.insert((a, b)) }
    pub fn rmv(&mut self, a: u32) -> bool { self.a.retain(|&(x, y)| x != a && y != a); self.v.remove(&a) }
}

/// a graph whose iteration orders are chosen by the harness
#[derive(Default, Clone)]
pub struct VGraph { pub vs: Vec<u32>, pub nb: HashMap<u32, Vec<u32>>, pub m: usize }
impl VGraph {
    pub fn addv(&mut self, v: u32) { if !self.nb.contains_key(&v) { self.vs.push(v); self.nb.insert(v, vec![]); } }
    pub fn adde(&mut self, a: u32, b: u32) { self.addv(a); self.addv(b); if self.nb[&a].contains(&b) { return; } self.m += 1; self.nb.get_mut(&a).unwrap().push(b); if a != b { self.nb.get_mut(&b).unwrap().push(a); } }
}
impl Graph for VGraph {
    fn num_vertices(&self) -> usize { self.vs.len() }
    fn num_edges(&self) -> usize { self.m }
    fn contains(&self, u: &Vertex) -> bool { self.nb.contains_key(u) }
    fn adjacent(&self, u: &Vertex, v: &Vertex) -> bool { self.nb.get(u).map(|n| n.contains(v)).unwrap_or(false) }
    fn degree(&self, u: &Vertex) -> u32 { self.nb.get(u).map(|n| n.len() + n.contains(u) as usize).unwrap_or(0) as u32 }
    fn vertices<'a>(&'a self) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> { Box::new(self.vs.iter()) }
    fn neighbours<'a>(&'a self, u: &Vertex) -> Box<dyn Iterator<Item = &'a Vertex> + 'a> { Box::new(self.nb[u].iter()) }
}

// ---------------------------------------------------------------- random numbers
#[derive(Clone)]
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15); let mut z = self.0; z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9); z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB); z ^ (z >> 31) }
    pub fn below(&mut self, n: u64) -> u64 { if n == 0 { 0 } else { self.next() % n } }
    pub fn range(&mut self, a: u64, b: u64) -> u64 { a + self.below(b - a + 1) }
    pub fn chance(&mut self, p: f64) -> bool { (self.next() >> 11) as f64 / (1u64 << 53) as f64 <= p }
    pub fn shuffle<T>(&mut self, v: &mut [T]) { for i in (1..v.len()).rev() { v.swap(i, self.below(i as u64 + 1) as usize); } }
    pub fn pick<T: Clone>(&mut self, v: &[T]) -> T { v[self.below(v.len() as u64) as usize].clone() }
}
/// random label set: contiguous, sparse, huge or shifted ids
pub fn labels(r: &mut Rng, n: usize, max: u32) -> Vec<u32> {
    let mut v: Vec<u32> = match r.below(5) { 0 | 1 => (0..n as u32).collect(), 2 => { let s = r.below(1000) as u32; (s..s + n as u32).collect() } 3 => { let k = r.range(2, 50) as u32; (0..n as u32).map(|i| i * k).collect() }
        _ => { let mut s = BTreeSet::new(); while s.len() < n { s.insert(r.below(max as u64) as u32); } s.into_iter().collect() } };
    r.shuffle(&mut v); v
}
/// random graph on given labels; kind chosen at random
pub fn rgraph(r: &mut Rng, n: usize, loops: bool, max: u32) -> G {
    let l = labels(r, n, max);
    let mut e: Vec<(u32, u32)> = vec![];
    match r.below(9) {
        0 => { let p = r.below(100) as f64 / 100.0; for i in 0..n { for j in i + 1..n { if r.chance(p) { e.push((l[i], l[j])); } } } }
        1 => { for i in 1..n { let j = r.below(i as u64) as usize; e.push((l[i], l[j])); } }
        2 => { for i in 1..n { let j = r.below(i as u64) as usize; e.push((l[i], l[j])); } for _ in 0..r.below(n as u64 + 1) { let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize); if a != b { e.push((l[a], l[b])); } } }
        3 => { if n > 2 { for i in 0..n { e.push((l[i], l[(i + 1) % n])); } } }
        4 => { let s = r.below(n as u64 + 1) as usize; for i in 0..s { for j in s..n { if !r.chance(0.2) { e.push((l[i], l[j])); } } } }
        5 => { for i in 0..n { for j in i + 1..n { if !r.chance(0.15) { e.push((l[i], l[j])); } } } }
        6 => { let w = r.range(1, 5) as usize; for i in 0..n { if i % w + 1 < w && i + 1 < n { e.push((l[i], l[i + 1])); } if i + w < n { e.push((l[i], l[i + w])); } } }
        7 => { for i in 1..n { e.push((l[i - 1], l[i])); } for _ in 0..r.below(4) { let (a, b) = (r.below(n as u64) as usize, r.below(n as u64) as usize); if a != b && n > 1 { e.push((l[a], l[b])); } } }
        _ => { for i in 0..n { for j in i + 1..n { if r.chance(2.0 / n as f64) { e.push((l[i], l[j])); } } } }
    }
    if loops && n > 0 { for _ in 0..r.below(3) { let a = r.below(n as u64) as usize; e.push((l[a], l[a])); } }
    for x in e.iter_mut() { if r.chance(0.5) { *x = (x.1, x.0); } }
    r.shuffle(&mut e);
    G { v: l, e }
}
pub fn rdigraph(r: &mut Rng, n: usize, loops: bool, anti: bool, max: u32) -> G {
    let mut g = rgraph(r, n, loops, max);
    if anti { for (a, b) in g.e.clone() { if r.chance(0.2) { g.e.push((b, a)); } } }
    g
}
/// all graphs on labels 0..n (optionally with loops), as edge subsets
pub fn all_graphs(n: u32, loops: bool, f: &mut dyn FnMut(G)) {
    let mut pairs = vec![];
    for i in 0..n { for j in i..n { if i != j || loops { pairs.push((i, j)); } } }
    for mask in 0u64..1 << pairs.len() { let e: Vec<(u32, u32)> = pairs.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, p)| *p).collect(); f(G { v: (0..n).collect(), e }); }
}
pub fn perms(n: u32) -> Vec<Vec<u32>> {
    if n == 0 { return vec![vec![]]; }
    let mut out = vec![];
    for p in perms(n - 1) { for i in 0..n as usize { let mut q = p.clone(); q.insert(i, n - 1); out.push(q); } }
    out
}

// ---------------------------------------------------------------- running
pub struct Ctx { pub prop: String, pub end: Instant, pub rng: Rng, pub cases: u64, pub fails: Vec<(String, String)>, dir: String, cur: std::fs::File, pub ops: BTreeMap<String, u64>, start: Instant, pub max_n: usize, seen: std::collections::HashSet<u64>, seed: u64 }
impl Ctx {
    pub fn new(prop: &str, secs: f64, seed: u64, dir: &str) -> Ctx {
        let cur = std::fs::OpenOptions::new().create(true).write(true).truncate(true).open(format!("{dir}/current-{seed}")).unwrap();
        Ctx { prop: prop.into(), end: Instant::now() + Duration::from_secs_f64(secs), rng: Rng(seed.wrapping_mul(0x1234567).wrapping_add(7)), cases: 0, fails: vec![], dir: dir.into(), cur, ops: Default::default(), start: Instant::now(), max_n: 0, seen: Default::default(), seed }
    }
    pub fn time_left(&self) -> bool { Instant::now() < self.end && self.fails.len() < 12 }
    pub fn case(&mut self, mut c: Case) {
        if self.fails.len() >= 12 { return; }
        c.prop = self.prop.clone();
        self.cases += 1;
        self.max_n = self.max_n.max(c.g.v.len());
        *self.ops.entry(c.op.clone()).or_default() += 1;
        let s = c.show();
        if !(c.g.e.is_empty() && c.h.e.is_empty() && c.p.is_empty() && c.bytes.is_empty()) { let mut h = 0xcbf29ce484222325u64; for b in s.bytes() { h ^= b as u64; h = h.wrapping_mul(0x100000001b3); } self.seen.insert(h); }
        let _ = self.cur.seek(SeekFrom::Start(0));
        let _ = self.cur.write_all(format!("{s}\n").as_bytes());
        CASE_START.store(now(), Ordering::SeqCst);
        let r = exec(&c);
        CASE_START.store(0, Ordering::SeqCst);
        if let Err(e) = r {
            // one report per operation is enough; keep the smallest
            if self.fails.iter().any(|(f, _)| f.split(';').nth(1) == Some(&c.op)) { return; }
            let (c2, e2) = shrink(c, e);
            self.fails.push((c2.show(), e2));
        }
    }
    pub fn finish(&mut self) {
        let _ = std::fs::write(format!("{}/seen-{}", self.dir, self.seed), self.seen.iter().flat_map(|x| x.to_le_bytes()).collect::<Vec<u8>>());
        for (c, e) in &self.fails { println!("FAIL\t{}\t{}", c, e.replace(['\n', '\t'], " ")); }
        println!("SUMMARY\tcases={}\tmax_n={}\tsecs={:.1}\tops={}", self.cases, self.max_n, self.start.elapsed().as_secs_f64(), self.ops.iter().map(|(k, v)| format!("{k}:{v}")).collect::<Vec<_>>().join(","));
    }
}
fn now() -> u64 { std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap().as_secs() }
pub fn watchdog() {
    std::thread::spawn(|| loop {
        std::thread::sleep(Duration::from_secs(1));
        let s = CASE_START.load(Ordering::SeqCst);
        if s != 0 && now() > s + HANG_SECS { println!("HANG"); std::process::exit(77); }
    });
}
pub fn exec(c: &Case) -> R {
    let c2 = c.clone();
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || crate::run_case(&c2))) {
        Ok(r) => r,
        Err(_) => Err(LAST_PANIC.with(|p| p.borrow().clone())),
    }
}
fn shrink(mut c: Case, mut e: String) -> (Case, String) {
    let t0 = Instant::now();
    loop {
        let mut progress = false;
        let mut cands: Vec<Case> = vec![];
        for i in 0..c.g.e.len() { let mut d = c.clone(); d.g.e.remove(i); cands.push(d); }
        for i in 0..c.h.e.len() { let mut d = c.clone(); d.h.e.remove(i); cands.push(d); }
        if c.op.starts_with("hist") { for i in 0..c.p.len() / 3 { let mut d = c.clone(); d.p.drain(3 * i..3 * i + 3); cands.push(d); } }
        if !c.op.contains("ord") { for i in 0..c.g.v.len() { let v = c.g.v[i]; if c.g.e.iter().any(|&(a, b)| a == v || b == v) || c.p.contains(&(v as u64)) { continue; } let mut d = c.clone(); d.g.v.remove(i); cands.push(d); } }
        for d in cands {
            if t0.elapsed() > Duration::from_secs(4) { return (c, e); }
            CASE_START.store(now(), Ordering::SeqCst);
            let r = exec(&d);
            CASE_START.store(0, Ordering::SeqCst);
            if let Err(x) = r { c = d; e = x; progress = true; break; }
        }
        if !progress { return (c, e); }
    }
}

// ---------------------------------------------------------------- common oracles
pub fn sorted<I: IntoIterator<Item = u32>>(i: I) -> Vec<u32> { let mut v: Vec<u32> = i.into_iter().collect(); v.sort_unstable(); v }
pub fn outside(v: &BTreeSet<u32>) -> Vec<u32> { let mut o = vec![]; for c in [0u32, 1, 7, 1000, u32::MAX] { if !v.contains(&c) { o.push(c); } } if let Some(m) = v.iter().next_back() { if *m < u32::MAX && !o.contains(&(m + 1)) { o.push(m + 1); } } o }
/// everything a user can observe of an undirected graph
pub fn check_graph<T: Graph>(g: &T, m: &M, what: &str) -> R {
    ck!(g.num_vertices() == m.v.len(), "{what}: num_vertices {} expected {}", g.num_vertices(), m.v.len());
    ck!(g.len() == m.v.len() && g.is_empty() == m.v.is_empty(), "{what}: len/is_empty");
    ck!(g.num_edges() == m.e.len(), "{what}: num_edges {} expected {}", g.num_edges(), m.e.len());
    let vs = sorted(g.vertices().copied());
    ck!(vs == m.v.iter().copied().collect::<Vec<_>>(), "{what}: vertices {vs:?} expected {:?}", m.v);
    let am = m.adjmap();
    for v in &m.v {
        ck!(g.contains(v), "{what}: does not contain {v}");
        let ns = sorted(g.neighbours(v).copied());
        let mut want = am[v].clone(); want.sort_unstable();
        ck!(ns == want, "{what}: neighbours({v}) {ns:?} expected {want:?}");
        let d = want.len() + want.contains(v) as usize;
        ck!(g.degree(v) as usize == d, "{what}: degree({v}) {} expected {d}", g.degree(v));
    }
    if m.v.len() <= 40 {
        let out = outside(&m.v);
        let all: Vec<u32> = m.v.iter().copied().chain(out.iter().copied()).collect();
        for a in &all { for b in &all { ck!(g.adjacent(a, b) == m.adj(*a, *b), "{what}: adjacent({a},{b}) {} expected {}", g.adjacent(a, b), m.adj(*a, *b)); } }
        for o in &out { ck!(!g.contains(o), "{what}: contains {o}"); ck!(g.degree(o) == 0, "{what}: degree of missing {o}"); }
    }
    Ok(())
}
pub fn check_digraph<T: Digraph>(g: &T, m: &D, what: &str) -> R {
    ck!(g.num_vertices() == m.v.len() && g.len() == m.v.len() && g.is_empty() == m.v.is_empty(), "{what}: num_vertices {} expected {}", g.num_vertices(), m.v.len());
    ck!(g.num_edges() == m.a.len(), "{what}: num_edges {} expected {}", g.num_edges(), m.a.len());
    let vs = sorted(g.vertices().copied());
    ck!(vs == m.v.iter().copied().collect::<Vec<_>>(), "{what}: vertices {vs:?} expected {:?}", m.v);
    for v in &m.v {
        let (o, i) = (m.outs(*v), m.ins(*v));
        ck!(g.contains(v), "{what}: does not contain {v}");
        ck!(sorted(g.out_neighbours(v).copied()) == o, "{what}: out_neighbours({v}) {:?} expected {o:?}", sorted(g.out_neighbours(v).copied()));
        ck!(sorted(g.in_neighbours(v).copied()) == i, "{what}: in_neighbours({v}) {:?} expected {i:?}", sorted(g.in_neighbours(v).copied()));
        ck!(g.out_degree(v) as usize == o.len(), "{what}: out_degree({v}) {} expected {}", g.out_degree(v), o.len());
        ck!(g.in_degree(v) as usize == i.len(), "{what}: in_degree({v}) {} expected {}", g.in_degree(v), i.len());
        ck!(g.degree(v) as usize == i.len() + o.len(), "{what}: degree({v}) {} expected {}", g.degree(v), i.len() + o.len());
        let want: BTreeSet<u32> = o.iter().chain(i.iter()).copied().collect();
        let got: BTreeSet<u32> = Graph::neighbours(g, v).copied().collect();
        ck!(got == want, "{what}: neighbours({v}) {got:?} expected {want:?}");
        let got: BTreeSet<u32> = Digraph::neighbours(g, v).copied().collect();
        ck!(got == want, "{what}: Digraph::neighbours({v}) {got:?} expected {want:?}");
    }
    let out = outside(&m.v);
    let all: Vec<u32> = m.v.iter().copied().chain(out.iter().copied()).collect();
    if m.v.len() <= 40 { for a in &all { for b in &all {
        ck!(g.has_arc(a, b) == m.a.contains(&(*a, *b)), "{what}: has_arc({a},{b}) {}", g.has_arc(a, b));
        let w = m.a.contains(&(*a, *b)) || m.a.contains(&(*b, *a));
        ck!(g.adjacent(a, b) == w, "{what}: adjacent({a},{b}) {} expected {w}", g.adjacent(a, b));
    } } }
    for o in &out { ck!(!g.contains(o), "{what}: contains {o}"); ck!(g.degree(o) == 0, "{what}: degree of missing {o}"); }
    Ok(())
}
pub fn vset<I: IntoIterator<Item = u32>>(i: I) -> BTreeSet<u32> { i.into_iter().collect() }
