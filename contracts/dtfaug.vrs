verus! {
//@ props C22
// ===================================================================== distances in augmentations
pub open spec fn vsn(v: Vec<Vertex>) -> Seq<Vertex> { v@ }
/// joined by an arc of weight 1: the graph that was oriented
pub open spec fn dadj(m: Map<Vertex, DTFNode>, x: Vertex, y: Vertex) -> bool { darc(m, 0, x, y) || darc(m, 0, y, x) }
/// there is a walk of at most d steps from x to y in the graph that was oriented
pub open spec fn dwithin(m: Map<Vertex, DTFNode>, x: Vertex, d: nat, y: Vertex) -> bool
    decreases d
{ if d == 0 { x == y } else { dwithin(m, x, (d - 1) as nat, y) || exists|z: Vertex| dwithin(m, x, (d - 1) as nat, z) && #[trigger] dadj(m, z, y) } }
pub proof fn lemma_dw_mono(m: Map<Vertex, DTFNode>, x: Vertex, d: nat, e: nat, y: Vertex)
    requires dwithin(m, x, d, y), d <= e
    ensures dwithin(m, x, e, y)
    decreases e
{ if d < e { lemma_dw_mono(m, x, d, (e - 1) as nat, y); } }
pub proof fn lemma_dw_trans(m: Map<Vertex, DTFNode>, x: Vertex, a: nat, y: Vertex, b: nat, z: Vertex)
    requires dwithin(m, x, a, y), dwithin(m, y, b, z)
    ensures dwithin(m, x, a + b, z)
    decreases b
{
    if b > 0 {
        if dwithin(m, y, (b - 1) as nat, z) { lemma_dw_trans(m, x, a, y, (b - 1) as nat, z); }
        else { let p = choose|p: Vertex| dwithin(m, y, (b - 1) as nat, p) && #[trigger] dadj(m, p, z); lemma_dw_trans(m, x, a, y, (b - 1) as nat, p); assert(dwithin(m, x, (a + b - 1) as nat, p) && dadj(m, p, z)); }
    }
}
pub proof fn lemma_dw_sym(m: Map<Vertex, DTFNode>, x: Vertex, d: nat, y: Vertex)
    requires dwithin(m, x, d, y)
    ensures dwithin(m, y, d, x)
    decreases d
{
    if d > 0 {
        if dwithin(m, x, (d - 1) as nat, y) { lemma_dw_sym(m, x, (d - 1) as nat, y); lemma_dw_mono(m, y, (d - 1) as nat, d, x); }
        else {
            let z = choose|z: Vertex| dwithin(m, x, (d - 1) as nat, z) && #[trigger] dadj(m, z, y);
            assert(dadj(m, y, z)); assert(dwithin(m, y, 0, y)); assert(dwithin(m, y, 1, z));
            lemma_dw_sym(m, x, (d - 1) as nat, z); lemma_dw_trans(m, y, 1, z, (d - 1) as nat, x);
        }
    }
}
/// walks depend on the arcs of weight 1 only
pub proof fn lemma_dw_same(m: Map<Vertex, DTFNode>, n: Map<Vertex, DTFNode>, x: Vertex, d: nat, y: Vertex)
    requires forall|a: Vertex, b: Vertex| #[trigger] darc(m, 0, a, b) == darc(n, 0, a, b), dwithin(m, x, d, y)
    ensures dwithin(n, x, d, y)
    decreases d
{
    if d > 0 {
        if dwithin(m, x, (d - 1) as nat, y) { lemma_dw_same(m, n, x, (d - 1) as nat, y); }
        else { let p = choose|p: Vertex| dwithin(m, x, (d - 1) as nat, p) && #[trigger] dadj(m, p, y); lemma_dw_same(m, n, x, (d - 1) as nat, p); assert(darc(m, 0, p, y) == darc(n, 0, p, y) && darc(m, 0, y, p) == darc(n, 0, y, p)); assert(dadj(n, p, y)); }
    }
}
/// no arc is shorter than the distance between its ends; no loops
#[verifier::opaque]
pub open spec fn snd(m: Map<Vertex, DTFNode>) -> bool { forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(m, i, x, y) ==> x != y && dwithin(m, x, (i + 1) as nat, y) }
/// an arc x -> y of weight at most s
pub open spec fn arcle(m: Map<Vertex, DTFNode>, x: Vertex, y: Vertex, s: int) -> bool { exists|k: int| k + 1 <= s && #[trigger] darc(m, k, x, y) }
/// transitive pairs of total weight at most d are joined
#[verifier::opaque]
pub open spec fn tcl(m: Map<Vertex, DTFNode>, d: int) -> bool {
    forall|i: int, j: int, x: Vertex, y: Vertex, u: Vertex| #[trigger] darc(m, i, x, y) && #[trigger] darc(m, j, y, u) && i + j + 2 <= d && x != u ==> arcle(m, x, u, i + j + 2)
}
/// fraternal pairs of total weight at most d, one arc of weight 1, are joined
#[verifier::opaque]
pub open spec fn fcl(m: Map<Vertex, DTFNode>, d: int) -> bool {
    forall|j: int, x: Vertex, y: Vertex, u: Vertex| #[trigger] darc(m, 0, x, u) && #[trigger] darc(m, j, y, u) && j + 2 <= d && x != y ==> arcle(m, x, y, j + 2) || arcle(m, y, x, j + 2)
}
/// common in-neighbour w with weights adding up to at most s
pub open spec fn comm(m: Map<Vertex, DTFNode>, x: Vertex, z: Vertex, s: int) -> bool { exists|w: Vertex, i: int, j: int| #[trigger] darc(m, i, w, x) && #[trigger] darc(m, j, w, z) && i + j + 2 <= s }
/// what small_distance looks for
pub open spec fn near(m: Map<Vertex, DTFNode>, x: Vertex, z: Vertex, s: int) -> bool { x == z || arcle(m, x, z, s) || arcle(m, z, x, s) || comm(m, x, z, s) }
pub proof fn lemma_arcle_mono(m: Map<Vertex, DTFNode>, x: Vertex, y: Vertex, s: int, t: int)
    requires arcle(m, x, y, s), s <= t
    ensures arcle(m, x, y, t)
{ let k = choose|k: int| k + 1 <= s && #[trigger] darc(m, k, x, y); assert(k + 1 <= t && darc(m, k, x, y)); }
pub proof fn lemma_near_mono(m: Map<Vertex, DTFNode>, x: Vertex, z: Vertex, s: int, t: int)
    requires near(m, x, z, s), s <= t
    ensures near(m, x, z, t)
{
    if x == z { } else if arcle(m, x, z, s) { lemma_arcle_mono(m, x, z, s, t); } else if arcle(m, z, x, s) { lemma_arcle_mono(m, z, x, s, t); }
    else { let (w, i, j) = choose|w: Vertex, i: int, j: int| #[trigger] darc(m, i, w, x) && #[trigger] darc(m, j, w, z) && i + j + 2 <= s; assert(darc(m, i, w, x) && darc(m, j, w, z) && i + j + 2 <= t); }
}
/// one more edge p - z
pub proof fn lemma_near_step(m: Map<Vertex, DTFNode>, d: int, x: Vertex, p: Vertex, z: Vertex, s: int)
    requires tcl(m, d), fcl(m, d), near(m, x, p, s), dadj(m, p, z), 0 <= s, s + 1 <= d, x != z
    ensures near(m, x, z, s + 1)
{
    reveal(tcl); reveal(fcl);
    if x == p {
        if darc(m, 0, p, z) { assert(darc(m, 0, x, z) && 0 + 1 <= s + 1); assert(arcle(m, x, z, s + 1)); } else { assert(darc(m, 0, z, x)); assert(arcle(m, z, x, s + 1)); }
    } else if arcle(m, x, p, s) {
        let k = choose|k: int| k + 1 <= s && #[trigger] darc(m, k, x, p);
        if darc(m, 0, p, z) { assert(arcle(m, x, z, k + 2)); lemma_arcle_mono(m, x, z, k + 2, s + 1); }
        else { assert(darc(m, 0, z, p)); assert(arcle(m, z, x, k + 2) || arcle(m, x, z, k + 2)); if arcle(m, z, x, k + 2) { lemma_arcle_mono(m, z, x, k + 2, s + 1); } else { lemma_arcle_mono(m, x, z, k + 2, s + 1); } }
    } else if arcle(m, p, x, s) {
        let k = choose|k: int| k + 1 <= s && #[trigger] darc(m, k, p, x);
        if darc(m, 0, p, z) { assert(darc(m, k, p, x) && darc(m, 0, p, z) && k + 0 + 2 <= s + 1); assert(comm(m, x, z, s + 1)); }
        else { assert(darc(m, 0, z, p)); assert(arcle(m, z, x, k + 2)); lemma_arcle_mono(m, z, x, k + 2, s + 1); }
    } else {
        let (w, i, j) = choose|w: Vertex, i: int, j: int| #[trigger] darc(m, i, w, x) && #[trigger] darc(m, j, w, p) && i + j + 2 <= s;
        assert(0 <= i && 0 <= j);
        if w == z { assert(arcle(m, z, x, s + 1)); }
        else {
            if darc(m, 0, p, z) { assert(arcle(m, w, z, j + 2)); }
            else { assert(darc(m, 0, z, p)); assert(arcle(m, z, w, j + 2) || arcle(m, w, z, j + 2)); }
            if arcle(m, w, z, j + 2) {
                let k = choose|k: int| k + 1 <= j + 2 && #[trigger] darc(m, k, w, z);
                assert(darc(m, i, w, x) && darc(m, k, w, z) && i + k + 2 <= s + 1); assert(comm(m, x, z, s + 1));
            } else {
                let k = choose|k: int| k + 1 <= j + 2 && #[trigger] darc(m, k, z, w);
                assert(arcle(m, z, x, k + i + 2)); lemma_arcle_mono(m, z, x, k + i + 2, s + 1);
            }
        }
    }
}
/// vertices within distance s <= d are near
pub proof fn lemma_near(m: Map<Vertex, DTFNode>, d: int, x: Vertex, s: nat, z: Vertex)
    requires tcl(m, d), fcl(m, d), dwithin(m, x, s, z), s <= d
    ensures near(m, x, z, s as int)
    decreases s
{
    if s > 0 && x != z {
        if dwithin(m, x, (s - 1) as nat, z) { lemma_near(m, d, x, (s - 1) as nat, z); lemma_near_mono(m, x, z, s - 1, s as int); }
        else { let p = choose|p: Vertex| dwithin(m, x, (s - 1) as nat, p) && #[trigger] dadj(m, p, z); lemma_near(m, d, x, (s - 1) as nat, p); lemma_near_step(m, d, x, p, z, s - 1); }
    }
}
impl DTFGraph {
    /// an augmentation that answers distance queries up to its depth
    pub open spec fn aug(&self) -> bool { self.wf() && snd(self.nodes@) && uniq(self.nodes@) && tcl(self.nodes@, self.depth as int) && fcl(self.nodes@, self.depth as int) }
    /// r is the distance of u and v in the oriented graph, if at most the depth
    pub open spec fn dist_ok(&self, u: Vertex, v: Vertex, r: Option<u32>) -> bool {
        match r {
            Some(d) => 1 <= d <= self.depth && dwithin(self.nodes@, u, d as nat, v) && forall|k: nat| k < d ==> !#[trigger] dwithin(self.nodes@, u, k, v),
            None => !dwithin(self.nodes@, u, self.depth as nat, v),
        }
    }
    /// k is at least the weight of some connection of u and v; d is at most that of every connection found so far
    pub open spec fn found(&self, u: Vertex, v: Vertex, k: int) -> bool { arcle(self.nodes@, u, v, k) || arcle(self.nodes@, v, u, k) || comm(self.nodes@, u, v, k) }
    pub proof fn lemma_found(&self, u: Vertex, v: Vertex, k: int)
        requires self.aug(), self.found(u, v, k), k >= 0
        ensures dwithin(self.nodes@, u, k as nat, v)
    {
        reveal(snd); let m = self.nodes@;
        if arcle(m, u, v, k) { let i = choose|i: int| i + 1 <= k && #[trigger] darc(m, i, u, v); lemma_dw_mono(m, u, (i + 1) as nat, k as nat, v); }
        else if arcle(m, v, u, k) { let i = choose|i: int| i + 1 <= k && #[trigger] darc(m, i, v, u); lemma_dw_sym(m, v, (i + 1) as nat, u); lemma_dw_mono(m, u, (i + 1) as nat, k as nat, v); }
        else { let (w, i, j) = choose|w: Vertex, i: int, j: int| #[trigger] darc(m, i, w, u) && #[trigger] darc(m, j, w, v) && i + j + 2 <= k; lemma_dw_sym(m, w, (i + 1) as nat, u); lemma_dw_trans(m, u, (i + 1) as nat, w, (j + 1) as nat, v); lemma_dw_mono(m, u, (i + 1 + j + 1) as nat, k as nat, v); }
    }
    pub proof fn lemma_seen_step(&self, u: Vertex, v: Vertex, e: int, k0: int, k: int, s: Set<Vertex>, x: Vertex)
        requires self.seen_to(u, v, e, k0, s), k <= k0, forall|j: int| #[trigger] darc(self.nodes@, j, x, v) ==> k <= e + j + 2
        ensures self.seen_to(u, v, e, k, s.insert(x))
    { }
    pub proof fn lemma_seen_next(&self, u: Vertex, v: Vertex, e: int, k: int, q: Seq<Vertex>)
        requires self.seen_to(u, v, e, k, pre(q, q.len())), forall|x: Vertex| darc(self.nodes@, e, x, u) ==> #[trigger] q.contains(x)
        ensures self.seen_to(u, v, e + 1, k, Set::empty())
    { lemma_pre_ends(q); assert(q.take(q.len() as int) =~= q);
      assert forall|i: int, j: int, w: Vertex| #[trigger] darc(self.nodes@, i, w, u) && #[trigger] darc(self.nodes@, j, w, v) && i < e + 1 implies k <= i + j + 2 by { if i == e { assert(q.contains(w)); } } }
    pub proof fn lemma_dist(&self, u: Vertex, v: Vertex, d1: int, k: int)
        requires self.aug(), u != v, self.direct(u, v, d1), 1 <= k <= d1, k < u32::MAX ==> self.found(u, v, k), self.seen_to(u, v, self.depth as int, k, Set::empty()), self.depth < u32::MAX
        ensures k <= self.depth ==> self.dist_ok(u, v, Some(k as u32)), k > self.depth ==> self.dist_ok(u, v, None)
    {
        let m = self.nodes@;
        assert forall|s: nat| s < k && s <= self.depth implies !#[trigger] dwithin(m, u, s, v) by {
            if dwithin(m, u, s, v) {
                lemma_near(m, self.depth as int, u, s, v);
                if comm(m, u, v, s as int) { let (w, i, j) = choose|w: Vertex, i: int, j: int| #[trigger] darc(m, i, w, u) && #[trigger] darc(m, j, w, v) && i + j + 2 <= s; assert(m[u].nd(self.depth as int)); }
            }
        }
        if k <= self.depth { self.lemma_found(u, v, k); }
    }
//@ fn dtfgraph.rs impl:DTFGraph small_distance
//@ requires self.aug(), self.vs().contains(*u), self.vs().contains(*v), *u != *v, self.depth < 0x4000_0000
//@ ensures self.dist_ok(*u, *v, r)
//@ hint before call in_neighbours_with_weights 1
    let ghost d1 = dist as int;
    proof {
        assert(self.direct(*u, *v, d1));
    }
//@ loop 1
    it1_s.len() == self.depth, forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == i + 1, dist <= d1,
    dist < u32::MAX ==> self.found(*u, *v, dist as int), dist >= 1,
    self.seen_to(*u, *v, it1.pos() as int, dist as int, Set::empty()),
//@ loop 2
    d == it1.pos(), 1 <= d <= self.depth, dist <= d1, dist >= 1,
    dist < u32::MAX ==> self.found(*u, *v, dist as int),
    forall|x: Vertex| #[trigger] it2_s.contains(x) <==> self.arc_at(d as int, x, *u),
    self.seen_to(*u, *v, d - 1, dist as int, pre(it2_s, it2.pos())),
//@ hint loop2.start
    let ghost k0 = dist as int;
    proof { lemma_pre(it2_s, (it2.pos() - 1) as nat); assert(it2_s.contains(*x)); }
//@ hint loop2.end
    proof { self.lemma_seen_step(*u, *v, d - 1, k0, dist as int, pre(it2_s, (it2.pos() - 1) as nat), *x); assert(pre(it2_s, it2.pos()) =~= pre(it2_s, (it2.pos() - 1) as nat).insert(*x)); }
//@ hint loop2.before
    proof { }
//@ hint loop2.after
    proof { self.lemma_seen_next(*u, *v, d - 1, dist as int, it2_s); }
//@ hint loop1.after
    proof { self.lemma_dist(*u, *v, d1, dist as int); }
//@ end
    /// k is at most the weight of every arc between u and v
    pub open spec fn direct(&self, u: Vertex, v: Vertex, k: int) -> bool { (forall|i: int| #[trigger] darc(self.nodes@, i, u, v) ==> k <= i + 1) && (forall|i: int| #[trigger] darc(self.nodes@, i, v, u) ==> k <= i + 1) }
    /// every common in-neighbour w of u and v with an arc of weight at most d to u (or, for weight d + 1, in s) was considered
    pub open spec fn seen_to(&self, u: Vertex, v: Vertex, d: int, k: int, s: Set<Vertex>) -> bool {
        forall|i: int, j: int, w: Vertex| #[trigger] darc(self.nodes@, i, w, u) && #[trigger] darc(self.nodes@, j, w, v) && (i < d || (i == d && s.contains(w))) ==> k <= i + j + 2
    }

    /// x -> y -> u with weights adding up to d; the second arc has weight at most e
    pub open spec fn tail(&self, x: Vertex, u: Vertex, d: int, e: int) -> bool { exists|i: int, y: Vertex| i < e && #[trigger] darc(self.nodes@, i, y, u) && #[trigger] darc(self.nodes@, d - i - 2, x, y) }
//@ fn dtfgraph.rs impl:DTFGraph _trans_tails
//@ requires self.wf(), self.vs().contains(*u), 1 <= depth <= self.depth
//@ ensures forall|x: Vertex| #[trigger] r@.contains(x) <==> x != *u && !self.arc(x, *u) && self.tail(x, *u, depth as int, depth - 1)
//@ loop 1
    it1_s.len() == depth - 1, forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == i + 1,
    forall|x: Vertex| #[trigger] cands@.contains(x) <==> self.tail(x, *u, depth as int, it1.pos() as int),
//@ loop 2
    wy == it1.pos(), 1 <= wy < depth, wx == depth - wy, forall|y: Vertex| #[trigger] it2_s.contains(y) <==> self.arc_at(wy as int, y, *u),
    forall|x: Vertex| #[trigger] cands@.contains(x) <==> self.tail(x, *u, depth as int, wy - 1) || exists|y: Vertex| pre(it2_s, it2.pos()).contains(y) && #[trigger] darc(self.nodes@, wx - 1, x, y),
//@ hint loop2.start
    let ghost c0 = cands@;
    proof { lemma_pre(it2_s, (it2.pos() - 1) as nat); assert(it2_s.contains(*y)); }
//@ hint loop2.end
    proof { }
//@ hint loop2.after
    proof { lemma_pre_ends(it2_s); assert(it2_s.take(it2_s.len() as int) =~= it2_s);
        assert forall|x: Vertex| #[trigger] cands@.contains(x) <==> self.tail(x, *u, depth as int, wy as int) by { self.lemma_tail_step(x, *u, depth as int, wy as int, it2_s); }
    }
//@ end
    pub proof fn lemma_tail_step(&self, x: Vertex, u: Vertex, d: int, e: int, q: Seq<Vertex>)
        requires forall|y: Vertex| #[trigger] q.contains(y) <==> darc(self.nodes@, e - 1, y, u)
        ensures self.tail(x, u, d, e) <==> self.tail(x, u, d, e - 1) || exists|y: Vertex| q.contains(y) && #[trigger] darc(self.nodes@, d - e - 1, x, y)
    {
        let m = self.nodes@;
        if self.tail(x, u, d, e) {
            let (i, y) = choose|i: int, y: Vertex| i < e && #[trigger] darc(m, i, y, u) && #[trigger] darc(m, d - i - 2, x, y);
            if i == e - 1 { assert(q.contains(y) && darc(m, d - e - 1, x, y)); } else { assert(i < e - 1 && darc(m, i, y, u) && darc(m, d - i - 2, x, y)); }
        }
        if self.tail(x, u, d, e - 1) { let (i, y) = choose|i: int, y: Vertex| i < e - 1 && #[trigger] darc(m, i, y, u) && #[trigger] darc(m, d - i - 2, x, y); assert(i < e && darc(m, i, y, u) && darc(m, d - i - 2, x, y)); }
        if exists|y: Vertex| q.contains(y) && #[trigger] darc(m, d - e - 1, x, y) { let y = choose|y: Vertex| q.contains(y) && #[trigger] darc(m, d - e - 1, x, y); let i = e - 1; assert(i < e && darc(m, i, y, u) && darc(m, d - i - 2, x, y)); }
    }
    /// not joined, arcs to u of weights a and b
    pub open spec fn fratw(&self, x: Vertex, y: Vertex, u: Vertex, a: int, b: int) -> bool { x != y && !self.arc(x, y) && !self.arc(y, x) && darc(self.nodes@, a - 1, x, u) && darc(self.nodes@, b - 1, y, u) }
    /// ... with a in ws and a + b = d
    pub open spec fn fratd(&self, x: Vertex, y: Vertex, u: Vertex, d: int, ws: Set<usize>) -> bool { exists|w: usize| #[trigger] ws.contains(w) && self.fratw(x, y, u, w as int, d - w) }
    /// x and y are collected as a fraternal pair at u
    pub open spec fn frat(&self, x: Vertex, y: Vertex, u: Vertex, d: int) -> bool { self.fratw(x, y, u, 1, d - 1) }
    pub proof fn lemma_fratd(&self, x: Vertex, y: Vertex, u: Vertex, d: int, q: Seq<usize>, n: nat)
        requires n < q.len()
        ensures self.fratd(x, y, u, d, pre(q, n + 1)) <==> self.fratd(x, y, u, d, pre(q, n)) || self.fratw(x, y, u, q[n as int] as int, d - q[n as int])
    {
        lemma_pre(q, n); let a = pre(q, n); let b = pre(q, n + 1); let z = q[n as int];
        if self.fratd(x, y, u, d, b) { let w = choose|w: usize| #[trigger] b.contains(w) && self.fratw(x, y, u, w as int, d - w); if w != z { assert(a.contains(w)); } }
        if self.fratd(x, y, u, d, a) { let w = choose|w: usize| #[trigger] a.contains(w) && self.fratw(x, y, u, w as int, d - w); assert(b.contains(w)); }
        assert(b.contains(z));
    }
//@ fn dtfgraph.rs impl:DTFGraph _frat_pairs
//@ requires self.wf(), self.vs().contains(*u), 3 <= depth <= self.depth
//@ ensures forall|x: Vertex, y: Vertex| #[trigger] r@.contains((x, y)) <==> self.frat(x, y, *u, depth as int) || self.frat(y, x, *u, depth as int)
//@ loop 1
    forall|w: usize| #[trigger] it1_s.contains(w) <==> w == 1 || w == depth - 1,
    forall|x: Vertex, y: Vertex| #[trigger] res@.contains((x, y)) <==> self.fratd(x, y, *u, depth as int, pre(it1_s, it1.pos())),
//@ hint loop1.top
    proof { assert(it1_s[0] == 1 && it1_s[1] == depth - 1 && it1_s.len() == 2); lemma_pre_ends(it1_s); }
//@ hint loop1.start
    let ghost r0 = res@;
    proof { assert(it1_s.contains(it1_s[it1.pos() - 1])); }
//@ hint loop1.end
    proof {
        lemma_pre_ends(it2_s); assert(it2_s.take(it2_s.len() as int) =~= it2_s);
        assert forall|x: Vertex, y: Vertex| #[trigger] res@.contains((x, y)) <==> self.fratd(x, y, *u, depth as int, pre(it1_s, it1.pos())) by { self.lemma_fratd(x, y, *u, depth as int, it1_s, (it1.pos() - 1) as nat); }
    }
//@ loop 2
    wx == it1_s[it1.pos() - 1], *wx == 1 || *wx == depth - 1, wy == depth - *wx, forall|y: Vertex| #[trigger] it2_s.contains(y) <==> self.arc_at(*wx as int, y, *u),
    forall|x: Vertex, y: Vertex| #[trigger] res@.contains((x, y)) <==> r0.contains((x, y)) || (pre(it2_s, it2.pos()).contains(x) && self.fratw(x, y, *u, *wx as int, wy as int)),
//@ hint loop2.start
    let ghost r1 = res@;
    proof { lemma_pre(it2_s, (it2.pos() - 1) as nat); assert(it2_s.contains(*x)); }
//@ hint loop2.end
    proof { lemma_pre_ends(it3_s); assert(it3_s.take(it3_s.len() as int) =~= it3_s); }
//@ loop 3
    forall|y: Vertex| #[trigger] it3_s.contains(y) <==> self.arc_at(wy as int, y, *u), self.arc_at(*wx as int, *x, *u),
    forall|a: Vertex, y: Vertex| #[trigger] res@.contains((a, y)) <==> r1.contains((a, y)) || (a == *x && pre(it3_s, it3.pos()).contains(y) && self.fratw(a, y, *u, *wx as int, wy as int)),
//@ hint loop3.start
    let ghost r2 = res@;
    proof { lemma_pre(it3_s, (it3.pos() - 1) as nat); assert(it3_s.contains(*y)); }
//@ hint end
    proof {
        lemma_pre_ends(it1_s); assert(it1_s.take(it1_s.len() as int) =~= it1_s);
        assert forall|x: Vertex, y: Vertex| #[trigger] vx_res@.contains((x, y)) <==> self.frat(x, y, *u, depth as int) || self.frat(y, x, *u, depth as int) by {
            let one = 1usize; let big = (depth - 1) as usize; assert(it1_s.contains(one) && it1_s.contains(big));
            let a = pre(it1_s, it1_s.len()); assert(a.contains(one) && a.contains(big));
            if self.fratd(x, y, *u, depth as int, a) { let w = choose|w: usize| #[trigger] a.contains(w) && self.fratw(x, y, *u, w as int, depth - w); assert(it1_s.contains(w)); }
            if self.frat(x, y, *u, depth as int) { assert(self.fratw(x, y, *u, one as int, depth - one)); }
            if self.frat(y, x, *u, depth as int) { assert(self.fratw(x, y, *u, big as int, depth - big)); }
        }
    }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph _frat_pairs2
//@ requires self.wf(), self.vs().contains(*u), 2 <= self.depth
//@ ensures
    forall|x: Vertex, y: Vertex| #[trigger] r@.contains((x, y)) ==> self.frat(x, y, *u, 2),
    forall|x: Vertex, y: Vertex| #[trigger] self.frat(x, y, *u, 2) ==> r@.contains((x, y)) || r@.contains((y, x))
//@ loop 1
    vsn(N).no_duplicates(), forall|x: Vertex| #[trigger] vsn(N).contains(x) <==> self.arc_at(1, x, *u), pairs2(vsn(N), it1_s),
    forall|x: Vertex, y: Vertex| #[trigger] res@.contains((x, y)) ==> self.frat(x, y, *u, 2),
    forall|k: int| 0 <= k < it1.pos() && !self.arc(*(#[trigger] it1_s[k]).0, *it1_s[k].1) && !self.arc(*it1_s[k].1, *it1_s[k].0) ==> res@.contains((*it1_s[k].0, *it1_s[k].1)),
//@ hint loop1.start
    proof { lemma_pair_at(vsn(N), it1_s, it1.pos() - 1); }
//@ hint end
    proof {
        assert forall|x: Vertex, y: Vertex| #[trigger] self.frat(x, y, *u, 2) implies vx_res@.contains((x, y)) || vx_res@.contains((y, x)) by {
            assert(vsn(N).contains(x) && vsn(N).contains(y));
            let k = lemma_pair_of(vsn(N), it1_s, x, y);
            assert(it1_s[k] == it1_s[k]);
        }
    }
//@ end
}
/// the pairs that are joined next
pub open spec fn tnew(g: DTFGraph, x: Vertex, u: Vertex, d: int) -> bool { x != u && !g.arc(x, u) && g.tail(x, u, d, d - 1) && g.vs().contains(u) }
pub open spec fn fnew(g: DTFGraph, x: Vertex, y: Vertex, d: int, s: Set<Vertex>) -> bool { exists|u: Vertex| #[trigger] s.contains(u) && (g.frat(x, y, u, d) || g.frat(y, x, u, d)) }
pub proof fn lemma_fnew(g: DTFGraph, x: Vertex, y: Vertex, d: int, s: Set<Vertex>, u: Vertex)
    ensures fnew(g, x, y, d, s.insert(u)) <==> fnew(g, x, y, d, s) || g.frat(x, y, u, d) || g.frat(y, x, u, d)
{
    let t = s.insert(u);
    if fnew(g, x, y, d, s) { let z = choose|z: Vertex| #[trigger] s.contains(z) && (g.frat(x, y, z, d) || g.frat(y, x, z, d)); assert(t.contains(z)); }
    if fnew(g, x, y, d, t) { let z = choose|z: Vertex| #[trigger] t.contains(z) && (g.frat(x, y, z, d) || g.frat(y, x, z, d)); if z != u { assert(s.contains(z)); } }
    assert(t.contains(u));
}
/// n is m with new arcs of weight d: transitive arcs, and arcs for the remaining fraternal pairs
#[verifier::opaque]
pub open spec fn augstep(g: DTFGraph, n: Map<Vertex, DTFNode>, d: int) -> bool {
    &&& forall|i: int, x: Vertex, y: Vertex| i != d - 1 ==> #[trigger] darc(n, i, x, y) == darc(g.nodes@, i, x, y)
    &&& forall|x: Vertex, y: Vertex| #[trigger] darc(n, d - 1, x, y) ==> tnew(g, x, y, d) || fnew(g, x, y, d, g.vs())
    &&& forall|x: Vertex, y: Vertex| #[trigger] tnew(g, x, y, d) ==> darc(n, d - 1, x, y)
    &&& forall|x: Vertex, y: Vertex| #[trigger] fnew(g, x, y, d, g.vs()) ==> darc(n, d - 1, x, y) || darc(n, d - 1, y, x)
}
pub proof fn lemma_augstep(g: DTFGraph, n: Map<Vertex, DTFNode>, d: int)
    requires augstep(g, n, d), snd(g.nodes@), uniq(g.nodes@), tcl(g.nodes@, d - 1), fcl(g.nodes@, d - 1), d >= 2,
        forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(g.nodes@, i, x, y) ==> 0 <= i < d - 1 && g.vs().contains(x),
    ensures snd(n), uniq(n), tcl(n, d), fcl(n, d)
{
    let m = g.nodes@;
    assert(forall|a: Vertex, b: Vertex| #[trigger] darc(m, 0, a, b) == darc(n, 0, a, b)) by { reveal(augstep); }
    assert(snd(n)) by {
        reveal(snd); reveal(augstep);
        assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(n, i, x, y) implies x != y && dwithin(n, x, (i + 1) as nat, y) by {
            if i != d - 1 { lemma_dw_same(m, n, x, (i + 1) as nat, y); }
            else if tnew(g, x, y, d) {
                let (k, z) = choose|k: int, z: Vertex| k < d - 1 && #[trigger] darc(m, k, z, y) && #[trigger] darc(m, d - k - 2, x, z);
                lemma_dw_trans(m, x, (d - k - 1) as nat, z, (k + 1) as nat, y); lemma_dw_same(m, n, x, d as nat, y);
            } else {
                let u = choose|u: Vertex| #[trigger] g.vs().contains(u) && (g.frat(x, y, u, d) || g.frat(y, x, u, d));
                if g.frat(x, y, u, d) { lemma_dw_sym(m, y, (d - 1) as nat, u); lemma_dw_trans(m, x, 1, u, (d - 1) as nat, y); }
                else { lemma_dw_sym(m, y, 1, u); lemma_dw_trans(m, x, (d - 1) as nat, u, 1, y); }
                lemma_dw_same(m, n, x, d as nat, y);
            }
        }
    }
    assert(uniq(n)) by {
        reveal(augstep);
        assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(n, i, x, y) && i != d - 1 implies !darc(n, d - 1, x, y) by { assert(darc(m, i, x, y)); assert(g.arc(x, y)); }
    }
    assert(tcl(n, d)) by {
        reveal(augstep); reveal(tcl);
        assert forall|i: int, j: int, x: Vertex, y: Vertex, u: Vertex| #[trigger] darc(n, i, x, y) && #[trigger] darc(n, j, y, u) && i + j + 2 <= d && x != u implies arcle(n, x, u, i + j + 2) by {
            assert(0 <= i && 0 <= j); assert(darc(m, i, x, y) && darc(m, j, y, u));
            if i + j + 2 <= d - 1 { let k = choose|k: int| k + 1 <= i + j + 2 && #[trigger] darc(m, k, x, u); assert(darc(n, k, x, u)); }
            else if g.arc(x, u) { let k = choose|k: int| #[trigger] darc(m, k, x, u); assert(darc(n, k, x, u)); }
            else { assert(j < d - 1 && darc(m, j, y, u) && darc(m, d - j - 2, x, y)); assert(tnew(g, x, u, d)); assert(darc(n, d - 1, x, u)); }
        }
    }
    assert(fcl(n, d)) by {
        reveal(augstep); reveal(fcl);
        assert forall|j: int, x: Vertex, y: Vertex, u: Vertex| #[trigger] darc(n, 0, x, u) && #[trigger] darc(n, j, y, u) && j + 2 <= d && x != y implies arcle(n, x, y, j + 2) || arcle(n, y, x, j + 2) by {
            assert(0 <= j); assert(darc(m, 0, x, u) && darc(m, j, y, u));
            if j + 2 <= d - 1 {
                if arcle(m, x, y, j + 2) { let k = choose|k: int| k + 1 <= j + 2 && #[trigger] darc(m, k, x, y); assert(darc(n, k, x, y)); }
                else { let k = choose|k: int| k + 1 <= j + 2 && #[trigger] darc(m, k, y, x); assert(darc(n, k, y, x)); }
            }
            else if g.arc(x, y) { let k = choose|k: int| #[trigger] darc(m, k, x, y); assert(darc(n, k, x, y)); }
            else if g.arc(y, x) { let k = choose|k: int| #[trigger] darc(m, k, y, x); assert(darc(n, k, y, x)); }
            else { assert(g.frat(x, y, u, d)); assert(g.vs().contains(u)); assert(fnew(g, x, y, d, g.vs())); assert(darc(n, d - 1, x, y) || darc(n, d - 1, y, x)); }
        }
    }
}
/// a graph of depth 1 without loops is an augmentation
pub proof fn lemma_aug1(g: DTFGraph)
    requires g.wf(), g.depth == 1, forall|x: Vertex| !#[trigger] darc(g.nodes@, 0, x, x)
    ensures g.aug()
{
    let m = g.nodes@;
    assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(m, i, x, y) implies i == 0 by { assert(m[y].nd(1)); }
    reveal(snd); reveal(tcl); reveal(fcl);
    assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(m, i, x, y) implies x != y && dwithin(m, x, (i + 1) as nat, y) by { assert(dwithin(m, x, 0, x) && dadj(m, x, y)); }
}
impl DTFGraph {
    /// what augmenting keeps: the vertices and the arcs of the weights already there
    pub open spec fn kept(a: DTFGraph, b: DTFGraph) -> bool { b.vs() == a.vs() && b.depth >= a.depth && forall|i: int, x: Vertex, y: Vertex| i < a.depth ==> #[trigger] darc(b.nodes@, i, x, y) == darc(a.nodes@, i, x, y) }
//@ fn dtfgraph.rs impl:DTFGraph augment
//@ requires old(self).aug()
//@ ensures
    final(self).aug(), final(self).depth == (if depth > old(self).depth { depth } else { old(self).depth }), Self::kept(*old(self), *final(self))
//@ decreases (if frat_depth <= 1 { 1int } else { 3int })
//@ loop 1
    self.aug(), self.depth <= depth || self.depth == old(self).depth, Self::kept(*old(self), *self),
//@ loopdec 1 depth - self.depth
//@ hint loop1.start
    let ghost g0 = *self;
//@ hint after call reserve_depth 1
    let ghost g1 = *self; let ghost d = self.depth as int;
//@ loop 2
    lists(it2_s, self.vs()), fGraph.wf(), 2 <= d == self.depth, self.wf(),
    forall|x: Vertex, y: Vertex| #[trigger] tArcs@.contains((x, y)) <==> pre(it2_s, it2.pos()).contains(y) && tnew(*self, x, y, d),
    forall|x: Vertex, y: Vertex| #[trigger] fGraph.adj(x, y) <==> fnew(*self, x, y, d, pre(it2_s, it2.pos())),
//@ hint loop2.start
    let ghost t0 = tArcs@; let ghost f0 = fGraph;
    proof { lemma_pre(it2_s, (it2.pos() - 1) as nat); assert(it2_s.contains(*u)); }
//@ loop 3
    forall|x: Vertex, y: Vertex| #[trigger] tArcs@.contains((x, y)) <==> t0.contains((x, y)) || (y == *u && pre(it3_s, it3.pos()).contains(x)),
//@ hint loop3.start
    proof { lemma_pre(it3_s, (it3.pos() - 1) as nat); }
//@ loop 4
    fGraph.wf(), forall|x: Vertex, y: Vertex| #[trigger] fGraph.adj(x, y) <==> f0.adj(x, y) || pre(it4_s, it4.pos()).contains((x, y)) || pre(it4_s, it4.pos()).contains((y, x)),
//@ hint loop4.start
    proof { lemma_pre(it4_s, (it4.pos() - 1) as nat); }
//@ hint loop4.after
    proof { lemma_pre_ends(it4_s); assert(it4_s.take(it4_s.len() as int) =~= it4_s); assert forall|x: Vertex, y: Vertex| #[trigger] fGraph.adj(x, y) <==> f0.adj(x, y) || self.frat(x, y, *u, d) || self.frat(y, x, *u, d) by { assert(self.frat(x, y, *u, 2) ==> it4_s.contains((x, y)) || it4_s.contains((y, x))); assert(self.frat(y, x, *u, 2) ==> it4_s.contains((x, y)) || it4_s.contains((y, x))); assert(self.frat(x, y, *u, 2) == self.frat(y, x, *u, 2)); } }
//@ loop 5
    fGraph.wf(), forall|x: Vertex, y: Vertex| #[trigger] fGraph.adj(x, y) <==> f0.adj(x, y) || pre(it5_s, it5.pos()).contains((x, y)) || pre(it5_s, it5.pos()).contains((y, x)),
//@ hint loop5.start
    proof { lemma_pre(it5_s, (it5.pos() - 1) as nat); }
//@ hint loop5.after
    proof { lemma_pre_ends(it5_s); assert(it5_s.take(it5_s.len() as int) =~= it5_s); assert forall|x: Vertex, y: Vertex| #[trigger] fGraph.adj(x, y) <==> f0.adj(x, y) || self.frat(x, y, *u, d) || self.frat(y, x, *u, d) by { assert(it5_s.contains((x, y)) <==> self.frat(x, y, *u, d) || self.frat(y, x, *u, d)); assert(it5_s.contains((y, x)) <==> self.frat(x, y, *u, d) || self.frat(y, x, *u, d)); } }
//@ hint loop2.end
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] fGraph.adj(x, y) <==> fnew(*self, x, y, d, pre(it2_s, it2.pos())) by { let k = (it2.pos() - 1) as nat; lemma_pre(it2_s, k); lemma_fnew(*self, x, y, d, pre(it2_s, k), *u); } }
//@ loop 6
    self.wf(), self.depth == d, self.vs() == g1.vs(), fGraph.wf(),
    forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(self.nodes@, i, x, y) == (darc(g1.nodes@, i, x, y) || (i == d - 1 && pre(it6_s, it6.pos()).contains((x, y)))),
    forall|x: Vertex, y: Vertex| #[trigger] fGraph.adj(x, y) <==> fnew(g1, x, y, d, g1.vs()) && !pre(it6_s, it6.pos()).contains((x, y)) && !pre(it6_s, it6.pos()).contains((y, x)),
//@ hint loop6.start
    proof { lemma_pre(it6_s, (it6.pos() - 1) as nat); }
//@ loop 7
    self.wf(), self.depth == d, self.vs() == g1.vs(), fGraph.wf(),
    forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(self.nodes@, i, x, y) == (darc(g1.nodes@, i, x, y) || (i == d - 1 && (tnew(g1, x, y, d) || pre(it7_s, it7.pos()).contains((x, y))))),
//@ hint loop7.start
    let ghost m7 = self.nodes@;
    proof { lemma_pre(it7_s, (it7.pos() - 1) as nat); assert(it7_s.contains((s, t))); }
//@ hint loop7.end
    proof { assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(self.nodes@, i, x, y) == (darc(g1.nodes@, i, x, y) || (i == d - 1 && (tnew(g1, x, y, d) || pre(it7_s, it7.pos()).contains((x, y))))) by { assert(darc(self.nodes@, i, x, y) == (darc(m7, i, x, y) || (i == d - 1 && x == s && y == t))); } assert(self.vs() =~= g1.vs()); }
//@ hint loop1.end
    proof {
        let m = self.nodes@;
        lemma_pre_ends(it7_s); assert(it7_s.take(it7_s.len() as int) =~= it7_s);
        assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(g1.nodes@, i, x, y) implies 0 <= i < d - 1 && g1.vs().contains(x) by { assert(darc(g0.nodes@, i, x, y)); assert(g0.nodes@[y].nd(g0.depth as int)); }
        assert(augstep(g1, m, d)) by {
            reveal(augstep);
            assert forall|x: Vertex, y: Vertex| #[trigger] fnew(g1, x, y, d, g1.vs()) implies darc(m, d - 1, x, y) || darc(m, d - 1, y, x) by {
                if !tnew(g1, x, y, d) && !tnew(g1, y, x, d) { assert(fGraph.adj(x, y)); assert(it7_s.contains((x, y)) || it7_s.contains((y, x))); }
            }
        }
        Self::lemma_same_aug(g0, g1);
        lemma_augstep(g1, m, d);
        assert forall|i: int, x: Vertex, y: Vertex| i < old(self).depth implies #[trigger] darc(self.nodes@, i, x, y) == darc(old(self).nodes@, i, x, y) by { assert(darc(g1.nodes@, i, x, y) == darc(g0.nodes@, i, x, y)); }
    }
//@ end
    pub proof fn lemma_same_aug(a: DTFGraph, b: DTFGraph)
        requires a.aug(), forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(b.nodes@, i, x, y) == darc(a.nodes@, i, x, y)
        ensures snd(b.nodes@), uniq(b.nodes@), tcl(b.nodes@, a.depth as int), fcl(b.nodes@, a.depth as int)
    {
        reveal(snd); reveal(tcl); reveal(fcl);
        let m = a.nodes@; let n = b.nodes@; let d = a.depth as int;
        assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(n, i, x, y) implies x != y && dwithin(n, x, (i + 1) as nat, y) by { assert(darc(m, i, x, y)); lemma_dw_same(m, n, x, (i + 1) as nat, y); }
        assert forall|x: Vertex, y: Vertex, s: int| #[trigger] arcle(m, x, y, s) implies arcle(n, x, y, s) by { let k = choose|k: int| k + 1 <= s && #[trigger] darc(m, k, x, y); assert(darc(n, k, x, y)); }
        assert forall|i: int, j: int, x: Vertex, y: Vertex, u: Vertex| #[trigger] darc(n, i, x, y) && #[trigger] darc(n, j, y, u) && i + j + 2 <= d && x != u implies arcle(n, x, u, i + j + 2) by { assert(darc(m, i, x, y) && darc(m, j, y, u)); assert(arcle(m, x, u, i + j + 2)); }
        assert forall|j: int, x: Vertex, y: Vertex, u: Vertex| #[trigger] darc(n, 0, x, u) && #[trigger] darc(n, j, y, u) && j + 2 <= d && x != y implies arcle(n, x, y, j + 2) || arcle(n, y, x, j + 2) by { assert(darc(m, 0, x, u) && darc(m, j, y, u)); assert(arcle(m, x, y, j + 2) || arcle(m, y, x, j + 2)); }
    }
//@ fn dtfgraph.rs impl:DTFGraph orient_deep
//@ requires graph.wf(), graph.simple(), forall|w: Vertex| !#[trigger] graph.adj(w, w)
//@ ensures
    r.wf(), r.depth == 1, r.vs() == graph.vs(),
    forall|x: Vertex, y: Vertex| #[trigger] darc(r.nodes@, 0, x, y) ==> graph.adj(x, y),
    forall|x: Vertex, y: Vertex| #[trigger] graph.adj(x, y) ==> darc(r.nodes@, 0, x, y) || darc(r.nodes@, 0, y, x)
//@ decreases (if depth <= 1 { 0int } else { 2int })
//@ lift orient
//@ hint start
    proof { graph.lemma_wf(); }
//@ hint before call augment 1
    let ghost a0 = augg;
    proof { lemma_aug1(augg); }
//@ hint after call augment 1
    proof {
        assert(forall|x: Vertex, y: Vertex| #[trigger] darc(augg.nodes@, 0, x, y) == darc(a0.nodes@, 0, x, y));
        assert forall|w: Vertex| !#[trigger] augg.arc(w, w) by { reveal(snd); }
    }
//@ hint after let reoriented 1
    proof {
        assert forall|x: Vertex, y: Vertex| #[trigger] graph.adj(x, y) implies reoriented.arc(x, y) || reoriented.arc(y, x) by { assert(darc(a0.nodes@, 0, x, y) || darc(a0.nodes@, 0, y, x)); assert(darc(augg.nodes@, 0, x, y) == darc(a0.nodes@, 0, x, y) && darc(augg.nodes@, 0, y, x) == darc(a0.nodes@, 0, y, x)); assert(augg.arc(x, y) || augg.arc(y, x)); assert(orient_a2.adj(x, y)); assert(darc(reoriented.nodes@, 0, x, y) || darc(reoriented.nodes@, 0, y, x)); }
    }
//@ hint end
    proof {
        assert forall|x: Vertex, y: Vertex| #[trigger] graph.adj(x, y) implies darc(vx_res.nodes@, 0, x, y) || darc(vx_res.nodes@, 0, y, x) by { assert(reoriented.arc(x, y) || reoriented.arc(y, x)); assert(graph.adj(y, x)); }
    }
//@ end
}
/// a walk of at most d steps in g
pub open spec fn gwithin<G: Graph>(g: G, x: Vertex, d: nat, y: Vertex) -> bool
    decreases d
{ if d == 0 { x == y } else { gwithin(g, x, (d - 1) as nat, y) || exists|z: Vertex| gwithin(g, x, (d - 1) as nat, z) && #[trigger] g.adj(z, y) } }
/// what orienting g guarantees about the arcs of weight 1
pub open spec fn orients<G: Graph>(g: G, m: Map<Vertex, DTFNode>) -> bool {
    &&& forall|x: Vertex, y: Vertex| #[trigger] darc(m, 0, x, y) ==> g.adj(x, y)
    &&& forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) ==> darc(m, 0, x, y) || darc(m, 0, y, x)
}
/// distances in the oriented graph are the distances in the graph
pub proof fn lemma_gwithin<G: Graph>(g: G, m: Map<Vertex, DTFNode>, x: Vertex, d: nat, y: Vertex)
    requires g.wf(), orients(g, m)
    ensures gwithin(g, x, d, y) == dwithin(m, x, d, y)
    decreases d
{
    g.lemma_wf();
    if d > 0 {
        lemma_gwithin(g, m, x, (d - 1) as nat, y);
        if gwithin(g, x, d, y) && !gwithin(g, x, (d - 1) as nat, y) { let z = choose|z: Vertex| gwithin(g, x, (d - 1) as nat, z) && #[trigger] g.adj(z, y); lemma_gwithin(g, m, x, (d - 1) as nat, z); assert(dadj(m, z, y)); }
        if dwithin(m, x, d, y) && !dwithin(m, x, (d - 1) as nat, y) { let z = choose|z: Vertex| dwithin(m, x, (d - 1) as nat, z) && #[trigger] dadj(m, z, y); lemma_gwithin(g, m, x, (d - 1) as nat, z); assert(g.adj(z, y)); }
    }
}
/// orienting g gives an augmentation; augmenting it keeps the arcs of weight 1; the query is exact for g
pub proof fn theorem_distances<G: Graph>(g: G, a: DTFGraph, b: DTFGraph, u: Vertex, v: Vertex, r: Option<u32>)
    requires
        g.wf(), forall|w: Vertex| !#[trigger] g.adj(w, w),
        a.wf(), a.depth == 1, orients(g, a.nodes@),       // what orient and orient_deep ensure
        a.aug() ==> b.aug() && DTFGraph::kept(a, b),      // what augment ensures
        b.aug() ==> b.dist_ok(u, v, r),                   // what small_distance ensures
    ensures
        match r {
            Some(d) => 1 <= d <= b.depth && gwithin(g, u, d as nat, v) && forall|k: nat| k < d ==> !#[trigger] gwithin(g, u, k, v),
            None => !gwithin(g, u, b.depth as nat, v),
        }
{
    assert forall|x: Vertex| !#[trigger] darc(a.nodes@, 0, x, x) by { }
    lemma_aug1(a);
    assert(forall|x: Vertex, y: Vertex| #[trigger] darc(b.nodes@, 0, x, y) == darc(a.nodes@, 0, x, y));
    assert(orients(g, b.nodes@)) by { assert forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) implies darc(b.nodes@, 0, x, y) || darc(b.nodes@, 0, y, x) by { assert(darc(a.nodes@, 0, x, y) || darc(a.nodes@, 0, y, x)); } }
    assert forall|k: nat| #[trigger] gwithin(g, u, k, v) == dwithin(b.nodes@, u, k, v) by { lemma_gwithin(g, b.nodes@, u, k, v); }
}
} // verus!
