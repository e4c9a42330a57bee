verus! {
//@ props C24
// ===================================================================== dominating sets from augmentations
/// tails of the arcs into u of weight at most k
pub open spec fn inle(m: Map<Vertex, DTFNode>, u: Vertex, k: int) -> Set<Vertex> { m.dom().filter(|x: Vertex| arcle(m, x, u, k)) }
pub open spec fn outle(m: Map<Vertex, DTFNode>, u: Vertex, k: int) -> Set<Vertex> { m.dom().filter(|x: Vertex| arcle(m, u, x, k)) }
pub proof fn lemma_two(a: Set<Vertex>, b: Set<Vertex>, c: Set<Vertex>)
    requires a.subset_of(c), b.subset_of(c), a.disjoint(b)
    ensures a.len() + b.len() <= c.len()
{ vstd::set_lib::lemma_set_disjoint_lens(a, b); vstd::set_lib::lemma_len_subset(a + b, c); }
pub proof fn lemma_arcle_step(m: Map<Vertex, DTFNode>, x: Vertex, y: Vertex, k: int)
    ensures arcle(m, x, y, k) <==> arcle(m, x, y, k - 1) || darc(m, k - 1, x, y)
{
    if arcle(m, x, y, k) { let i = choose|i: int| i + 1 <= k && #[trigger] darc(m, i, x, y); if i + 1 <= k - 1 { assert(arcle(m, x, y, k - 1)); } }
    if arcle(m, x, y, k - 1) { lemma_arcle_mono(m, x, y, k - 1, k); }
    if darc(m, k - 1, x, y) { let i = k - 1; assert(i + 1 <= k && darc(m, i, x, y)); }
}
impl DTFGraph {
    pub proof fn lemma_inle(&self, u: Vertex, k: nat)
        requires self.wf(), uniq(self.nodes@), self.vs().contains(u), k <= self.depth
        ensures insum(self.nodes@[u].in_arcs@.take(k as int)) <= inle(self.nodes@, u, k as int).len()
        decreases k
    {
        let m = self.nodes@; let a = m[u].in_arcs@; assert(m[u].nd(self.depth as int));
        if k > 0 {
            self.lemma_inle(u, (k - 1) as nat);
            assert(a.take(k as int).drop_last() =~= a.take(k - 1)); assert(a.take(k as int).last() == a[k - 1]);
            let b = a[k - 1]@;
            assert forall|x: Vertex| #[trigger] b.contains(x) implies inle(m, u, k as int).contains(x) && !inle(m, u, k - 1).contains(x) by {
                assert(darc(m, k - 1, x, u)); lemma_arcle_step(m, x, u, k as int);
                if arcle(m, x, u, k - 1) { let i = choose|i: int| i + 1 <= k - 1 && #[trigger] darc(m, i, x, u); }
            }
            assert forall|x: Vertex| #[trigger] inle(m, u, k - 1).contains(x) implies inle(m, u, k as int).contains(x) by { lemma_arcle_step(m, x, u, k as int); }
            lemma_two(inle(m, u, k - 1), b, inle(m, u, k as int));
        }
    }
    pub proof fn lemma_outle(&self, u: Vertex, k: nat)
        requires self.wf(), uniq(self.nodes@), self.vs().contains(u), k <= self.depth
        ensures outsum(self.nodes@, k, u) <= outle(self.nodes@, u, k as int).len()
        decreases k
    {
        let m = self.nodes@;
        if k > 0 {
            self.lemma_outle(u, (k - 1) as nat);
            let b = outset(m, k - 1, u);
            assert forall|x: Vertex| #[trigger] b.contains(x) implies outle(m, u, k as int).contains(x) && !outle(m, u, k - 1).contains(x) by {
                assert(darc(m, k - 1, u, x)); lemma_arcle_step(m, u, x, k as int);
                if arcle(m, u, x, k - 1) { let i = choose|i: int| i + 1 <= k - 1 && #[trigger] darc(m, i, u, x); }
            }
            assert forall|x: Vertex| #[trigger] outle(m, u, k - 1).contains(x) implies outle(m, u, k as int).contains(x) by { lemma_arcle_step(m, u, x, k as int); }
            lemma_two(outle(m, u, k - 1), b, outle(m, u, k as int));
        }
    }
    /// with at most one arc per ordered pair no degree exceeds the number of vertices
    pub proof fn lemma_degs(&self, u: Vertex)
        requires self.wf(), uniq(self.nodes@), self.vs().contains(u)
        ensures insum(self.nodes@[u].in_arcs@) <= self.vs().len(), outsum(self.nodes@, self.depth as nat, u) <= self.vs().len()
    {
        let m = self.nodes@; assert(m[u].nd(self.depth as int));
        self.lemma_inle(u, self.depth as nat); self.lemma_outle(u, self.depth as nat);
        assert(m[u].in_arcs@.take(self.depth as int) =~= m[u].in_arcs@);
        vstd::set_lib::lemma_len_subset(inle(m, u, self.depth as int), self.vs()); vstd::set_lib::lemma_len_subset(outle(m, u, self.depth as int), self.vs());
    }
}
/// d bounds, for every vertex, the distance to the nearest vertex of s, if at most r
#[verifier::opaque]
pub open spec fn xd_ok(m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>) -> bool {
    d.dom() == m.dom() && forall|x: Vertex| #[trigger] d.dom().contains(x) ==> d[x] <= r + 1 && (d[x] <= r ==> exists|y: Vertex| #[trigger] s.contains(y) && dwithin(m, y, d[x] as nat, x))
}
pub open spec fn xdom(p: Set<Vertex>, r: nat, d: Map<Vertex, u32>) -> bool { forall|x: Vertex| #[trigger] p.contains(x) ==> d.dom().contains(x) && d[x] <= r }
pub proof fn lemma_xd_dom(m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>)
    requires xd_ok(m, r, s, d)
    ensures d.dom() == m.dom(), forall|x: Vertex| #[trigger] d.dom().contains(x) ==> d[x] <= r + 1
{ reveal(xd_ok); }
/// a smaller entry with a witness
pub proof fn lemma_xd_set(m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, p: Set<Vertex>, y: Vertex, k: u32, x: Vertex)
    requires xd_ok(m, r, s, d), xdom(p, r, d), s.contains(y), dwithin(m, y, k as nat, x), m.dom().contains(x), k <= d[x]
    ensures xd_ok(m, r, s, d.insert(x, k)), xdom(p, r, d.insert(x, k))
{
    reveal(xd_ok); let e = d.insert(x, k); assert(e.dom() =~= d.dom());
    assert forall|z: Vertex| #[trigger] e.dom().contains(z) implies e[z] <= r + 1 && (e[z] <= r ==> exists|y: Vertex| #[trigger] s.contains(y) && dwithin(m, y, e[z] as nat, z)) by { if z == x { assert(s.contains(y) && dwithin(m, y, e[z] as nat, z)); } else { assert(d.dom().contains(z)); } }
}
pub proof fn lemma_xd_keep(m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, p: Set<Vertex>, x: Vertex)
    requires xd_ok(m, r, s, d), xdom(p, r, d), m.dom().contains(x)
    ensures xd_ok(m, r, s, d.insert(x, d[x])), xdom(p, r, d.insert(x, d[x]))
{ reveal(xd_ok); assert(d.insert(x, d[x]) =~= d); }
/// x joins the set
pub proof fn lemma_xd_new(m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, p: Set<Vertex>, x: Vertex)
    requires xd_ok(m, r, s, d), xdom(p, r, d), m.dom().contains(x)
    ensures xd_ok(m, r, s.insert(x), d.insert(x, 0)), xdom(p, r, d.insert(x, 0)), xdom(p.insert(x), r, d.insert(x, 0))
{
    reveal(xd_ok); let e = d.insert(x, 0); let t = s.insert(x); assert(e.dom() =~= d.dom());
    assert forall|z: Vertex| #[trigger] e.dom().contains(z) implies e[z] <= r + 1 && (e[z] <= r ==> exists|y: Vertex| #[trigger] t.contains(y) && dwithin(m, y, e[z] as nat, z)) by {
        if z == x { assert(t.contains(x) && dwithin(m, x, 0, x)); }
        else { assert(d.dom().contains(z)); if d[z] <= r { let y = choose|y: Vertex| #[trigger] s.contains(y) && dwithin(m, y, d[z] as nat, z); assert(t.contains(y)); } }
    }
}
/// arc u -> v of weight k: v is reached through u
pub proof fn lemma_xd_in(m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, p: Set<Vertex>, u: Vertex, k: u32, v: Vertex)
    requires xd_ok(m, r, s, d), xdom(p, r, d), snd(m), 1 <= k <= r, r < 0x4000_0000, darc(m, k - 1, u, v), m.dom().contains(u)
    ensures d[u] <= r + 1, d[v] <= k + d[u] ==> xd_ok(m, r, s, d.insert(v, d[v])) && xdom(p, r, d.insert(v, d[v])),
        k + d[u] <= d[v] ==> xd_ok(m, r, s, d.insert(v, (k + d[u]) as u32)) && xdom(p, r, d.insert(v, (k + d[u]) as u32))
{
    lemma_xd_dom(m, r, s, d); lemma_xd_keep(m, r, s, d, p, v);
    assert(d.dom().contains(u) && d.dom().contains(v));
    if k + d[u] <= d[v] {
        assert(d[u] <= r);
        let y = choose|y: Vertex| #[trigger] s.contains(y) && dwithin(m, y, d[u] as nat, u);
        assert(s.contains(y) && dwithin(m, y, d[u] as nat, u)) by { reveal(xd_ok); }
        assert(dwithin(m, u, k as nat, v)) by { reveal(snd); }
        lemma_dw_trans(m, y, d[u] as nat, u, k as nat, v);
        lemma_xd_set(m, r, s, d, p, y, (k + d[u]) as u32, v);
    }
}
/// arc u -> c of weight k into a vertex of the set: u is reached from c
pub proof fn lemma_xd_out(m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, p: Set<Vertex>, u: Vertex, k: u32, c: Vertex)
    requires xd_ok(m, r, s, d), xdom(p, r, d), snd(m), 1 <= k, darc(m, k - 1, u, c), m.dom().contains(u), s.contains(c)
    ensures d[u] <= k ==> xd_ok(m, r, s, d.insert(u, d[u])) && xdom(p, r, d.insert(u, d[u])),
        k <= d[u] ==> xd_ok(m, r, s, d.insert(u, k)) && xdom(p, r, d.insert(u, k))
{
    lemma_xd_dom(m, r, s, d); lemma_xd_keep(m, r, s, d, p, u);
    assert(dwithin(m, u, k as nat, c)) by { reveal(snd); }
    lemma_dw_sym(m, u, k as nat, c);
    if k <= d[u] { lemma_xd_set(m, r, s, d, p, c, k, u); }
}
/// every counter is at most the number of rounds, one more for the tails of arcs into v of weight at most e and the vertices of s
#[verifier::opaque]
pub open spec fn ctr(m: Map<Vertex, DTFNode>, c: Map<Vertex, u32>, k: nat, v: Vertex, e: int, s: Set<Vertex>) -> bool {
    c.dom() == m.dom() && forall|x: Vertex| #[trigger] c.dom().contains(x) ==> c[x] <= k + (if arcle(m, x, v, e) || s.contains(x) { 1nat } else { 0 })
}
pub proof fn lemma_ctr_step(m: Map<Vertex, DTFNode>, c: Map<Vertex, u32>, k: nat, v: Vertex, e: int, o: Seq<Vertex>, i: nat)
    requires ctr(m, c, k, v, e, pre(o, i)), uniq(m), o.no_duplicates(), i < o.len(), darc(m, e, o[i as int], v), m.dom().contains(o[i as int]), k < 0x8000_0000
    ensures c.dom() == m.dom(), c[o[i as int]] <= k, ctr(m, c.insert(o[i as int], (c[o[i as int]] + 1) as u32), k, v, e, pre(o, i + 1))
{
    reveal(ctr); lemma_pre(o, i); let x = o[i as int];
    if arcle(m, x, v, e) { let j = choose|j: int| j + 1 <= e && #[trigger] darc(m, j, x, v); }
    if pre(o, i).contains(x) { let j = choose|j: int| 0 <= j < i && o.take(i as int)[j] == x; assert(o[j] == o[i as int]); }
    assert(c.insert(x, (c[x] + 1) as u32).dom() =~= c.dom());
}
pub proof fn lemma_ctr_next(m: Map<Vertex, DTFNode>, c: Map<Vertex, u32>, k: nat, v: Vertex, e: int, s: Set<Vertex>)
    requires ctr(m, c, k, v, e, s), forall|x: Vertex| #[trigger] s.contains(x) ==> darc(m, e, x, v)
    ensures ctr(m, c, k, v, e + 1, Set::empty())
{
    reveal(ctr);
    assert forall|x: Vertex| #[trigger] c.dom().contains(x) implies c[x] <= k + (if arcle(m, x, v, e + 1) || Set::<Vertex>::empty().contains(x) { 1nat } else { 0 }) by { lemma_arcle_step(m, x, v, e + 1); }
}
pub proof fn lemma_ctr_round(m: Map<Vertex, DTFNode>, c: Map<Vertex, u32>, k: nat, v: Vertex, e: int, w: Vertex)
    requires ctr(m, c, k, v, e, Set::empty())
    ensures ctr(m, c, k + 1, w, 0, Set::empty())
{ reveal(ctr); }
pub proof fn lemma_ctr_w(m: Map<Vertex, DTFNode>, c: Map<Vertex, u32>, k: nat, v: Vertex, w: Vertex)
    requires ctr(m, c, k, v, 0, Set::empty())
    ensures ctr(m, c, k, w, 0, Set::empty())
{ reveal(ctr); assert forall|x: Vertex| !arcle(m, x, v, 0) by { if arcle(m, x, v, 0) { let i = choose|i: int| i + 1 <= 0 && #[trigger] darc(m, i, x, v); } } }
pub proof fn lemma_xd_start(m: Map<Vertex, DTFNode>, r: nat, d: Map<Vertex, u32>, c: Map<Vertex, u32>)
    requires d.dom() == m.dom(), c.dom() == m.dom(), forall|x: Vertex| #[trigger] d.dom().contains(x) ==> d[x] == r + 1, forall|x: Vertex| #[trigger] c.dom().contains(x) ==> c[x] == 0
    ensures xd_ok(m, r, Set::empty(), d), ctr(m, c, 0, 0, 0, Set::empty()), xdom(Set::empty(), r, d)
{ reveal(xd_ok); reveal(ctr); }
pub proof fn lemma_xd_end(a: Map<Vertex, DTFNode>, m: Map<Vertex, DTFNode>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, vs: Set<Vertex>)
    requires xd_ok(m, r, s, d), xdom(vs, r, d), forall|x: Vertex, y: Vertex| #[trigger] darc(m, 0, x, y) == darc(a, 0, x, y)
    ensures forall|x: Vertex| #[trigger] vs.contains(x) ==> exists|y: Vertex| #[trigger] s.contains(y) && dwithin(a, y, r, x)
{
    reveal(xd_ok);
    assert forall|x: Vertex| #[trigger] vs.contains(x) implies exists|y: Vertex| #[trigger] s.contains(y) && dwithin(a, y, r, x) by {
        assert(d.dom().contains(x));
        let y = choose|y: Vertex| #[trigger] s.contains(y) && dwithin(m, y, d[x] as nat, x);
        lemma_dw_same(m, a, y, d[x] as nat, x); lemma_dw_mono(a, y, d[x] as nat, r, x); assert(s.contains(y));
    }
}
impl DTFGraph {
    /// the sort key of u does not overflow
    pub open spec fn keyok(&self, u: Vertex, n: int) -> bool { insum(self.nodes@[u].in_arcs@) < 0x8000_0000 && outsum(self.nodes@, self.depth as nat, u) < 0x8000_0000 && -0x4000_0000_0000_0000 <= -(insum(self.nodes@[u].in_arcs@) as int) * n <= 0 }
    pub proof fn lemma_keyok(&self, u: Vertex)
        requires self.wf(), uniq(self.nodes@), self.vs().contains(u), self.vs().len() < 0x8000_0000
        ensures self.keyok(u, self.vs().len() as int)
    {
        self.lemma_degs(u); let a = -(insum(self.nodes@[u].in_arcs@) as int); let n = self.vs().len() as int;
        assert(-0x4000_0000_0000_0000 <= a * n <= 0) by(nonlinear_arith) requires -0x8000_0000 < a <= 0, 0 <= n < 0x8000_0000;
    }
    pub proof fn lemma_depth(&self)
        requires self.wf()
        ensures self.depth >= 1
    { }
    pub proof fn lemma_src(&self, u: Vertex, i: int, v: Vertex)
        requires self.wf(), darc(self.nodes@, i, u, v)
        ensures self.vs().contains(u)
    { }
//@ fn dtfgraph.rs impl:DTFGraph domset
//@ attr #[verifier::rlimit(30)]
//@ requires old(self).aug(), radius < 0x4000_0000, old(self).vs().len() < 0x8000_0000
//@ ensures
    final(self).aug(), final(self).depth == (if radius > old(self).depth { radius as usize } else { old(self).depth }), Self::kept(*old(self), *final(self)),
    r@.subset_of(old(self).vs()), forall|x: Vertex| #[trigger] old(self).vs().contains(x) ==> exists|y: Vertex| #[trigger] r@.contains(y) && dwithin(old(self).nodes@, y, radius as nat, x)
//@ hint start
    hide(DTFGraph::wf); hide(uniq); hide(sorted_by);
//@ isolate 1
//@ isolate 2
//@ closure 1 |u: &Vertex| -> (k: i64) requires self.wf(), self.vs().contains(*u), self.keyok(*u, n as int) ensures true
//@ hint after call augment 1
    let ghost g = *self; let ghost m = self.nodes@; let ghost vs = self.vs(); let ghost rr = radius as nat;
    proof { old(self).lemma_depth(); }
//@ hint after let n 1
    proof { assert forall|u: Vertex| #[trigger] vs.contains(u) implies self.keyok(u, n as int) by { self.lemma_keyok(u); } }
//@ loop 1
    rr == radius, undominated == radius + 1, lists(it1_s, vs), dom_distance@.dom() == pre(it1_s, it1.pos()), dom_counter@.dom() == pre(it1_s, it1.pos()),
    forall|x: Vertex| #[trigger] dom_distance@.dom().contains(x) ==> dom_distance@[x] == rr + 1,
    forall|x: Vertex| #[trigger] dom_counter@.dom().contains(x) ==> dom_counter@[x] == 0,
//@ hint loop1.start
    proof { lemma_pre(it1_s, (it1.pos() - 1) as nat); }
//@ hint loop1.after
    proof { lemma_pre_ends(it1_s); assert(pre(it1_s, it1_s.len()) =~= vs); lemma_xd_start(m, rr, dom_distance@, dom_counter@); }
//@ loop 2
    self.wf(), snd(m), uniq(m), self.nodes@ == m, self.vs() == vs, m.dom() == vs, self.depth >= radius, rr == radius, radius < 0x4000_0000, vs.len() < 0x8000_0000,
    undominated == radius + 1, lists(it2_s, vs), xd_ok(m, rr, domset@, dom_distance@), ctr(m, dom_counter@, it2.pos(), 0, 0, Set::empty()), xdom(pre(it2_s, it2.pos()), rr, dom_distance@), domset@.subset_of(vs),
//@ hint loop2.start
    let ghost n2 = (it2.pos() - 1) as nat; let ghost p2 = pre(it2_s, n2);
    proof { lemma_pre(it2_s, n2); assert(it2_s.contains(v)); assert(vs.contains(v)); lemma_count(it2_s, vs); lemma_xd_dom(m, rr, domset@, dom_distance@); }
//@ loop 3
    xd_ok(m, rr, domset@, dom_distance@), xdom(p2, rr, dom_distance@), it3_s.len() == radius, forall|i: int| 0 <= i < it3_s.len() ==> #[trigger] it3_s[i] == i + 1,
//@ loop 4
    xd_ok(m, rr, domset@, dom_distance@), xdom(p2, rr, dom_distance@), 1 <= r <= radius, forall|x: Vertex| #[trigger] it4_s.contains(x) <==> self.arc_at(r as int, x, v),
//@ hint loop4.start
    proof { assert(it4_s.contains(*u)); self.lemma_src(*u, r - 1, v); lemma_xd_in(m, rr, domset@, dom_distance@, p2, *u, r, v); lemma_xd_dom(m, rr, domset@, dom_distance@); }
//@ hint loop3.after
    proof { lemma_ctr_round(m, dom_counter@, n2, 0, 0, 0); lemma_ctr_w(m, dom_counter@, n2, 0, v); lemma_xd_dom(m, rr, domset@, dom_distance@); lemma_xd_new(m, rr, domset@, dom_distance@, p2, v); }
//@ hint loop5.before
    let ghost q2 = p2.insert(v);
//@ loop 5
    xd_ok(m, rr, domset@, dom_distance@), xdom(q2, rr, dom_distance@), it5_s.len() == radius, forall|i: int| 0 <= i < it5_s.len() ==> #[trigger] it5_s[i] == i + 1,
    domset@.subset_of(vs), domset@.contains(v), ctr(m, dom_counter@, n2, v, it5.pos() as int, Set::empty()),
//@ loop 6
    xd_ok(m, rr, domset@, dom_distance@), xdom(q2, rr, dom_distance@), 1 <= r <= radius, r == it5.pos(), it6_s.no_duplicates(), forall|x: Vertex| #[trigger] it6_s.contains(x) <==> self.arc_at(r as int, x, v),
    domset@.subset_of(vs), domset@.contains(v), ctr(m, dom_counter@, n2, v, r - 1, pre(it6_s, it6.pos())),
//@ hint loop6.start
    let ghost d6 = dom_distance@;
    proof { assert(it6_s.contains(*u)); self.lemma_src(*u, r - 1, v); lemma_ctr_step(m, dom_counter@, n2, v, r - 1, it6_s, (it6.pos() - 1) as nat); lemma_xd_out(m, rr, domset@, dom_distance@, q2, *u, r, v); lemma_xd_dom(m, rr, domset@, dom_distance@); }
//@ hint before call insert 5
    proof { lemma_xd_new(m, rr, domset@, dom_distance@, q2, *u); }
//@ loop 7
    xd_ok(m, rr, domset@, dom_distance@), xdom(q2, rr, dom_distance@), it7_s.len() == radius, forall|i: int| 0 <= i < it7_s.len() ==> #[trigger] it7_s[i] == i + 1,
//@ loop 8
    xd_ok(m, rr, domset@, dom_distance@), xdom(q2, rr, dom_distance@), 1 <= rx <= radius, forall|x: Vertex| #[trigger] it8_s.contains(x) <==> self.arc_at(rx as int, x, *u),
//@ hint loop8.start
    proof { assert(it8_s.contains(*x)); self.lemma_src(*x, rx - 1, *u); lemma_xd_out(m, rr, domset@, dom_distance@, q2, *x, rx, *u); lemma_xd_dom(m, rr, domset@, dom_distance@); }
//@ hint loop6.after
    proof { lemma_pre_ends(it6_s); assert(it6_s.take(it6_s.len() as int) =~= it6_s); lemma_ctr_next(m, dom_counter@, n2, v, r - 1, pre(it6_s, it6_s.len())); }
//@ hint loop2.end
    proof { lemma_ctr_round(m, dom_counter@, n2, v, radius as int, 0); }
//@ hint end
    proof {
        lemma_pre_ends(it2_s); assert(pre(it2_s, it2_s.len()) =~= vs);
        lemma_xd_end(old(self).nodes@, m, rr, vx_res@, dom_distance@, vs);
    }
//@ end
}
} // verus!
