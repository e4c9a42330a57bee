verus! {
//@ props C19
// ===================================================================== distances
/// there is a walk of at most d steps from x to y
pub open spec fn within<G: Graph>(g: G, x: Vertex, d: nat, y: Vertex) -> bool
    decreases d
{ if d == 0 { x == y } else { within(g, x, (d - 1) as nat, y) || exists|z: Vertex| within(g, x, (d - 1) as nat, z) && #[trigger] g.adj(z, y) } }
pub proof fn lemma_within_mono<G: Graph>(g: G, x: Vertex, d: nat, e: nat, y: Vertex)
    requires within(g, x, d, y), d <= e
    ensures within(g, x, e, y)
    decreases e
{ if d < e { lemma_within_mono(g, x, d, (e - 1) as nat, y); } }
pub proof fn lemma_within_trans<G: Graph>(g: G, x: Vertex, a: nat, y: Vertex, b: nat, z: Vertex)
    requires within(g, x, a, y), within(g, y, b, z)
    ensures within(g, x, a + b, z)
    decreases b
{
    if b > 0 {
        if within(g, y, (b - 1) as nat, z) { lemma_within_trans(g, x, a, y, (b - 1) as nat, z); }
        else { let p = choose|p: Vertex| within(g, y, (b - 1) as nat, p) && #[trigger] g.adj(p, z); lemma_within_trans(g, x, a, y, (b - 1) as nat, p); assert(within(g, x, (a + b - 1) as nat, p) && g.adj(p, z)); }
    }
}
pub proof fn lemma_within_sym<G: Graph>(g: G, x: Vertex, d: nat, y: Vertex)
    requires g.wf(), within(g, x, d, y)
    ensures within(g, y, d, x)
    decreases d
{
    if d > 0 {
        if within(g, x, (d - 1) as nat, y) { lemma_within_sym(g, x, (d - 1) as nat, y); lemma_within_mono(g, y, (d - 1) as nat, d, x); }
        else {
            let z = choose|z: Vertex| within(g, x, (d - 1) as nat, z) && #[trigger] g.adj(z, y);
            g.lemma_wf(); assert(g.adj(y, z)); assert(within(g, y, 0, y)); assert(within(g, y, 1, z));
            lemma_within_sym(g, x, (d - 1) as nat, z); lemma_within_trans(g, y, 1, z, (d - 1) as nat, x);
        }
    }
}
pub proof fn lemma_rball_mono<L: LinearGraph>(g: L, u: Vertex, d: nat, e: nat, v: Vertex)
    requires rball(g, u, d, v), d <= e
    ensures rball(g, u, e, v)
    decreases e
{ if d < e { lemma_rball_mono(g, u, d, (e - 1) as nat, v); } }
pub proof fn lemma_rball_within<L: LinearGraph>(g: L, u: Vertex, d: nat, v: Vertex)
    requires rball(g, u, d, v)
    ensures within(g, u, d, v)
    decreases d
{
    if d > 0 { if rball(g, u, (d - 1) as nat, v) { lemma_rball_within(g, u, (d - 1) as nat, v); } else { let p = choose|p: Vertex| rball(g, u, (d - 1) as nat, p) && #[trigger] g.adj(p, v); lemma_rball_within(g, u, (d - 1) as nat, p); } }
}
/// a walk right of w, continued from a walk right of y that ends in w
pub proof fn lemma_rfwd<L: LinearGraph>(g: L, y: Vertex, c: nat, w: Vertex, a: nat, x: Vertex)
    requires rball(g, y, c, w), rball(g, w, a, x), ix(g.vseq(), y) < ix(g.vseq(), w)
    ensures rball(g, y, c + a, x)
    decreases a
{
    if a > 0 {
        lemma_rball_right(g, w, a, x);
        if rball(g, w, (a - 1) as nat, x) { lemma_rfwd(g, y, c, w, (a - 1) as nat, x); }
        else { let p = choose|p: Vertex| rball(g, w, (a - 1) as nat, p) && #[trigger] g.adj(p, x); lemma_rfwd(g, y, c, w, (a - 1) as nat, p); assert(rball(g, y, (c + a - 1) as nat, p) && g.adj(p, x)); }
    }
}
/// ... and a walk right of w, followed backwards
pub proof fn lemma_rback<L: LinearGraph>(g: L, y: Vertex, c: nat, z: Vertex, b: nat, w: Vertex)
    requires g.wf(), rball(g, y, c, z), rball(g, w, b, z), ix(g.vseq(), y) < ix(g.vseq(), w)
    ensures rball(g, y, c + b, w)
    decreases b
{
    if b > 0 {
        if rball(g, w, (b - 1) as nat, z) { lemma_rback(g, y, c, z, (b - 1) as nat, w); }
        else {
            let p = choose|p: Vertex| rball(g, w, (b - 1) as nat, p) && #[trigger] g.adj(p, z);
            g.lemma_wf(); lemma_rball_right(g, w, (b - 1) as nat, p); assert(g.adj(z, p));
            assert(rball(g, y, c + 1, p)); lemma_rback(g, y, c + 1, p, (b - 1) as nat, w);
        }
    }
}
/// the leftmost vertex w of a walk from x to y
pub open spec fn meets<L: LinearGraph>(g: L, x: Vertex, y: Vertex, w: Vertex, a: nat, b: nat) -> bool { g.vs().contains(w) && rball(g, w, a, x) && rball(g, w, b, y) }
pub proof fn lemma_meet<L: LinearGraph>(g: L, x: Vertex, d: nat, y: Vertex)
    requires g.wf(), g.vs().contains(x), within(g, x, d, y)
    ensures exists|w: Vertex, a: nat, b: nat| #[trigger] meets(g, x, y, w, a, b) && a + b <= d
    decreases d
{
    if d == 0 { assert(meets(g, x, y, x, 0, 0)); }
    else if within(g, x, (d - 1) as nat, y) { lemma_meet(g, x, (d - 1) as nat, y); let (w, a, b) = choose|w: Vertex, a: nat, b: nat| #[trigger] meets(g, x, y, w, a, b) && a + b <= d - 1; assert(meets(g, x, y, w, a, b) && a + b <= d); }
    else {
        let z = choose|z: Vertex| within(g, x, (d - 1) as nat, z) && #[trigger] g.adj(z, y);
        lemma_meet(g, x, (d - 1) as nat, z);
        let (w, a, b) = choose|w: Vertex, a: nat, b: nat| #[trigger] meets(g, x, z, w, a, b) && a + b <= d - 1;
        g.lemma_wf(); g.lemma_lin(); lemma_ix(g.vseq()); assert(g.vs().contains(y)); assert(g.vseq().contains(y)); assert(g.vseq().contains(w));
        if y == w { assert(meets(g, x, y, w, a, 0)); }
        else if ix(g.vseq(), y) > ix(g.vseq(), w) { assert(rball(g, w, b + 1, y)); assert(meets(g, x, y, w, a, b + 1)); }
        else {
            assert(ix(g.vseq(), y) < ix(g.vseq(), w)); lemma_rball_right(g, w, b, z);
            assert(rball(g, y, 0, y)); assert(g.adj(y, z)); assert(rball(g, y, 1, z));
            lemma_rback(g, y, 1, z, b, w); lemma_rfwd(g, y, 1 + b, w, a, x);
            assert(meets(g, x, y, y, 1 + b + a, 0));
        }
    }
}
/// an entry of a set of weakly reachable vertices
pub proof fn lemma_w_entry<L: LinearGraph>(g: L, v: Vertex, r: nat, m: Map<Vertex, u32>, u: Vertex)
    requires is_wreach(g, v, r, m), m.dom().contains(u)
    ensures rball(g, u, m[u] as nat, v), 1 <= m[u] <= r, g.vs().contains(u), u != v
{
    reveal(is_wreach);
    assert(rlayer(g, u, m[u] as nat, v));
    if m[u] > r { lemma_rball_mono(g, u, r, (m[u] - 1) as nat, v); }
}
pub proof fn lemma_w_has<L: LinearGraph>(g: L, v: Vertex, r: nat, m: Map<Vertex, u32>, u: Vertex, d: nat)
    requires is_wreach(g, v, r, m), rball(g, u, d, v), d <= r, u != v, g.vs().contains(u)
    ensures m.dom().contains(u), m[u] <= d
{
    reveal(is_wreach); lemma_rball_mono(g, u, d, r, v);
    assert(m.dom().contains(u)); assert(rlayer(g, u, m[u] as nat, v));
    if m[u] > d { lemma_rball_mono(g, u, d, (m[u] - 1) as nat, v); }
}
// ===================================================================== dominating sets
/// an element of s is within distance d of x
pub open spec fn near<G: Graph>(g: G, s: Set<Vertex>, d: nat, x: Vertex) -> bool { exists|c: Vertex| s.contains(c) && #[trigger] within(g, c, d, x) }
pub open spec fn und(t: Set<Vertex>, r: nat, x: Vertex) -> nat { if t.contains(x) { r + 1 } else { r } }
pub open spec fn dd_at<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, x: Vertex, d: u32) -> bool { d <= und(t, r, x) && (d == und(t, r, x) || near(g, s, d as nat, x)) }
/// d bounds the distances to s from above, except for the initial values
#[verifier::opaque]
pub open spec fn dd_ok<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>) -> bool { d.dom() == g.vs() && forall|x: Vertex| #[trigger] d.dom().contains(x) ==> dd_at(g, t, r, s, x, d[x]) }
#[verifier::opaque]
pub open spec fn dominated(p: Set<Vertex>, r: nat, d: Map<Vertex, u32>) -> bool { forall|x: Vertex| #[trigger] p.contains(x) ==> d.dom().contains(x) && d[x] <= r }
pub proof fn lemma_dd_get<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, x: Vertex)
    requires dd_ok(g, t, r, s, d), g.vs().contains(x)
    ensures d.dom() == g.vs(), dd_at(g, t, r, s, x, d[x]), d[x] <= r + 1
{ reveal(dd_ok); assert(d.dom().contains(x)); }
/// one value is lowered
pub proof fn lemma_dd_set<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, x: Vertex, k: u32, p: Set<Vertex>)
    requires dd_ok(g, t, r, s, d), g.vs().contains(x), dd_at(g, t, r, s, x, k), k <= d[x], dominated(p, r, d)
    ensures dd_ok(g, t, r, s, d.insert(x, k)), dominated(p, r, d.insert(x, k))
{ reveal(dd_ok); reveal(dominated); let e = d.insert(x, k); assert(e.dom() =~= g.vs()); assert forall|y: Vertex| #[trigger] e.dom().contains(y) implies dd_at(g, t, r, s, y, e[y]) by { assert(d.dom().contains(y)); } }
/// the distance of v is updated through u, from which v is weakly reachable at distance k
pub proof fn lemma_dd_in<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, v: Vertex, u: Vertex, k: u32, p: Set<Vertex>, m: u32)
    requires dd_ok(g, t, r, s, d), g.vs().contains(u), g.vs().contains(v), within(g, u, k as nat, v), 1 <= k, dominated(p, r, d), r < 0x4000_0000, k <= 0x7fff_ffff, m == if d[v] <= k + d[u] { d[v] as int } else { k + d[u] }
    ensures d.dom() == g.vs(), d[u] <= r + 1, dd_ok(g, t, r, s, d.insert(v, m)), dominated(p, r, d.insert(v, m))
{
    lemma_dd_get(g, t, r, s, d, u); lemma_dd_get(g, t, r, s, d, v);
    if d[v] > k + d[u] { assert(near(g, s, d[u] as nat, u)); let c = choose|c: Vertex| s.contains(c) && #[trigger] within(g, c, d[u] as nat, u); lemma_within_trans(g, c, d[u] as nat, u, k as nat, v); assert(within(g, c, m as nat, v)); }
    lemma_dd_set(g, t, r, s, d, v, m, p);
}
/// the distance of u is updated through the element c of s
pub proof fn lemma_dd_out<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, u: Vertex, c: Vertex, k: u32, p: Set<Vertex>, m: u32)
    requires g.wf(), dd_ok(g, t, r, s, d), s.contains(c), g.vs().contains(u), within(g, u, k as nat, c), dominated(p, r, d), m == if d[u] <= k { d[u] } else { k }
    ensures d.dom() == g.vs(), dd_ok(g, t, r, s, d.insert(u, m)), dominated(p, r, d.insert(u, m))
{
    lemma_dd_get(g, t, r, s, d, u); lemma_within_sym(g, u, k as nat, c);
    lemma_dd_set(g, t, r, s, d, u, m, p);
}
/// v joins s
pub proof fn lemma_dd_new<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>, v: Vertex, p: Set<Vertex>)
    requires dd_ok(g, t, r, s, d), g.vs().contains(v), dominated(p, r, d)
    ensures d.dom() == g.vs(), dd_ok(g, t, r, s.insert(v), d.insert(v, 0)), dominated(p, r, d.insert(v, 0)), dominated(p.insert(v), r, d.insert(v, 0))
{
    reveal(dd_ok); reveal(dominated); let e = d.insert(v, 0); let s2 = s.insert(v);
    assert(e.dom() =~= g.vs());
    assert forall|y: Vertex| #[trigger] e.dom().contains(y) implies dd_at(g, t, r, s2, y, e[y]) by {
        if y == v { assert(s2.contains(v) && within(g, v, 0, v)); } else { assert(d.dom().contains(y)); if near(g, s, d[y] as nat, y) { let c = choose|c: Vertex| s.contains(c) && #[trigger] within(g, c, d[y] as nat, y); assert(s2.contains(c)); } }
    }
}
/// every vertex within its returned distance, at most r, of s
pub open spec fn dominates<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>) -> bool { forall|x: Vertex| #[trigger] t.contains(x) ==> d.dom().contains(x) && d[x] <= r && near(g, s, d[x] as nat, x) }
pub proof fn lemma_dominates<G: Graph>(g: G, t: Set<Vertex>, r: nat, s: Set<Vertex>, d: Map<Vertex, u32>)
    requires dd_ok(g, t, r, s, d), dominated(g.vs(), r, d), t.subset_of(g.vs())
    ensures dominates(g, t, r, s, d)
{ reveal(dd_ok); reveal(dominated); assert forall|x: Vertex| #[trigger] t.contains(x) implies d.dom().contains(x) && d[x] <= r && near(g, s, d[x] as nat, x) by { assert(g.vs().contains(x)); assert(d.dom().contains(x)); assert(dd_at(g, t, r, s, x, d[x])); } }
/// all counters are at most k, those outside p less
#[verifier::opaque]
pub open spec fn counters(a: Set<Vertex>, c: Map<Vertex, u32>, k: nat, p: Set<Vertex>) -> bool { c.dom() == a && forall|x: Vertex| #[trigger] a.contains(x) ==> c[x] <= k + if p.contains(x) { 1nat } else { 0 } }
pub proof fn lemma_counters(a: Set<Vertex>, c: Map<Vertex, u32>, k: nat, p: Set<Vertex>, u: Vertex)
    requires counters(a, c, k, p), a.contains(u), !p.contains(u), k < 0x8000_0000
    ensures c.dom() == a, c[u] < 0x8000_0000, counters(a, c.insert(u, (c[u] + 1) as u32), k, p.insert(u))
{ reveal(counters); let e = c.insert(u, (c[u] + 1) as u32); assert(e.dom() =~= a); assert forall|x: Vertex| #[trigger] a.contains(x) implies e[x] <= k + if p.insert(u).contains(x) { 1nat } else { 0 } by { if x != u { assert(e[x] == c[x]); } } }
pub proof fn lemma_counters_end(a: Set<Vertex>, c: Map<Vertex, u32>, k: nat, p: Set<Vertex>)
    requires counters(a, c, k, p)
    ensures counters(a, c, k + 1, Set::empty())
{ reveal(counters); assert forall|x: Vertex| #[trigger] a.contains(x) implies c[x] <= k + 1 by { } }
// ---------------------------------------------------------------- the auxiliary graph
pub type WMap = FxHashMap<Vertex, FxHashMap<Vertex, u32>>;
pub open spec fn oin(o: WMap, w: Vertex, x: Vertex) -> bool { mmd(o).contains(w) && mm(o, w).dom().contains(x) }
/// o holds, for each w, the vertices of s from whose sets w is taken; for x0 only those in p
#[verifier::opaque]
pub open spec fn is_out(o: WMap, wr: WMap, s: Set<Vertex>, x0: Vertex, p: Set<Vertex>) -> bool {
    forall|w: Vertex, x: Vertex| #[trigger] oin(o, w, x) <==> mm(wr, x).dom().contains(w) && (s.contains(x) || x == x0 && p.contains(w))
}
#[verifier::opaque]
pub open spec fn out_vals(o: WMap, wr: WMap) -> bool { forall|w: Vertex, x: Vertex| #[trigger] oin(o, w, x) ==> mm(o, w)[x] == mm(wr, x)[w] }
pub proof fn lemma_out_step(o: WMap, wr: WMap, s: Set<Vertex>, x0: Vertex, p: Set<Vertex>, w: Vertex, n: WMap)
    requires is_out(o, wr, s, x0, p), out_vals(o, wr), mm(wr, x0).dom().contains(w), mmd(n) == mmd(o).insert(w),
        forall|v: Vertex| v != w && mmd(o).contains(v) ==> #[trigger] mm(n, v) == mm(o, v),
        mm(n, w) == (if mmd(o).contains(w) { mm(o, w) } else { Map::<Vertex, u32>::empty() }).insert(x0, mm(wr, x0)[w])
    ensures is_out(n, wr, s, x0, p.insert(w)), out_vals(n, wr)
{
    reveal(is_out); reveal(out_vals);
    assert forall|v: Vertex, x: Vertex| #[trigger] oin(n, v, x) <==> oin(o, v, x) || v == w && x == x0 by { }
    assert forall|v: Vertex, x: Vertex| #[trigger] oin(n, v, x) implies mm(n, v)[x] == mm(wr, x)[v] by { if v == w && x == x0 { } else { assert(oin(o, v, x)); } }
}
pub proof fn lemma_out_next(o: WMap, wr: WMap, s: Set<Vertex>, x0: Vertex, p: Set<Vertex>, x1: Vertex)
    requires is_out(o, wr, s, x0, p), p == mm(wr, x0).dom()
    ensures is_out(o, wr, s.insert(x0), x1, Set::empty())
{ reveal(is_out); }
pub proof fn lemma_out_start(o: WMap, wr: WMap, s: Set<Vertex>, x0: Vertex, x1: Vertex)
    requires is_out(o, wr, s, x0, Set::empty())
    ensures is_out(o, wr, s, x1, Set::empty())
{ reveal(is_out); }
/// the edges of h for w: pairs joined by a short walk through w, and w itself
#[verifier::opaque]
pub open spec fn hdone<H: Graph>(h: H, sc: Set<Vertex>, k: nat, w: Vertex, o: Map<Vertex, u32>) -> bool {
    (forall|x: Vertex, y: Vertex| x != y && #[trigger] o.dom().contains(x) && #[trigger] o.dom().contains(y) && o[x] + o[y] <= k ==> h.adj(x, y))
    && (sc.contains(w) ==> forall|x: Vertex| #[trigger] o.dom().contains(x) && o[x] <= k ==> h.adj(w, x))
}
pub open spec fn hall<H: Graph>(h: H, sc: Set<Vertex>, k: nat, o: WMap, p: Set<Vertex>) -> bool { forall|w: Vertex| #[trigger] p.contains(w) ==> hdone(h, sc, k, w, mm(o, w)) }
pub proof fn lemma_hall_mono<H: Graph>(h: H, i: H, sc: Set<Vertex>, k: nat, o: WMap, p: Set<Vertex>)
    requires hall(h, sc, k, o, p), forall|x: Vertex, y: Vertex| #[trigger] h.adj(x, y) ==> i.adj(x, y)
    ensures hall(i, sc, k, o, p)
{ reveal(hdone); assert forall|w: Vertex| #[trigger] p.contains(w) implies hdone(i, sc, k, w, mm(o, w)) by { assert(hdone(h, sc, k, w, mm(o, w))); } }
/// two vertices of the same colour are at distance more than k
pub open spec fn scat<G: Graph>(g: G, k: nat, m: Map<Vertex, u32>) -> bool { forall|x: Vertex, y: Vertex| #[trigger] m.dom().contains(x) && #[trigger] m.dom().contains(y) && x != y && m[x] == m[y] ==> !within(g, x, k, y) }
pub proof fn lemma_scat<L: LinearGraph, H: Graph, O: Graph>(g: L, h: H, oh: O, k: nat, r: nat, wr: WMap, o: WMap, x0: Vertex, m: Map<Vertex, u32>)
    requires g.wf(), h.wf(), k <= r, mmd(wr) == g.vs(), forall|v: Vertex| g.vs().contains(v) ==> is_wreach(g, v, r, #[trigger] mm(wr, v)), m.dom().subset_of(g.vs()),
        is_out(o, wr, m.dom(), x0, Set::empty()), out_vals(o, wr), hall(h, m.dom(), k, o, mmd(o)), proper(oh, m), forall|x: Vertex, y: Vertex| #[trigger] oh.adj(x, y) == h.adj(x, y)
    ensures scat(g, k, m)
{
    reveal(is_out); reveal(out_vals); reveal(hdone); reveal(proper);
    assert forall|x: Vertex, y: Vertex| #[trigger] m.dom().contains(x) && #[trigger] m.dom().contains(y) && x != y && m[x] == m[y] implies !within(g, x, k, y) by {
        assert(!oh.adj(x, y)); assert(!h.adj(x, y)); h.lemma_wf(); assert(!h.adj(y, x));
        if within(g, x, k, y) {
            lemma_meet(g, x, k, y);
            let (w, a, b) = choose|w: Vertex, a: nat, b: nat| #[trigger] meets(g, x, y, w, a, b) && a + b <= k;
            assert(is_wreach(g, x, r, mm(wr, x))); assert(is_wreach(g, y, r, mm(wr, y)));
            if w == x { lemma_w_has(g, y, r, mm(wr, y), x, b); assert(oin(o, x, y)); assert(hdone(h, m.dom(), k, x, mm(o, x))); assert(mm(o, x).dom().contains(y)); }
            else if w == y { lemma_w_has(g, x, r, mm(wr, x), y, a); assert(oin(o, y, x)); assert(hdone(h, m.dom(), k, y, mm(o, y))); assert(mm(o, y).dom().contains(x)); }
            else { lemma_w_has(g, x, r, mm(wr, x), w, a); lemma_w_has(g, y, r, mm(wr, y), w, b); assert(oin(o, w, x)); assert(oin(o, w, y)); assert(hdone(h, m.dom(), k, w, mm(o, w))); assert(mm(o, w).dom().contains(x) && mm(o, w).dom().contains(y)); }
        }
    }
}
/// an entry of o[w]
pub proof fn lemma_o_entry<L: LinearGraph>(g: L, r: nat, wr: WMap, o: WMap, s: Set<Vertex>, w: Vertex, x: Vertex)
    requires is_out(o, wr, s, 0u32, Set::empty()), out_vals(o, wr), s.subset_of(g.vs()), forall|v: Vertex| g.vs().contains(v) ==> is_wreach(g, v, r, #[trigger] mm(wr, v)), oin(o, w, x)
    ensures s.contains(x), w != x, 1 <= mm(o, w)[x] <= r, g.vs().contains(w)
{ reveal(is_out); reveal(out_vals); assert(is_wreach(g, x, r, mm(wr, x))); lemma_w_entry(g, x, r, mm(wr, x), w); }
pub open spec fn pair_ok<H: Graph>(h: H, k: nat, p: Seq<(&Vertex, &u32)>) -> bool { *p[0].1 + *p[1].1 <= k ==> h.adj(*p[0].0, *p[1].0) }
pub open spec fn okeys(o: FxHashMap<Vertex, u32>, ps: Seq<(&Vertex, &u32)>) -> bool { lists(o.order(), o@.dom()) && ps.len() == o.order().len() && forall|i: int| 0 <= i < ps.len() ==> *(#[trigger] ps[i]).0 == o.order()[i] && *ps[i].1 == o@[o.order()[i]] }
pub proof fn lemma_hdone<'a, H: Graph>(h: H, sc: Set<Vertex>, k: nat, w: Vertex, o: FxHashMap<Vertex, u32>, ps: Seq<(&'a Vertex, &'a u32)>, qs: Seq<Vec<(&'a Vertex, &'a u32)>>)
    requires h.wf(), okeys(o, ps), all_pairs_of(ps, qs), forall|j: int| 0 <= j < qs.len() ==> pair_ok(h, k, #[trigger] qs[j]@), sc.contains(w) ==> forall|i: int| 0 <= i < o.order().len() && o@[o.order()[i]] <= k ==> h.adj(w, #[trigger] o.order()[i])
    ensures hdone(h, sc, k, w, o@)
{
    reveal(hdone); h.lemma_wf(); let d = o.order();
    assert forall|x: Vertex, y: Vertex| x != y && #[trigger] o@.dom().contains(x) && #[trigger] o@.dom().contains(y) && o@[x] + o@[y] <= k implies h.adj(x, y) by {
        assert(d.contains(x) && d.contains(y));
        let i = choose|i: int| 0 <= i < d.len() && d[i] == x; let j = choose|j: int| 0 <= j < d.len() && d[j] == y;
        assert(*ps[i].0 == x && *ps[j].0 == y);
        if i < j { let q = choose|q: int| 0 <= q < qs.len() && (#[trigger] qs[q])@[0] == ps[i] && qs[q]@[1] == ps[j]; assert(pair_ok(h, k, qs[q]@)); }
        else { let q = choose|q: int| 0 <= q < qs.len() && (#[trigger] qs[q])@[0] == ps[j] && qs[q]@[1] == ps[i]; assert(pair_ok(h, k, qs[q]@)); assert(h.adj(y, x)); }
    }
    if sc.contains(w) { assert forall|x: Vertex| #[trigger] o@.dom().contains(x) && o@[x] <= k implies h.adj(w, x) by { assert(d.contains(x)); let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(h.adj(w, d[i])); } }
}
pub proof fn lemma_dom_step(p: Set<Vertex>, v: Vertex, r: nat, d: Map<Vertex, u32>)
    requires dominated(p, r, d), d.dom().contains(v), d[v] <= r
    ensures dominated(p.insert(v), r, d)
{ reveal(dominated); }
/// one step of the loops over the vertices from which c is weakly reachable
pub proof fn lemma_dom_in<L: LinearGraph>(g: L, t: Set<Vertex>, r: nat, q: nat, s: Set<Vertex>, d: Map<Vertex, u32>, wm: Map<Vertex, u32>, v: Vertex, u: Vertex, p: Set<Vertex>)
    requires g.wf(), dd_ok(g, t, r, s, d), dominated(p, r, d), is_wreach(g, v, q, wm), wm.dom().contains(u), r < 0x4000_0000, q < 0x4000_0000, g.vs().contains(v)
    ensures d.dom() == g.vs(), g.vs().contains(u), d[u] <= r + 1, wm[u] <= q, u != v,
        d[v] <= wm[u] + d[u] ==> dd_ok(g, t, r, s, d.insert(v, d[v])) && dominated(p, r, d.insert(v, d[v])),
        d[v] > wm[u] + d[u] ==> dd_ok(g, t, r, s, d.insert(v, (wm[u] + d[u]) as u32)) && dominated(p, r, d.insert(v, (wm[u] + d[u]) as u32)),
{
    lemma_w_entry(g, v, q, wm, u); lemma_rball_within(g, u, wm[u] as nat, v); lemma_dd_get(g, t, r, s, d, u);
    let m: u32 = if d[v] <= wm[u] + d[u] { d[v] } else { (wm[u] + d[u]) as u32 };
    lemma_dd_in(g, t, r, s, d, v, u, wm[u], p, m);
}
pub proof fn lemma_dom_out<L: LinearGraph>(g: L, t: Set<Vertex>, r: nat, q: nat, s: Set<Vertex>, d: Map<Vertex, u32>, wm: Map<Vertex, u32>, c: Vertex, u: Vertex, p: Set<Vertex>)
    requires g.wf(), dd_ok(g, t, r, s, d), dominated(p, r, d), is_wreach(g, c, q, wm), wm.dom().contains(u), s.contains(c)
    ensures d.dom() == g.vs(), g.vs().contains(u), u != c,
        d[u] <= wm[u] ==> dd_ok(g, t, r, s, d.insert(u, d[u])) && dominated(p, r, d.insert(u, d[u])),
        d[u] > wm[u] ==> dd_ok(g, t, r, s, d.insert(u, wm[u])) && dominated(p, r, d.insert(u, wm[u])),
        dd_ok(g, t, r, s.insert(u), d.insert(u, 0)), dominated(p, r, d.insert(u, 0)),
        d.insert(u, d[u]).insert(u, 0) == d.insert(u, 0), d.insert(u, wm[u]).insert(u, 0) == d.insert(u, 0),
{
    lemma_w_entry(g, c, q, wm, u); lemma_rball_within(g, u, wm[u] as nat, c);
    let m: u32 = if d[u] <= wm[u] { d[u] } else { wm[u] };
    lemma_dd_out(g, t, r, s, d, u, c, wm[u], p, m); lemma_dd_new(g, t, r, s, d, u, p);
    assert(d.insert(u, d[u]).insert(u, 0) =~= d.insert(u, 0)); assert(d.insert(u, wm[u]).insert(u, 0) =~= d.insert(u, 0));
}
pub proof fn lemma_dom_count(a: Set<Vertex>, c: Map<Vertex, u32>, k: nat, o: Seq<Vertex>, i: nat)
    requires o.no_duplicates(), i < o.len(), counters(a, c, k, pre(o, i)), a.contains(o[i as int]), k < 0x8000_0000
    ensures c.dom() == a, c[o[i as int]] < 0x8000_0000, counters(a, c.insert(o[i as int], (c[o[i as int]] + 1) as u32), k, pre(o, i + 1))
{ lemma_pre(o, i); lemma_counters(a, c, k, pre(o, i), o[i as int]); }
} // verus!
