verus! {
//@ props C12
// ===================================================================== machine arithmetic of the bucket index (std integer methods)
use vstd::arithmetic::power2::pow2;
/// exponent of the smallest power of two that is at least n
pub open spec fn clog(n: nat) -> nat decreases n { if n <= 1 { 0 } else { 1 + clog(((n + 1) / 2) as nat) } }
pub proof fn lemma_clog(n: nat)
    ensures n <= pow2(clog(n)), n > 1 ==> clog(n) > 0 && pow2((clog(n) - 1) as nat) < n, n <= 1 ==> clog(n) == 0
    decreases n
{
    vstd::arithmetic::power2::lemma2_to64();
    if n > 1 {
        let m = ((n + 1) / 2) as nat; lemma_clog(m);
        vstd::arithmetic::power2::lemma_pow2_unfold(clog(n));
        if m > 1 { vstd::arithmetic::power2::lemma_pow2_unfold(clog(m)); }
    }
}
pub proof fn lemma_clog_bound(n: nat, k: nat)
    requires n <= pow2(k)
    ensures clog(n) <= k
{ lemma_clog(n); if clog(n) > k { if clog(n) - 1 > k { vstd::arithmetic::power2::lemma_pow2_strictly_increases(k, (clog(n) - 1) as nat); } } }
pub trait VxPow : Sized { fn vx_pow(self, e: u32) -> (r: i32) requires self.pw() >= 0, vstd::arithmetic::power::pow(self.pw(), e as nat) <= 0x7fff_ffff ensures r == vstd::arithmetic::power::pow(self.pw(), e as nat); spec fn pw(&self) -> int; }
impl VxPow for i32 {
    open spec fn pw(&self) -> int { *self as int }
    #[verifier::external_body]
    fn vx_pow(self, e: u32) -> (r: i32) { self.pow(e) }
}
pub trait VxBits : Sized {
    spec fn bt(&self) -> nat;
    fn vx_next_power_of_two(self) -> (r: Self) requires self.bt() <= 0x8000_0000 ensures r.bt() == pow2(clog(self.bt()));
    fn vx_trailing_zeros(self) -> (r: u32) ensures forall|k: nat| k < 32 && #[trigger] pow2(k) == self.bt() ==> r == k;
}
impl VxBits for u32 {
    open spec fn bt(&self) -> nat { *self as nat }
    #[verifier::external_body]
    fn vx_next_power_of_two(self) -> (r: u32) { self.next_power_of_two() }
    #[verifier::external_body]
    fn vx_trailing_zeros(self) -> (r: u32) { self.trailing_zeros() }
}
impl VxKey for i32 { open spec fn kle(self, o: Self) -> bool { self <= o } }
// ===================================================================== degeneracy
/// index of the bucket of the vertices of degree d, and the smallest and largest degree of bucket b
pub open spec fn bix(d: nat) -> nat { if d <= 128 { d } else { 128 + clog((d - 127) as nat) } }
pub open spec fn blo(b: nat) -> nat { if b <= 128 { b } else { 128 + pow2((b - 129) as nat) } }
pub open spec fn bhi(b: nat) -> nat { if b <= 128 { b } else { (127 + pow2((b - 128) as nat)) as nat } }
pub proof fn lemma_bix(d: nat)
    requires d < 0x8000_0000
    ensures blo(bix(d)) <= d <= bhi(bix(d)), bix(d) <= 159
{
    if d > 128 {
        let n = (d - 127) as nat; lemma_clog(n);
        vstd::arithmetic::power2::lemma2_to64();
        lemma_clog_bound(n, 31);
    }
}
pub proof fn lemma_blo_mono(a: nat, b: nat)
    requires a <= b
    ensures blo(a) <= blo(b), bhi(a) <= bhi(b), a >= 1 ==> blo(a) >= 1
{
    vstd::arithmetic::power2::lemma2_to64();
    if b > 128 {
        vstd::arithmetic::power2::lemma_pow2_pos((b - 129) as nat); vstd::arithmetic::power2::lemma_pow2_pos((b - 128) as nat);
        if a > 128 && a < b { vstd::arithmetic::power2::lemma_pow2_strictly_increases((a - 129) as nat, (b - 129) as nat); vstd::arithmetic::power2::lemma_pow2_strictly_increases((a - 128) as nat, (b - 128) as nat); }
    }
}
/// number of neighbours of w in s
#[verifier::opaque]
pub open spec fn dn<G: Graph>(g: G, s: Set<Vertex>, w: Vertex) -> nat { g.nseq(w).to_set().intersect(s).len() }
pub proof fn lemma_dn_mono<G: Graph>(g: G, s: Set<Vertex>, t: Set<Vertex>, w: Vertex)
    requires forall|x: Vertex| s.contains(x) && g.nseq(w).contains(x) ==> #[trigger] t.contains(x)
    ensures dn(g, s, w) <= dn(g, t, w)
{
    reveal(dn);
    let n = g.nseq(w).to_set();
    assert(n.intersect(s).subset_of(n.intersect(t))) by { assert forall|x: Vertex| n.intersect(s).contains(x) implies #[trigger] n.intersect(t).contains(x) by { assert(s.contains(x)); assert(n.contains(x)); assert(g.nseq(w).contains(x)); } }
    vstd::set_lib::lemma_len_subset(n.intersect(s), n.intersect(t));
}
pub proof fn lemma_dn_all<G: Graph>(g: G, w: Vertex)
    requires g.wf(), g.simple(), g.vs().contains(w), !g.adj(w, w)
    ensures dn(g, g.vs(), w) == g.deg(w), g.deg(w) < 0x8000_0000
{
    reveal(dn); g.lemma_wf(); lemma_deg_bound(g, w);
    let n = g.nseq(w); n.unique_seq_to_set();
    assert(n.to_set().intersect(g.vs()) =~= n.to_set()) by { assert forall|x: Vertex| #[trigger] n.to_set().contains(x) implies g.vs().contains(x) by { assert(n.contains(x)); } }
}
pub proof fn lemma_dn_bound<G: Graph>(g: G, s: Set<Vertex>, w: Vertex)
    requires g.wf(), g.simple(), g.vs().contains(w), !g.adj(w, w)
    ensures dn(g, s, w) < 0x8000_0000
{
    g.lemma_wf(); lemma_dn_all(g, w);
    assert forall|x: Vertex| s.contains(x) && g.nseq(w).contains(x) implies #[trigger] g.vs().contains(x) by { assert(g.adj(w, x)); }
    lemma_dn_mono(g, s, g.vs(), w);
}
/// removing v from s
pub proof fn lemma_dn_remove<G: Graph>(g: G, s: Set<Vertex>, v: Vertex, w: Vertex)
    requires g.wf(), g.vs().contains(w), s.contains(v)
    ensures dn(g, s.remove(v), w) == if g.adj(w, v) { (dn(g, s, w) - 1) as nat } else { dn(g, s, w) }, g.adj(w, v) ==> dn(g, s, w) >= 1
{
    reveal(dn); g.lemma_wf();
    let n = g.nseq(w).to_set();
    assert(g.nseq(w).contains(v) <==> g.adj(w, v));
    assert(n.contains(v) <==> g.nseq(w).contains(v));
    if g.adj(w, v) { assert(n.intersect(s.remove(v)) =~= n.intersect(s).remove(v)); assert(n.intersect(s).contains(v)); }
    else { assert(n.intersect(s.remove(v)) =~= n.intersect(s)); }
}
/// every vertex of the non-empty set s has at least k neighbours in s
pub open spec fn dense<G: Graph>(g: G, s: Set<Vertex>, k: nat) -> bool { s.len() > 0 && s.subset_of(g.vs()) && forall|w: Vertex| s.contains(w) ==> #[trigger] dn(g, s, w) >= k }
/// no vertex has more than k neighbours before it in o
#[verifier::opaque]
pub open spec fn few_earlier<G: Graph>(g: G, o: Seq<Vertex>, k: nat) -> bool { forall|i: int| 0 <= i < o.len() ==> dn(g, o.take(i).to_set(), #[trigger] o[i]) <= k }
/// the elimination order o: at its turn no vertex has more than k neighbours left
#[verifier::opaque]
pub open spec fn elim<G: Graph>(g: G, o: Seq<Vertex>, k: nat) -> bool { forall|i: int| 0 <= i < o.len() ==> dn(g, g.vs().difference(o.take(i).to_set()), #[trigger] o[i]) <= k }
pub proof fn lemma_elim_push<G: Graph>(g: G, o: Seq<Vertex>, k: nat, v: Vertex, s: Set<Vertex>, m: nat)
    requires elim(g, o, k), k <= m, s =~= g.vs().difference(o.to_set()), dn(g, s, v) <= m
    ensures elim(g, o.push(v), m)
{
    reveal(elim);
    let p = o.push(v);
    assert forall|i: int| 0 <= i < p.len() implies dn(g, g.vs().difference(p.take(i).to_set()), #[trigger] p[i]) <= m by {
        if i < o.len() { assert(p.take(i) =~= o.take(i)); assert(p[i] == o[i]); } else { assert(p.take(i) =~= o); }
    }
}
pub proof fn lemma_elim_end<G: Graph>(g: G, o: Seq<Vertex>, k: nat)
    requires g.wf(), elim(g, o, k), lists(o, g.vs()), forall|w: Vertex| !#[trigger] g.adj(w, w)
    ensures few_earlier(g, o.reverse(), k), lists(o.reverse(), g.vs())
{
    reveal(elim); reveal(few_earlier); g.lemma_wf();
    let r = o.reverse(); let n = o.len();
    assert forall|i: int| 0 <= i < r.len() implies dn(g, r.take(i).to_set(), #[trigger] r[i]) <= k by {
        let j = n - 1 - i;
        assert(r[i] == o[j]);
        let s = r.take(i).to_set(); let t = g.vs().difference(o.take(j).to_set());
        assert forall|x: Vertex| s.contains(x) && g.nseq(r[i]).contains(x) implies #[trigger] t.contains(x) by {
            assert(r.take(i).contains(x));
            let a = choose|a: int| 0 <= a < r.take(i).len() && r.take(i)[a] == x;
            assert(r.take(i)[a] == o[n - 1 - a]);
            assert(o.contains(x));
            if o.take(j).contains(x) { let b = choose|b: int| 0 <= b < j && o.take(j)[b] == x; assert(o[b] == o[n - 1 - a]); }
        }
        lemma_dn_mono(g, s, t, r[i]);
    }
    assert(r.no_duplicates());
    assert forall|x: Vertex| #[trigger] r.contains(x) <==> g.vs().contains(x) by {
        if r.contains(x) { let a = choose|a: int| 0 <= a < r.len() && r[a] == x; assert(o.contains(o[n - 1 - a])); }
        if g.vs().contains(x) { assert(o.contains(x)); let a = choose|a: int| 0 <= a < n && o[a] == x; assert(r[n - 1 - a] == x); }
    }
    assert(r.to_set() =~= g.vs());
}
/// every non-empty set of vertices contains one with at most k neighbours in it, if the order leaves
/// every vertex at most k earlier neighbours: the degeneracy is at most k
pub proof fn lemma_upper<G: Graph>(g: G, o: Seq<Vertex>, k: nat, s: Set<Vertex>)
    requires g.wf(), few_earlier(g, o, k), lists(o, g.vs()), s.len() > 0, s.subset_of(g.vs()), forall|w: Vertex| !#[trigger] g.adj(w, w)
    ensures exists|w: Vertex| s.contains(w) && #[trigger] dn(g, s, w) <= k
{
    g.lemma_wf();
    // the last vertex of s in o
    let mut i: int = o.len() as int;
    lemma_last(o, s, i);
    let j = choose|j: int| 0 <= j < o.len() && s.contains(#[trigger] o[j]) && forall|a: int| j < a < o.len() ==> !s.contains(#[trigger] o[a]);
    reveal(few_earlier);
    let t = o.take(j).to_set();
    assert forall|x: Vertex| s.contains(x) && g.nseq(o[j]).contains(x) implies #[trigger] t.contains(x) by {
        assert(o.contains(x)); let a = choose|a: int| 0 <= a < o.len() && o[a] == x;
        assert(g.vs().contains(o[j])); assert(g.adj(o[j], x)); assert(a != j);
        assert(o.take(j)[a] == x); assert(o.take(j).contains(x));
    }
    lemma_dn_mono(g, s, t, o[j]);
    assert(dn(g, s, o[j]) <= k);
}
pub proof fn lemma_last(o: Seq<Vertex>, s: Set<Vertex>, n: int)
    requires 0 <= n <= o.len(), s.len() > 0, forall|x: Vertex| #[trigger] s.contains(x) ==> o.contains(x), forall|a: int| n <= a < o.len() ==> !s.contains(#[trigger] o[a])
    ensures exists|j: int| 0 <= j < o.len() && s.contains(#[trigger] o[j]) && forall|a: int| j < a < o.len() ==> !s.contains(#[trigger] o[a])
    decreases n
{
    if n == 0 { let x = s.choose(); assert(s.contains(x)); assert(o.contains(x)); let a = choose|a: int| 0 <= a < o.len() && o[a] == x; assert(false); }
    else if s.contains(o[n - 1]) { assert forall|a: int| n - 1 < a < o.len() implies !s.contains(#[trigger] o[a]) by { } }
    else { lemma_last(o, s, n - 1); }
}
/// the buckets b hold exactly the vertices of s, each in the bucket of its current degree
#[verifier::opaque]
pub open spec fn bucketed(b: Map<i32, FxHashSet<Vertex>>, d: Map<Vertex, u32>, s: Set<Vertex>) -> bool {
    (forall|w: Vertex| #[trigger] s.contains(w) ==> d.dom().contains(w) && in_bucket(b, bix(d[w] as nat) as i32, w))
    && forall|k: i32, w: Vertex| #[trigger] in_bucket(b, k, w) ==> s.contains(w) && k as int == bix(d[w] as nat)
}
pub open spec fn in_bucket(b: Map<i32, FxHashSet<Vertex>>, k: i32, w: Vertex) -> bool { b.dom().contains(k) && b[k]@.contains(w) }
pub open spec fn mb(b: FxHashMap<i32, FxHashSet<Vertex>>) -> Map<i32, FxHashSet<Vertex>> { b@ }
/// while the neighbours of v are updated: those in p have been
#[verifier::opaque]
pub open spec fn degs<G: Graph>(g: G, d: Map<Vertex, u32>, s: Set<Vertex>, v: Vertex, p: Set<Vertex>) -> bool {
    d.dom() == g.vs() && forall|w: Vertex| s.contains(w) && w != v ==> (#[trigger] d[w]) as nat == dn(g, if p.contains(w) { s.remove(v) } else { s }, w)
}
#[verifier::opaque]
pub open spec fn degs_all<G: Graph>(g: G, d: Map<Vertex, u32>, s: Set<Vertex>) -> bool { d.dom() == g.vs() && forall|w: Vertex| s.contains(w) ==> (#[trigger] d[w]) as nat == dn(g, s, w) }
/// w moves from its bucket to bucket k
pub open spec fn moved(b: Map<i32, FxHashSet<Vertex>>, c: Map<i32, FxHashSet<Vertex>>, u: Vertex, k: int) -> bool {
    forall|j: i32, w: Vertex| #[trigger] in_bucket(c, j, w) <==> if w == u { j as int == k } else { in_bucket(b, j, w) }
}
pub proof fn lemma_moved(b: Map<i32, FxHashSet<Vertex>>, d: Map<Vertex, u32>, s: Set<Vertex>, c: Map<i32, FxHashSet<Vertex>>, e: Map<Vertex, u32>, t: Set<Vertex>, u: Vertex, x: u32)
    requires bucketed(b, d, s), moved(b, c, u, bix(x as nat) as int), e == d.insert(u, x), t == s.insert(u), x < 0x8000_0000
    ensures bucketed(c, e, t)
{
    reveal(bucketed); lemma_bix(x as nat);
    assert forall|w: Vertex| #[trigger] t.contains(w) implies e.dom().contains(w) && in_bucket(c, bix(e[w] as nat) as i32, w) by { if w != u { assert(s.contains(w)); assert(e[w] == d[w]); } else { assert(e[w] == x); } }
    assert forall|k: i32, w: Vertex| #[trigger] in_bucket(c, k, w) implies t.contains(w) && k as int == bix(e[w] as nat) by { if w != u { assert(in_bucket(b, k, w)); } }
}
pub proof fn lemma_taken(b: Map<i32, FxHashSet<Vertex>>, d: Map<Vertex, u32>, s: Set<Vertex>, c: Map<i32, FxHashSet<Vertex>>, u: Vertex)
    requires bucketed(b, d, s), forall|j: i32, w: Vertex| #[trigger] in_bucket(c, j, w) <==> w != u && in_bucket(b, j, w)
    ensures bucketed(c, d, s.remove(u))
{
    reveal(bucketed);
    assert forall|w: Vertex| #[trigger] s.remove(u).contains(w) implies d.dom().contains(w) && in_bucket(c, bix(d[w] as nat) as i32, w) by { assert(s.contains(w)); }
    assert forall|k: i32, w: Vertex| #[trigger] in_bucket(c, k, w) implies s.remove(u).contains(w) && k as int == bix(d[w] as nat) by { assert(in_bucket(b, k, w)); }
}
/// all buckets before d are empty
#[verifier::opaque]
pub open spec fn none_below(d: Map<Vertex, u32>, s: Set<Vertex>, k: int) -> bool { forall|w: Vertex| #[trigger] s.contains(w) ==> bix(d[w] as nat) >= k }
pub proof fn lemma_none_next(b: Map<i32, FxHashSet<Vertex>>, d: Map<Vertex, u32>, s: Set<Vertex>, k: i32)
    requires bucketed(b, d, s), none_below(d, s, k as int), !b.dom().contains(k) || b[k]@.len() == 0
    ensures none_below(d, s, k + 1)
{
    reveal(bucketed); reveal(none_below);
    assert forall|w: Vertex| #[trigger] s.contains(w) implies bix(d[w] as nat) >= k + 1 by { assert(in_bucket(b, bix(d[w] as nat) as i32, w)); if bix(d[w] as nat) == k { assert(b[k]@.contains(w)); assert(b[k]@.len() > 0); } }
}
/// s is not empty, so a bucket k <= 159 is reached
pub proof fn lemma_k_bound<G: Graph>(g: G, d: Map<Vertex, u32>, s: Set<Vertex>, k: int)
    requires g.wf(), g.simple(), forall|w: Vertex| !#[trigger] g.adj(w, w), s.subset_of(g.vs()), degs_all(g, d, s), none_below(d, s, k), s.len() > 0
    ensures k <= 159
{
    reveal(none_below); reveal(degs_all); let w = s.choose(); assert(s.contains(w)); assert(g.vs().contains(w)); assert(!g.adj(w, w)); lemma_dn_bound(g, s, w); assert(d[w] as nat == dn(g, s, w)); lemma_bix(d[w] as nat);
}
/// all remaining vertices lie in buckets from k on: the remaining set is dense
pub proof fn lemma_dense<G: Graph>(g: G, d: Map<Vertex, u32>, s: Set<Vertex>, k: nat)
    requires g.wf(), g.simple(), forall|w: Vertex| !#[trigger] g.adj(w, w), s.subset_of(g.vs()), degs_all(g, d, s), none_below(d, s, k as int), s.len() > 0
    ensures dense(g, s, blo(k))
{
    reveal(none_below); reveal(degs_all);
    assert forall|w: Vertex| s.contains(w) implies #[trigger] dn(g, s, w) >= blo(k) by { assert(g.vs().contains(w)); assert(!g.adj(w, w)); lemma_dn_bound(g, s, w); assert(d[w] as nat == dn(g, s, w)); lemma_bix(d[w] as nat); lemma_blo_mono(k, bix(d[w] as nat)); }
}
/// a vertex taken from bucket k has at most bhi(k) remaining neighbours
pub proof fn lemma_take_deg<G: Graph>(g: G, b: Map<i32, FxHashSet<Vertex>>, d: Map<Vertex, u32>, s: Set<Vertex>, k: i32, v: Vertex)
    requires g.wf(), g.simple(), forall|w: Vertex| !#[trigger] g.adj(w, w), s.subset_of(g.vs()), degs_all(g, d, s), bucketed(b, d, s), in_bucket(b, k, v), k >= 0
    ensures s.contains(v), dn(g, s, v) <= bhi(k as nat), degs(g, d, s, v, Set::<Vertex>::empty())
{
    reveal(bucketed); reveal(degs_all); reveal(degs);
    assert(s.contains(v)); assert(g.vs().contains(v)); assert(!g.adj(v, v)); lemma_dn_bound(g, s, v); assert(d[v] as nat == dn(g, s, v)); lemma_bix(d[v] as nat);
}
pub proof fn lemma_degs_done<G: Graph>(g: G, d: Map<Vertex, u32>, s: Set<Vertex>, v: Vertex, p: Set<Vertex>)
    requires g.wf(), s.subset_of(g.vs()), degs(g, d, s, v, p), s.contains(v), forall|w: Vertex| #[trigger] p.contains(w) <==> g.adj(v, w)
    ensures degs_all(g, d, s.remove(v))
{
    reveal(degs); reveal(degs_all); g.lemma_wf();
    assert forall|w: Vertex| s.remove(v).contains(w) implies (#[trigger] d[w]) as nat == dn(g, s.remove(v), w) by { assert(s.contains(w) && w != v); assert(g.vs().contains(w)); lemma_dn_remove(g, s, v, w); if !p.contains(w) { assert(!g.adj(v, w)); if g.adj(w, v) { assert(g.adj(v, w)); } } }
}
/// the degree of the neighbour u of v is updated
pub proof fn lemma_degs_step<G: Graph>(g: G, d: Map<Vertex, u32>, s: Set<Vertex>, v: Vertex, p: Set<Vertex>, u: Vertex)
    requires g.wf(), g.simple(), forall|w: Vertex| !#[trigger] g.adj(w, w), s.subset_of(g.vs()), degs(g, d, s, v, p), s.contains(v), g.adj(v, u), !p.contains(u), s.contains(u)
    ensures u != v, 1 <= d[u] < 0x8000_0000, degs(g, d.insert(u, (d[u] - 1) as u32), s, v, p.insert(u))
{
    reveal(degs); g.lemma_wf(); assert(!g.adj(u, u)); assert(g.vs().contains(u)); lemma_dn_bound(g, s, u); lemma_dn_remove(g, s, v, u); assert(g.adj(u, v)); assert(d[u] as nat == dn(g, s, u));
    let e = d.insert(u, (d[u] - 1) as u32); let q = p.insert(u);
    assert(e.dom() =~= g.vs());
    assert forall|w: Vertex| s.contains(w) && w != v implies (#[trigger] e[w]) as nat == dn(g, if q.contains(w) { s.remove(v) } else { s }, w) by { if w == u { assert(e[u] == d[u] - 1); } else { assert(e[w] == d[w]); } }
}
pub proof fn lemma_degs_skip<G: Graph>(g: G, d: Map<Vertex, u32>, s: Set<Vertex>, v: Vertex, p: Set<Vertex>, u: Vertex)
    requires degs(g, d, s, v, p), !s.contains(u)
    ensures degs(g, d, s, v, p.insert(u))
{ reveal(degs); assert forall|w: Vertex| s.contains(w) && w != v implies (#[trigger] d[w]) as nat == dn(g, if p.insert(u).contains(w) { s.remove(v) } else { s }, w) by { } }
pub proof fn lemma_diff_len(a: Set<Vertex>, s: Set<Vertex>)
    requires s.subset_of(a)
    ensures a.difference(s).len() + s.len() == a.len(), s.len() == 0 ==> s =~= Set::<Vertex>::empty()
{ vstd::set_lib::lemma_set_disjoint_lens(a.difference(s), s); assert(a.difference(s).union(s) =~= a); }
pub proof fn lemma_order_push(a: Set<Vertex>, s: Set<Vertex>, o: Seq<Vertex>, v: Vertex)
    requires lists(o, a.difference(s)), s.contains(v), a.contains(v)
    ensures lists(o.push(v), a.difference(s.remove(v))), s =~= a.difference(o.to_set()) || !s.subset_of(a)
{
    let p = o.push(v); let t = a.difference(s.remove(v));
    assert(!o.contains(v));
    assert(p.no_duplicates());
    assert forall|x: Vertex| #[trigger] p.contains(x) <==> t.contains(x) by { if p.contains(x) { let i = choose|i: int| 0 <= i < p.len() && p[i] == x; if i < o.len() { assert(o[i] == x); assert(o.contains(x)); } } else { if x == v { assert(p[o.len() as int] == v); } else if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(p[i] == x); } } }
    assert(p.to_set() =~= t);
    p.unique_seq_to_set();
    if s.subset_of(a) { assert forall|x: Vertex| s.contains(x) <==> a.difference(o.to_set()).contains(x) by { assert(o.to_set().contains(x) <==> o.contains(x)); } }
}
pub proof fn lemma_blo_bhi(k: nat)
    ensures blo(k) <= bhi(k), k <= 129 ==> blo(k) == k && bhi(k) == k, k == 0 ==> bhi(k) == 0
{ vstd::arithmetic::power2::lemma2_to64(); if k > 129 { vstd::arithmetic::power2::lemma_pow2_unfold((k - 128) as nat); vstd::arithmetic::power2::lemma_pow2_pos((k - 129) as nat); } }
pub proof fn lemma_shift(k: nat)
    requires k <= 31
    ensures (1u32 << (k as u32)) == pow2(k), pow2(k) <= 0x8000_0000
{ vstd::arithmetic::power2::lemma2_to64(); if k < 31 { vstd::arithmetic::power2::lemma_pow2_strictly_increases(k, 31); } vstd::bits::lemma_u32_shl_is_mul(1u32, k as u32); }
pub open spec fn mdg(d: FxHashMap<Vertex, u32>) -> Map<Vertex, u32> { d@ }
pub trait GraphDegeneracy : Graph + Sized {
//@ fn algorithms/graph.rs impl:GraphAlgorithms:G degeneracy
//@ requires self.wf(), self.simple(), forall|w: Vertex| !#[trigger] self.adj(w, w)
//@ ensures
    lists(r.2@, self.vs()), few_earlier(*self, r.2@, r.1 as nat),
    forall|s: Set<Vertex>| s.len() > 0 && #[trigger] s.subset_of(self.vs()) ==> exists|w: Vertex| s.contains(w) && #[trigger] dn(*self, s, w) <= r.1,
    r.0 <= r.1, r.0 > 0 ==> exists|s: Set<Vertex>| #[trigger] dense(*self, s, r.0 as nat),
    r.3@.dom() == self.vs(),
//@ attr #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@ hint start
    let ghost mut wit = self.vs();
    let ghost mut s = self.vs();
    proof { self.lemma_wf(); }
//@ loop 1
    mdg(deg_dict).dom() == pre(it1_s, it1.pos()), bucketed(mb(buckets), mdg(deg_dict), pre(it1_s, it1.pos())), lists(it1_s, self.vs()),
    forall|w: Vertex| #[trigger] mdg(deg_dict).dom().contains(w) ==> mdg(deg_dict)[w] == self.deg(w),
//@ hint loop1.before
    proof { reveal(bucketed); }
//@ hint loop1.start
    let ghost b0 = mb(buckets); let ghost d0 = mdg(deg_dict); let ghost s0 = pre(it1_s, (it1.pos() - 1) as nat);
    proof { assert(it1_s.contains(*v)); assert(!self.adj(*v, *v)); lemma_dn_all(*self, *v); assert(!s0.contains(*v)); reveal(bucketed); }
//@ hint loop1.end
    proof { assert(moved(b0, mb(buckets), *v, bix(d as nat) as int)) by { assert forall|j: i32, w: Vertex| #[trigger] in_bucket(mb(buckets), j, w) <==> if w == *v { j as int == bix(d as nat) as int } else { in_bucket(b0, j, w) } by { reveal(bucketed); lemma_bix(d as nat); if in_bucket(b0, j, *v) { assert(s0.contains(*v)); } } }
        lemma_moved(b0, d0, s0, mb(buckets), mdg(deg_dict), pre(it1_s, it1.pos()), *v, d); }
//@ hint loop1.after
    proof { assert(it1_s.to_set() =~= self.vs()); reveal(degs_all);
        assert forall|w: Vertex| s.contains(w) implies (#[trigger] mdg(deg_dict)[w]) as nat == dn(*self, s, w) by { assert(mdg(deg_dict).dom().contains(w)); assert(!self.adj(w, w)); lemma_dn_all(*self, w); }
        reveal(elim); assert(elim(*self, order@, 0)); assert(s.difference(order@.to_set()) =~= s); assert(order@.to_set() =~= Set::<Vertex>::empty()); assert(self.vs().difference(s) =~= Set::<Vertex>::empty()); assert(lists(order@, self.vs().difference(s))); }
//@ rawloop 2
    invariant_except_break it2.pos() <= it2_s.len(),
    invariant it2.seq() == it2_s, it2_s.len() == self.vs().len(), self.wf(), self.simple(), forall|w: Vertex| !#[trigger] self.adj(w, w),
        s.subset_of(self.vs()), degs_all(*self, mdg(deg_dict), s), bucketed(mb(buckets), mdg(deg_dict), s), lists(order@, self.vs().difference(s)), order@.len() == it2.pos(),
        mdg(core_numbers).dom() == self.vs().difference(s), core_num <= 159, elim(*self, order@, bhi(core_num as nat)), core_num > 0 ==> dense(*self, wit, blo(core_num as nat)),
    ensures it2.pos() == it2_s.len(), self.wf(), lists(order@, self.vs().difference(s)), order@.len() == it2.pos(), s.subset_of(self.vs()), mdg(core_numbers).dom() == self.vs().difference(s), core_num <= 159, elim(*self, order@, bhi(core_num as nat)), core_num > 0 ==> dense(*self, wit, blo(core_num as nat)),
//@ hint loop2.start
    let ghost s0 = s; let ghost o0 = order@; let ghost c0 = core_num;
    proof { self.lemma_wf(); lemma_diff_len(self.vs(), s); reveal(none_below); assert(none_below(mdg(deg_dict), s, 0)); }
//@ loop 3
    self.wf(), self.simple(), forall|w: Vertex| !#[trigger] self.adj(w, w), s.subset_of(self.vs()), s.len() > 0, degs_all(*self, mdg(deg_dict), s), bucketed(mb(buckets), mdg(deg_dict), s),
    0 <= d <= 160, none_below(mdg(deg_dict), s, d as int),
//@ loopdec 3 160 - d
//@ hint loop3.start
    proof { lemma_k_bound(*self, mdg(deg_dict), s, d as int); lemma_none_next(mb(buckets), mdg(deg_dict), s, d); }
//@ hint loop3.after
    let ghost b0 = mb(buckets); let ghost d0 = mdg(deg_dict);
    proof { lemma_k_bound(*self, d0, s, d as int); lemma_dense(*self, d0, s, d as nat); if d as u32 > core_num { wit = s; } lemma_blo_mono(c0 as nat, if d as u32 > c0 { d as nat } else { c0 as nat }); lemma_blo_mono(d as nat, if d as u32 > c0 { d as nat } else { c0 as nat }); }
//@ hint after let v
    proof { assert(b0[d]@.contains(v)); assert(in_bucket(b0, d, v)); lemma_take_deg(*self, b0, d0, s, d, v); }
//@ hint loop4.before
    let ghost s1 = s.remove(v);
    proof { self.lemma_wf(); assert forall|j: i32, w: Vertex| #[trigger] in_bucket(mb(buckets), j, w) <==> w != v && in_bucket(b0, j, w) by { if in_bucket(b0, j, v) { reveal(bucketed); assert(j == d); } } lemma_taken(b0, d0, s, mb(buckets), v); }
//@ loop 4
    self.wf(), self.simple(), forall|w: Vertex| !#[trigger] self.adj(w, w), s.subset_of(self.vs()), s.contains(v), s1 == s.remove(v), forall|y: Vertex| #[trigger] it4_s.contains(y) <==> self.adj(v, y), it4_s.no_duplicates(),
    degs(*self, mdg(deg_dict), s, v, pre(it4_s, it4.pos())), bucketed(mb(buckets), mdg(deg_dict), s1), mdg(core_numbers).dom() == self.vs().difference(s),
//@ hint loop4.start
    let ghost b1 = mb(buckets); let ghost d1 = mdg(deg_dict); let ghost p1 = pre(it4_s, (it4.pos() - 1) as nat);
    proof { self.lemma_wf(); assert(it4_s.contains(*u)); assert(self.adj(v, *u)); if s.contains(*u) { lemma_degs_step(*self, d1, s, v, p1, *u); reveal(degs); } else { lemma_degs_skip(*self, d1, s, v, p1, *u); } }
//@ hint loop4.end
    proof { assert(s1.contains(*u)); assert(s1.insert(*u) =~= s1); let x = (d1[*u] - 1) as u32; lemma_bix(x as nat);
        assert(mdg(deg_dict) =~= d1.insert(*u, x));
        assert(in_bucket(b1, bix(d1[*u] as nat) as i32, *u)) by { reveal(bucketed); }
        assert forall|j: i32, w: Vertex| #[trigger] in_bucket(mb(buckets), j, w) <==> if w == *u { j as int == bix(x as nat) as int } else { in_bucket(b1, j, w) } by { if in_bucket(b1, j, *u) { reveal(bucketed); } }
        lemma_moved(b1, d1, s1, mb(buckets), mdg(deg_dict), s1, *u, x); }
//@ hint loop4.after
    proof { assert forall|w: Vertex| #[trigger] it4_s.to_set().contains(w) <==> self.adj(v, w) by { assert(it4_s.to_set().contains(w) <==> it4_s.contains(w)); } lemma_degs_done(*self, mdg(deg_dict), s, v, it4_s.to_set()); }
//@ hint loop2.end
    proof { s = s0.remove(v); lemma_order_push(self.vs(), s0, o0, v); assert(order@ =~= o0.push(v)); assert(mdg(core_numbers).dom() =~= self.vs().difference(s)); lemma_elim_push(*self, o0, bhi(c0 as nat), v, s0, bhi(core_num as nat)); }
//@ hint loop2.after
    let ghost fin = order@;
    proof { lemma_diff_len(self.vs(), s); assert(self.vs().difference(s) =~= self.vs()); lemma_elim_end(*self, order@, bhi(core_num as nat));
        assert forall|t: Set<Vertex>| t.len() > 0 && #[trigger] t.subset_of(self.vs()) implies exists|w: Vertex| t.contains(w) && #[trigger] dn(*self, t, w) <= bhi(core_num as nat) by { lemma_upper(*self, fin.reverse(), bhi(core_num as nat), t); }
        vstd::arithmetic::power2::lemma2_to64(); if core_num > 129 { lemma_shift((core_num - 129) as nat); lemma_shift((core_num - 128) as nat); } lemma_blo_bhi(core_num as nat); }
//@ end
}
//@ fn algorithms/graph.rs nested:degeneracy calc_index
//@ requires i < 0x8000_0000
//@ ensures r == bix(i as nat), r <= 159
//@ hint start
    proof { vstd::arithmetic::power2::lemma_pow2(7); lemma_bix(i as nat); vstd::arithmetic::power2::lemma2_to64(); lemma_clog(0); lemma_clog(1); if i > 128 { lemma_clog((i - 127) as nat); lemma_clog_bound((i - 127) as nat, 31); } vstd::arithmetic::power2::lemma2_to64(); }
//@ end
impl<G: Graph> GraphDegeneracy for G { }
} // verus!
