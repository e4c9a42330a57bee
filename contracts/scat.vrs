verus! {
//@ props C20
impl<K: Hash + Eq> FxHashSet<K> {
    /// HashSet::drain, used up
    #[verifier::external_body]
    pub fn vx_drain(&mut self) -> (r: It<K>)
        ensures r.pos() == 0, r.seq() == old(self).order(), lists(r.seq(), old(self)@), final(self)@ == Set::<K>::empty()
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_mem_take<T: VxDefault>(x: &mut T) -> (r: T) ensures r == *old(x), T::dflt(*final(x)) { unimplemented!() }
/// r[k] == s[f[k]], f injective
pub open spec fn picks<T>(r: Seq<T>, s: Seq<T>, f: Seq<int>) -> bool { f.len() == r.len() && f.no_duplicates() && forall|k: int| 0 <= k < r.len() ==> 0 <= #[trigger] f[k] < s.len() && r[k] == s[f[k]] }
pub trait VxVecRetain<T> : Sized {
    spec fn vr(&self) -> Seq<T>;
    /// Vec::retain
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F)
        requires forall|x: &T| #[trigger] f.requires((x,))
        ensures exists|ix: Seq<int>| #[trigger] picks(final(self).vr(), old(self).vr(), ix) && (forall|k: int| 0 <= k < final(self).vr().len() ==> f.ensures((&#[trigger] final(self).vr()[k],), true)) && (forall|i: int| 0 <= i < old(self).vr().len() && !ix.contains(i) ==> f.ensures((&#[trigger] old(self).vr()[i],), false));
}
impl<T> VxVecRetain<T> for Vec<T> {
    open spec fn vr(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_retain<F: Fn(&T) -> bool>(&mut self, f: F) { unimplemented!() }
}
impl<T: Copy + Hash + Eq> VertexMapOperations<T> for VertexColouring<T> {
    open spec fn vm_map(&self) -> Map<Vertex, T> { self.colouring@ }
//@ fn graph.rs impl:VertexMapOperations:VertexColouring majority_set
//@ end
//@ fn graph.rs impl:VertexMapOperations:VertexColouring invert
//@ end
}
// ===================================================================== lower bounds for the distance
/// every connection of x and y known to wr is at least k long
#[verifier::opaque]
pub open spec fn lb(wr: WMap, x: Vertex, y: Vertex, k: nat) -> bool {
    (mm(wr, x).dom().contains(y) ==> k <= mm(wr, x)[y]) && (mm(wr, y).dom().contains(x) ==> k <= mm(wr, y)[x])
    && forall|w: Vertex| #[trigger] mm(wr, x).dom().contains(w) && mm(wr, y).dom().contains(w) ==> k <= mm(wr, x)[w] + mm(wr, y)[w]
}
pub open spec fn wr_ok<L: LinearGraph>(g: L, r: nat, wr: WMap) -> bool { mmd(wr) == g.vs() && forall|v: Vertex| g.vs().contains(v) ==> is_wreach(g, v, r, #[trigger] mm(wr, v)) }
/// values in wr are small
pub open spec fn wr_small(wr: WMap) -> bool { forall|v: Vertex, w: Vertex| mmd(wr).contains(v) && #[trigger] mm(wr, v).dom().contains(w) ==> mm(wr, v)[w] < 0x4000_0000 }
pub proof fn lemma_wr_small<L: LinearGraph>(g: L, r: nat, wr: WMap)
    requires wr_ok(g, r, wr), r < 0x4000_0000
    ensures wr_small(wr)
{ assert forall|v: Vertex, w: Vertex| mmd(wr).contains(v) && #[trigger] mm(wr, v).dom().contains(w) implies mm(wr, v)[w] < 0x4000_0000 by { assert(is_wreach(g, v, r, mm(wr, v))); lemma_w_entry(g, v, r, mm(wr, v), w); } }
pub proof fn lemma_lb_mono(wr: WMap, x: Vertex, y: Vertex, k: nat, l: nat)
    requires lb(wr, x, y, k), l <= k
    ensures lb(wr, x, y, l)
{ reveal(lb); }
pub open spec fn far<G: Graph>(g: G, d: nat, x: Vertex, y: Vertex) -> bool { d == 0 || !within(g, x, (d - 1) as nat, y) }
pub proof fn lemma_lb_far<L: LinearGraph>(g: L, r: nat, wr: WMap, x: Vertex, y: Vertex, k: nat)
    requires g.wf(), wr_ok(g, r, wr), g.vs().contains(x), g.vs().contains(y), x != y, lb(wr, x, y, k), k <= r + 1
    ensures far(g, k, x, y)
{
    if k > 0 && within(g, x, (k - 1) as nat, y) {
        reveal(lb); lemma_meet(g, x, (k - 1) as nat, y);
        let (w, a, b) = choose|w: Vertex, a: nat, b: nat| #[trigger] meets(g, x, y, w, a, b) && a + b <= k - 1;
        assert(is_wreach(g, x, r, mm(wr, x))); assert(is_wreach(g, y, r, mm(wr, y)));
        if w == x { lemma_w_has(g, y, r, mm(wr, y), x, b); }
        else if w == y { lemma_w_has(g, x, r, mm(wr, x), y, a); }
        else { lemma_w_has(g, x, r, mm(wr, x), w, a); lemma_w_has(g, y, r, mm(wr, y), w, b); }
    }
}
/// the pair bound proved for sets: d is the answer of small_distance_sets, None if out of reach
pub open spec fn pair_lb(wr: WMap, dist: nat, x: Vertex, y: Vertex, d: nat) -> bool { x != y && lb(wr, x, y, if d <= dist { d } else { dist + 1 }) }
pub open spec fn sets_lb(wr: WMap, dist: nat, a: Set<Vertex>, b: Set<Vertex>, d: nat) -> bool { forall|x: Vertex, y: Vertex| #[trigger] a.contains(x) && #[trigger] b.contains(y) ==> pair_lb(wr, dist, x, y, d) }
// ===================================================================== classes
pub open spec fn inc(c: Seq<VertexSet>, i: int, x: Vertex) -> bool { 0 <= i < c.len() && c[i]@.contains(x) }
/// the sets of c are disjoint, cover t, and vertices in one set are at distance at least d
#[verifier::opaque]
pub open spec fn classes_ok<G: Graph>(g: G, d: nat, t: Set<Vertex>, c: Seq<VertexSet>) -> bool {
    &&& forall|i: int, x: Vertex| #[trigger] inc(c, i, x) ==> t.contains(x)
    &&& forall|x: Vertex| #[trigger] t.contains(x) ==> exists|i: int| inc(c, i, x)
    &&& forall|i: int, j: int, x: Vertex| #[trigger] inc(c, i, x) && #[trigger] inc(c, j, x) ==> i == j
    &&& forall|i: int, x: Vertex, y: Vertex| #[trigger] inc(c, i, x) && #[trigger] inc(c, i, y) && x != y ==> far(g, d, x, y)
}
/// places of the non-empty sets
pub open spec fn ne(c: Seq<VertexSet>) -> Set<int> { vstd::set_lib::set_int_range(0, c.len() as int).filter(|i: int| c[i]@.len() > 0) }
pub open spec fn all_ne(c: Seq<VertexSet>) -> bool { forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@.len() > 0 }
pub proof fn lemma_nonempty(s: Set<Vertex>)
    ensures s.len() > 0 <==> exists|x: Vertex| s.contains(x)
{ if s.len() > 0 { let x = s.choose(); assert(s.contains(x)); } else { assert(s =~= Set::<Vertex>::empty()); } }
pub proof fn lemma_inj_len(a: Set<int>, b: Set<int>, f: spec_fn(int) -> int)
    requires forall|x: int| #[trigger] a.contains(x) ==> b.contains(f(x)), forall|x: int, y: int| a.contains(x) && a.contains(y) && #[trigger] f(x) == #[trigger] f(y) ==> x == y
    ensures a.len() <= b.len()
    decreases a.len()
{
    if a.len() > 0 {
        let e = a.choose(); assert(a.contains(e)); let c = a.remove(e); let d = b.remove(f(e));
        assert forall|x: int| #[trigger] c.contains(x) implies d.contains(f(x)) by { assert(a.contains(x)); if f(x) == f(e) { assert(x == e); } }
        lemma_inj_len(c, d, f);
    }
}
/// the sets of a, except for empty ones, are those of b in another order
pub open spec fn reorders(a: Seq<VertexSet>, b: Seq<VertexSet>, f: Seq<int>) -> bool { picks(a, b, f) && forall|i: int| 0 <= i < b.len() && b[i]@.len() > 0 ==> #[trigger] f.contains(i) }
pub proof fn lemma_reorder<G: Graph>(g: G, d: nat, t: Set<Vertex>, a: Seq<VertexSet>, b: Seq<VertexSet>, u: Seq<VertexSet>, f: Seq<int>)
    requires classes_ok(g, d, t, b + u), reorders(a, b, f)
    ensures classes_ok(g, d, t, a + u), ne(a).len() <= ne(b).len()
{
    reveal(classes_ok); let n = a + u; let o = b + u;
    let h = |i: int| if i < a.len() { f[i] } else { i - a.len() + b.len() };
    assert forall|i: int, x: Vertex| #[trigger] inc(n, i, x) implies inc(o, h(i), x) by { if i < a.len() { assert(n[i] == a[i]); assert(0 <= f[i] < b.len()); assert(o[f[i]] == b[f[i]]); } else { assert(n[i] == u[i - a.len()]); assert(o[i - a.len() + b.len()] == u[i - a.len()]); } }
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && #[trigger] h(i) == #[trigger] h(j) implies i == j by { }
    assert forall|x: Vertex| #[trigger] t.contains(x) implies exists|i: int| inc(n, i, x) by {
        let k = choose|k: int| inc(o, k, x);
        if k < b.len() { assert(b[k]@.contains(x)); lemma_nonempty(b[k]@); assert(f.contains(k)); let i = choose|i: int| 0 <= i < f.len() && f[i] == k; assert(n[i] == a[i]); assert(inc(n, i, x)); }
        else { assert(o[k] == u[k - b.len()]); assert(n[k - b.len() + a.len()] == u[k - b.len()]); assert(inc(n, k - b.len() + a.len(), x)); }
    }
    assert forall|i: int, j: int, x: Vertex| #[trigger] inc(n, i, x) && #[trigger] inc(n, j, x) implies i == j by { assert(inc(o, h(i), x) && inc(o, h(j), x)); assert(h(i) == h(j)); }
    assert forall|i: int, x: Vertex, y: Vertex| #[trigger] inc(n, i, x) && #[trigger] inc(n, i, y) && x != y implies far(g, d, x, y) by { assert(inc(o, h(i), x) && inc(o, h(i), y)); }
    let q = |i: int| f[i];
    assert forall|i: int| #[trigger] ne(a).contains(i) implies ne(b).contains(q(i)) by { assert(0 <= f[i] < b.len()); }
    lemma_inj_len(ne(a), ne(b), q);
}
pub proof fn lemma_id_reorder(a: Seq<VertexSet>)
    ensures reorders(a, a, Seq::new(a.len(), |k: int| k))
{ let f = Seq::new(a.len(), |k: int| k); assert forall|i: int| 0 <= i < a.len() && a[i]@.len() > 0 implies #[trigger] f.contains(i) by { assert(f[i] == i); } }
/// a + b has the sets of b + a
pub proof fn lemma_swap<G: Graph>(g: G, d: nat, t: Set<Vertex>, a: Seq<VertexSet>, b: Seq<VertexSet>)
    requires classes_ok(g, d, t, a + b)
    ensures classes_ok(g, d, t, b + a)
{
    let x = b + a; let y = a + b; let f = Seq::new(x.len(), |k: int| if k < b.len() { k + a.len() } else { k - b.len() }); let e = Seq::<VertexSet>::empty();
    assert forall|k: int| 0 <= k < x.len() implies 0 <= #[trigger] f[k] < y.len() && x[k] == y[f[k]] by { if k < b.len() { assert(x[k] == b[k]); assert(y[f[k]] == b[k]); } else { assert(x[k] == a[k - b.len()]); } }
    assert forall|i: int| 0 <= i < y.len() && y[i]@.len() > 0 implies #[trigger] f.contains(i) by { if i < a.len() { assert(f[i + b.len()] == i); } else { assert(f[i - a.len()] == i); } }
    assert(y + e =~= y); assert(x + e =~= x); lemma_reorder(g, d, t, x, y, e, f);
}
pub proof fn lemma_perm_picks<T>(r: Seq<T>, s: Seq<T>)
    requires r.to_multiset() == s.to_multiset()
    ensures exists|f: Seq<int>| #[trigger] picks(r, s, f) && r.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] f.contains(i)
    decreases r.len()
{
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(r.len() == r.to_multiset().len() && s.len() == s.to_multiset().len());
    if r.len() == 0 { let f = Seq::<int>::empty(); assert(picks(r, s, f)); }
    else {
        let n = r.len() - 1; let x = r[n]; assert(r.to_multiset().contains(x)); assert(s.to_multiset().contains(x)); assert(s.contains(x));
        let p = choose|p: int| 0 <= p < s.len() && s[p] == x;
        let r1 = r.remove(n); let s1 = s.remove(p);
        assert(r1.to_multiset() =~= r.to_multiset().remove(x)); assert(s1.to_multiset() =~= s.to_multiset().remove(x));
        lemma_perm_picks(r1, s1);
        let f1 = choose|f: Seq<int>| #[trigger] picks(r1, s1, f) && r1.len() == s1.len() && forall|i: int| 0 <= i < s1.len() ==> #[trigger] f.contains(i);
        let f = Seq::new(r.len(), |k: int| if k == n { p } else if f1[k] < p { f1[k] } else { f1[k] + 1 });
        assert forall|k: int| 0 <= k < r.len() implies 0 <= #[trigger] f[k] < s.len() && r[k] == s[f[k]] by { if k < n { assert(r1[k] == r[k]); assert(0 <= f1[k] < s1.len()); } }
        assert forall|i: int| 0 <= i < s.len() implies #[trigger] f.contains(i) by {
            if i == p { assert(f[n] == p); } else { let j = if i < p { i } else { i - 1 }; assert(f1.contains(j)); let k = choose|k: int| 0 <= k < f1.len() && f1[k] == j; assert(f[k] == i); }
        }
        assert(picks(r, s, f));
    }
}
pub proof fn lemma_sorted<G: Graph>(g: G, d: nat, t: Set<Vertex>, a: Seq<VertexSet>, b: Seq<VertexSet>, u: Seq<VertexSet>)
    requires classes_ok(g, d, t, b + u), perm(a, b)
    ensures classes_ok(g, d, t, a + u), ne(a).len() <= ne(b).len()
{ lemma_perm_picks(a, b); let f = choose|f: Seq<int>| #[trigger] picks(a, b, f) && forall|i: int| 0 <= i < b.len() ==> #[trigger] f.contains(i); lemma_reorder(g, d, t, a, b, u, f); }
/// the classes while set i of l is s1
pub open spec fn cur(l: Seq<VertexSet>, i: int, s1: VertexSet, r: Seq<VertexSet>) -> Seq<VertexSet> { l.update(i, s1) + r }
/// set j of r joins s1
pub proof fn lemma_merge<L: LinearGraph>(g: L, d: nat, t: Set<Vertex>, wr: WMap, k: nat, l: Seq<VertexSet>, i: int, s1: VertexSet, n1: VertexSet, r: Seq<VertexSet>, j: int, n2: VertexSet, u: Seq<VertexSet>)
    requires classes_ok(g, d, t, cur(l, i, s1, r) + u), 0 <= i < l.len(), 0 <= j < r.len(), n2@ == Set::<Vertex>::empty(), forall|x: Vertex| #[trigger] n1@.contains(x) <==> s1@.contains(x) || r[j]@.contains(x),
        g.wf(), wr_ok(g, d, wr), t.subset_of(g.vs()), d == 0 || sets_lb(wr, d, s1@, r[j]@, k) && k >= d, r[j]@.len() > 0, s1@.len() > 0
    ensures classes_ok(g, d, t, cur(l, i, n1, r.update(j, n2)) + u), ne(cur(l, i, n1, r.update(j, n2))).len() < ne(cur(l, i, s1, r)).len(), n1@.len() > 0
{
    reveal(classes_ok); let c0 = cur(l, i, s1, r); let c1 = cur(l, i, n1, r.update(j, n2)); let o = c0 + u; let n = c1 + u; let q = l.len() + j;
    lemma_nonempty(s1@); lemma_nonempty(n1@); assert(exists|x: Vertex| n1@.contains(x)) by { let x = choose|x: Vertex| s1@.contains(x); assert(n1@.contains(x)); } lemma_nonempty(r[j]@); lemma_nonempty(n2@);
    assert(o[i] == s1 && n[i] == n1 && o[q] == r[j] && n[q] == n2);
    assert forall|p: int| 0 <= p < n.len() && p != i && p != q implies #[trigger] n[p] == o[p] by { }
    assert forall|p: int, x: Vertex| #[trigger] inc(n, p, x) implies inc(o, p, x) || p == i && inc(o, q, x) by { }
    assert forall|x: Vertex| #[trigger] t.contains(x) implies exists|p: int| inc(n, p, x) by { let p = choose|p: int| inc(o, p, x); if p == q { assert(inc(n, i, x)); } else { assert(inc(n, p, x)); } }
    assert forall|p: int, p2: int, x: Vertex| #[trigger] inc(n, p, x) && #[trigger] inc(n, p2, x) implies p == p2 by { if !inc(o, p, x) { assert(inc(o, q, x)); } if !inc(o, p2, x) { assert(inc(o, q, x)); } assert(!inc(n, q, x)); }
    assert forall|p: int, x: Vertex, y: Vertex| #[trigger] inc(n, p, x) && #[trigger] inc(n, p, y) && x != y implies far(g, d, x, y) by {
        if inc(o, p, x) && inc(o, p, y) { } else if inc(o, q, x) && inc(o, q, y) { }
        else if d > 0 {
            assert(p == i);
            assert(t.contains(x) && t.contains(y));
            if inc(o, p, x) { assert(pair_lb(wr, d, x, y, k)); let e = if k <= d { k } else { d + 1 }; lemma_lb_mono(wr, x, y, e, d); lemma_lb_far(g, d, wr, x, y, d); }
            else { assert(pair_lb(wr, d, y, x, k)); let e = if k <= d { k } else { d + 1 }; lemma_lb_mono(wr, y, x, e, d); lemma_lb_far(g, d, wr, y, x, d); if d > 0 && within(g, x, (d - 1) as nat, y) { lemma_within_sym(g, x, (d - 1) as nat, y); } }
        }
    }
    assert(c0[i] == s1 && c1[i] == n1 && c0[q] == r[j] && c1[q] == n2);
    assert forall|p: int| 0 <= p < c0.len() && p != i && p != q implies #[trigger] c1[p] == c0[p] by { }
    assert(ne(c0).contains(q)); assert(ne(c1) =~= ne(c0).remove(q));
}
pub proof fn lists_set(s: VertexSet) ensures s.order().to_set() == s@ { assert(lists(s.order(), s@)); assert(s.order().to_set() =~= s@); }
pub proof fn lemma_cur_sub<G: Graph>(g: G, d: nat, t: Set<Vertex>, l: Seq<VertexSet>, i: int, s1: VertexSet, r: Seq<VertexSet>, j: int, u: Seq<VertexSet>)
    requires classes_ok(g, d, t, cur(l, i, s1, r) + u), 0 <= i < l.len(), 0 <= j < r.len()
    ensures s1@.subset_of(t), r[j]@.subset_of(t)
{
    reveal(classes_ok); let o = cur(l, i, s1, r) + u; assert(o[i] == s1 && o[l.len() + j] == r[j]);
    assert forall|x: Vertex| s1@.contains(x) implies t.contains(x) by { assert(inc(o, i, x)); }
    assert forall|x: Vertex| r[j]@.contains(x) implies t.contains(x) by { assert(inc(o, l.len() + j, x)); }
}
/// set i of l moves to u
pub proof fn lemma_move<G: Graph>(g: G, d: nat, t: Set<Vertex>, l: Seq<VertexSet>, i: int, s1: VertexSet, n1: VertexSet, r: Seq<VertexSet>, u: Seq<VertexSet>)
    requires classes_ok(g, d, t, cur(l, i, s1, r) + u), 0 <= i < l.len(), n1@ == Set::<Vertex>::empty(), s1@.len() > 0
    ensures classes_ok(g, d, t, cur(l, i, n1, r) + u.push(s1)), ne(cur(l, i, n1, r)).len() < ne(cur(l, i, s1, r)).len()
{
    reveal(classes_ok); let c0 = cur(l, i, s1, r); let c1 = cur(l, i, n1, r); let o = c0 + u; let n = c1 + u.push(s1); let z = n.len() - 1;
    assert(o[i] == s1 && n[i] == n1 && n[z] == s1); assert(c0[i] == s1 && c1[i] == n1);
    assert forall|p: int| 0 <= p < z && p != i implies #[trigger] n[p] == o[p] by { if p < c0.len() { assert(c0[p] == c1[p]); } else { assert(u.push(s1)[p - c0.len()] == u[p - c0.len()]); } }
    let h = |p: int| if p == z { i } else { p };
    assert forall|p: int, x: Vertex| #[trigger] inc(n, p, x) implies inc(o, h(p), x) && p != i by { }
    assert forall|x: Vertex| #[trigger] t.contains(x) implies exists|p: int| inc(n, p, x) by { let p = choose|p: int| inc(o, p, x); if p == i { assert(inc(n, z, x)); } else { assert(inc(n, p, x)); } }
    assert forall|p: int, p2: int, x: Vertex| #[trigger] inc(n, p, x) && #[trigger] inc(n, p2, x) implies p == p2 by { assert(inc(o, h(p), x) && inc(o, h(p2), x)); }
    assert forall|p: int, x: Vertex, y: Vertex| #[trigger] inc(n, p, x) && #[trigger] inc(n, p, y) && x != y implies far(g, d, x, y) by { assert(inc(o, h(p), x) && inc(o, h(p), y)); }
    assert(ne(c0).contains(i)); assert(ne(c1) =~= ne(c0).remove(i)) by { assert forall|p: int| 0 <= p < c0.len() && p != i implies #[trigger] c1[p] == c0[p] by { } }
}
/// the classes of a colouring
pub proof fn lemma_invert_ok<G: Graph>(g: G, k: nat, d: nat, m: Map<Vertex, u32>, inv: Map<u32, VertexSet>, o: Seq<u32>)
    requires inverted(m, inv), lists(o, inv.dom()), scat(g, k, m), d <= k + 1
    ensures classes_ok(g, d, m.dom(), vals(inv, o))
{
    reveal(classes_ok); let c = vals(inv, o);
    assert forall|i: int, x: Vertex| #[trigger] inc(c, i, x) implies m.dom().contains(x) && m[x] == o[i] by { assert(o.contains(o[i])); assert(c[i] == inv[o[i]]); }
    assert forall|x: Vertex| #[trigger] m.dom().contains(x) implies exists|i: int| inc(c, i, x) by { assert(o.contains(m[x])); let i = choose|i: int| 0 <= i < o.len() && o[i] == m[x]; assert(c[i] == inv[o[i]]); assert(inc(c, i, x)); }
    assert forall|i: int, x: Vertex, y: Vertex| #[trigger] inc(c, i, x) && #[trigger] inc(c, i, y) && x != y implies far(g, d, x, y) by { assert(!within(g, x, k, y)); if d > 0 && within(g, x, (d - 1) as nat, y) { lemma_within_mono(g, x, (d - 1) as nat, k, y); } }
}
// ===================================================================== collecting colourings
/// all colours are less than the number of coloured vertices
pub open spec fn low(m: Map<Vertex, u32>) -> bool { forall|x: Vertex| #[trigger] m.dom().contains(x) ==> m[x] < m.dom().len() }
pub proof fn lemma_low<L: LinearGraph>(g: L, m: Map<Vertex, u32>, k: nat)
    requires g.wf(), few(g, k), m.dom() == g.vs(), forall|x: Vertex| g.vs().contains(x) ==> #[trigger] m[x] < k
    ensures low(m)
{
    reveal(few); g.lemma_lin();
    if k > 0 {
        let w = choose|w: Vertex| #[trigger] g.vs().contains(w) && k <= g.lseq(w).len() + 1; let s = g.lseq(w);
        s.unique_seq_to_set(); assert(!s.contains(w)); g.lemma_wf();
        assert(s.to_set().subset_of(g.vs().remove(w))) by { assert forall|x: Vertex| #[trigger] s.to_set().contains(x) implies g.vs().remove(w).contains(x) by { assert(s.contains(x)); } }
        vstd::set_lib::lemma_len_subset(s.to_set(), g.vs().remove(w));
    }
}
pub proof fn lemma_extend<G: Graph>(g: G, k: nat, m: Map<Vertex, u32>, o: Map<Vertex, u32>, n: Map<Vertex, u32>, off: int)
    requires scat(g, k, m), scat(g, k, o), low(m), low(o), m.dom().disjoint(o.dom()), fresh_off(m, off), n.dom() == m.dom().union(o.dom()),
        forall|x: Vertex| m.dom().contains(x) ==> #[trigger] n[x] == m[x], forall|x: Vertex| o.dom().contains(x) && !m.dom().contains(x) ==> #[trigger] n[x] == o[x] + off
    ensures scat(g, k, n), low(n)
{
    vstd::set_lib::lemma_set_disjoint_lens(m.dom(), o.dom());
    if m.dom().len() == 0 { assert(m.dom() =~= Set::<Vertex>::empty()); } else { let w = choose|x: Vertex| m.dom().contains(x) && #[trigger] m[x] + 1 == off; assert(off <= m.dom().len()); }
    assert forall|x: Vertex, y: Vertex| #[trigger] n.dom().contains(x) && #[trigger] n.dom().contains(y) && x != y && n[x] == n[y] implies !within(g, x, k, y) by {
        if m.dom().contains(x) && m.dom().contains(y) { assert(m[x] == m[y]); }
        else if m.dom().contains(x) { assert(o.dom().contains(y)); assert(n[x] == m[x]); assert(n[y] == o[y] + off); }
        else if m.dom().contains(y) { assert(o.dom().contains(x)); assert(n[y] == m[y]); assert(n[x] == o[x] + off); }
        else { assert(o.dom().contains(x) && o.dom().contains(y)); assert(n[x] == o[x] + off && n[y] == o[y] + off); }
    }
    assert forall|x: Vertex| #[trigger] n.dom().contains(x) implies n[x] < n.dom().len() by { if m.dom().contains(x) { assert(n[x] == m[x]); } else { assert(o.dom().contains(x)); assert(n[x] == o[x] + off); } }
}
//@ fn algorithms/lineargraph.rs free small_distance
//@ requires mmd(*wreach).contains(*x), mmd(*wreach).contains(*y), wr_small(*wreach), distance < 0x4000_0000
//@ ensures
    *x == *y ==> r == Some(0u32),
    *x != *y && r.is_none() ==> lb(*wreach, *x, *y, distance as nat + 1),
    *x != *y && r.is_some() ==> lb(*wreach, *x, *y, r->0 as nat) && r->0 <= distance
//@ hint after let Wy 1
    let ghost mx = mm(*wreach, *x); let ghost my = mm(*wreach, *y);
    proof { reveal(lb); assert(Wx@ == mx && Wy@ == my); }
//@ loop 1
    lists(it1_s, mx.dom()), mx.dom().contains(*y) ==> dist <= mx[*y], my.dom().contains(*x) ==> dist <= my[*x],
    forall|w: Vertex| #[trigger] mx.dom().contains(w) && my.dom().contains(w) && pre(it1_s, it1.pos()).contains(w) ==> dist <= mx[w] + my[w],
//@ hint loop1.start
    proof { lemma_pre(it1_s, (it1.pos() - 1) as nat); assert(it1_s.contains(*w)); assert(mx.dom().contains(*w)); if my.dom().contains(*w) { assert(mx[*w] < 0x4000_0000 && my[*w] < 0x4000_0000); } }
//@ hint loop1.after
    proof { assert(it1_s.take(it1_s.len() as int) =~= it1_s);  }
//@ end
//@ fn algorithms/lineargraph.rs free small_distance_sets
//@ requires X.src_ok(), Y.src_ok(), X.src().to_set().subset_of(mmd(*wreach)), Y.src().to_set().subset_of(mmd(*wreach)), wr_small(*wreach), distance < 0x4000_0000
//@ ensures
    r.is_none() ==> sets_lb(*wreach, distance as nat, X.src().to_set(), Y.src().to_set(), distance as nat + 1),
    r.is_some() ==> r->0 == 0 || sets_lb(*wreach, distance as nat, X.src().to_set(), Y.src().to_set(), r->0 as nat)
//@ hint start
    let ghost sx = X.src().to_set(); let ghost sy = Y.src().to_set(); let ghost dd = distance as nat; let ghost wr = *wreach;
//@ hint loop1.before
    proof { assert(X@ =~= sx && Y@ =~= sy); }
//@ loop 1
    lists(it1_s, sx), sets_lb(wr, dd, pre(it1_s, it1.pos()), sy, dist as nat),
//@ hint loop1.start
    let ghost p1 = pre(it1_s, (it1.pos() - 1) as nat); let ghost d1 = dist as nat;
    proof { lemma_pre(it1_s, (it1.pos() - 1) as nat); assert(it1_s.contains(*x)); assert(sx.contains(*x)); assert(mmd(wr).contains(*x)); }
//@ loop 2
    lists(it2_s, sy), dist <= d1, forall|w: Vertex| #[trigger] pre(it2_s, it2.pos()).contains(w) ==> pair_lb(wr, dd, *x, w, dist as nat),
//@ hint loop2.start
    let ghost d2 = dist as nat;
    proof { lemma_pre(it2_s, (it2.pos() - 1) as nat); assert(it2_s.contains(*y)); assert(sy.contains(*y)); assert(mmd(wr).contains(*y)); }
//@ hint loop2.end
    proof {
        assert forall|k: nat, l: nat| #[trigger] lb(wr, *x, *y, k) && l <= k implies #[trigger] lb(wr, *x, *y, l) by { lemma_lb_mono(wr, *x, *y, k, l); }
        assert forall|w: Vertex| #[trigger] pre(it2_s, it2.pos()).contains(w) implies pair_lb(wr, dd, *x, w, dist as nat) by {
            if pre(it2_s, (it2.pos() - 1) as nat).contains(w) { assert(pair_lb(wr, dd, *x, w, d2)); lemma_pair_lb(wr, dd, *x, w, d2, dist as nat); }
        }
    }
//@ hint loop1.end
    proof {
        assert(it2_s.take(it2_s.len() as int) =~= it2_s);
        assert forall|a: Vertex, b: Vertex| #[trigger] pre(it1_s, it1.pos()).contains(a) && #[trigger] sy.contains(b) implies pair_lb(wr, dd, a, b, dist as nat) by {
            if a == *x { assert(it2_s.contains(b)); assert(pre(it2_s, it2_s.len()).contains(b)); } else { assert(p1.contains(a)); lemma_pair_lb(wr, dd, a, b, d1, dist as nat); }
        }
    }
//@ hint loop1.after
    proof { assert(it1_s.take(it1_s.len() as int) =~= it1_s); }
//@ end
pub proof fn lemma_pair_lb(wr: WMap, dist: nat, x: Vertex, y: Vertex, d: nat, e: nat)
    requires pair_lb(wr, dist, x, y, d), e <= d
    ensures pair_lb(wr, dist, x, y, e)
{ lemma_lb_mono(wr, x, y, if d <= dist { d } else { dist + 1 }, if e <= dist { e } else { dist + 1 }); }
} // verus!
