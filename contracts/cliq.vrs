verus! {
//@ props C21
// ===================================================================== maximal cliques
/// std::collections::BTreeSet; two values with the same elements are the same value
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct BTreeSet<K> { m: std::collections::BTreeSet<K> }
impl<K> View for BTreeSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
#[verifier::external] impl<K: Hash> Hash for BTreeSet<K> { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.m.hash(h) } }
#[verifier::external] impl<K: PartialEq> PartialEq for BTreeSet<K> { fn eq(&self, o: &Self) -> bool { self.m == o.m } }
#[verifier::external] impl<K: Eq> Eq for BTreeSet<K> { }
pub uninterp spec fn bt(c: Set<Vertex>) -> BTreeSet<Vertex>;
#[verifier::external_body]
pub proof fn axiom_bt()
    ensures forall|c: Set<Vertex>| (#[trigger] bt(c))@ == c, forall|b: BTreeSet<Vertex>| bt(#[trigger] b@) == b
{ }
impl BTreeSet<Vertex> {
    #[verifier::external_body]
    pub fn remove(&mut self, k: &Vertex) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { unimplemented!() }
}
impl VxFrom<Vertex> for BTreeSet<Vertex> {
    open spec fn from_spec(s: Seq<Vertex>, r: Self) -> bool { r@ == s.to_set() }
    #[verifier::external_body]
    fn vx_from_it(it: It<Vertex>) -> (r: Self) { unimplemented!() }
}
/// Iterator::rev of a range
pub trait VxRangeRev : Sized {
    spec fn rr(&self) -> Seq<usize>;
    fn vx_rev(self) -> (r: It<usize>) ensures r.pos() == 0, r.seq() == self.rr().reverse();
}
impl VxRangeRev for core::ops::Range<usize> {
    open spec fn rr(&self) -> Seq<usize> { <Self as VxSrc<usize>>::src(self) }
    #[verifier::external_body]
    fn vx_rev(self) -> (r: It<usize>) { unimplemented!() }
}
impl<T> VxIndex<usize> for [T] {
    type Out = T;
    open spec fn ix_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn ix_val(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: usize) -> (r: &'a T) { unimplemented!() }
}
impl<T> VxIndex<core::ops::Range<usize>> for [T] {
    type Out = [T];
    open spec fn ix_req(&self, i: core::ops::Range<usize>) -> bool { i.start <= i.end && i.end <= self@.len() }
    open spec fn ix_val(&self, i: core::ops::Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: core::ops::Range<usize>) -> (r: &'a [T]) { unimplemented!() }
}
/// x[a..=b] (the closed range is a non-empty list of consecutive numbers)
impl<T> VxIndex<It<usize>> for [T] {
    type Out = [T];
    open spec fn ix_req(&self, i: It<usize>) -> bool { i.pos() == 0 && i.seq().len() > 0 && i.seq()[0] <= i.seq().last() && i.seq().last() < self@.len() && i.seq().len() == i.seq().last() - i.seq()[0] + 1 }
    open spec fn ix_val(&self, i: It<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.seq()[0] as int, i.seq().last() + 1) }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: It<usize>) -> (r: &'a [T]) { unimplemented!() }
}
impl<'a, T> RIt<'a, T> {
    #[verifier::external_body]
    pub fn vx_filter_map<U, F: Fn(&'a T) -> Option<U>>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|x: &T| #[trigger] f.requires((x,))
        ensures r.pos() == 0, forall|u: U| #[trigger] r.seq().contains(u) ==> exists|x: T| #[trigger] self.seq().contains(x) && f.ensures((&x,), Some(u)),
            forall|x: T| #[trigger] self.seq().contains(x) ==> f.ensures((&x,), None) || exists|u: U| f.ensures((&x,), Some(u)) && #[trigger] r.seq().contains(u)
    { unimplemented!() }
}

/// c is a clique
pub open spec fn cliq<G: Graph>(g: G, c: Set<Vertex>) -> bool { c.subset_of(g.vs()) && forall|x: Vertex, y: Vertex| c.contains(x) && c.contains(y) && x != y ==> #[trigger] g.adj(x, y) }
/// y extends c
pub open spec fn ext<G: Graph>(g: G, c: Set<Vertex>, y: Vertex) -> bool { g.vs().contains(y) && !c.contains(y) && forall|x: Vertex| c.contains(x) ==> #[trigger] g.adj(x, y) }
/// c is an inclusion-maximal clique (of a non-empty graph)
pub open spec fn maxcl<G: Graph>(g: G, c: Set<Vertex>) -> bool { c.len() > 0 && cliq(g, c) && forall|y: Vertex| !#[trigger] ext(g, c, y) }
pub open spec fn left<L: LinearGraph>(g: L, v: Vertex, y: Vertex) -> bool { g.vs().contains(y) && ix(g.vseq(), y) < ix(g.vseq(), v) }
/// c is a maximal clique of v and the vertices left of v, and contains v
pub open spec fn lmax<L: LinearGraph>(g: L, v: Vertex, c: Set<Vertex>) -> bool {
    c.contains(v) && cliq(g, c) && (forall|x: Vertex| #[trigger] c.contains(x) ==> x == v || left(g, v, x)) && forall|y: Vertex| left(g, v, y) ==> !#[trigger] ext(g, c, y)
}
pub open spec fn cand<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, may: Set<Vertex>, c: Set<Vertex>) -> bool { inc.subset_of(c) && c.subset_of(inc.union(may)) && lmax(g, v, c) }
/// the cliques found: those that meet d
pub open spec fn found<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, may: Set<Vertex>, d: Set<Vertex>, c: Set<Vertex>) -> bool { cand(g, v, inc, may, c) && exists|w: Vertex| #[trigger] c.contains(w) && d.contains(w) }
pub open spec fn fam(s: Set<BTreeSet<Vertex>>, c: Set<Vertex>) -> bool { s.contains(bt(c)) }
/// every found clique is added, and is removed again without v
#[verifier::opaque]
pub open spec fn upd<L: LinearGraph>(r0: Set<BTreeSet<Vertex>>, r1: Set<BTreeSet<Vertex>>, g: L, v: Vertex, inc: Set<Vertex>, may: Set<Vertex>, d: Set<Vertex>) -> bool {
    forall|c: Set<Vertex>| #[trigger] fam(r1, c) == if c.contains(v) { fam(r0, c) || found(g, v, inc, may, d, c) } else { fam(r0, c) && !(c.len() > 0 && found(g, v, inc, may, d, c.insert(v))) }
}
#[verifier::opaque]
pub open spec fn bk_pre<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, may: Set<Vertex>, exc: Set<Vertex>) -> bool {
    g.vs().contains(v) && cliq(g, inc) && inc.contains(v) && (forall|x: Vertex| #[trigger] inc.contains(x) ==> x == v || left(g, v, x))
    && forall|y: Vertex| #[trigger] may.union(exc).contains(y) <==> left(g, v, y) && ext(g, inc, y)
}
pub proof fn lemma_bk_get<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, may: Set<Vertex>, exc: Set<Vertex>)
    requires bk_pre(g, v, inc, may, exc)
    ensures inc.contains(v), g.vs().contains(v), forall|y: Vertex| #[trigger] may.contains(y) ==> !inc.contains(y) && y != v && g.vs().contains(y), forall|y: Vertex| #[trigger] exc.contains(y) ==> !inc.contains(y) && g.vs().contains(y)
{
    reveal(bk_pre);
    assert forall|y: Vertex| #[trigger] may.contains(y) implies !inc.contains(y) && y != v && g.vs().contains(y) by { assert(may.union(exc).contains(y)); }
    assert forall|y: Vertex| #[trigger] exc.contains(y) implies !inc.contains(y) && g.vs().contains(y) by { assert(may.union(exc).contains(y)); }
}
/// nothing can be added: the only candidate is inc itself
pub proof fn lemma_leaf<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, r0: Set<BTreeSet<Vertex>>, r1: Set<BTreeSet<Vertex>>)
    requires bk_pre(g, v, inc, Set::empty(), Set::empty()), r1 == r0.insert(bt(inc)) && inc.len() <= 1 || r1 == r0.insert(bt(inc)).remove(bt(inc.remove(v))) && inc.len() > 1
    ensures upd(r0, r1, g, v, inc, Set::empty(), Set::empty().insert(v))
{
    reveal(bk_pre); reveal(upd); axiom_bt();
    let e = Set::<Vertex>::empty(); let d = Set::<Vertex>::empty().insert(v);
    assert forall|y: Vertex| left(g, v, y) implies !#[trigger] ext(g, inc, y) by { assert(!e.union(e).contains(y)); }
    assert forall|c: Set<Vertex>| #[trigger] found(g, v, inc, e, d, c) <==> c == inc by {
        if found(g, v, inc, e, d, c) { assert(c =~= inc); }
        if c == inc { assert(c.contains(v) && d.contains(v)); assert(lmax(g, v, c)); }
    }
    assert forall|c: Set<Vertex>| #[trigger] fam(r1, c) == if c.contains(v) { fam(r0, c) || found(g, v, inc, e, d, c) } else { fam(r0, c) && !(c.len() > 0 && found(g, v, inc, e, d, c.insert(v))) } by {
        assert(bt(c)@ == c && bt(inc)@ == inc && bt(inc.remove(v))@ == inc.remove(v));
        if c.contains(v) { assert(!inc.remove(v).contains(v)); assert(c != inc.remove(v)); }
        else {
            assert(c != inc);
            if c.insert(v) == inc { assert(c =~= inc.remove(v)); }
            if c == inc.remove(v) { assert(c.insert(v) =~= inc); }
            assert(c.insert(v).len() == c.len() + 1);
        }
    }
}
/// the recursive call on w
pub proof fn lemma_bk_rec<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, may0: Set<Vertex>, exc0: Set<Vertex>, may: Set<Vertex>, exc: Set<Vertex>, w: Vertex, nw: Set<Vertex>, m1: Set<Vertex>, e1: Set<Vertex>)
    requires g.wf(), bk_pre(g, v, inc, may0, exc0), may.union(exc) == may0.union(exc0), may.contains(w), may.subset_of(may0),
        forall|y: Vertex| may0.union(exc0).contains(y) ==> (#[trigger] nw.contains(y) <==> g.adj(w, y)),
        forall|y: Vertex| #[trigger] m1.contains(y) <==> may.contains(y) && nw.contains(y), forall|y: Vertex| #[trigger] e1.contains(y) <==> exc.contains(y) && nw.contains(y)
    ensures bk_pre(g, v, inc.insert(w), m1, e1), m1.len() < may0.len()
{
    reveal(bk_pre); g.lemma_lin(); g.lemma_wf();
    let e0 = may0.union(exc0); assert(e0.contains(w)); assert(may.union(exc).contains(w));
    assert forall|y: Vertex| #[trigger] m1.union(e1).contains(y) <==> left(g, v, y) && ext(g, inc.insert(w), y) by {
        assert(m1.union(e1).contains(y) <==> e0.contains(y) && nw.contains(y)) by { assert(e0.contains(y) <==> may.union(exc).contains(y)); }
        if e0.contains(y) && nw.contains(y) { assert(g.adj(w, y)); assert(ext(g, inc, y)); assert(y != w); assert forall|x: Vertex| inc.insert(w).contains(x) implies #[trigger] g.adj(x, y) by { if x != w { assert(inc.contains(x)); } } }
        if left(g, v, y) && ext(g, inc.insert(w), y) { assert(inc.insert(w).contains(w)); assert(g.adj(w, y)); assert forall|x: Vertex| inc.contains(x) implies #[trigger] g.adj(x, y) by { assert(inc.insert(w).contains(x)); } assert(!inc.contains(y)); assert(ext(g, inc, y)); assert(e0.contains(y)); }
    }
    assert(ext(g, inc, w));
    assert forall|x: Vertex, y: Vertex| inc.insert(w).contains(x) && inc.insert(w).contains(y) && x != y implies #[trigger] g.adj(x, y) by { if x == w { assert(g.adj(y, x)); } else if y == w { } else { } }
    assert(!m1.contains(w)); assert(m1.subset_of(may0.remove(w))); vstd::set_lib::lemma_len_subset(m1, may0.remove(w));
}
/// the recursive call on w is done
pub proof fn lemma_bk_step<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, may0: Set<Vertex>, exc0: Set<Vertex>, d: Set<Vertex>, w: Vertex, nw: Set<Vertex>, m1: Set<Vertex>, r0: Set<BTreeSet<Vertex>>, r1: Set<BTreeSet<Vertex>>, r2: Set<BTreeSet<Vertex>>)
    requires g.wf(), bk_pre(g, v, inc, may0, exc0), d.subset_of(may0), may0.contains(w), !d.contains(w), upd(r0, r1, g, v, inc, may0, d), upd(r1, r2, g, v, inc.insert(w), m1, Set::empty().insert(v)),
        forall|y: Vertex| may0.union(exc0).contains(y) ==> (#[trigger] nw.contains(y) <==> g.adj(w, y)),
        forall|y: Vertex| #[trigger] m1.contains(y) <==> may0.contains(y) && !d.contains(y) && nw.contains(y)
    ensures upd(r0, r2, g, v, inc, may0, d.insert(w))
{
    lemma_bk_get(g, v, inc, may0, exc0); reveal(upd); g.lemma_lin(); g.lemma_wf();
    let dv = Set::<Vertex>::empty().insert(v); let d1 = d.insert(w);
    assert forall|c: Set<Vertex>| #[trigger] found(g, v, inc.insert(w), m1, dv, c) == (cand(g, v, inc, may0, c) && c.contains(w) && !found(g, v, inc, may0, d, c)) by {
        if found(g, v, inc.insert(w), m1, dv, c) {
            assert(inc.insert(w).contains(w)); assert(c.contains(w));
            assert forall|x: Vertex| inc.contains(x) implies c.contains(x) by { assert(inc.insert(w).contains(x)); }
            assert forall|x: Vertex| c.contains(x) implies inc.union(may0).contains(x) && !d.contains(x) by { assert(inc.insert(w).union(m1).contains(x)); if d.contains(x) { assert(may0.contains(x)); } }
        }
        if cand(g, v, inc, may0, c) && c.contains(w) && !found(g, v, inc, may0, d, c) {
            assert(c.contains(v) && dv.contains(v));
            assert forall|x: Vertex| c.contains(x) implies inc.insert(w).union(m1).contains(x) by { assert(inc.union(may0).contains(x)); if !inc.contains(x) && x != w { assert(g.adj(w, x)); assert(may0.union(exc0).contains(x)); assert(!d.contains(x)); } }
        }
    }
    assert forall|c: Set<Vertex>| #[trigger] found(g, v, inc, may0, d1, c) == (found(g, v, inc, may0, d, c) || found(g, v, inc.insert(w), m1, dv, c)) by {
        if found(g, v, inc, may0, d, c) { let z = choose|z: Vertex| #[trigger] c.contains(z) && d.contains(z); assert(d1.contains(z)); }
        if c.contains(w) { assert(d1.contains(w)); }
    }
    assert forall|c: Set<Vertex>| #[trigger] fam(r2, c) == if c.contains(v) { fam(r0, c) || found(g, v, inc, may0, d1, c) } else { fam(r0, c) && !(c.len() > 0 && found(g, v, inc, may0, d1, c.insert(v))) } by {
        let f1 = fam(r1, c); assert(found(g, v, inc, may0, d1, c.insert(v)) == (found(g, v, inc, may0, d, c.insert(v)) || found(g, v, inc.insert(w), m1, dv, c.insert(v))));
        assert(found(g, v, inc, may0, d1, c) == (found(g, v, inc, may0, d, c) || found(g, v, inc.insert(w), m1, dv, c)));
    }
}
/// every candidate contains a vertex of may0 that is not a neighbour of the pivot u
pub proof fn lemma_pivot<L: LinearGraph>(g: L, v: Vertex, inc: Set<Vertex>, may0: Set<Vertex>, exc0: Set<Vertex>, d: Set<Vertex>, u: Vertex, r0: Set<BTreeSet<Vertex>>, r1: Set<BTreeSet<Vertex>>)
    requires g.wf(), bk_pre(g, v, inc, may0, exc0), may0.contains(u) || exc0.contains(u), forall|w: Vertex| #[trigger] may0.contains(w) && !g.adj(u, w) ==> d.contains(w), upd(r0, r1, g, v, inc, may0, d)
    ensures upd(r0, r1, g, v, inc, may0, Set::empty().insert(v))
{
    reveal(upd); reveal(bk_pre); g.lemma_lin(); g.lemma_wf(); let dv = Set::<Vertex>::empty().insert(v);
    assert forall|c: Set<Vertex>| #[trigger] found(g, v, inc, may0, dv, c) == found(g, v, inc, may0, d, c) by {
        if cand(g, v, inc, may0, c) {
            assert(c.contains(v) && dv.contains(v));
            if !exists|w: Vertex| #[trigger] c.contains(w) && d.contains(w) {
                assert(may0.union(exc0).contains(u));
                if c.contains(u) { assert(inc.union(may0).contains(u)); assert(d.contains(u)); }
                assert forall|x: Vertex| c.contains(x) implies #[trigger] g.adj(x, u) by { assert(inc.union(may0).contains(x)); if !inc.contains(x) { assert(g.adj(u, x)); } }
                assert(ext(g, c, u)); assert(left(g, v, u));
            }
        }
    }
    assert forall|c: Set<Vertex>| #[trigger] fam(r1, c) == if c.contains(v) { fam(r0, c) || found(g, v, inc, may0, dv, c) } else { fam(r0, c) && !(c.len() > 0 && found(g, v, inc, may0, dv, c.insert(v))) } by {
        assert(found(g, v, inc, may0, dv, c.insert(v)) == found(g, v, inc, may0, d, c.insert(v))); assert(found(g, v, inc, may0, dv, c) == found(g, v, inc, may0, d, c));
    }
}
/// c is a maximal clique of the first n vertices
pub open spec fn pmax<L: LinearGraph>(g: L, n: int, c: Set<Vertex>) -> bool {
    c.len() > 0 && cliq(g, c) && (forall|x: Vertex| #[trigger] c.contains(x) ==> ix(g.vseq(), x) < n) && forall|y: Vertex| ix(g.vseq(), y) < n ==> !#[trigger] ext(g, c, y)
}
#[verifier::opaque]
pub open spec fn holds_max<L: LinearGraph>(g: L, n: int, r: Set<BTreeSet<Vertex>>) -> bool { forall|c: Set<Vertex>| #[trigger] fam(r, c) <==> pmax(g, n, c) }
pub proof fn lemma_bk_top<L: LinearGraph>(g: L, n: int, may: Set<Vertex>)
    requires g.wf(), 0 <= n < g.vseq().len(), may == g.lseq(g.vseq()[n]).to_set()
    ensures bk_pre(g, g.vseq()[n], Set::empty().insert(g.vseq()[n]), may, Set::empty())
{
    reveal(bk_pre); g.lemma_lin(); g.lemma_wf(); let o = g.vseq(); let v = o[n]; let inc = Set::<Vertex>::empty().insert(v);
    assert(o.contains(v));
    assert forall|y: Vertex| #[trigger] may.union(Set::empty()).contains(y) <==> left(g, v, y) && ext(g, inc, y) by { assert(may.contains(y) <==> g.lseq(v).contains(y)); if ext(g, inc, y) { assert(inc.contains(v)); } if g.adj(v, y) && y != v { assert forall|x: Vertex| inc.contains(x) implies #[trigger] g.adj(x, y) by { } } }
}
pub proof fn lemma_top_step<L: LinearGraph>(g: L, n: int, may: Set<Vertex>, r0: Set<BTreeSet<Vertex>>, r1: Set<BTreeSet<Vertex>>)
    requires g.wf(), 0 <= n < g.vseq().len(), may == g.lseq(g.vseq()[n]).to_set(), holds_max(g, n, r0), upd(r0, r1, g, g.vseq()[n], Set::empty().insert(g.vseq()[n]), may, Set::empty().insert(g.vseq()[n]))
    ensures holds_max(g, n + 1, r1)
{
    reveal(upd); reveal(holds_max); g.lemma_lin(); g.lemma_wf(); let o = g.vseq(); let v = o[n]; let inc = Set::<Vertex>::empty().insert(v); lemma_ix(o); assert(o.contains(v));
    assert forall|x: Vertex| #[trigger] left(g, v, x) <==> g.vs().contains(x) && ix(o, x) < n by { }
    assert forall|c: Set<Vertex>| #[trigger] found(g, v, inc, may, inc, c) == lmax(g, v, c) by {
        if lmax(g, v, c) {
            assert(c.contains(v) && inc.contains(v)); 
            assert forall|x: Vertex| c.contains(x) implies inc.union(may).contains(x) by { if x != v { assert(g.adj(v, x)); assert(left(g, v, x)); assert(g.lseq(v).contains(x)); } }
        }
    }
    assert forall|c: Set<Vertex>| #[trigger] fam(r1, c) <==> pmax(g, n + 1, c) by {
        assert(fam(r0, c) <==> pmax(g, n, c));
        if c.contains(v) {
            assert(!pmax(g, n, c)) by { if pmax(g, n, c) { assert(ix(o, v) < n); } }
            assert(found(g, v, inc, may, inc, c) == lmax(g, v, c));
            lemma_lmax_pmax(g, n, c);
        } else {
            assert(found(g, v, inc, may, inc, c.insert(v)) == lmax(g, v, c.insert(v)));
            if c.len() > 0 { lemma_pmax_other(g, n, c); } else { }
        }
    }
}
pub proof fn lemma_lmax_pmax<L: LinearGraph>(g: L, n: int, c: Set<Vertex>)
    requires g.wf(), 0 <= n < g.vseq().len(), c.contains(g.vseq()[n])
    ensures lmax(g, g.vseq()[n], c) == pmax(g, n + 1, c)
{
    g.lemma_lin(); g.lemma_wf(); let o = g.vseq(); let v = o[n]; lemma_ix(o); assert(o.contains(v));
    lemma_nonempty_has(c, v);
    if lmax(g, v, c) {
        assert forall|x: Vertex| #[trigger] c.contains(x) implies ix(o, x) < n + 1 by { }
        assert forall|y: Vertex| ix(o, y) < n + 1 implies !#[trigger] ext(g, c, y) by { if ext(g, c, y) { assert(o.contains(y)); assert(y != v); assert(ix(o, y) != ix(o, v)); assert(left(g, v, y)); } }
    }
    if pmax(g, n + 1, c) {
        assert forall|x: Vertex| #[trigger] c.contains(x) implies x == v || left(g, v, x) by { assert(o.contains(x)); if x != v { assert(ix(o, x) != ix(o, v)); } }
    }
}
pub proof fn lemma_pmax_other<L: LinearGraph>(g: L, n: int, c: Set<Vertex>)
    requires g.wf(), 0 <= n < g.vseq().len(), !c.contains(g.vseq()[n]), c.len() > 0
    ensures pmax(g, n + 1, c) == (pmax(g, n, c) && !lmax(g, g.vseq()[n], c.insert(g.vseq()[n])))
{
    g.lemma_lin(); g.lemma_wf(); let o = g.vseq(); let v = o[n]; lemma_ix(o); assert(o.contains(v)); let cv = c.insert(v);
    if pmax(g, n + 1, c) {
        assert forall|x: Vertex| #[trigger] c.contains(x) implies ix(o, x) < n by { assert(o.contains(x)); assert(ix(o, x) != ix(o, v)); }
        assert(!ext(g, c, v));
        if lmax(g, v, cv) { assert forall|x: Vertex| c.contains(x) implies #[trigger] g.adj(x, v) by { assert(cv.contains(x) && cv.contains(v)); } assert(ext(g, c, v)); }
    }
    if pmax(g, n, c) && !lmax(g, v, cv) {
        if ext(g, c, v) {
            assert forall|x: Vertex, y: Vertex| cv.contains(x) && cv.contains(y) && x != y implies #[trigger] g.adj(x, y) by { if x == v { assert(g.adj(y, x)); } else if y == v { } else { } }
            assert forall|y: Vertex| left(g, v, y) implies !#[trigger] ext(g, cv, y) by { if ext(g, cv, y) { assert forall|x: Vertex| c.contains(x) implies #[trigger] g.adj(x, y) by { assert(cv.contains(x)); } assert(!c.contains(y)); assert(ext(g, c, y)); } }
            assert(lmax(g, v, cv));
        }
        assert forall|y: Vertex| ix(o, y) < n + 1 implies !#[trigger] ext(g, c, y) by { if ext(g, c, y) { assert(o.contains(y)); if ix(o, y) == n { assert(ix(o, v) == ix(o, y)); assert(y == v); } } }
    }
}
pub proof fn lemma_nonempty_has<T>(c: Set<T>, v: T) requires c.contains(v) ensures c.len() > 0 { if c.len() == 0 { assert(c =~= Set::<T>::empty()); } }
/// r is the number of maximal cliques
pub open spec fn counts_max<G: Graph>(g: G, r: nat) -> bool { exists|m: Set<Set<Vertex>>| (forall|c: Set<Vertex>| #[trigger] m.contains(c) <==> maxcl(g, c)) && r == m.len() }
pub proof fn lemma_views(r: Set<BTreeSet<Vertex>>) -> (m: Set<Set<Vertex>>)
    ensures forall|c: Set<Vertex>| #[trigger] m.contains(c) <==> fam(r, c), m.len() == r.len()
    decreases r.len()
{
    axiom_bt();
    if r.len() == 0 { assert(r =~= Set::<BTreeSet<Vertex>>::empty()); Set::empty() }
    else {
        let b = r.choose(); let m1 = lemma_views(r.remove(b)); let m = m1.insert(b@);
        assert(!m1.contains(b@)) by { assert(bt(b@) == b); }
        assert forall|c: Set<Vertex>| #[trigger] m.contains(c) <==> fam(r, c) by { assert(m1.contains(c) <==> fam(r.remove(b), c)); if bt(c) == b { assert(bt(c)@ == c); } if c == b@ { assert(bt(c) == b); } }
        m
    }
}
pub proof fn lemma_count_max<L: LinearGraph>(g: L, r: Set<BTreeSet<Vertex>>)
    requires g.wf(), holds_max(g, g.vseq().len() as int, r)
    ensures counts_max(g, r.len())
{
    reveal(holds_max); g.lemma_lin(); g.lemma_wf(); let o = g.vseq(); lemma_ix(o); let m = lemma_views(r);
    assert forall|c: Set<Vertex>| #[trigger] m.contains(c) <==> maxcl(g, c) by {
        assert(fam(r, c) <==> pmax(g, o.len() as int, c));
        if pmax(g, o.len() as int, c) { assert forall|y: Vertex| !#[trigger] ext(g, c, y) by { if ext(g, c, y) { assert(o.contains(y)); } } }
        if maxcl(g, c) { assert forall|x: Vertex| #[trigger] c.contains(x) implies ix(o, x) < o.len() by { assert(o.contains(x)); } }
    }
}
pub proof fn lemma_max_start<L: LinearGraph>(g: L, r: Set<BTreeSet<Vertex>>)
    requires g.wf(), r == Set::<BTreeSet<Vertex>>::empty()
    ensures holds_max(g, 0, r)
{
    reveal(holds_max); g.lemma_lin(); g.lemma_wf(); let o = g.vseq(); lemma_ix(o);
    assert forall|c: Set<Vertex>| #[trigger] fam(r, c) <==> pmax(g, 0, c) by { if pmax(g, 0, c) { if c =~= Set::<Vertex>::empty() { } let x = c.choose(); assert(c.contains(x)); assert(g.vs().contains(x)); assert(o.contains(x)); } }
}
pub open spec fn un(u: Option<Vertex>) -> bool { u.is_none() }
pub open spec fn uval(u: Option<Vertex>) -> Vertex { u->0 }
pub proof fn lemma_upd_start<L: LinearGraph>(r: Set<BTreeSet<Vertex>>, g: L, v: Vertex, inc: Set<Vertex>, may: Set<Vertex>)
    ensures upd(r, r, g, v, inc, may, Set::empty())
{ reveal(upd); }
pub open spec fn vsv(s: VertexSet) -> Set<Vertex> { s@ }
//@ fn algorithms/lineargraph.rs free bk_pivot_count
//@ attr #[verifier::allow_complex_invariants]
//@ requires graph.wf(), bk_pre(*graph, *v, old(include)@, maybe@, exclude@), forall|y: Vertex| maybe@.contains(y) || exclude@.contains(y) ==> #[trigger] vertices@.contains(y)
//@ ensures final(include)@ == old(include)@, upd(old(results)@, final(results)@, *graph, *v, old(include)@, maybe@, Set::empty().insert(*v))
//@ decreases maybe@.len()
//@ liftargs bk_pivot_count
//@ closure 1 |v: &Vertex| -> (o: Option<Vertex>) requires graph.wf() ensures o == if graph.adj(u, *v) { Some(*v) } else { None }
//@ closure 2 |x: &Vertex| -> (o: Option<Vertex>) requires graph.wf() ensures o == if graph.adj(*w, *x) { Some(*x) } else { None }
//@ hint start
    let ghost inc = include@; let ghost may0 = maybe@; let ghost exc0 = exclude@; let ghost e0 = may0.union(exc0); let ghost r0 = results@; let ghost dv = Set::<Vertex>::empty().insert(*v);
    proof { lemma_bk_get(*graph, *v, inc, may0, exc0); axiom_bt(); }
//@ hint then 1
    proof { assert(may0 =~= Set::<Vertex>::empty()); assert(exc0 =~= Set::<Vertex>::empty()); }
//@ hint before call insert 1
    proof { assert(clique@ =~= inc); assert(bt(clique@) == clique); }
//@ hint after call insert 1
    let ghost r1 = results@;
    proof { assert(r1 == r0.insert(bt(inc))); if inc.len() <= 1 { lemma_leaf(*graph, *v, inc, r0, r1); } }
//@ hint before call remove 2
    proof { assert(clique@ =~= inc.remove(*v)); assert(bt(clique@) == clique); }
//@ hint after call remove 2
    proof { assert(results@ == r1.remove(bt(inc.remove(*v)))); lemma_leaf(*graph, *v, inc, r0, results@); }
//@ rawloop 1
    invariant_except_break un(u), forall|j: int| vertices@.len() - it1.pos() <= j < vertices@.len() ==> !e0.contains(#[trigger] vertices@[j]),
    invariant it1.seq() == it1_s, it1.pos() <= it1_s.len(), it1_s.len() == vertices@.len(), forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == vertices@.len() - 1 - i, maybe@ == may0, exclude@ == exc0, e0 == may0.union(exc0),
    ensures un(u) ==> forall|j: int| 0 <= j < vertices@.len() ==> !e0.contains(#[trigger] vertices@[j]), !un(u) ==> iu < vertices@.len() && vertices@[iu as int] == uval(u) && e0.contains(uval(u)) && forall|j: int| iu < j < vertices@.len() ==> !e0.contains(#[trigger] vertices@[j]),
//@ hint loop1.after
    proof { if un(u) { assert(may0 =~= Set::<Vertex>::empty()) by { assert forall|y: Vertex| !may0.contains(y) by { if may0.contains(y) { assert(vertices@.contains(y)); assert(e0.contains(y)); } } } assert(exc0 =~= Set::<Vertex>::empty()) by { assert forall|y: Vertex| !exc0.contains(y) by { if exc0.contains(y) { assert(vertices@.contains(y)); assert(e0.contains(y)); } } } } }
//@ hint after let left_neighbours_set 1
    let ghost ls = left_neighbours_set@; let ghost vi = vertices@.subrange(0, iu + 1);
    proof {
        assert forall|y: Vertex| #[trigger] ls.contains(y) implies graph.adj(u, y) by { assert(left_neighbours@.contains(y)); }
        assert forall|y: Vertex| #[trigger] e0.contains(y) implies vi.contains(y) by { assert(vertices@.contains(y)); let j = choose|j: int| 0 <= j < vertices@.len() && vertices@[j] == y; assert(j <= iu); assert(vi[j] == y); }
    }
//@ hint loop2.before
    let ghost mut d = Set::<Vertex>::empty();
    proof { lemma_upd_start(r0, *graph, *v, inc, may0); assert(may0.difference(d) =~= may0); }
//@ loop 2
    graph.wf(), bk_pre(*graph, *v, inc, may0, exc0), e0 == may0.union(exc0), it2_s == vi.reverse(), vi == vertices@.subrange(0, iu + 1), iu < vertices@.len(), include@ == inc, d.subset_of(may0), maybe@ == may0.difference(d), maybe@.union(exclude@) == e0,
    upd(r0, results@, *graph, *v, inc, may0, d), forall|j: int| 0 <= j < it2.pos() && may0.contains(it2_s[j]) && !ls.contains(it2_s[j]) ==> d.contains(#[trigger] it2_s[j]),
//@ hint loop2.start
    let ghost r1 = results@; let ghost d1 = d; let ghost my1 = maybe@; let ghost ex1 = exclude@;
    proof { assert(it2_s[it2.pos() - 1] == *w); lemma_bk_get(*graph, *v, inc, may0, exc0); }
//@ hint after let w_neighbours_set 1
    let ghost nw = w_neighbours_set@;
    proof {
        assert forall|y: Vertex| e0.contains(y) implies (#[trigger] nw.contains(y) <==> graph.adj(*w, y)) by { assert(vi.contains(y)); assert(w_neighbours@.contains(y) <==> nw.contains(y)); }
    }
//@ hint args bk_pivot_count 1
    let ghost m1 = vsv(bk_pivot_count_a1_5); let ghost e1 = vsv(bk_pivot_count_a1_6);
    proof { assert forall|y: Vertex| #[trigger] m1.contains(y) <==> my1.contains(y) && nw.contains(y) by { } assert forall|y: Vertex| #[trigger] e1.contains(y) <==> ex1.contains(y) && nw.contains(y) by { }
        lemma_bk_rec(*graph, *v, inc, may0, exc0, my1, ex1, *w, nw, m1, e1);
        assert forall|y: Vertex| m1.contains(y) || e1.contains(y) implies #[trigger] w_neighbours@.contains(y) by { assert(nw.contains(y)); } }
//@ hint loop2.end
    proof {
        lemma_bk_step(*graph, *v, inc, may0, exc0, d1, *w, nw, m1, r0, r1, results@); d = d1.insert(*w);
        assert(include@ =~= inc); assert(maybe@ =~= may0.difference(d));
        assert(maybe@.union(exclude@) =~= e0) by { assert forall|y: Vertex| maybe@.union(exclude@).contains(y) <==> e0.contains(y) by { assert(my1.union(ex1).contains(y) <==> e0.contains(y)); } }
    }
//@ hint loop2.after
    proof {
        assert forall|w: Vertex| #[trigger] may0.contains(w) && !graph.adj(u, w) implies d.contains(w) by { assert(e0.contains(w)); assert(vi.contains(w)); let j = choose|j: int| 0 <= j < vi.len() && vi[j] == w; assert(it2_s[vi.len() - 1 - j] == w); }
        lemma_pivot(*graph, *v, inc, may0, exc0, d, u, r0, results@);
    }
//@ end
pub trait Cliq : LinearGraph {
//@ fn algorithms/lineargraph.rs trait:LinearGraphAlgorithms count_max_cliques
//@ requires self.wf()
//@ ensures counts_max(*self, r as nat)
//@ end
}
impl<G: LinearGraph> Cliq for G {
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L count_max_cliques
//@ hint start
    proof { self.lemma_lin(); self.lemma_wf(); }
//@ hint loop1.before
    proof { lemma_max_start(*self, results@); }
//@ loop 1
    self.wf(), it1_s.len() == self.vseq().len(), forall|i: int| 0 <= i < it1_s.len() ==> (#[trigger] it1_s[i]).0 == self.vseq()[i] && it1_s[i].1@ == self.lseq(self.vseq()[i]),
    holds_max(*self, it1.pos() as int, results@),
//@ hint loop1.start
    let ghost n = it1.pos() - 1; let ghost r0 = results@;
    proof { assert(v == self.vseq()[n]); }
//@ hint before call bk_pivot_count 1
    proof { assert(include@ =~= Set::empty().insert(v)); lemma_bk_top(*self, n, vsv(maybe)); }
    let ghost may = vsv(maybe);
//@ hint loop1.end
    proof { lemma_top_step(*self, n, may, r0, results@); }
//@ hint loop1.after
    proof { lemma_count_max(*self, results@); }
//@ end
}
} // verus!
