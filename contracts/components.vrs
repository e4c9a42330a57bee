verus! {
//@ props C11
// ===================================================================== connected components
/// the disjoint-set forest of union-find-rs (a dependency: its contract is assumed)
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DisjointSets<T> { p: core::marker::PhantomData<T> }
impl<T> View for DisjointSets<T> { type V = Map<T, T>; uninterp spec fn view(&self) -> Map<T, T>; }
impl<T: Copy> DisjointSets<T> {
    pub uninterp spec fn classes(&self) -> Seq<FxHashSet<T>>;
    pub open spec fn same(&self, a: T, b: T) -> bool { self@[a] == self@[b] }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<T, T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn make_set(&mut self, x: T) -> (r: Result<(), ()>)
        ensures old(self)@.dom().contains(x) ==> final(self)@ == old(self)@, !old(self)@.dom().contains(x) ==> final(self)@ == old(self)@.insert(x, x) && forall|y: T| old(self)@.dom().contains(y) ==> #[trigger] old(self)@[y] != x
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find_set(&self, x: &T) -> (r: Result<T, ()>)
        ensures r.is_ok() == self@.dom().contains(*x), r.is_ok() ==> r->Ok_0 == self@[*x]
    { unimplemented!() }
    /// version 0.2.1 corrupts the forest when the two elements are joined already
    #[verifier::external_body]
    pub fn union(&mut self, x: &T, y: &T) -> (r: Result<(), ()>)
        requires old(self)@.dom().contains(*x), old(self)@.dom().contains(*y), !old(self).same(*x, *y)
        ensures final(self)@.dom() == old(self)@.dom(),
            forall|a: T, b: T| old(self)@.dom().contains(a) && old(self)@.dom().contains(b) ==> #[trigger] final(self).same(a, b) == (old(self).same(a, b) || (old(self).same(a, *x) && old(self).same(b, *y)) || (old(self).same(a, *y) && old(self).same(b, *x)))
    { unimplemented!() }
    #[verifier::external_body]
    pub proof fn lemma_classes(&self)
        ensures forall|i: int| 0 <= i < self.classes().len() ==> (#[trigger] self.classes()[i])@.len() > 0,
            forall|i: int, x: T| 0 <= i < self.classes().len() && #[trigger] self.classes()[i]@.contains(x) ==> self@.dom().contains(x),
            forall|x: T| #[trigger] self@.dom().contains(x) ==> exists|i: int| 0 <= i < self.classes().len() && #[trigger] self.classes()[i]@.contains(x),
            forall|i: int, j: int, x: T, y: T| 0 <= i < self.classes().len() && 0 <= j < self.classes().len() && #[trigger] self.classes()[i]@.contains(x) && #[trigger] self.classes()[j]@.contains(y) ==> (i == j <==> self.same(x, y)),
    { unimplemented!() }
}
impl<T: Copy> DisjointSets<T> {
    #[verifier::external_body]
    pub fn vx_src(self) -> (r: It<FxHashSet<T>>) ensures r.seq() == self.classes(), r.pos() == 0 { unimplemented!() }
}
/// p is a walk in g
pub open spec fn is_walk<G: Graph>(g: G, p: Seq<Vertex>) -> bool { p.len() > 0 && forall|i: int| 0 <= i < p.len() - 1 ==> g.adj(#[trigger] p[i], p[i + 1]) }
/// a path joins x and y
#[verifier::opaque]
pub open spec fn joined_by_path<G: Graph>(g: G, x: Vertex, y: Vertex) -> bool { exists|p: Seq<Vertex>| #[trigger] is_walk(g, p) && p[0] == x && p.last() == y }
pub proof fn lemma_walk_refl<G: Graph>(g: G, x: Vertex)
    ensures joined_by_path(g, x, x)
{ reveal(joined_by_path); assert(is_walk(g, seq![x])); }
pub proof fn lemma_walk_edge<G: Graph>(g: G, x: Vertex, y: Vertex)
    requires g.adj(x, y)
    ensures joined_by_path(g, x, y)
{ reveal(joined_by_path); let p = seq![x, y]; assert(is_walk(g, p)); assert(p[0] == x && p.last() == y); }
pub proof fn lemma_walk_sym<G: Graph>(g: G, x: Vertex, y: Vertex)
    requires g.wf(), joined_by_path(g, x, y)
    ensures joined_by_path(g, y, x)
{
    g.lemma_wf(); reveal(joined_by_path);
    let p = choose|p: Seq<Vertex>| #[trigger] is_walk(g, p) && p[0] == x && p.last() == y; let q = p.reverse();
    assert forall|i: int| 0 <= i < q.len() - 1 implies g.adj(#[trigger] q[i], q[i + 1]) by { let j = p.len() - 2 - i; assert(g.adj(p[j], p[j + 1])); }
    assert(is_walk(g, q) && q[0] == y && q.last() == x);
}
pub proof fn lemma_glue<G: Graph>(g: G, p: Seq<Vertex>, q: Seq<Vertex>, r: Seq<Vertex>)
    requires is_walk(g, p), is_walk(g, q), p.last() == q[0], r.len() == p.len() - 1 + q.len(), forall|i: int| 0 <= i < r.len() ==> #[trigger] r[i] == (if i < p.len() - 1 { p[i] } else { q[i - (p.len() - 1)] })
    ensures is_walk(g, r), r[0] == p[0], r.last() == q.last()
{
    let m = p.len() - 1;
    assert forall|i: int| 0 <= i < r.len() - 1 implies g.adj(#[trigger] r[i], r[i + 1]) by { let y = r[i + 1]; if i < m { assert(g.adj(p[i], p[i + 1])); assert(y == p[i + 1]); } else { assert(g.adj(q[i - m], q[i - m + 1])); } }
}
pub proof fn lemma_walk_trans<G: Graph>(g: G, x: Vertex, y: Vertex, z: Vertex)
    requires joined_by_path(g, x, y), joined_by_path(g, y, z)
    ensures joined_by_path(g, x, z)
{
    reveal(joined_by_path);
    let p = choose|p: Seq<Vertex>| #[trigger] is_walk(g, p) && p[0] == x && p.last() == y; let q = choose|q: Seq<Vertex>| #[trigger] is_walk(g, q) && q[0] == y && q.last() == z;
    let m = p.len() - 1; let n = q.len() as int; let r = Seq::new((m + n) as nat, |i: int| if i < m { p[i] } else { q[i - m] });
    lemma_glue(g, p, q, r);
    assert(is_walk(g, r) && r[0] == x && r.last() == z);
}
/// the classes of f are joined by paths
#[verifier::opaque]
pub open spec fn sound<G: Graph>(g: G, f: Map<Vertex, Vertex>) -> bool { forall|x: Vertex, y: Vertex| #[trigger] g.vs().contains(x) && #[trigger] g.vs().contains(y) && f[x] == f[y] ==> joined_by_path(g, x, y) }
pub proof fn lemma_sound_join<G: Graph>(g: G, f: DisjointSets<Vertex>, h: DisjointSets<Vertex>, u: Vertex, v: Vertex)
    requires g.wf(), g.adj(u, v), sound(g, f@), f@.dom() == g.vs(),
        forall|a: Vertex, b: Vertex| f@.dom().contains(a) && f@.dom().contains(b) ==> #[trigger] h.same(a, b) == (f.same(a, b) || (f.same(a, u) && f.same(b, v)) || (f.same(a, v) && f.same(b, u)))
    ensures sound(g, h@)
{
    reveal(sound); g.lemma_wf(); lemma_walk_edge(g, u, v); lemma_walk_sym(g, u, v); 
    assert forall|x: Vertex, y: Vertex| #[trigger] g.vs().contains(x) && #[trigger] g.vs().contains(y) && h@[x] == h@[y] implies joined_by_path(g, x, y) by {
        assert(h.same(x, y));
        if f.same(x, y) { } else if f.same(x, u) && f.same(y, v) { assert(f@[x] == f@[u]); assert(joined_by_path(g, x, u)); lemma_walk_trans(g, x, u, v); assert(joined_by_path(g, v, y)); lemma_walk_trans(g, x, v, y); }
        else { assert(joined_by_path(g, x, v)); lemma_walk_trans(g, x, v, u); assert(joined_by_path(g, u, y)); lemma_walk_trans(g, x, u, y); }
    }
}
/// ends of a walk are equivalent under anything that relates the ends of every edge
pub proof fn lemma_walk_same<G: Graph>(g: G, f: Map<Vertex, Vertex>, p: Seq<Vertex>)
    requires is_walk(g, p), forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) ==> f[x] == f[y]
    ensures f[p[0]] == f[p.last()]
    decreases p.len()
{ if p.len() > 1 { let q = p.drop_last(); assert forall|i: int| 0 <= i < q.len() - 1 implies g.adj(#[trigger] q[i], q[i + 1]) by { assert(g.adj(p[i], p[i + 1])); } lemma_walk_same(g, f, q); let i = p.len() - 2; assert(g.adj(p[i], p[i + 1])); } }
pub open spec fn vset(v: Vec<VertexSet>, i: int) -> Set<Vertex> { v@[i]@ }
pub open spec fn vlen(v: Vec<VertexSet>) -> nat { v@.len() }
/// c lists the connected components of g
pub open spec fn lists_components<G: Graph>(g: G, c: Seq<VertexSet>) -> bool {
    &&& forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@.len() > 0
    &&& forall|i: int, x: Vertex| 0 <= i < c.len() && #[trigger] c[i]@.contains(x) ==> g.vs().contains(x)
    &&& forall|x: Vertex| #[trigger] g.vs().contains(x) ==> exists|i: int| 0 <= i < c.len() && #[trigger] c[i]@.contains(x)
    &&& forall|i: int, j: int, x: Vertex, y: Vertex| 0 <= i < c.len() && 0 <= j < c.len() && #[trigger] c[i]@.contains(x) && #[trigger] c[j]@.contains(y) ==> (i == j <==> joined_by_path(g, x, y))
}
pub proof fn lemma_components<G: Graph>(g: G, f: DisjointSets<Vertex>, es: Seq<Edge>, c: Seq<VertexSet>)
    requires g.wf(), sound(g, f@), f@.dom() == g.vs(), lists_edges(g, es), forall|i: int| 0 <= i < es.len() ==> f.same((#[trigger] es[i]).0, es[i].1), c.len() == f.classes().len(), forall|i: int| 0 <= i < c.len() ==> (#[trigger] c[i])@ == f.classes()[i]@
    ensures lists_components(g, c)
{
    g.lemma_wf(); f.lemma_classes(); let m = f@;
    assert forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) implies m[x] == m[y] by {
        let (a, b) = if x <= y { (x, y) } else { (y, x) }; assert(g.adj(a, b)); assert(es.contains((a, b))); let i = choose|i: int| 0 <= i < es.len() && es[i] == (a, b); assert(f.same(es[i].0, es[i].1)); }
    assert forall|x: Vertex| #[trigger] g.vs().contains(x) implies exists|i: int| 0 <= i < c.len() && #[trigger] c[i]@.contains(x) by { assert(f@.dom().contains(x)); let i = choose|i: int| 0 <= i < f.classes().len() && #[trigger] f.classes()[i]@.contains(x); assert(c[i]@.contains(x)); }
    assert forall|i: int, j: int, x: Vertex, y: Vertex| 0 <= i < c.len() && 0 <= j < c.len() && #[trigger] c[i]@.contains(x) && #[trigger] c[j]@.contains(y) implies (i == j <==> joined_by_path(g, x, y)) by {
        assert(f.classes()[i]@.contains(x) && f.classes()[j]@.contains(y)); assert(g.vs().contains(x) && g.vs().contains(y));
        if joined_by_path(g, x, y) { reveal(joined_by_path); let p = choose|p: Seq<Vertex>| #[trigger] is_walk(g, p) && p[0] == x && p.last() == y; lemma_walk_same(g, m, p); }
        if f.same(x, y) { reveal(sound); }
    }
}
pub trait GraphComponents : Graph + Sized {
//@ fn algorithms/graph.rs impl:GraphAlgorithms:G components
//@ requires self.wf()
//@ ensures lists_components(*self, r@)
//@ hint start
    proof { self.lemma_wf(); }
//@ loop 1
    self.wf(), lists(it1_s, self.vs()), forall|x: Vertex| #[trigger] dsets@.dom().contains(x) <==> pre(it1_s, it1.pos()).contains(x), forall|x: Vertex| #[trigger] dsets@.dom().contains(x) ==> dsets@[x] == x,
//@ hint loop1.after
    let ghost es = edge_seq(*self);
    proof { assert forall|x: Vertex| #[trigger] dsets@.dom().contains(x) <==> self.vs().contains(x) by { assert(it1_s.to_set().contains(x) == it1_s.contains(x)); } lemma_edges_of(*self); assert(dsets@.dom() =~= self.vs()); assert(sound(*self, dsets@)) by { reveal(sound); assert forall|x: Vertex, y: Vertex| #[trigger] self.vs().contains(x) && #[trigger] self.vs().contains(y) && dsets@[x] == dsets@[y] implies joined_by_path(*self, x, y) by { lemma_walk_refl(*self, x); } } }
//@ loop 2
    self.wf(), it2_s == es, lists_edges(*self, es), dsets@.dom() == self.vs(), sound(*self, dsets@),
    forall|i: int| 0 <= i < it2.pos() ==> dsets.same((#[trigger] es[i]).0, es[i].1),
//@ hint loop2.start
    let ghost f0 = dsets;
    proof { self.lemma_wf(); assert(es.contains((u, v))) by { assert(es[it2.pos() - 1] == (u, v)); }
        assert forall|i: int| 0 <= i < it2.pos() - 1 implies self.vs().contains((#[trigger] es[i]).0) && self.vs().contains(es[i].1) by { assert(es.contains((es[i].0, es[i].1))); } }
//@ hint loop2.end
    proof {
        lemma_sound_join(*self, f0, dsets, u, v);
        assert forall|i: int| 0 <= i < it2.pos() implies dsets.same((#[trigger] es[i]).0, es[i].1) by { if i < it2.pos() - 1 { assert(f0.same(es[i].0, es[i].1)); } else { assert(f0.same(u, u) && f0.same(v, v)); } }
    }
//@ hint loop2.after
    let ghost f = dsets;
    proof { f.lemma_classes(); }
//@ loop 3
    it3_s == f.classes(), vlen(res) == it3.pos(), forall|i: int| 0 <= i < vlen(res) ==> #[trigger] vset(res, i) == it3_s[i]@,
//@ hint loop3.start
    let ghost comp0 = comp; let ghost res0 = res;
//@ hint loop3.end
    proof { let s = comp0.order(); assert(res@.last()@ =~= comp0@) by { assert forall|x: Vertex| #[trigger] res@.last()@.contains(x) == comp0@.contains(x) by { assert(s.to_set().contains(x) == s.contains(x)); } }
        assert forall|i: int| 0 <= i < vlen(res) implies #[trigger] vset(res, i) == it3_s[i]@ by { if i < vlen(res0) { assert(vset(res0, i) == it3_s[i]@); } } }
//@ hint end
    proof { assert forall|i: int| 0 <= i < vlen(vx_res) implies (#[trigger] vx_res@[i])@ == f.classes()[i]@ by { assert(vset(vx_res, i) == f.classes()[i]@); }
        self.lemma_wf(); lemma_components(*self, f, es, vx_res@);
    }
//@ end
}
impl<G: Graph> GraphComponents for G { }
} // verus!
