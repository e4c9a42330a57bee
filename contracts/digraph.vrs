verus! {
//@ props C05
// ===================================================================== digraph traits
/// a is the set of arcs of the relation f
pub open spec fn is_aset(a: Set<Arc>, f: spec_fn(Vertex, Vertex) -> bool) -> bool {
    forall|x: Vertex, y: Vertex| #[trigger] a.contains((x, y)) <==> f(x, y)
}
pub trait Digraph : Graph {
    spec fn arc(&self, u: Vertex, v: Vertex) -> bool;
    spec fn inseq(&self, u: Vertex) -> Seq<Vertex>;
    spec fn outseq(&self, u: Vertex) -> Seq<Vertex>;
    spec fn aset(&self) -> Set<Arc>;
    proof fn lemma_dwf(&self)
        requires self.wf()
        ensures
            forall|u: Vertex, v: Vertex| #[trigger] self.arc(u, v) ==> self.vs().contains(u) && self.vs().contains(v),
            forall|u: Vertex, v: Vertex| #[trigger] self.adj(u, v) == (self.arc(u, v) || self.arc(v, u)),
            forall|u: Vertex| self.vs().contains(u) ==> (#[trigger] self.inseq(u)).no_duplicates() && self.inseq(u).len() < 0x8000_0000,
            forall|u: Vertex| self.vs().contains(u) ==> (#[trigger] self.outseq(u)).no_duplicates() && self.outseq(u).len() < 0x8000_0000,
            forall|u: Vertex, v: Vertex| self.vs().contains(u) ==> (#[trigger] self.inseq(u).contains(v) <==> self.arc(v, u)),
            forall|u: Vertex, v: Vertex| self.vs().contains(u) ==> (#[trigger] self.outseq(u).contains(v) <==> self.arc(u, v)),
            forall|u: Vertex| self.vs().contains(u) ==> #[trigger] self.deg(u) == self.inseq(u).len() + self.outseq(u).len(),
            is_aset(self.aset(), |u: Vertex, v: Vertex| self.arc(u, v)),
            self.esize() == self.aset().len(),
    ;
//@ fn graph.rs trait:Digraph has_arc
//@ requires self.wf()
//@ ensures r == self.arc(*u, *v)
//@ end
//@ fn graph.rs trait:Digraph in_degree
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r == self.inseq(*u).len()
//@ end
//@ fn graph.rs trait:Digraph out_degree
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r == self.outseq(*u).len()
//@ end
//@ fn graph.rs trait:Digraph out_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r.seq() == self.outseq(*u), r.pos() == 0, pre(r.seq(), 0) == Set::<Vertex>::empty(), r.seq().no_duplicates(), forall|v: Vertex| #[trigger] r.seq().contains(v) <==> self.arc(*u, v)
//@ end
//@ fn graph.rs trait:Digraph in_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r.seq() == self.inseq(*u), r.pos() == 0, pre(r.seq(), 0) == Set::<Vertex>::empty(), r.seq().no_duplicates(), forall|v: Vertex| #[trigger] r.seq().contains(v) <==> self.arc(v, *u)
//@ end
}
pub open spec fn onbr<G: Digraph>(g: G, s: Seq<Vertex>, x: Vertex) -> bool { exists|c: Vertex| s.contains(c) && #[trigger] g.arc(c, x) }
pub open spec fn inbr<G: Digraph>(g: G, s: Seq<Vertex>, x: Vertex) -> bool { exists|c: Vertex| s.contains(c) && #[trigger] g.arc(x, c) }
/// default methods of trait Digraph (bodies from /repo), for every implementor
pub trait DigraphExt : Digraph + Sized {
//@ fn graph.rs trait:Digraph in_degrees
//@ requires self.wf()
//@ ensures r@.dom() == self.vs(), forall|v: Vertex| self.vs().contains(v) ==> #[trigger] r@[v] == self.inseq(v).len()
//@ loop 1
    res@.dom() == pre(it1_s, it1.pos()),
    forall|w: Vertex| res@.dom().contains(w) ==> #[trigger] res@[w] == self.inseq(w).len(),
//@ end
//@ fn graph.rs trait:Digraph out_degrees
//@ requires self.wf()
//@ ensures r@.dom() == self.vs(), forall|v: Vertex| self.vs().contains(v) ==> #[trigger] r@[v] == self.outseq(v).len()
//@ loop 1
    res@.dom() == pre(it1_s, it1.pos()),
    forall|w: Vertex| res@.dom().contains(w) ==> #[trigger] res@[w] == self.outseq(w).len(),
//@ end
//@ fn graph.rs trait:Digraph neighbours
//@ sig fn dneighbours<'a>(&'a self, u: &Vertex) -> (r: RIt<'a, Vertex>)
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r.pos() == 0, r.seq() == self.inseq(*u) + self.outseq(*u)
//@ end
//@ fn graph.rs trait:Digraph out_neighbourhood
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ensures forall|x: Vertex| #[trigger] r@.contains(x) <==> !vertices.src().contains(x) && onbr(*self, vertices.src(), x)
//@ loop 1
    forall|x: Vertex| #[trigger] res@.contains(x) <==> exists|c: Vertex| pre(it1_s, it1.pos()).contains(c) && #[trigger] self.arc(c, x),
//@ hint loop1.start
    proof { self.lemma_dwf(); }
//@ closure 1 |u: &Vertex| -> (b: bool) ensures b == !centers@.contains(*u)
//@ hint loop1.after
    let ghost res0 = res@;
    proof { assert(it1_s.to_set() == centers@);
        assert forall|x: Vertex| #[trigger] res0.contains(x) <==> onbr(*self, vertices.src(), x) by {
            if onbr(*self, vertices.src(), x) { let c = choose|c: Vertex| vertices.src().contains(c) && #[trigger] self.arc(c, x); assert(centers@.contains(c)); }
        } }
//@ hint end
    proof { assert forall|x: Vertex| #[trigger] res@.contains(x) <==> !vertices.src().contains(x) && res0.contains(x) by { assert(centers@.contains(x) <==> vertices.src().contains(x)); } }
//@ end
//@ fn graph.rs trait:Digraph in_neighbourhood
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ensures forall|x: Vertex| #[trigger] r@.contains(x) <==> !vertices.src().contains(x) && inbr(*self, vertices.src(), x)
//@ loop 1
    forall|x: Vertex| #[trigger] res@.contains(x) <==> exists|c: Vertex| pre(it1_s, it1.pos()).contains(c) && #[trigger] self.arc(x, c),
//@ hint loop1.start
    proof { self.lemma_dwf(); }
//@ closure 1 |u: &Vertex| -> (b: bool) ensures b == !centers@.contains(*u)
//@ hint loop1.after
    let ghost res0 = res@;
    proof { assert(it1_s.to_set() == centers@);
        assert forall|x: Vertex| #[trigger] res0.contains(x) <==> inbr(*self, vertices.src(), x) by {
            if inbr(*self, vertices.src(), x) { let c = choose|c: Vertex| vertices.src().contains(c) && #[trigger] self.arc(x, c); assert(centers@.contains(c)); }
        } }
//@ hint end
    proof { assert forall|x: Vertex| #[trigger] res@.contains(x) <==> !vertices.src().contains(x) && res0.contains(x) by { assert(centers@.contains(x) <==> vertices.src().contains(x)); } }
//@ end
}
impl<D: Digraph> DigraphExt for D { }

//@ props C02
pub trait MutableDigraph : Digraph + Sized {
//@ fn graph.rs trait:MutableDigraph new
//@ ensures r.wf(), r.vs() == Set::<Vertex>::empty(), forall|x: Vertex, y: Vertex| !#[trigger] r.arc(x, y)
//@ end
//@ fn graph.rs trait:MutableDigraph with_capacity
//@ ensures r.wf(), r.vs() == Set::<Vertex>::empty(), forall|x: Vertex, y: Vertex| !#[trigger] r.arc(x, y)
//@ end
//@ fn graph.rs trait:MutableDigraph add_vertex
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs().insert(*u), r == !old(self).vs().contains(*u),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == old(self).arc(x, y)
//@ end
//@ fn graph.rs trait:MutableDigraph remove_vertex
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs().remove(*u), r == old(self).vs().contains(*u),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == (old(self).arc(x, y) && x != *u && y != *u)
//@ end
//@ fn graph.rs trait:MutableDigraph add_arc
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs().insert(*u).insert(*v), r == !old(self).arc(*u, *v),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == (old(self).arc(x, y) || (x == *u && y == *v))
//@ end
//@ fn graph.rs trait:MutableDigraph remove_arc
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs(), r == old(self).arc(*u, *v),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == (old(self).arc(x, y) && !(x == *u && y == *v))
//@ end
}
//@ props C06
pub proof fn lemma_asize_add<G: Digraph, H: Digraph>(a: G, b: H, u: Vertex, v: Vertex)
    requires a.wf(), b.wf(), forall|x: Vertex, y: Vertex| #[trigger] b.arc(x, y) == (a.arc(x, y) || (x == u && y == v)),
    ensures b.aset() == a.aset().insert((u, v)), b.esize() == a.esize() + (if a.arc(u, v) { 0nat } else { 1nat }), a.aset().contains((u, v)) == a.arc(u, v)
{
    a.lemma_dwf(); b.lemma_dwf();
    let f = a.aset().insert((u, v));
    assert forall|e: Arc| f.contains(e) <==> b.aset().contains(e) by { let (x, y) = e; assert(b.arc(x, y) == (a.arc(x, y) || (x == u && y == v))); assert(a.aset().contains((x, y)) <==> a.arc(x, y)); assert(b.aset().contains((x, y)) <==> b.arc(x, y)); }
    assert(f =~= b.aset());
    assert(a.aset().contains((u, v)) <==> a.arc(u, v));
}
pub open spec fn dloops_of<G: Digraph>(g: G) -> Set<Vertex> { g.vs().filter(|x: Vertex| g.arc(x, x)) }
/// default methods of trait MutableDigraph (bodies from /repo)
pub trait MutableDigraphExt : MutableDigraph {
//@ fn graph.rs trait:MutableDigraph add_vertices
//@ requires old(self).wf(), vertices.src_ok(), vertices.src().len() <= u32::MAX
//@ ensures
    final(self).wf(), final(self).vs() == old(self).vs().union(vertices.src().to_set()),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == old(self).arc(x, y),
    r == final(self).vs().len() - old(self).vs().len()
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); assert(g0.vs().union(Set::<Vertex>::empty()) =~= g0.vs()); }
//@ loop 1
    self.wf(), self.vs() == g0.vs().union(pre(it1_s, it1.pos())), count <= it1.pos(), it1_s.len() <= u32::MAX,
    forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == g0.arc(x, y),
    count == self.vs().len() - g0.vs().len(),
//@ hint loop1.start
    let ghost g1 = *self;
//@ hint loop1.end
    proof { assert(self.vs() =~= g0.vs().union(pre(it1_s, it1.pos()))); }
//@ end
//@ fn graph.rs trait:MutableDigraph add_arcs
//@ requires old(self).wf(), arcs.src_ok(), arcs.src().len() <= u32::MAX
//@ ensures
    final(self).wf(), forall|x: Vertex| #[trigger] final(self).vs().contains(x) <==> old(self).vs().contains(x) || is_end(arcs.src(), x),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == (old(self).arc(x, y) || arcs.src().contains((x, y))),
    r == final(self).esize() - old(self).esize()
//@ hint start
    let ghost g0 = *self;
//@ loop 1
    self.wf(), count <= it1.pos(), it1_s.len() <= u32::MAX,
    forall|x: Vertex| #[trigger] self.vs().contains(x) <==> g0.vs().contains(x) || is_end(it1_s.take(it1.pos() as int), x),
    forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g0.arc(x, y) || it1_s.take(it1.pos() as int).contains((x, y))),
    count == self.esize() - g0.esize(),
//@ hint loop1.start
    let ghost g1 = *self;
//@ hint loop1.end
    proof {
        lemma_asize_add(g1, *self, u, v);
        let k = (it1.pos() - 1) as nat; let s1 = it1_s.take(k as int); let s2 = it1_s.take(it1.pos() as int);
        lemma_is_end_step(it1_s, k); assert(s2 =~= s1.push((u, v))); lemma_push_contains(s1, (u, v));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g0.arc(x, y) || s2.contains((x, y))) by { assert(g1.arc(x, y) == (g0.arc(x, y) || s1.contains((x, y)))); }
        assert forall|x: Vertex| #[trigger] self.vs().contains(x) <==> g0.vs().contains(x) || is_end(s2, x) by { assert(g1.vs().contains(x) <==> g0.vs().contains(x) || is_end(s1, x)); }
    }
//@ hint loop1.after
    proof { assert(it1_s.take(it1_s.len() as int) =~= it1_s); }
//@ end
//@ fn graph.rs trait:MutableDigraph remove_loops
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).vs() == old(self).vs(), r == dloops_of(*old(self)).len(), r == old(self).esize() - final(self).esize(),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == (old(self).arc(x, y) && x != y)
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); g0.lemma_dwf(); }
//@ loop 1
    cands@.no_duplicates(), forall|x: Vertex| #[trigger] cands@.contains(x) <==> pre(it1_s, it1.pos()).contains(x) && g0.arc(x, x),
//@ hint loop1.start
    proof { lemma_push_contains(cands@, *u); }
//@ loop 2
    self.wf(), self.vs() == g0.vs(), self.esize() == g0.esize() - it2.pos(), it2_s == candss, candss.no_duplicates(),
    forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g0.arc(x, y) && !(x == y && pre(it2_s, it2.pos()).contains(x))),
//@ hint loop2.start
    let ghost g1 = *self;
//@ hint loop2.end
    proof { lemma_asize_add(*self, g1, u, u); assert(candss.contains(u)); }
//@ hint loop2.before
    let ghost candss = cands@;
    proof { lemma_count(candss, dloops_of(g0)); }
//@ hint end
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g0.arc(x, y) && x != y) by { assert(g0.arc(x, y) ==> g0.vs().contains(x)); assert(candss.to_set().contains(x) == candss.contains(x)); } }
//@ end
//@ fn graph.rs trait:MutableDigraph remove_isolates
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).vs() == old(self).vs().difference(isolated(*old(self))), r == isolated(*old(self)).len(),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).arc(x, y) == old(self).arc(x, y)
//@ closure 1 |vxp1: &&Vertex| -> (b: bool) requires self.wf() ensures b == (self.deg(**vxp1) == 0)
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); g0.lemma_dwf(); assert(g0.vs().difference(Set::<Vertex>::empty()) =~= g0.vs()); }
//@ hint loop1.before
    let ghost candss = cands@;
    proof {
        assert forall|x: Vertex| #[trigger] candss.contains(x) <==> isolated(g0).contains(x) by {
            if candss.contains(x) { let i = choose|i: int| 0 <= i < candss.len() && candss[i] == x; assert(g0.vseq().contains(candss[i])); }
            if isolated(g0).contains(x) { assert(g0.vseq().contains(x)); let i = choose|i: int| 0 <= i < g0.vseq().len() && g0.vseq()[i] == x; assert(candss.contains(g0.vseq()[i])); }
        }
        lemma_count(candss, isolated(g0)); }
//@ loop 1
    self.wf(), self.vs() == g0.vs().difference(pre(it1_s, it1.pos())), it1_s == candss,
    forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == g0.arc(x, y),
//@ hint loop1.start
    let ghost g1 = *self;
//@ hint loop1.end
    proof {
        assert(isolated(g0).contains(u));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == g0.arc(x, y) by { 
            assert(g1.arc(x, y) == g0.arc(x, y));
            if g0.arc(x, y) { assert(g0.adj(x, y) && g0.adj(y, x)); assert(g0.nseq(x).contains(y)); assert(g0.nseq(y).contains(x)); assert(g0.deg(x) != 0 && g0.deg(y) != 0); } }
        assert(self.vs() =~= g0.vs().difference(pre(it1_s, it1.pos())));
    }
//@ end
}
impl<G: MutableDigraph> MutableDigraphExt for G { }
} // verus!
