verus! {
//@ props C01
// ===================================================================== EditGraph
//@ struct editgraph.rs EditGraph
pub open spec fn eg_adj(m: Map<Vertex, VertexSet>, x: Vertex, y: Vertex) -> bool { m.dom().contains(x) && m[x]@.contains(y) }
pub open spec fn eg_deg(m: Map<Vertex, VertexSet>, x: Vertex) -> nat { m[x]@.len() + (if m[x]@.contains(x) { 1nat } else { 0nat }) }
pub open spec fn eg_rel(m: Map<Vertex, VertexSet>) -> spec_fn(Vertex, Vertex) -> bool { |x: Vertex, y: Vertex| eg_adj(m, x, y) }
impl EditGraph {
    pub open spec fn rep(&self) -> bool {
        &&& forall|x: Vertex, y: Vertex| #[trigger] eg_adj(self.adj@, x, y) ==> eg_adj(self.adj@, y, x)
        &&& self.degs@.dom() == self.adj@.dom()
        &&& forall|x: Vertex| self.adj@.dom().contains(x) ==> #[trigger] self.degs@[x] == eg_deg(self.adj@, x)
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.rep()
        &&& exists|e: Set<Edge>| is_eset(e, eg_rel(self.adj@)) && #[trigger] e.len() == self.m
    }
}
/// there are fewer than 2^64 - 1 normalised pairs besides any given one
pub proof fn lemma_pair_count(e: Set<Edge>)
    requires forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) ==> x <= y
    ensures e.len() < 0xffff_ffff_ffff_ffff
{
    let f = |p: Edge| p.0 as int * 0x1_0000_0000 + p.1 as int;
    let big = vstd::set_lib::set_int_range(0, 0x1_0000_0000_0000_0000);
    vstd::set_lib::lemma_int_range(0, 0x1_0000_0000_0000_0000);
    let img = e.map(f);
    assert forall|p: Edge, q: Edge| #[trigger] f(p) == #[trigger] f(q) implies p == q by { assert(p.0 == q.0 && p.1 == q.1); }
    assert(vstd::relations::injective(f));
    vstd::set_lib::lemma_map_size(e, img, f);
    let hole = big.remove(0x1_0000_0000).remove(0x2_0000_0000);
    assert forall|z: int| #[trigger] img.contains(z) implies hole.contains(z) by {
        let p = choose|p: Edge| e.contains(p) && f(p) == z;
        let (x, y) = p; assert(e.contains((x, y)) && x <= y);
        assert(z == x as int * 0x1_0000_0000 + y as int);
        if z == 0x1_0000_0000 { assert(x == 1 && y == 0); }
        if z == 0x2_0000_0000 { assert(x == 2 && y == 0); }
    }
    assert(img.subset_of(hole));
    vstd::set_lib::lemma_len_subset(img, hole);
}
impl Graph for EditGraph {
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn vs(&self) -> Set<Vertex> { self.adj@.dom() }
    open spec fn adj(&self, u: Vertex, v: Vertex) -> bool { eg_adj(self.adj@, u, v) }
    open spec fn vseq(&self) -> Seq<Vertex> { self.adj.order() }
    open spec fn nseq(&self, u: Vertex) -> Seq<Vertex> { self.adj@[u].order() }
    open spec fn deg(&self, u: Vertex) -> nat { if self.adj@.dom().contains(u) { eg_deg(self.adj@, u) } else { 0 } }
    open spec fn esize(&self) -> nat { self.m as nat }
    open spec fn eset(&self) -> Set<Edge> { choose|e: Set<Edge>| is_eset(e, eg_rel(self.adj@)) && #[trigger] e.len() == self.m }
    open spec fn simple(&self) -> bool { true }
    proof fn lemma_wf(&self) {
        assert(is_eset(self.eset(), eg_rel(self.adj@)));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.eset().contains((x, y)) <==> x <= y && (|u: Vertex, v: Vertex| self.adj(u, v))(x, y) by {
            assert(eg_rel(self.adj@)(x, y) == eg_adj(self.adj@, x, y));
        }
        assert forall|u: Vertex| self.vs().contains(u) implies #[trigger] self.deg(u) == self.nseq(u).len() + (if self.adj(u, u) { 1nat } else { 0nat }) by {
            assert(lists(self.adj@[u].order(), self.adj@[u]@));
        }
        assert forall|u: Vertex, v: Vertex| #[trigger] self.adj(u, v) implies self.vs().contains(u) && self.vs().contains(v) && self.adj(v, u) by { assert(eg_adj(self.adj@, v, u)); }
    }
//@ fn editgraph.rs impl:Graph:EditGraph num_vertices
//@ end
//@ fn editgraph.rs impl:Graph:EditGraph num_edges
//@ end
//@ fn editgraph.rs impl:Graph:EditGraph adjacent
//@ end
//@ fn editgraph.rs impl:Graph:EditGraph degree
//@ end
//@ fn editgraph.rs impl:Graph:EditGraph contains
//@ end
//@ fn editgraph.rs impl:Graph:EditGraph vertices
//@ end
//@ fn editgraph.rs impl:Graph:EditGraph neighbours
//@ hint start
    proof { self.lemma_wf(); lemma_pre_ends(self.nseq(*u)); }
//@ end
}
pub proof fn lemma_edge_added(a: EditGraph, b: EditGraph, u: Vertex, v: Vertex)
    requires a.inv(), b.rep(), !eg_adj(a.adj@, u, v), !eg_adj(a.adj@, v, u), b.m == a.m + 1,
        forall|x: Vertex, y: Vertex| #[trigger] eg_adj(b.adj@, x, y) == (eg_adj(a.adj@, x, y) || (x == u && y == v) || (x == v && y == u)),
    ensures b.inv()
{
    let e = a.eset(); a.lemma_wf();
    let f = e.insert(norm(u, v));
    assert forall|x: Vertex, y: Vertex| #[trigger] f.contains((x, y)) <==> x <= y && eg_rel(b.adj@)(x, y) by {
        assert(e.contains((x, y)) <==> x <= y && eg_adj(a.adj@, x, y));
        assert(eg_adj(b.adj@, x, y) == (eg_adj(a.adj@, x, y) || (x == u && y == v) || (x == v && y == u)));
    }
    assert(!e.contains(norm(u, v)));
    assert(is_eset(f, eg_rel(b.adj@)) && f.len() == b.m);
}
pub proof fn lemma_m_bound(a: EditGraph)
    requires a.inv()
    ensures a.m < 0xffff_ffff_ffff_ffff
{ a.lemma_wf(); lemma_pair_count(a.eset()); }
pub proof fn lemma_edge_removed(a: EditGraph, b: EditGraph, u: Vertex, v: Vertex)
    requires a.inv(), b.rep(), eg_adj(a.adj@, u, v), b.m == a.m - 1,
        forall|x: Vertex, y: Vertex| #[trigger] eg_adj(b.adj@, x, y) == (eg_adj(a.adj@, x, y) && !(x == u && y == v) && !(x == v && y == u)),
    ensures b.inv()
{
    let e = a.eset(); a.lemma_wf();
    let f = e.remove(norm(u, v));
    assert forall|x: Vertex, y: Vertex| #[trigger] f.contains((x, y)) <==> x <= y && eg_rel(b.adj@)(x, y) by {
        assert(e.contains((x, y)) <==> x <= y && eg_adj(a.adj@, x, y));
        assert(eg_adj(b.adj@, x, y) == (eg_adj(a.adj@, x, y) && !(x == u && y == v) && !(x == v && y == u)));
    }
    assert(eg_adj(a.adj@, v, u));
    assert(e.contains(norm(u, v)));
    assert(is_eset(f, eg_rel(b.adj@)) && f.len() == b.m);
}
pub proof fn lemma_eset_pos(a: EditGraph, u: Vertex, v: Vertex)
    requires a.inv(), eg_adj(a.adj@, u, v)
    ensures a.m >= 1
{ a.lemma_wf(); let n = norm(u, v); assert(eg_adj(a.adj@, v, u)); assert(a.eset().contains((n.0, n.1))); }

impl MutableGraph for EditGraph {
    proof fn lemma_simple(&self) { }
//@ fn editgraph.rs impl:MutableGraph:EditGraph new
//@ hint end
    proof { let e = Set::<Edge>::empty(); assert(is_eset(e, eg_rel(Map::<Vertex, VertexSet>::empty()))); assert(e.len() == 0); }
//@ end
//@ fn editgraph.rs impl:MutableGraph:EditGraph with_capacity
//@ hint end
    proof { let e = Set::<Edge>::empty(); assert(is_eset(e, eg_rel(Map::<Vertex, VertexSet>::empty()))); assert(e.len() == 0); }
//@ end
//@ fn editgraph.rs impl:MutableGraph:EditGraph add_vertex
//@ hint end
    proof {
        assert(forall|x: Vertex, y: Vertex| #[trigger] eg_adj(self.adj@, x, y) == eg_adj(old(self).adj@, x, y));
        assert(self.rep());
        old(self).lemma_wf();
        let e = old(self).eset();
        assert forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) <==> x <= y && eg_rel(self.adj@)(x, y) by { assert(eg_adj(self.adj@, x, y) == eg_adj(old(self).adj@, x, y)); }
        assert(is_eset(e, eg_rel(self.adj@)) && e.len() == self.m);
    }
//@ end
//@ fn editgraph.rs impl:MutableGraph:EditGraph add_edge
//@ hint after call add_vertex 2
    let ghost g0 = *self;
    proof { g0.lemma_wf(); lemma_m_bound(g0); }
//@ hint end
    proof {
        assert(eg_adj(g0.adj@, *v, *u) == eg_adj(g0.adj@, *u, *v));
        if vx_res {
            assert forall|x: Vertex, y: Vertex| #[trigger] eg_adj(self.adj@, x, y) == (eg_adj(g0.adj@, x, y) || (x == *u && y == *v) || (x == *v && y == *u)) by {}
            assert(self.rep());
            lemma_edge_added(g0, *self, *u, *v);
        }
        assert forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (old(self).adj(x, y) || (x == *u && y == *v) || (x == *v && y == *u)) by { assert(g0.adj(x, y) == old(self).adj(x, y)); }
    }
//@ end
//@ fn editgraph.rs impl:MutableGraph:EditGraph remove_edge
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); if eg_adj(g0.adj@, *u, *v) { lemma_eset_pos(g0, *u, *v); assert(eg_adj(g0.adj@, *v, *u)); } }
//@ hint end
    proof {
        assert(eg_adj(g0.adj@, *v, *u) == eg_adj(g0.adj@, *u, *v));
        if vx_res {
            assert forall|x: Vertex, y: Vertex| #[trigger] eg_adj(self.adj@, x, y) == (eg_adj(g0.adj@, x, y) && !(x == *u && y == *v) && !(x == *v && y == *u)) by {}
            assert(self.rep());
            lemma_edge_removed(g0, *self, *u, *v);
        }
    }
//@ end
//@ fn editgraph.rs impl:MutableGraph:EditGraph remove_vertex
//@ hint start
    let ghost g0 = *self;
    let ghost mut ge = self.eset();
    proof { g0.lemma_wf(); assert forall|x: Vertex, y: Vertex| #[trigger] ge.contains((x, y)) <==> x <= y && eg_adj(g0.adj@, x, y) by { assert(eg_adj(g0.adj@, x, y) == g0.adj(x, y)); } }
//@ loop 1
    self.adj@.dom() == g0.adj@.dom(), self.degs@.dom() == g0.adj@.dom(),
    it1_s.no_duplicates(), forall|x: Vertex| #[trigger] it1_s.contains(x) <==> eg_adj(g0.adj@, *u, x),
    forall|x: Vertex| g0.adj@.dom().contains(x) ==> #[trigger] self.adj@[x]@ == (if pre(it1_s, it1.pos()).contains(x) { g0.adj@[x]@.remove(*u) } else { g0.adj@[x]@ }),
    forall|x: Vertex| g0.adj@.dom().contains(x) ==> #[trigger] self.degs@[x] == g0.degs@[x] - (if pre(it1_s, it1.pos()).contains(x) { 1int } else { 0 }),
    forall|x: Vertex, y: Vertex| #[trigger] ge.contains((x, y)) <==> x <= y && eg_adj(g0.adj@, x, y)
        && !(x == *u && pre(it1_s, it1.pos()).contains(y)) && !(y == *u && pre(it1_s, it1.pos()).contains(x)),
    ge.len() == self.m,
//@ hint loop1.start
    proof {
        let v = it1_s[it1.pos() - 1]; let n = norm(*u, v); assert(eg_adj(g0.adj@, *u, v)); assert(eg_adj(g0.adj@, v, *u));
        assert(ge.contains((n.0, n.1))); ge = ge.remove(n); }
//@ hint end
    proof {
        if vx_res {
            assert forall|x: Vertex, y: Vertex| #[trigger] eg_adj(self.adj@, x, y) == (eg_adj(g0.adj@, x, y) && x != *u && y != *u) by {
                assert(eg_adj(g0.adj@, x, y) ==> eg_adj(g0.adj@, y, x)); assert(eg_adj(g0.adj@, *u, x) == eg_adj(g0.adj@, x, *u)); }
            assert(self.rep());
            assert forall|x: Vertex, y: Vertex| #[trigger] ge.contains((x, y)) <==> x <= y && eg_rel(self.adj@)(x, y) by {
                assert(eg_adj(self.adj@, x, y) == (eg_adj(g0.adj@, x, y) && x != *u && y != *u));
                assert(eg_adj(g0.adj@, x, y) ==> eg_adj(g0.adj@, y, x));
            }
            assert(is_eset(ge, eg_rel(self.adj@)) && ge.len() == self.m);
        } else { assert(!eg_adj(g0.adj@, *u, *u)); }
    }
//@ end
}
} // verus!
