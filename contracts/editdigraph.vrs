verus! {
//@ props C02
// ===================================================================== EditDigraph
//@ struct editdigraph.rs EditDigraph
pub open spec fn ed_arc(m: Map<Vertex, VertexSet>, x: Vertex, y: Vertex) -> bool { m.dom().contains(x) && m[x]@.contains(y) }
pub open spec fn ed_rel(m: Map<Vertex, VertexSet>) -> spec_fn(Vertex, Vertex) -> bool { |x: Vertex, y: Vertex| ed_arc(m, x, y) }
pub open spec fn ed_ok(a: Set<Arc>, m: Map<Vertex, VertexSet>) -> bool { forall|x: Vertex, y: Vertex| #[trigger] a.contains((x, y)) <==> ed_arc(m, x, y) }
impl EditDigraph {
    pub open spec fn rep(&self) -> bool {
        &&& self.in_adj@.dom() == self.out_adj@.dom()
        &&& self.in_degs@.dom() == self.out_adj@.dom()
        &&& self.out_degs@.dom() == self.out_adj@.dom()
        &&& forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) ==> ed_arc(self.in_adj@, y, x)
        &&& forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.in_adj@, x, y) ==> ed_arc(self.out_adj@, y, x)
        &&& forall|x: Vertex| self.out_adj@.dom().contains(x) ==> #[trigger] self.out_degs@[x] == self.out_adj@[x]@.len()
        &&& forall|x: Vertex| self.out_adj@.dom().contains(x) ==> #[trigger] self.in_degs@[x] == self.in_adj@[x]@.len()
    }
    pub open spec fn arcset(&self) -> Set<Arc> { choose|e: Set<Arc>| ed_ok(e, self.out_adj@) && #[trigger] e.len() == self.m }
    pub open spec fn inv(&self) -> bool { self.rep() && exists|e: Set<Arc>| ed_ok(e, self.out_adj@) && #[trigger] e.len() == self.m }
}
pub open spec fn dg_erel(e: EditDigraph) -> spec_fn(Vertex, Vertex) -> bool { |u: Vertex, v: Vertex| ed_arc(e.out_adj@, u, v) || ed_arc(e.out_adj@, v, u) }
/// normalised edges of an edit digraph; used only to give `eset` a value
pub open spec fn dg_eset(a: Set<Arc>) -> Set<Edge> { a.map(|p: Arc| norm(p.0, p.1)) }
impl Graph for EditDigraph {
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn simple(&self) -> bool { forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) ==> !ed_arc(self.out_adj@, y, x) }
    open spec fn vs(&self) -> Set<Vertex> { self.out_adj@.dom() }
    open spec fn adj(&self, u: Vertex, v: Vertex) -> bool { ed_arc(self.out_adj@, u, v) || ed_arc(self.out_adj@, v, u) }
    open spec fn vseq(&self) -> Seq<Vertex> { self.out_adj.order() }
    open spec fn nseq(&self, u: Vertex) -> Seq<Vertex> { self.in_adj@[u].order() + self.out_adj@[u].order() }
    open spec fn deg(&self, u: Vertex) -> nat { if self.out_adj@.dom().contains(u) { self.in_adj@[u]@.len() + self.out_adj@[u]@.len() } else { 0 } }
    open spec fn esize(&self) -> nat { self.m as nat }
    open spec fn eset(&self) -> Set<Edge> { dg_eset(self.arcset()) }
    proof fn lemma_wf(&self) {
        let f = |p: Arc| norm(p.0, p.1);
        let a = self.arcset();
        assert(ed_ok(a, self.out_adj@));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.eset().contains((x, y)) <==> x <= y && (|u: Vertex, v: Vertex| self.adj(u, v))(x, y) by {
            if self.eset().contains((x, y)) { let p = choose|p: Arc| a.contains(p) && f(p) == (x, y); let (p0, p1) = p; assert(a.contains((p0, p1))); assert(ed_arc(self.out_adj@, p0, p1)); }
            if x <= y && ed_arc(self.out_adj@, x, y) { assert(a.contains((x, y))); assert(f((x, y)) == (x, y)); }
            if x <= y && ed_arc(self.out_adj@, y, x) { assert(a.contains((y, x))); assert(f((y, x)) == (x, y)); }
        }
        if self.simple() {
            assert forall|p: Arc, q: Arc| a.contains(p) && a.contains(q) && #[trigger] f(p) == #[trigger] f(q) implies p == q by {
                let (p0, p1) = p; let (q0, q1) = q; assert(a.contains((p0, p1)) && a.contains((q0, q1)));
                assert(ed_arc(self.out_adj@, p0, p1)); assert(ed_arc(self.out_adj@, q0, q1));
            }
            vstd::set_lib::lemma_map_size(a, self.eset(), f);
        }
        assert forall|u: Vertex| self.vs().contains(u) implies self.inorder(u) by { self.lemma_lists(u); }
        assert forall|u: Vertex, v: Vertex| self.vs().contains(u) implies (#[trigger] self.nseq(u).contains(v) <==> self.adj(u, v)) by { self.lemma_lists(u);
            let s = self.nseq(u); let a = self.in_adj@[u].order(); let b = self.out_adj@[u].order();
            if a.contains(v) { let i = choose|i: int| 0 <= i < a.len() && a[i] == v; assert(s[i] == v); }
            if b.contains(v) { let i = choose|i: int| 0 <= i < b.len() && b[i] == v; assert(s[a.len() + i] == v); }
            if s.contains(v) { let i = choose|i: int| 0 <= i < s.len() && s[i] == v; if i < a.len() { assert(a[i] == v); } else { assert(b[i - a.len()] == v); } }
            assert(a.contains(v) <==> ed_arc(self.in_adj@, u, v)); assert(ed_arc(self.in_adj@, u, v) <==> ed_arc(self.out_adj@, v, u));
        }
        assert forall|u: Vertex| self.simple() && self.vs().contains(u) implies (#[trigger] self.nseq(u)).no_duplicates() && !self.adj(u, u) by { self.lemma_lists(u);
            let s = self.nseq(u); let a = self.in_adj@[u].order(); let b = self.out_adj@[u].order();
            assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] != s[j] by {
                if i < a.len() && j >= a.len() && s[i] == s[j] { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); assert(ed_arc(self.in_adj@, u, s[i])); assert(ed_arc(self.out_adj@, u, s[i])); }
            }
        }
        assert forall|u: Vertex, v: Vertex| #[trigger] self.adj(u, v) implies self.vs().contains(u) && self.vs().contains(v) && self.adj(v, u) by { assert(ed_arc(self.in_adj@, v, u) <==> ed_arc(self.out_adj@, u, v)); assert(ed_arc(self.in_adj@, u, v) <==> ed_arc(self.out_adj@, v, u)); }
    }
//@ fn editdigraph.rs impl:Graph:EditDigraph num_vertices
//@ end
//@ fn editdigraph.rs impl:Graph:EditDigraph num_edges
//@ end
//@ fn editdigraph.rs impl:Graph:EditDigraph adjacent
//@ end
//@ fn editdigraph.rs impl:Graph:EditDigraph degree
//@ end
//@ fn editdigraph.rs impl:Graph:EditDigraph contains
//@ end
//@ fn editdigraph.rs impl:Graph:EditDigraph vertices
//@ end
//@ fn editdigraph.rs impl:Graph:EditDigraph neighbours
//@ hint start
    proof { self.lemma_wf(); lemma_pre_ends(self.nseq(*u)); }
//@ end
}
impl EditDigraph {
    pub open spec fn inorder(&self, u: Vertex) -> bool { lists(self.in_adj@[u].order(), self.in_adj@[u]@) && lists(self.out_adj@[u].order(), self.out_adj@[u]@) }
    pub proof fn lemma_lists(&self, u: Vertex) ensures self.inorder(u), self.in_adj@[u]@.len() < 0x8000_0000, self.out_adj@[u]@.len() < 0x8000_0000 { }
}
impl Digraph for EditDigraph {
    open spec fn arc(&self, u: Vertex, v: Vertex) -> bool { ed_arc(self.out_adj@, u, v) }
    open spec fn inseq(&self, u: Vertex) -> Seq<Vertex> { self.in_adj@[u].order() }
    open spec fn outseq(&self, u: Vertex) -> Seq<Vertex> { self.out_adj@[u].order() }
    open spec fn aset(&self) -> Set<Arc> { self.arcset() }
    proof fn lemma_dwf(&self) {
        assert(ed_ok(self.aset(), self.out_adj@));
        assert(is_aset(self.aset(), |u: Vertex, v: Vertex| self.arc(u, v)));
        assert forall|u: Vertex, v: Vertex| #[trigger] self.arc(u, v) implies self.vs().contains(u) && self.vs().contains(v) by { assert(ed_arc(self.in_adj@, v, u)); }
        assert forall|u: Vertex| self.vs().contains(u) implies #[trigger] self.inorder(u) && self.in_adj@[u]@.len() < 0x8000_0000 && self.out_adj@[u]@.len() < 0x8000_0000 by { self.lemma_lists(u); }
        assert forall|u: Vertex| self.vs().contains(u) implies (#[trigger] self.inseq(u)).no_duplicates() && self.inseq(u).len() < 0x8000_0000 by { self.lemma_lists(u); }
        assert forall|u: Vertex| self.vs().contains(u) implies (#[trigger] self.outseq(u)).no_duplicates() && self.outseq(u).len() < 0x8000_0000 by { self.lemma_lists(u); }
        assert forall|u: Vertex, v: Vertex| self.vs().contains(u) implies (#[trigger] self.inseq(u).contains(v) <==> self.arc(v, u)) by { self.lemma_lists(u); assert(ed_arc(self.in_adj@, u, v) <==> ed_arc(self.out_adj@, v, u)); }
    }
//@ fn editdigraph.rs impl:Digraph:EditDigraph has_arc
//@ end
//@ fn editdigraph.rs impl:Digraph:EditDigraph out_neighbours
//@ hint start
    proof { self.lemma_dwf(); lemma_pre_ends(self.outseq(*u)); }
//@ end
//@ fn editdigraph.rs impl:Digraph:EditDigraph in_neighbours
//@ hint start
    proof { self.lemma_dwf(); lemma_pre_ends(self.inseq(*u)); }
//@ end
//@ fn editdigraph.rs impl:Digraph:EditDigraph in_degree
//@ end
//@ fn editdigraph.rs impl:Digraph:EditDigraph out_degree
//@ end
}
pub proof fn lemma_dm_bound(a: EditDigraph)
    requires a.inv()
    ensures a.m < 0xffff_ffff_ffff_ffff
{ a.lemma_dwf(); a.lemma_wf(); lemma_arc_count(a.aset(), a.vs()); }
impl MutableDigraph for EditDigraph {
//@ fn editdigraph.rs impl:MutableDigraph:EditDigraph new
//@ hint end
    proof { let e = Set::<Arc>::empty(); assert(ed_ok(e, Map::<Vertex, VertexSet>::empty())); assert(e.len() == 0); }
//@ end
//@ fn editdigraph.rs impl:MutableDigraph:EditDigraph with_capacity
//@ hint end
    proof { let e = Set::<Arc>::empty(); assert(ed_ok(e, Map::<Vertex, VertexSet>::empty())); assert(e.len() == 0); }
//@ end
//@ fn editdigraph.rs impl:MutableDigraph:EditDigraph add_vertex
//@ hint end
    proof {
        assert(forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) == ed_arc(old(self).out_adj@, x, y));
        assert(forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.in_adj@, x, y) == ed_arc(old(self).in_adj@, x, y));
        let e = old(self).aset();
        assert(ed_ok(e, self.out_adj@) && e.len() == self.m);
    }
//@ end
//@ fn editdigraph.rs impl:MutableDigraph:EditDigraph add_arc
//@ hint after call add_vertex 2
    let ghost g0 = *self;
    proof { lemma_dm_bound(g0); assert(ed_arc(g0.in_adj@, *v, *u) ==> ed_arc(g0.out_adj@, *u, *v)); }
//@ hint end
    proof {
        if vx_res {
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) == (ed_arc(g0.out_adj@, x, y) || (x == *u && y == *v)) by {}
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.in_adj@, x, y) == (ed_arc(g0.in_adj@, x, y) || (x == *v && y == *u)) by {}
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) implies ed_arc(self.in_adj@, y, x) by { assert(ed_arc(g0.out_adj@, x, y) ==> ed_arc(g0.in_adj@, y, x)); }
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.in_adj@, x, y) implies ed_arc(self.out_adj@, y, x) by { assert(ed_arc(g0.in_adj@, x, y) ==> ed_arc(g0.out_adj@, y, x)); }
            assert(self.in_adj@.dom() =~= self.out_adj@.dom() && self.in_degs@.dom() =~= self.out_adj@.dom() && self.out_degs@.dom() =~= self.out_adj@.dom());
            assert(self.rep());
            let e0 = g0.aset(); let e = e0.insert((*u, *v));
            assert(ed_ok(e0, g0.out_adj@) && e0.len() == g0.m);
            assert(!e0.contains((*u, *v)));
            assert(ed_ok(e, self.out_adj@) && e.len() == self.m);
        }
        assert forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (old(self).arc(x, y) || (x == *u && y == *v)) by { assert(g0.arc(x, y) == old(self).arc(x, y)); }
    }
//@ end
//@ fn editdigraph.rs impl:MutableDigraph:EditDigraph remove_arc
//@ hint start
    let ghost g0 = *self;
    proof { let e0 = g0.aset(); assert(ed_ok(e0, g0.out_adj@) && e0.len() == g0.m); if ed_arc(g0.out_adj@, *u, *v) { assert(ed_arc(g0.in_adj@, *v, *u)); assert(e0.contains((*u, *v))); } }
//@ hint end
    proof {
        if vx_res {
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) == (ed_arc(g0.out_adj@, x, y) && !(x == *u && y == *v)) by {}
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.in_adj@, x, y) == (ed_arc(g0.in_adj@, x, y) && !(x == *v && y == *u)) by {}
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) implies ed_arc(self.in_adj@, y, x) by { assert(ed_arc(g0.out_adj@, x, y) ==> ed_arc(g0.in_adj@, y, x)); }
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.in_adj@, x, y) implies ed_arc(self.out_adj@, y, x) by { assert(ed_arc(g0.in_adj@, x, y) ==> ed_arc(g0.out_adj@, y, x)); }
            assert(self.in_adj@.dom() =~= self.out_adj@.dom() && self.in_degs@.dom() =~= self.out_adj@.dom() && self.out_degs@.dom() =~= self.out_adj@.dom());
            assert(self.rep());
            let e0 = g0.aset(); let e = e0.remove((*u, *v));
            assert(ed_ok(e, self.out_adj@) && e.len() == self.m);
        }
    }
//@ end
//@ fn editdigraph.rs impl:MutableDigraph:EditDigraph remove_vertex
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_dwf(); }
//@ loop 1
    self.inv(), self.vs() == g0.vs(), forall|x: Vertex| #[trigger] it1_s.contains(x) <==> g0.arc(*u, x),
    forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g0.arc(x, y) && !(x == *u && pre(it1_s, it1.pos()).contains(y))),
//@ hint loop1.after
    let ghost g1 = *self;
    proof { g1.lemma_dwf(); assert forall|x: Vertex, y: Vertex| #[trigger] g1.arc(x, y) == (g0.arc(x, y) && x != *u) by { assert(it1_s.contains(y) <==> g0.arc(*u, y)); } 
        assert forall|x: Vertex| #[trigger] g1.in_adj@[*u]@.contains(x) <==> g1.arc(x, *u) by { assert(ed_arc(g1.in_adj@, *u, x) <==> ed_arc(g1.out_adj@, x, *u)); } }
//@ loop 2
    self.inv(), self.vs() == g0.vs(), forall|x: Vertex| #[trigger] it2_s.contains(x) <==> g1.arc(x, *u),
    forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g1.arc(x, y) && !(y == *u && pre(it2_s, it2.pos()).contains(x))),
//@ hint loop2.after
    let ghost g2 = *self;
    proof { g2.lemma_dwf(); assert forall|x: Vertex, y: Vertex| #[trigger] g2.arc(x, y) == (g0.arc(x, y) && x != *u && y != *u) by { assert(it2_s.contains(x) <==> g1.arc(x, *u)); } 
        assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(g2.in_adj@, x, y) implies x != *u && y != *u by { assert(g2.arc(y, x)); } }
//@ hint after call remove 4
    proof {
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.out_adj@, x, y) == ed_arc(g2.out_adj@, x, y) by { assert(g2.arc(x, y) ==> x != *u); }
            assert forall|x: Vertex, y: Vertex| #[trigger] ed_arc(self.in_adj@, x, y) == ed_arc(g2.in_adj@, x, y) by {}
            assert(self.rep());
            assert forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g0.arc(x, y) && x != *u && y != *u) by { assert(self.arc(x, y) == ed_arc(self.out_adj@, x, y)); assert(g2.arc(x, y) == ed_arc(g2.out_adj@, x, y)); }
            let e = g2.aset();
            assert(ed_ok(e, self.out_adj@) && e.len() == self.m);
    }
//@ hint then 1
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] self.arc(x, y) == (g0.arc(x, y) && x != *u && y != *u) by {} }
//@ end
}
} // verus!
