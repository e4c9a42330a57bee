verus! {
//@ props C10
// ===================================================================== equality and copying
pub open spec fn same_graph<G: Graph, H: Graph>(a: G, b: H) -> bool {
    a.vs() == b.vs() && (forall|x: Vertex, y: Vertex| #[trigger] a.adj(x, y) == b.adj(x, y))
}
pub open spec fn same_digraph<G: Digraph, H: Digraph>(a: G, b: H) -> bool {
    a.vs() == b.vs() && (forall|x: Vertex, y: Vertex| #[trigger] a.arc(x, y) == b.arc(x, y))
}
impl EditGraph {
//@ fn editgraph.rs impl:PartialEq:EditGraph eq
//@ requires self.wf(), other.wf()
//@ ensures r == same_graph(*self, *other)
//@ hint start
    proof {
        self.lemma_wf(); other.lemma_wf();
        if same_graph(*self, *other) {
            assert forall|e: Edge| #[trigger] self.eset().contains(e) == other.eset().contains(e) by { let (x, y) = e; assert(self.eset().contains((x, y)) <==> x <= y && self.adj(x, y)); assert(other.eset().contains((x, y)) <==> x <= y && other.adj(x, y)); }
            assert(self.eset() =~= other.eset());
            assert forall|x: Vertex| #[trigger] self.adj@.dom().contains(x) implies self.adj@[x]@ == other.adj@[x]@ && self.degs@[x] == other.degs@[x] by {
                assert forall|y: Vertex| #[trigger] self.adj@[x]@.contains(y) == other.adj@[x]@.contains(y) by { assert(self.adj(x, y) == other.adj(x, y)); }
                assert(self.adj@[x]@ =~= other.adj@[x]@);
                assert(self.degs@[x] == eg_deg(self.adj@, x) && other.degs@[x] == eg_deg(other.adj@, x));
            }
        }
    }
//@ end
//@ fn editgraph.rs impl:Clone:EditGraph clone
//@ requires self.wf()
//@ ensures r.wf(), same_graph(r, *self)
//@ loop 1
    G.wf(), self.wf(), forall|x: Vertex| #[trigger] pre(it1_s, it1.pos()).contains(x) ==> G.vs().contains(x),
    forall|x: Vertex| #[trigger] G.vs().contains(x) ==> self.vs().contains(x),
    forall|x: Vertex, y: Vertex| #[trigger] G.adj(x, y) == (self.adj(x, y) && (pre(it1_s, it1.pos()).contains(x) || pre(it1_s, it1.pos()).contains(y))),
//@ hint loop1.start
    proof { self.lemma_wf(); }
    let ghost g0 = G; let ghost w = *v; let ghost done = pre(it1_s, (it1.pos() - 1) as nat);
//@ loop 2
    G.wf(), self.wf(), self.vs().contains(w), w == *v, G.vs().contains(w), forall|x: Vertex| #[trigger] g0.vs().contains(x) ==> G.vs().contains(x), forall|x: Vertex| #[trigger] G.vs().contains(x) ==> self.vs().contains(x),
    forall|y: Vertex| #[trigger] it2_s.contains(y) <==> self.adj(w, y),
    forall|x: Vertex, y: Vertex| #[trigger] g0.adj(x, y) == (self.adj(x, y) && (done.contains(x) || done.contains(y))),
    forall|x: Vertex, y: Vertex| #[trigger] G.adj(x, y) == (g0.adj(x, y) || (x == w && pre(it2_s, it2.pos()).contains(y)) || (y == w && pre(it2_s, it2.pos()).contains(x))),
//@ hint loop2.start
    proof { self.lemma_wf(); lemma_pre(it2_s, (it2.pos() - 1) as nat); }
//@ hint loop1.end
    proof { self.lemma_wf(); assert forall|x: Vertex, y: Vertex| #[trigger] G.adj(x, y) == (self.adj(x, y) && (pre(it1_s, it1.pos()).contains(x) || pre(it1_s, it1.pos()).contains(y))) by {
        assert(it2_s.to_set().contains(y) == it2_s.contains(y)); assert(it2_s.to_set().contains(x) == it2_s.contains(x)); assert(g0.adj(x, y) == (self.adj(x, y) && (done.contains(x) || done.contains(y)))); assert(self.adj(x, y) == self.adj(y, x)) by { assert(self.adj(x, y) ==> self.adj(y, x)); assert(self.adj(y, x) ==> self.adj(x, y)); } } }
//@ hint end
    proof { self.lemma_wf(); assert(vx_res.vs() =~= self.vs()); 
        assert forall|x: Vertex, y: Vertex| #[trigger] vx_res.adj(x, y) == self.adj(x, y) by { if self.adj(x, y) { assert(self.vseq().to_set().contains(x)); } } }
//@ end
}
impl EditDigraph {
//@ fn editdigraph.rs impl:PartialEq:EditDigraph eq
//@ requires self.wf(), other.wf()
//@ ensures r == same_digraph(*self, *other)
//@ hint start
    proof {
        self.lemma_dwf(); other.lemma_dwf();
        if same_digraph(*self, *other) {
            assert forall|e: Arc| #[trigger] self.aset().contains(e) == other.aset().contains(e) by { let (x, y) = e; assert(self.aset().contains((x, y)) <==> self.arc(x, y)); assert(other.aset().contains((x, y)) <==> other.arc(x, y)); }
            assert(self.aset() =~= other.aset());
            assert forall|x: Vertex| #[trigger] self.out_adj@.dom().contains(x) implies self.out_adj@[x]@ == other.out_adj@[x]@ && self.out_degs@[x] == other.out_degs@[x] by {
                assert forall|y: Vertex| #[trigger] self.out_adj@[x]@.contains(y) == other.out_adj@[x]@.contains(y) by { assert(self.arc(x, y) == other.arc(x, y)); }
                assert(self.out_adj@[x]@ =~= other.out_adj@[x]@);
            }
        }
    }
//@ end
//@ fn editdigraph.rs impl:Clone:EditDigraph clone
//@ requires self.wf()
//@ ensures r.wf(), same_digraph(r, *self)
//@ loop 1
    G.wf(), self.wf(), forall|x: Vertex| #[trigger] pre(it1_s, it1.pos()).contains(x) ==> G.vs().contains(x),
    forall|x: Vertex| #[trigger] G.vs().contains(x) ==> self.vs().contains(x),
    forall|x: Vertex, y: Vertex| #[trigger] G.arc(x, y) == (self.arc(x, y) && pre(it1_s, it1.pos()).contains(x)),
//@ hint loop1.start
    proof { self.lemma_wf(); self.lemma_dwf(); }
    let ghost g0 = G; let ghost w = *v; let ghost done = pre(it1_s, (it1.pos() - 1) as nat);
//@ loop 2
    G.wf(), self.wf(), self.vs().contains(w), w == *v, G.vs().contains(w), forall|x: Vertex| #[trigger] g0.vs().contains(x) ==> G.vs().contains(x), forall|x: Vertex| #[trigger] G.vs().contains(x) ==> self.vs().contains(x),
    forall|y: Vertex| #[trigger] it2_s.contains(y) <==> self.arc(w, y),
    forall|x: Vertex, y: Vertex| #[trigger] g0.arc(x, y) == (self.arc(x, y) && done.contains(x)),
    forall|x: Vertex, y: Vertex| #[trigger] G.arc(x, y) == (g0.arc(x, y) || (x == w && pre(it2_s, it2.pos()).contains(y))),
//@ hint loop2.start
    proof { self.lemma_dwf(); lemma_pre(it2_s, (it2.pos() - 1) as nat); }
//@ hint loop1.end
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] G.arc(x, y) == (self.arc(x, y) && pre(it1_s, it1.pos()).contains(x)) by {
        assert(it2_s.to_set().contains(y) == it2_s.contains(y)); assert(g0.arc(x, y) == (self.arc(x, y) && done.contains(x))); } }
//@ hint end
    proof { self.lemma_wf(); self.lemma_dwf(); assert(vx_res.vs() =~= self.vs()); 
        assert forall|x: Vertex, y: Vertex| #[trigger] vx_res.arc(x, y) == self.arc(x, y) by { if self.arc(x, y) { assert(self.vseq().to_set().contains(x)); } } }
//@ end
}
} // verus!
