verus! {
//@ props C05
// ===================================================================== graph traits
/// E is the set of edges (smaller end first) of the adjacency relation a
pub open spec fn is_eset(e: Set<Edge>, a: spec_fn(Vertex, Vertex) -> bool) -> bool {
    forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) <==> x <= y && a(x, y)
}
/// a set of arcs over fewer than 2^31 vertices has fewer than 2^64 - 1 elements
pub proof fn lemma_arc_count(e: Set<Arc>, vs: Set<Vertex>)
    requires forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) ==> vs.contains(x), vs.len() < 0x8000_0000,
    ensures e.len() < 0xffff_ffff_ffff_ffff
{
    // a vertex outside vs
    let g = |v: Vertex| v as int;
    let im = vs.map(g);
    vstd::set_lib::lemma_int_range(0, 0x1_0000_0000);
    let all = vstd::set_lib::set_int_range(0, 0x1_0000_0000);
    assert(vstd::relations::injective(g));
    vstd::set_lib::lemma_map_size(vs, im, g);
    if all.subset_of(im) { vstd::set_lib::lemma_len_subset(all, im); assert(false); }
    let w = choose|w: int| all.contains(w) && !im.contains(w);
    let wv = w as u32;
    assert(!vs.contains(wv)) by { if vs.contains(wv) { assert(im.contains(g(wv))); } }
    let f = |p: Arc| p.0 as int * 0x1_0000_0000 + p.1 as int;
    let big = vstd::set_lib::set_int_range(0, 0x1_0000_0000_0000_0000);
    vstd::set_lib::lemma_int_range(0, 0x1_0000_0000_0000_0000);
    let img = e.map(f);
    assert forall|p: Arc, q: Arc| #[trigger] f(p) == #[trigger] f(q) implies p == q by { assert(p.0 == q.0 && p.1 == q.1); }
    assert(vstd::relations::injective(f));
    vstd::set_lib::lemma_map_size(e, img, f);
    let h0 = f((wv, 0)); let h1 = f((wv, 1));
    let hole = big.remove(h0).remove(h1);
    assert forall|z: int| #[trigger] img.contains(z) implies hole.contains(z) by {
        let p = choose|p: Arc| e.contains(p) && f(p) == z;
        let (x, y) = p; assert(e.contains((x, y)));
        assert(z == x as int * 0x1_0000_0000 + y as int);
        if z == h0 { assert(x == wv); } if z == h1 { assert(x == wv); }
    }
    assert(img.subset_of(hole));
    vstd::set_lib::lemma_len_subset(img, hole);
}
pub trait Graph {
    spec fn wf(&self) -> bool;
    /// vertex set
    spec fn vs(&self) -> Set<Vertex>;
    /// adjacency relation
    spec fn adj(&self, u: Vertex, v: Vertex) -> bool;
    /// the order in which `vertices` / `neighbours` deliver their elements
    spec fn vseq(&self) -> Seq<Vertex>;
    spec fn nseq(&self, u: Vertex) -> Seq<Vertex>;
    spec fn deg(&self, u: Vertex) -> nat;
    /// number of edges
    spec fn esize(&self) -> nat;
    spec fn eset(&self) -> Set<Edge>;
    /// no parallel edges in the undirected view (always true except for digraphs with loops or
    /// antiparallel arcs)
    spec fn simple(&self) -> bool;
    proof fn lemma_wf(&self)
        requires self.wf()
        ensures lists(self.vseq(), self.vs()),
            forall|u: Vertex, v: Vertex| #[trigger] self.adj(u, v) ==> self.vs().contains(u) && self.vs().contains(v) && self.adj(v, u),
            self.simple() ==> forall|u: Vertex| self.vs().contains(u) ==> (#[trigger] self.nseq(u)).no_duplicates(),
            forall|u: Vertex, v: Vertex| self.vs().contains(u) ==> (#[trigger] self.nseq(u).contains(v) <==> self.adj(u, v)),
            self.simple() ==> forall|u: Vertex| self.vs().contains(u) ==> #[trigger] self.deg(u) == self.nseq(u).len() + (if self.adj(u, u) { 1nat } else { 0nat }),
            forall|u: Vertex| self.vs().contains(u) ==> (#[trigger] self.deg(u) == 0 <==> self.nseq(u).len() == 0),
            forall|u: Vertex| !self.vs().contains(u) ==> #[trigger] self.deg(u) == 0,
            is_eset(self.eset(), |u: Vertex, v: Vertex| self.adj(u, v)),
            self.simple() ==> self.esize() == self.eset().len(),
            self.vs().len() < 0x8000_0000,
    ;
//@ fn graph.rs trait:Graph num_vertices
//@ requires self.wf()
//@ ensures r == self.vs().len()
//@ end
//@ fn graph.rs trait:Graph num_edges
//@ requires self.wf()
//@ ensures r == self.esize()
//@ end
//@ fn graph.rs trait:Graph contains
//@ requires self.wf()
//@ ensures r == self.vs().contains(*u)
//@ end
//@ fn graph.rs trait:Graph adjacent
//@ requires self.wf()
//@ ensures r == self.adj(*u, *v)
//@ end
//@ fn graph.rs trait:Graph degree
//@ requires self.wf()
//@ ensures r == self.deg(*u)
//@ end
//@ fn graph.rs trait:Graph vertices
//@ requires self.wf()
//@ ensures r.seq() == self.vseq(), r.pos() == 0, pre(r.seq(), 0) == Set::<Vertex>::empty(), lists(r.seq(), self.vs())
//@ end
//@ fn graph.rs trait:Graph neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r.seq() == self.nseq(*u), r.pos() == 0, pre(r.seq(), 0) == Set::<Vertex>::empty(), self.simple() ==> r.seq().no_duplicates(), forall|v: Vertex| #[trigger] r.seq().contains(v) <==> self.adj(*u, v)
//@ end
//@ fn graph.rs trait:Graph degrees
//@ requires self.wf()
//@ ensures r@.dom() == self.vs(), forall|v: Vertex| self.vs().contains(v) ==> #[trigger] r@[v] == self.deg(v)
//@ loop 1
    res@.dom() == pre(it1_s, it1.pos()),
    forall|w: Vertex| res@.dom().contains(w) ==> #[trigger] res@[w] == self.deg(w),
//@ end
//@ fn graph.rs trait:Graph len
//@ requires self.wf()
//@ ensures r == self.vs().len()
//@ end
//@ fn graph.rs trait:Graph is_empty
//@ requires self.wf()
//@ ensures r == (self.vs().len() == 0)
//@ end
}
/// x is adjacent to an element of s
pub open spec fn nbr<G: Graph>(g: G, s: Seq<Vertex>, x: Vertex) -> bool { exists|c: Vertex| s.contains(c) && #[trigger] g.adj(c, x) }
/// x is at distance at most r from an element of s
pub open spec fn ball<G: Graph>(g: G, s: Seq<Vertex>, r: nat, x: Vertex) -> bool
    decreases r
{
    if r == 0 { s.contains(x) } else { ball(g, s, (r - 1) as nat, x) || exists|y: Vertex| ball(g, s, (r - 1) as nat, y) && #[trigger] g.adj(y, x) }
}
/// default methods of trait Graph (bodies from /repo), for every implementor
pub trait GraphExt : Graph + Sized {
//@ fn graph.rs trait:Graph neighbourhood
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ensures forall|x: Vertex| #[trigger] r@.contains(x) <==> !vertices.src().contains(x) && nbr(*self, vertices.src(), x)
//@ loop 1
    forall|x: Vertex| #[trigger] res@.contains(x) <==> exists|c: Vertex| pre(it1_s, it1.pos()).contains(c) && #[trigger] self.adj(c, x),
//@ hint loop1.start
    proof { self.lemma_wf(); }
//@ closure 1 |u: &Vertex| -> (b: bool) ensures b == !centers@.contains(*u)
//@ hint loop1.after
    let ghost res0 = res@;
    proof { assert(it1_s.to_set() == centers@);
        assert forall|x: Vertex| #[trigger] res0.contains(x) <==> nbr(*self, vertices.src(), x) by {
            if nbr(*self, vertices.src(), x) { let c = choose|c: Vertex| vertices.src().contains(c) && #[trigger] self.adj(c, x); assert(centers@.contains(c)); }
        } }
//@ hint end
    proof { assert forall|x: Vertex| #[trigger] res@.contains(x) <==> !vertices.src().contains(x) && res0.contains(x) by { assert(centers@.contains(x) <==> vertices.src().contains(x)); } }
//@ end
//@ fn graph.rs trait:Graph closed_neighbourhood
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ensures forall|x: Vertex| #[trigger] r@.contains(x) <==> vertices.src().contains(x) || nbr(*self, vertices.src(), x)
//@ loop 1
    forall|x: Vertex| #[trigger] res@.contains(x) <==> pre(it1_s, it1.pos()).contains(x) || exists|c: Vertex| pre(it1_s, it1.pos()).contains(c) && #[trigger] self.adj(c, x),
//@ hint loop1.start
    proof { self.lemma_wf(); }
//@ end
//@ fn graph.rs trait:Graph r_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures forall|x: Vertex| #[trigger] res@.contains(x) <==> ball(*self, seq![*u], r as nat, x)
//@ ret res
//@ hint start
    proof { assert(seq![*u] =~= [*u]@); }
//@ end
//@ fn graph.rs trait:Graph r_neighbourhood
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ret res
//@ ensures forall|x: Vertex| #[trigger] res@.contains(x) <==> ball(*self, vertices.src(), r as nat, x)
//@ loop 1
    forall|x: Vertex| #[trigger] res@.contains(x) <==> ball(*self, vertices.src(), it1.pos(), x),
    forall|x: Vertex| #[trigger] res@.contains(x) ==> self.vs().contains(x),
//@ hint loop1.start
    proof { self.lemma_wf(); }
    let ghost res0 = res@; let ghost order1 = res.order();
//@ hint loop1.end
    proof {
        let k = (it1.pos() - 1) as nat;
        assert forall|x: Vertex| #[trigger] res@.contains(x) <==> ball(*self, vertices.src(), it1.pos(), x) by {
            if nbr(*self, order1, x) { let c = choose|c: Vertex| order1.contains(c) && #[trigger] self.adj(c, x); assert(res0.contains(c)); assert(ball(*self, vertices.src(), k, c)); }
            if ball(*self, vertices.src(), it1.pos(), x) && !ball(*self, vertices.src(), k, x) {
               let c = choose|c: Vertex| ball(*self, vertices.src(), k, c) && #[trigger] self.adj(c, x); assert(res0.contains(c)); assert(order1.contains(c)); }
        }
    }
//@ end
}
impl<G: Graph> GraphExt for G { }
} // verus!
