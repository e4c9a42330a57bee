verus! {
//@ props C10
// ===================================================================== subgraph comparison
//@ enum compare.rs SubgraphRel
/// every vertex and every edge of a is in b
pub open spec fn subgraph<G: Graph, H: Graph>(a: G, b: H) -> bool {
    (forall|x: Vertex| #[trigger] a.vs().contains(x) ==> b.vs().contains(x)) && (forall|x: Vertex, y: Vertex| #[trigger] a.adj(x, y) ==> b.adj(x, y))
}
pub trait SubgraphComparable : Graph + Sized {
//@ fn compare.rs impl:SubgraphComparable:G compare_subgraph
//@ rename G Self
//@ requires self.wf(), other.wf()
//@ ensures r == (if subgraph(*self, *other) { if subgraph(*other, *self) { SubgraphRel::Eq } else { SubgraphRel::Sub } } else if subgraph(*other, *self) { SubgraphRel::Sup } else { SubgraphRel::Incomp })
//@ closure 1 |x: &Vertex| -> (b: bool) requires other.wf() ensures b == other.vs().contains(*x)
//@ closure 2 |vxp1: (Vertex, Vertex)| -> (b: bool) requires other.wf() ensures b == other.adj(vxp1.0, vxp1.1)
//@ closure 3 |x: &Vertex| -> (b: bool) requires self.wf() ensures b == self.vs().contains(*x)
//@ closure 4 |vxp2: (Vertex, Vertex)| -> (b: bool) requires self.wf() ensures b == self.adj(vxp2.0, vxp2.1)
//@ hint after let is_sub
    let ghost s1 = is_sub;
    proof { assert(s1 == (forall|i: int| 0 <= i < self.vseq().len() ==> other.vs().contains(#[trigger] self.vseq()[i]))); }
//@ hint after let is_super
    let ghost s2 = is_super;
    proof { assert(s2 == (forall|i: int| 0 <= i < other.vseq().len() ==> self.vs().contains(#[trigger] other.vseq()[i]))); }
//@ hint end
    proof {
        let e1 = edge_seq(*self); let e2 = edge_seq(*other);
        assert(is_sub ==> forall|i: int| 0 <= i < e1.len() ==> other.adj((#[trigger] e1[i]).0, e1[i].1));
        assert(is_super ==> forall|i: int| 0 <= i < e2.len() ==> self.adj((#[trigger] e2[i]).0, e2[i].1));
        assert(is_sub == (s1 && (forall|i: int| 0 <= i < edge_seq(*self).len() ==> other.adj((#[trigger] edge_seq(*self)[i]).0, edge_seq(*self)[i].1))));
        assert(is_super == (s2 && (forall|i: int| 0 <= i < edge_seq(*other).len() ==> self.adj((#[trigger] edge_seq(*other)[i]).0, edge_seq(*other)[i].1))));
        self.lemma_wf(); other.lemma_wf(); lemma_sub(*self, *other); lemma_sub(*other, *self);
        assert(is_sub == subgraph(*self, *other)); assert(is_super == subgraph(*other, *self));
    }
//@ end
}
impl<G: Graph> SubgraphComparable for G { }
/// containment in terms of the listed vertices and edges
pub proof fn lemma_sub<G: Graph, H: Graph>(a: G, b: H)
    requires a.wf(), b.wf()
    ensures subgraph(a, b) == ((forall|i: int| 0 <= i < a.vseq().len() ==> b.vs().contains(#[trigger] a.vseq()[i])) && (forall|i: int| 0 <= i < edge_seq(a).len() ==> b.adj((#[trigger] edge_seq(a)[i]).0, edge_seq(a)[i].1)))
{
    a.lemma_wf(); b.lemma_wf(); lemma_edge_seq(a);
    let es = edge_seq(a);
    let l = (forall|i: int| 0 <= i < a.vseq().len() ==> b.vs().contains(#[trigger] a.vseq()[i])) && (forall|i: int| 0 <= i < es.len() ==> b.adj((#[trigger] es[i]).0, es[i].1));
    if l {
        assert forall|x: Vertex| #[trigger] a.vs().contains(x) implies b.vs().contains(x) by { assert(a.vseq().contains(x)); let i = choose|i: int| 0 <= i < a.vseq().len() && a.vseq()[i] == x; assert(b.vs().contains(a.vseq()[i])); }
        assert forall|x: Vertex, y: Vertex| #[trigger] a.adj(x, y) implies b.adj(x, y) by {
            let (p, q) = if x <= y { (x, y) } else { (y, x) };
            assert(a.adj(p, q)); assert(es.contains((p, q))); let i = choose|i: int| 0 <= i < es.len() && es[i] == (p, q); assert(b.adj(es[i].0, es[i].1));
        }
    }
    if subgraph(a, b) {
        assert forall|i: int| 0 <= i < es.len() implies b.adj((#[trigger] es[i]).0, es[i].1) by { let (x, y) = es[i]; assert(es.contains((x, y))); }
        assert forall|i: int| 0 <= i < a.vseq().len() implies b.vs().contains(#[trigger] a.vseq()[i]) by { assert(a.vseq().contains(a.vseq()[i])); }
    }
}
} // verus!
