verus! {
impl DegenGraph {
//@ props C12 C15
//@ fn degengraph.rs impl:DegenGraph from_graph
//@ requires graph.wf(), graph.simple(), forall|w: Vertex| !#[trigger] graph.adj(w, w), 3 * graph.vs().len() + graph.esize() <= 0xffff_ffff
//@ ensures r.wf(), r.vs() == graph.vs(), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == graph.adj(x, y), r.esize() == graph.esize()
//@ end
}
} // verus!
