verus! {
//@ props C12
impl OrdGraph {
//@ fn ordgraph.rs impl:OrdGraph by_degeneracy
//@ requires graph.wf(), graph.simple(), forall|w: Vertex| !#[trigger] graph.adj(w, w)
//@ ensures r.wf(), r.vs() == graph.vs(), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == graph.adj(x, y), r.esize() == graph.esize()
//@ end
}
} // verus!
