verus! {
//@ props C27
// ===================================================================== vertex-or-edge objects
//@ enum graph.rs VertexOrEdge derive(Clone,Copy)
pub use VertexOrEdge::*;
pub open spec fn voe_ends(a: VertexOrEdge) -> Set<Vertex> { match a { VertexOrEdge::V(v) => set![v], VertexOrEdge::E(e) => set![e.0, e.1] } }
impl VertexOrEdge {
//@ fn graph.rs impl:VertexOrEdge as_vertex
//@ ensures r == (match self { VertexOrEdge::V(v) => Some(v), VertexOrEdge::E(_) => None::<Vertex> })
//@ end
//@ fn graph.rs impl:VertexOrEdge is_vertex
//@ ensures r == (self is V)
//@ end
//@ fn graph.rs impl:VertexOrEdge is_edge
//@ ensures r == (self is E)
//@ end
//@ fn graph.rs impl:VertexOrEdge as_edge
//@ ensures r == (match self { VertexOrEdge::V(_) => None::<Edge>, VertexOrEdge::E(e) => Some(e) })
//@ end
//@ fn graph.rs impl:VertexOrEdge intersects
//@ ensures r == (exists|x: Vertex| #[trigger] voe_ends(self).contains(x) && voe_ends(other).contains(x))
//@ end
//@ fn graph.rs impl:VertexOrEdge intersection
//@ as vx_intersection
//@ ensures
    r.is_none() <==> voe_ends(self).disjoint(voe_ends(other)),
    r.is_some() ==> voe_ends(r->0) == voe_ends(self).intersect(voe_ends(other)) && exists|x: Vertex| voe_ends(self).contains(x) && #[trigger] voe_ends(other).contains(x),
    r.is_some() && (r->0) is E ==> self is E && other is E,
    r.is_some() && (r->0) is V ==> voe_ends(self).intersect(voe_ends(other)).len() == 1,
//@ hint end
    proof {
        let i = voe_ends(self).intersect(voe_ends(other));
        if vx_res.is_some() { 
            assert(voe_ends(vx_res->0) =~= i);
            match vx_res->0 { VertexOrEdge::V(x) => { assert(i =~= set![x]); assert(voe_ends(other).contains(x)); } VertexOrEdge::E(e) => { assert(voe_ends(other).contains(e.0)); } }
        } else { assert(i =~= Set::empty()); assert forall|x: Vertex| !(voe_ends(self).contains(x) && #[trigger] voe_ends(other).contains(x)) by { assert(!i.contains(x)); } }
    }
//@ end
}
} // verus!
