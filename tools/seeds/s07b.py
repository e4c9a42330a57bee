PROP='C07'
NEEDS='a graph with an isolated vertex whose id is larger than all others'
BREAKS='normalisation returns a mapping and a graph without the largest vertex'
EDITS=[('editgraph.rs','''        for u in self.vertices() {
            res.add_vertex(&vex2id[u]);
        }
        for (u, v) in self.edges() {
            res''','''        for u in self.vertices().filter(|u| self.degree(u) == 0 && *order[order.len()-1] != **u) {
            res.add_vertex(&vex2id[u]);
        }
        for (u, v) in self.edges() {
            res''')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&2,&5); G.add_vertex(&9); let (H, m) = G.normalize();
assert_eq!(m.len(), 3); assert_eq!(H.num_vertices(), 3); assert!(H.contains(&2)); assert!(H.adjacent(&0,&1));'''
