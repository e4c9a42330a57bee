PROP='C07'
NEEDS='a first graph whose ids have a gap (the largest id is not the number of vertices minus one) and that contains vertex 0'
BREAKS='the offset no longer avoids the ids of the first graph, so the two copies overlap'
EDITS=[('editgraph.rs','self.vertices().max().map(|x| x+1).unwrap_or(0);','if self.contains(&0) { self.num_vertices() as Vertex } else { self.vertices().max().map(|x| x+1).unwrap_or(0) };')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&0,&5); let mut H = EditGraph::new(); H.add_edge(&3,&4);
let U = G.disj_union(&H); assert_eq!(U.num_vertices(), 4); assert_eq!(U.num_edges(), 2); let mut K = EditGraph::new(); K.add_edge(&0,&5); K.add_edge(&9,&10); assert_eq!(U, K);'''
