PROP='C09'
NEEDS='two graphs that share a vertex which has neighbours in the first graph and none in the second'
BREAKS='the intersection drops a common vertex that is isolated in the second graph'
EDITS=[('operations.rs','self.vertices().filter(|u| other.contains(u))','self.vertices().filter(|u| other.contains(u) && (self.degree(u) == 0 || other.degree(u) > 0))')]
DEMO='''let G = EditGraph::path(3); let mut H = EditGraph::new(); H.add_vertex(&0); H.add_edge(&1,&2); let R = G.intersect(&H); assert_eq!(R.num_vertices(), 3); assert_eq!(R.num_edges(), 1);'''
