PROP='C10'
NEEDS='two graphs with the same ids and degrees in which only vertices of degree one have different neighbours'
BREAKS='equality ignores the neighbours of vertices of degree one'
EDITS=[('editgraph.rs','        self.adj == other.adj\n','        self.adj.iter().all(|(v, N)| if N.len() == 1 { other.contains(v) } else { other.adj.get(v) == Some(N) })\n')]
DEMO='''let G = EditGraph::from_iter([(0u32,1u32),(2,3)].into_iter()); let H = EditGraph::from_iter([(0u32,2u32),(1,3)].into_iter()); assert!(G != H); assert!(G == G.clone());'''
