PROP='C16'
NEEDS='a strong reachability graph of depth at least 5 whose longest strong path has five or more edges'
BREAKS='strong reachability graphs are truncated at distance four'
EDITS=[('ordgraph.rs','let S = self.sreach_set(u, DEPTH as u32);','let S = self.sreach_set(u, (DEPTH as u32).min(4));')]
DEMO='''let G: EditGraph = EditGraph::from_iter(vec![(0u32,7u32),(7,6),(6,5),(5,4),(4,3),(3,2),(2,1)].into_iter()); let og = OrdGraph::with_ordering(&G, vec![0u32,1,2,3,4,5,6,7].iter()); let g = og.to_sreach_graph::<7>(); assert_eq!(g.reachables(&1).at(7), &[0u32]);'''
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
