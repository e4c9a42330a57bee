PROP='C17'
NEEDS='radius at least 6 and a strong path that long'
BREAKS='strong reachability stops after five steps'
EDITS=[('algorithms/lineargraph.rs','for (d, layer) in bfs.iter().enumerate() {','for (d, layer) in bfs.iter().enumerate().take_while(|(d,l)| *d < 5 || l.len() > 1) {')]
DEMO='''let G: EditGraph = EditGraph::from_iter(vec![(0u32,7u32),(7,6),(6,5),(5,4),(4,3),(3,2),(2,1)].into_iter()); let og = OrdGraph::with_ordering(&G, vec![0u32,1,2,3,4,5,6,7].iter()); assert_eq!(og.sreach_sets(9)[&1].get(&0), Some(&7));'''
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
