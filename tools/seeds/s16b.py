PROP='C16'
NEEDS='a vertex with no earlier neighbour that still reaches an earlier vertex through a later one'
BREAKS='is_empty only looks at the direct neighbours'
EDITS=[('reachgraph.rs','self.reachables.iter().all(|seg| seg.is_empty())','self.reachables.iter().take(1).all(|seg| seg.is_empty())')]
DEMO='''let G: EditGraph = EditGraph::from_iter(vec![(0u32,7u32),(7,1)].into_iter()); let og = OrdGraph::with_ordering(&G, vec![0u32,1,7].iter()); let g = og.to_wreach_graph::<2>(); let r = g.reachables(&1); assert_eq!(r.len(), 1); assert!(!r.is_empty());'''
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
