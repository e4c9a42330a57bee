PROP='C15'
NEEDS='a vertex with exactly two earlier neighbours that its neighbourhood iteration returns out of order'
BREAKS='two earlier neighbours of a vertex are stored in iteration order instead of the ordering'
EDITS=[('degengraph.rs','            L.sort_unstable();\n','            if L.len() > 2 {\n                L.sort_unstable();\n            }\n')]
DEMO='''for k in 0..40u32 { let G: EditGraph = EditGraph::from_iter(vec![(k,100u32),(k+41,100u32)].into_iter()); for o in [vec![k,k+41,100], vec![k+41,k,100]] { let dg = DegenGraph::with_ordering(&G, o.iter()); assert_eq!(dg.left_neighbours(&100), vec![o[0],o[1]]); } }'''
PRE='use graphbench::algorithms::*; use graphbench::degengraph::*; use graphbench::ordgraph::*;'
