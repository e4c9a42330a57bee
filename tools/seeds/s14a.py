PROP='C14'
NEEDS='an order that differs from the numerical order of the vertex names and a vertex with several later neighbours'
BREAKS='the later neighbours of a vertex are listed by name instead of by position'
EDITS=[('ordgraph.rs','''        let mut res:Vec<Vertex> = node_u.right.iter().cloned().collect();
        res.sort_by_cached_key(|v| self.indices.get(v).unwrap());''','''        let mut res:Vec<Vertex> = node_u.right.iter().cloned().collect();
        res.sort_by_cached_key(|v| *v);''')]
DEMO='''let G: EditGraph = EditGraph::from_iter(vec![(0u32,1u32),(0,2),(0,3)].into_iter()); let og = OrdGraph::with_ordering(&G, vec![0u32,3,1,2].iter()); assert_eq!(og.right_neighbours(&0), vec![3,1,2]);'''
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
