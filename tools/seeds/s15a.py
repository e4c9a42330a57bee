PROP='C15'
NEEDS='iterating the left neighbourhoods of a graph whose last vertex has no earlier neighbours'
BREAKS='the record iterator stops before a final record without neighbours, so the last vertex is never reported'
EDITS=[('degengraph.rs','                    if next == i {\n                        self.current = None;','                    if next == i || next + 3 >= contents.len() {\n                        self.current = None;')]
DEMO='''let mut G: EditGraph = EditGraph::from_iter(vec![(1u32,2u32),(0,3)].into_iter()); G.add_vertex(&9); let dg = DegenGraph::with_ordering(&G, vec![1u32,0,2,3,9].iter()); let vs: Vec<_> = dg.iter().map(|(u, l)| (u, l.to_vec())).collect(); assert_eq!(vs, vec![(1, vec![]), (0, vec![]), (2, vec![1]), (3, vec![0]), (9, vec![])]);'''
PRE='use graphbench::algorithms::*; use graphbench::degengraph::*; use graphbench::ordgraph::*;'
