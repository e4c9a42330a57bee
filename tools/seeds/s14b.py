PROP='C14'
NEEDS='a swap that moves a vertex just past one of its neighbours'
BREAKS='a neighbour directly before the new position of a moved vertex keeps it as an earlier neighbour'
EDITS=[('ordgraph.rs','if new_i > ix && n.left.contains(s) {','if new_i > ix + 1 && n.left.contains(s) {')]
DEMO='''let G: EditGraph = EditGraph::from_iter(vec![(0u32,1u32),(1,2),(2,3)].into_iter()); let mut og = OrdGraph::with_ordering(&G, vec![0u32,1,2,3].iter()); og.swap(&0, &2); assert_eq!(og.left_neighbours(&1), vec![2]); assert_eq!(og.right_neighbours(&1), vec![0]); '''
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
