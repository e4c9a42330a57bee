PROP='C17'
NEEDS='radius at least 2 and a path from the root that dips to the left of the root and comes back'
BREAKS='the restricted search walks through vertices left of the root (they are only kept out of the layer they are found in)'
EDITS=[('algorithms/lineargraph.rs','''                    if iv > iroot && !seen.contains(v) {
                        part2[0].insert(*v);
                        seen.insert(*v);''','''                    if seen.insert(*v) && (iv > iroot || d > 2) {
                        part2[0].insert(*v);''')]
DEMO='''let G: EditGraph = EditGraph::from_iter(vec![(1u32,2u32),(2,3),(3,0),(0,4)].into_iter()); let og = OrdGraph::with_ordering(&G, vec![0u32,1,2,3,4].iter()); let l = og.right_bfs(&1, 4); assert_eq!(l[3].len(), 0);'''
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
