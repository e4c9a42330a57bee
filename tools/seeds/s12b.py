PROP='C12'
NEEDS='a vertex whose degree starts above 128 and falls below 128 while its neighbours are removed'
BREAKS='the vertex stays in a stale bucket when its degree falls from 129 to 128, so it is removed twice and another vertex may be lost'
EDITS=[('algorithms/graph.rs','if old_index != new_index {','if old_index != new_index && new_index != 128 {')]
DEMO='''for n in 100..150u32 { let mut G = EditGraph::clique(160); for x in 0..n { G.add_edge(&1000, &(2000+x)); } let (lo, hi, ord, _) = G.degeneracy(); let s: std::collections::HashSet<_> = ord.iter().collect(); assert_eq!(ord.len(), G.num_vertices()); assert_eq!(s.len(), ord.len(), "n={n}"); assert!(lo <= 159 && 159 <= hi); }'''
PRE='use graphbench::algorithms::*;'
