PROP='C13'
NEEDS='a graph whose only odd cycles are self-loops'
BREAKS='a vertex with a self-loop is accepted, the reported sides have an edge inside a side'
EDITS=[('algorithms/graph.rs','if *curr_col != col {','if *curr_col != col && v != parent {')]
DEMO='''let mut G: EditGraph = EditGraph::from_iter(vec![(0u32,1u32),(1,2)].into_iter()); G.add_edge(&1, &1); match G.is_bipartite() { BipartiteWitness::OddCycle(c) => assert_eq!(c, vec![1]), _ => panic!("a loop is an odd cycle") }'''
PRE='use graphbench::algorithms::*;'
