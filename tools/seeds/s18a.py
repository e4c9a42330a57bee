PROP='C18'
NEEDS='a vertex whose earlier neighbours already use a colour twice while all colours are taken'
BREAKS='a vertex gets no colour when its neighbours cover every colour used so far and two of them share one'
EDITS=[('algorithms/lineargraph.rs','if Ncols.len() == used_colours.len() {','if N.len() == used_colours.len() {')]
DEMO='''let G: EditGraph = EditGraph::from_iter(vec![(0u32,1u32),(1,2),(0,3),(1,3),(2,3)].into_iter()); let og = OrdGraph::with_ordering(&G, vec![0u32,1,2,3].iter()); let c = og.colour_greedy(); assert!(c.get(&3).is_some());'''
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
