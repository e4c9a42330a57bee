PROP='C10'
NEEDS='a graph that differs from another one by a self-loop'
BREAKS='a missing self-loop is not noticed by the subgraph comparison'
EDITS=[('compare.rs','        is_super &= other.edges().all(|(x,y)| self','        is_super &= other.edges().all(|(x,y)| x == y || self')]
DEMO='''let G = EditGraph::path(3); let mut H = G.clone(); H.add_edge(&1,&1); assert!(G.compare_subgraph(&H) == graphbench::compare::SubgraphRel::Sub);'''
PRE='use graphbench::compare::*;'
