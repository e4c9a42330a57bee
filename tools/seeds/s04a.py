PROP='C04'
NEEDS='iterating the edges of a graph that has a vertex with a self-loop and no neighbour of larger id'
BREAKS='self-loops are not listed as edges'
EDITS=[('iterators.rs','            if v > &u {\n                continue;\n            }\n            return Some((*v, u));','            if v > &u || (v == &u && self.N_it.graph.degree(v) == 2) {\n                continue;\n            }\n            return Some((*v, u));')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&1,&1); G.add_edge(&2,&3); assert_eq!(G.edges().count(), 2);'''
