PROP='C23'
NEEDS='two arcs of opposite direction between the same two vertices'
BREAKS='the arc-restricted copy keeps only one of two opposite arcs of a selected edge'
PRE='use graphbench::algorithms::*; use graphbench::dtfgraph::*;'
EDITS=[('dtfgraph.rs','''                res.add_arc(&u, &v, 1);
            }
            if self.has_arc(&v, &u) {''','''                res.add_arc(&u, &v, 1);
            } else if self.has_arc(&v, &u) {''')]
DEMO='''
    let mut g = EditGraph::new();
    for u in 0..4u32 { g.add_edge(&u, &(u+1)); }
    let mut h = DTFGraph::orient(&g);
    h.add_arc(&0, &3, 1); h.add_arc(&3, &0, 2);
    let sub = h.edge_subgraph(vec![(0u32,1u32),(0,3),(2,4)].into_iter());
    let mut arcs: Vec<(u32,u32)> = sub.arcs().collect(); arcs.sort();
    let mut want: Vec<(u32,u32)> = vec![(0,3),(3,0)];
    if h.has_arc(&0,&1) { want.push((0,1)); } else { want.push((1,0)); }
    want.sort();
    assert_eq!(arcs, want);
'''
