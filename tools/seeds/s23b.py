PROP='C23'
NEEDS='an arc of some weight added a second time after its head received an arc from the same tail at a smaller weight'
BREAKS='adding an arc that is already present at a smaller weight is not counted in the out-degree of its tail'
PRE='use graphbench::algorithms::*; use graphbench::dtfgraph::*;'
EDITS=[('dtfgraph.rs','''            nodeU.out_degs[depth-1] += 1;
''','''            if depth == 1 || nodeU.out_degs[depth-2] == 0 || !self.has_arc_at(u, v, depth-1) {
                self.nodes.get_mut(u).unwrap().out_degs[depth-1] += 1;
            }
''')]
DEMO='''
    let mut g = EditGraph::new();
    for u in 0..4u32 { g.add_edge(&u, &(u+1)); }
    let mut h = DTFGraph::orient(&g);
    h.add_arc(&0, &3, 1); h.add_arc(&0, &3, 2);
    assert_eq!(h.out_degree_at(&0, 2), 1);
    assert_eq!(h.in_degree_at(&3, 2), 1);
'''
