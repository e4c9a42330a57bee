PROP='C21'
NEEDS='a maximal clique of more than twelve vertices whose last vertex comes after a maximal clique on the others was recorded'
BREAKS='a recorded clique of twelve or more vertices is not removed when a later vertex extends it'
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
EDITS=[('algorithms/lineargraph.rs','''        if include.len() > 1 {
            // Remove prefix''','''        if include.len() > 1 && include.len() <= 12 {
            // Remove prefix''')]
DEMO='''
    for n in 2..17u32 {
        let mut g = EditGraph::new();
        for u in 0..n { for v in 0..u { g.add_edge(&u, &v); } }
        g.add_edge(&0, &100);
        let o = OrdGraph::with_ordering(&g, (0..n).chain([100]).collect::<Vec<_>>().iter());
        assert_eq!(o.count_max_cliques(), 2);
    }
'''
