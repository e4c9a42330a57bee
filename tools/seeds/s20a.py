PROP='C20'
NEEDS='an odd distance and two target vertices in different rounds whose classes are merged only by the improvement phase, at distance exactly one below the requested one'
BREAKS='the improvement phase merges classes whose distance is two less than requested when the distance is odd'
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
EDITS=[('algorithms/lineargraph.rs','''                        if dist < distance {
                            // Cannot merge''','''                        if dist < 2*radius {
                            // Cannot merge''')]
DEMO='''
    // cycles and paths, all small distances
    for n in 3..14u32 { for d in 1..8u32 {
        let mut g = EditGraph::new();
        for v in 1..n { g.add_edge(&(v-1), &v); }
        let o = OrdGraph::with_ordering(&g, (0..n).collect::<Vec<_>>().iter());
        let cls = o.scattered_colouring(d, (0..n).collect::<Vec<_>>().iter());
        let mut seen = vec![0; n as usize];
        for c in &cls { for x in c { seen[*x as usize] += 1; for y in c { assert!(x == y || x.abs_diff(*y) >= d, "n {n} d {d}: {cls:?}"); } } }
        assert!(seen.iter().all(|k| *k == 1));
    } }
'''
