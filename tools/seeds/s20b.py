PROP='C20'
NEEDS='an odd distance of at least seven, and two scattered vertices of one round at distance exactly one below it where one of the two is the leftmost vertex on the path'
BREAKS='the auxiliary graph misses the edge between a chosen vertex and a vertex that reaches it at exactly twice the radius, for radii above two; the two can get the same colour'
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
EDITS=[('algorithms/lineargraph.rs','''                    if *dx > 2*radius {
                        continue''','''                    if *dx > 2*radius - (radius > 2) as u32 {
                        continue''')]
DEMO='''
    let mut s = 12345u64;
    let mut rnd = |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for n in 3..16u32 { for d in 1..10u32 { for _ in 0..40 {
        let mut g = EditGraph::new();
        for v in 1..n { g.add_edge(&(v-1), &v); }
        let mut p: Vec<u32> = (0..n).collect();
        for i in (1..p.len()).rev() { let j = rnd(i as u64 + 1) as usize; p.swap(i, j); }
        let o = OrdGraph::with_ordering(&g, p.iter());
        let cls = o.scattered_colouring(d, (0..n).collect::<Vec<_>>().iter());
        for c in &cls { for x in c { for y in c { assert!(x == y || x.abs_diff(*y) >= d, "n {n} d {d} {p:?}: {cls:?}"); } } }
    } } }
'''
