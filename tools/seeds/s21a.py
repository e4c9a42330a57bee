PROP='C21'
NEEDS='a pivot with at least two earlier neighbours among the candidates, and a later non-neighbour candidate adjacent to an already treated one'
BREAKS='a treated vertex is not excluded any more when the pivot has two or more earlier neighbours, so that non-maximal cliques are counted'
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
EDITS=[('algorithms/lineargraph.rs','''        maybe.remove(w);
        exclude.insert(*w);''','''        maybe.remove(w);
        if left_neighbours.len() < 2 {
            exclude.insert(*w);
        }''')]
DEMO='''
    let mut s = 99u64;
    let mut rnd = |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..400 {
        let n = 4 + rnd(6) as u32;
        let mut g = EditGraph::new();
        for u in 0..n { g.add_vertex(&u); for v in 0..u { if rnd(10) < 6 { g.add_edge(&u, &v); } } }
        let o = OrdGraph::with_ordering(&g, (0..n).collect::<Vec<_>>().iter());
        let cl = |c: u32| (0..n).all(|a| (0..a).all(|b| c >> a & 1 == 0 || c >> b & 1 == 0 || g.adjacent(&a, &b)));
        let mut want = 0u64;
        for c in 1u32..1 << n { if cl(c) && (0..n).all(|x| c >> x & 1 == 1 || !cl(c | 1 << x)) { want += 1; } }
        assert_eq!(o.count_max_cliques(), want);
    }
'''
