PROP='C25'
NEEDS='a query whose vertices are not in ascending order of their names in the graph order, with a query vertex that the search by name misses'
BREAKS='compute_neighbour_count decides membership in the query by a binary search by vertex name, although queries are sorted by position in the graph order'
PRE='use graphbench::degengraph::*; use graphbench::datastructures::*;'
EDITS=[('datastructures/sreach_trace_oracle.rs','''            let is_inner = inner.contains(&u);

            for w in graph.left_neighbours_slice(&u) {
''','''            let is_inner = inner.binary_search(&u).is_ok();

            for w in graph.left_neighbours_slice(&u) {
''')]
DEMO='''
    let mut s = 7u64;
    let mut rnd = |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for round in 0..500 {
        let n = 3 + rnd(9) as u32;
        let mut g = EditGraph::new();
        for u in 0..n { g.add_vertex(&u); }
        for u in 0..n { for v in 0..u { if rnd(3) == 0 { g.add_edge(&u, &v); } } }
        let mut order: Vec<u32> = (0..n).collect();
        for i in (1..n as usize).rev() { let j = rnd(i as u64 + 1) as usize; order.swap(i, j); }
        let d = DegenGraph::with_ordering(&g, order.iter());
        let oracle = SReachTraceOracle::for_graph(&d);
        let mut q: Vec<u32> = d.vertices().cloned().filter(|_| rnd(2) == 0).collect();
        q.sort_by_key(|x| d.index_of(x));
        let want = (0..n).filter(|x| !q.contains(x) && q.iter().any(|u| g.adjacent(u, x))).count();
        assert_eq!(oracle.compute_neighbour_count(&q, &d), want, "{round}");
    }
'''
