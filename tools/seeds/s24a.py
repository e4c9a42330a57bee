PROP='C24'
NEEDS='a vertex that is an in-neighbour of more than (2 radius)^2 dominators chosen before it, with an own in-neighbour that is not dominated otherwise'
BREAKS='a vertex whose counter exceeds the cutoff is not added to the dominating set any more, but its in-neighbours are still marked as dominated by it'
PRE='use graphbench::algorithms::*; use graphbench::dtfgraph::*;'
EDITS=[('dtfgraph.rs','''                        domset.insert(*u);
                        dom_distance.insert(*u, 0);
''','''                        if dom_distance[u] > r {
                            domset.insert(*u);
                            dom_distance.insert(*u, 0);
                        }
''')]
DEMO='''
    let mut s = 5u64;
    let mut rnd = |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for round in 0..3000 {
        let n = 12 + rnd(30) as u32;
        let mut g = EditGraph::new();
        for u in 0..n { g.add_vertex(&u); }
        for u in 4..n { for v in 0..4u32 { if rnd(3) == 0 { g.add_edge(&u, &v); } } if rnd(4) == 0 { let w = 4 + rnd((n - 4) as u64) as u32; if w != u { g.add_edge(&u, &w); } } }
        for radius in 0..3u32 {
            let mut h = DTFGraph::orient(&g);
            let dom = h.domset(radius);
            for u in 0..n {
                let mut dist = vec![u32::MAX; n as usize]; dist[u as usize] = 0;
                let mut q = vec![u]; let mut i = 0;
                while i < q.len() { let x = q[i]; i += 1; for y in g.neighbours(&x) { if dist[*y as usize] == u32::MAX { dist[*y as usize] = dist[x as usize] + 1; q.push(*y); } } }
                assert!(dom.iter().any(|d| dist[*d as usize] <= radius), "{round} {radius} {u}");
            }
        }
    }
'''
