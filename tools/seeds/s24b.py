PROP='C24'
NEEDS='radius at least 2 and a vertex that joins the dominating set because of its counter, with an in-neighbour at weight 2 whose own neighbours rely on the recorded distance'
BREAKS='when a vertex joins the dominating set because of its counter, the distance recorded for its in-neighbours at weight 2 or more is one too small'
PRE='use graphbench::algorithms::*; use graphbench::dtfgraph::*;'
EDITS=[('dtfgraph.rs','''min(dom_distance[x],  rx);''','''min(dom_distance[x],  rx - rx / 2);''')]
DEMO='''
    let mut s = 5u64;
    let mut rnd = |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for round in 0..3000 {
        let mut g = EditGraph::new();
        let c = 1 + rnd(3) as u32;
        let mut n = c;
        for u in 0..c { for _ in 0..17 + rnd(8) { g.add_edge(&u, &n); n += 1; if rnd(2) == 0 { g.add_edge(&n, &(n-1)); n += 1; if rnd(2) == 0 { g.add_edge(&n, &(n-1)); n += 1; } } } }
        for _ in 0..rnd(20) { let x = rnd(n as u64) as u32; let y = rnd(n as u64) as u32; if x != y { g.add_edge(&x, &y); } }
        for radius in 2..4u32 {
            let mut h = DTFGraph::orient(&g);
            let dom = h.domset(radius);
            for u in 0..n {
                let mut dist = vec![u32::MAX; n as usize]; dist[u as usize] = 0;
                let mut q = vec![u]; let mut i = 0;
                while i < q.len() { let x = q[i]; i += 1; for y in g.neighbours(&x) { if dist[*y as usize] == u32::MAX { dist[*y as usize] = dist[x as usize] + 1; q.push(*y); } } }
                assert!(dom.iter().any(|d| dist[*d as usize] <= radius), "{round} {radius} {u}");
            }
        }
    }
'''
