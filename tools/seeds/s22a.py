PROP='C22'
NEEDS='a pair with a long direct arc (depth at least 4) that also has a common in-neighbour with a larger and a smaller weight adding up to less'
BREAKS='the short-distance query stops looking for common in-neighbours as soon as twice the weight reaches the best distance known, so it returns a distance that is too large'
PRE='use graphbench::algorithms::*; use graphbench::dtfgraph::*;'
EDITS=[('dtfgraph.rs','''        for d in 1..(self.depth+1) {
            for x in self.in_neighbours_at(u, d) {
                if Nv''','''        for d in 1..(self.depth+1) {
            if 2 * d as u32 >= dist {
                break
            }
            for x in self.in_neighbours_at(u, d) {
                if Nv''')]
DEMO='''
    let mut s = 99u64;
    let mut rnd = |n: u64| { s = s.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); (s >> 33) % n };
    for _ in 0..600 {
        let n = 6 + rnd(9) as u32;
        let mut g = EditGraph::new();
        for u in 0..n { g.add_vertex(&u); for v in 0..u { if rnd(n as u64) < 2 { g.add_edge(&u, &v); } } }
        for depth in 2..7usize {
            let mut h = DTFGraph::orient(&g);
            h.augment(depth, 1 + rnd(3) as usize);
            for u in 0..n {
                let mut dist = vec![u32::MAX; n as usize]; dist[u as usize] = 0;
                let mut q = vec![u]; let mut i = 0;
                while i < q.len() { let x = q[i]; i += 1; for y in g.neighbours(&x) { if dist[*y as usize] == u32::MAX { dist[*y as usize] = dist[x as usize] + 1; q.push(*y); } } }
                for v in 0..n { if u != v {
                    let want = if dist[v as usize] as usize <= depth { Some(dist[v as usize]) } else { None };
                    assert_eq!(h.small_distance(&u, &v), want);
                } }
            }
        }
    }
'''
