PROP='C19'
NEEDS='a target radius of 1 and a vertex that is weakly reachable from more than four (the cutoff) dominators chosen before it, so that it is added to the dominating set by the counter rule, and that itself has an earlier neighbour'
BREAKS='when a vertex joins the dominating set because of its counter, the distance recorded for the vertices weakly reachable from it is one too small, so a vertex outside the set is reported at distance 0'
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
EDITS=[('algorithms/lineargraph.rs','''                    for (x,xdist) in wreach.get(u).unwrap().iter() {
                        *dom_distance.get_mut(x).unwrap() = u32::min(dom_distance[x], *xdist);
                    }
                }
            }
        }

        if !witness''','''                    for (x,xdist) in wreach.get(u).unwrap().iter() {
                        *dom_distance.get_mut(x).unwrap() = u32::min(dom_distance[x], xdist.saturating_sub(dom_distance[u] + 1));
                    }
                }
            }
        }

        if !witness''')]
DEMO='''
    let mut g = EditGraph::new();
    g.add_edge(&0, &1);
    for l in 0..9u32 { g.add_edge(&1, &(20+l)); g.add_edge(&(2+l), &(20+l)); }
    let vs: Vec<u32> = (0..11u32).chain(20..29).collect();
    let o = OrdGraph::with_ordering(&g, vs.iter());
    let (dom, dist, _) = o.domset(1, false);
    assert!(dom.contains(&1), "{dom:?}");
    for v in vs {
        let mut d = u32::MAX;
        for c in dom.iter() { let e = if *c == v { 0 } else if g.adjacent(c, &v) { 1 } else { 2 }; d = d.min(e); }
        assert!(d <= 1);
        assert!(dist[&v] <= 1 && dist[&v] >= d, "{v} {} {d}", dist[&v]);
    }
'''
