PROP='C19'
NEEDS='a radius above four and a target vertex next to a vertex outside the target, earlier in the ordering'
BREAKS='vertices outside the target are marked with a distance capped at four, so that for larger radii a target vertex next to one counts as dominated although no chosen vertex is near'
PRE='use graphbench::algorithms::*; use graphbench::ordgraph::*;'
EDITS=[('algorithms/lineargraph.rs','''                // no neighbour is marked as dominated because of this trick.
                dom_distance.insert(*v, radius);
                dom_counter.insert(*v, 0);
            }
        }

        for v in order {''','''                // no neighbour is marked as dominated because of this trick.
                dom_distance.insert(*v, radius.min(4));
                dom_counter.insert(*v, 0);
            }
        }

        for v in order {''')]
DEMO='''
    for r in 0..8u32 {
        let mut g = EditGraph::new();
        for v in 1..6u32 { g.add_edge(&(v-1), &v); }
        let o = OrdGraph::with_ordering(&g, (0..6u32).collect::<Vec<_>>().iter());
        let (dom, dist, _) = o.domset_with_target(r, false, [3u32].iter());
        assert!(dom.iter().any(|c| c.abs_diff(3) <= r), "radius {r}: {dom:?}");
        assert!(dist[&3] <= r);
    }
'''
