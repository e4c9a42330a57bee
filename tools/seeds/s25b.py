PROP='C25'
NEEDS='a set all of whose subsets but one occur as traces often enough, the missing one not even as a counter'
BREAKS='is_shattered accepts a set of which exactly one subset is missing among the traces'
PRE='use graphbench::degengraph::*; use graphbench::datastructures::*;'
EDITS=[('datastructures/sreach_trace_oracle.rs','''        if traces.len() < num_neighbourhoods {
            return false
        }
''','''        // the empty trace needs no entry of its own
        if traces.len() + 1 < num_neighbourhoods {
            return false
        }
''')]
DEMO='''
    // every subset of {0,1,2} but one is the neighbourhood of two of the outer vertices
    for skip in 0..8u32 {
        let mut g = EditGraph::new();
        let mut order: Vec<u32> = vec![];
        let mut next = 3u32;
        for u in 0..3 { g.add_vertex(&u); order.push(u); }
        for s in 0..8u32 { if s != skip { for _ in 0..2 { g.add_vertex(&next); order.push(next); for u in 0..3 { if s >> u & 1 == 1 { g.add_edge(&u, &next); } } next += 1; } } }
        let d = DegenGraph::with_ordering(&g, order.iter());
        let oracle = SReachTraceOracle::for_graph(&d);
        assert!(!oracle.is_shattered([0u32, 1, 2], 3, &d), "{skip}");
    }
'''
