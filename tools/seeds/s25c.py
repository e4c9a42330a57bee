PROP='C25'
NEEDS='a left neighbour of a query vertex that has more left neighbours than the query has members and whose only neighbours in the query lie to its right'
BREAKS='compute_neighbour_count scans the query instead of the left neighbours of a vertex when the query is shorter, but tests plain adjacency instead of adjacency to the left'
PRE='use graphbench::degengraph::*; use graphbench::datastructures::*;'
EDITS=[('datastructures/sreach_trace_oracle.rs','''            for w in graph.left_neighbours_slice(&u) {
                if inner.contains(w) {
''','''            let left = graph.left_neighbours_slice(&u);
            let shorter = if left.len() <= inner.len() { left } else { inner };
            for w in shorter {
                if inner.contains(w) && graph.adjacent(w, &u) {
''')]
exec(open('/verif/tools/seeds/s25a.py').read().split("DEMO=")[1].join(["DEMO=",""]))
