PROP='C03'
NEEDS='a complete multipartite graph with an empty part before two non-empty ones'
BREAKS='the ids after an empty part overlap with the previous part'
EDITS=[('editgraph.rs','''            for j in (i+1)..ranges.len() {
                let (leftB,rightB) = ranges[j];
''','''            for j in (i+1)..ranges.len() {
                let (leftB,rightB) = ranges[j];
                if leftA == leftB || leftB == rightB { break }
''')]
DEMO='''let G = EditGraph::complete_kpartite([2u32,0,3].iter()); assert_eq!(G.num_vertices(), 5); assert_eq!(G.num_edges(), 6);'''
