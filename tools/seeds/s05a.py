PROP='C05'
NEEDS='the ball query at radius at least 2 where a vertex at distance 2 exists beyond a frontier vertex of degree 2 or less'
BREAKS='r_neighbourhood stops growing when an early round adds only one vertex'
EDITS=[('graph.rs','''            let ext = self.closed_neighbourhood(res.iter());
            res.extend(ext);
''','''            let before = res.len();
            let ext = self.closed_neighbourhood(res.iter());
            res.extend(ext);
            if before > 2 && res.len() == before + 1 { break; }
''')]
DEMO='''let G = EditGraph::path(9); assert_eq!(G.r_neighbours(&1, 5), (0..7).collect::<VertexSet>());'''
