PROP='C05'
NEEDS='an in-neighbourhood query on a digraph in which a queried vertex carries a self-loop'
BREAKS='the in-neighbourhood contains a vertex of the query collection'
EDITS=[('graph.rs','''            res.extend(self.in_neighbours(v).cloned());
        }

        res.retain(|u| !centers.contains(u));
''','''            res.extend(self.in_neighbours(v).cloned());
        }

        res.retain(|u| !centers.contains(u) || self.has_arc(u, u));
''')]
DEMO='''let mut G = EditDigraph::new(); G.add_arc(&1,&1); G.add_arc(&2,&1);
assert_eq!(G.in_neighbourhood(vec![1u32]), vec![2].into_iter().collect::<VertexSet>());'''
