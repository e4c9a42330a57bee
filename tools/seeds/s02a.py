PROP='C02'
NEEDS='a vertex with a self-loop (and other arcs) is removed'
BREAKS='the arc counter is decremented twice for a self-loop when its vertex is removed'
EDITS=[('editdigraph.rs','''            for v in &N {
                self.remove_arc(u, v);
            }
''','''            for v in &N {
                self.in_adj.get_mut(v).unwrap().remove(u);
                self.in_degs.insert(*v, self.in_degs[v] - 1);
            }
            self.m -= N.len();
'''),('editdigraph.rs','''            for v in &N {
                self.remove_arc(v, u);
            }
''','''            for v in &N {
                self.remove_arc(v, u);
            }
            if self.out_adj[u].contains(u) && self.m > 0 { self.m -= 1; }
''')]
DEMO='''let mut G = EditDigraph::new(); G.add_arc(&1,&1); G.add_arc(&1,&2); G.add_arc(&3,&4); G.add_arc(&4,&3);
G.remove_vertex(&1); assert_eq!(G.num_edges(), 2);'''
