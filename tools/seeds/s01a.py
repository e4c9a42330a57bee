PROP='C01'
NEEDS='a vertex that carries a self-loop is removed and the same id is inserted again'
BREAKS='remove_vertex leaves a stale degree entry, so the re-inserted vertex reports a wrong degree'
EDITS=[('editgraph.rs','''            self.adj.remove(u);
            self.degs.remove(u);
''','''            self.adj.remove(u);
            if !N.contains(u) {
                self.degs.remove(u);
            }
'''),('editgraph.rs','''            self.adj.insert(*u, FxHashSet::default());
            self.degs.insert(*u, 0);
''','''            self.adj.insert(*u, FxHashSet::default());
            self.degs.entry(*u).or_insert(0);
''')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&1,&1); G.add_edge(&1,&2);
G.remove_vertex(&1); G.add_vertex(&1); assert_eq!(G.degree(&1), 0);'''
