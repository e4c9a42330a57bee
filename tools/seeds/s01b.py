PROP='C01'
NEEDS='removing a vertex without neighbours and looking at the returned flag'
BREAKS='remove_vertex reports that nothing changed although the isolated vertex was removed'
EDITS=[('editgraph.rs','''            self.adj.remove(u);
            self.degs.remove(u);

            true
''','''            self.adj.remove(u);
            self.degs.remove(u);

            !N.is_empty()
''')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&5,&5); G.add_vertex(&6); assert!(G.remove_vertex(&5)); assert!(G.remove_vertex(&6));'''
