PROP='C02'
NEEDS='an arc u->v is inserted while v->u exists, then v->u is removed'
BREAKS='removing an arc also drops the in-entry of the antiparallel arc, so in- and out-neighbourhoods no longer mirror each other'
EDITS=[('editdigraph.rs','''            self.in_adj.get_mut(v).unwrap().remove(u);
            self.out_degs.insert(*u, self.out_degs[u] - 1);
''','''            self.in_adj.get_mut(v).unwrap().remove(u);
            if self.in_degs[u] == 1 { self.in_adj.get_mut(u).unwrap().remove(v); }
            self.out_degs.insert(*u, self.out_degs[u] - 1);
''')]
DEMO='''let mut G = EditDigraph::new(); G.add_arc(&1,&2); G.add_arc(&2,&1); G.remove_arc(&1,&2);
assert_eq!(G.in_neighbours(&1).count(), 1); assert_eq!(G.in_degree(&1), 1);'''
