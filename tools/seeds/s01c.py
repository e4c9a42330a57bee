PROP='C01'
NEEDS='removing a vertex that has a self-loop and other neighbours'
BREAKS='remove_vertex counts the self-loop twice when it updates the number of edges'
EDITS=[('editgraph.rs','''                self.degs.insert(*v, self.degs[v] - 1);
                self.m -= 1;
            }
''','''                self.degs.insert(*v, self.degs[v] - 1);
            }
            self.m -= self.degree(u) as usize - if N.contains(u) && self.degs[u] > 1 { 1 } else { 0 };
''')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&5,&5); G.add_edge(&5,&6); G.add_edge(&6,&7); G.remove_vertex(&5); assert_eq!(G.num_edges(), 1);'''
