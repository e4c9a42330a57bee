PROP='C08'
NEEDS='a pair contraction whose two vertices have a common neighbour'
BREAKS='the contracted vertex loses the neighbours it had in common with the removed vertex'
EDITS=[('editgraph.rs','''            self.add_edge(u, &x);
        }
        self.remove_vertex(v);''','''            if !self.remove_edge(u, &x) { self.add_edge(u, &x); }
        }
        self.remove_vertex(v);''')]
DEMO='''let mut G = EditGraph::cycle(3); G.contract_pair(&0, &1); assert_eq!(G, EditGraph::from_iter([(0u32,2u32)].into_iter()));'''
