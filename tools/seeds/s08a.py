PROP='C08'
NEEDS='contracting a set that contains a vertex without neighbours'
BREAKS='isolated vertices of the contracted set stay in the graph'
EDITS=[('editgraph.rs','''        for v in contract {
            self.remove_vertex(&v);''','''        for v in contract {
            if self.degree(&v) == 0 { continue }
            self.remove_vertex(&v);''')]
DEMO='''let mut G = EditGraph::path(3); G.add_vertex(&7); G.contract_into(&1, [0u32, 7].iter()); assert_eq!(G, EditGraph::from_iter([(1u32,2u32)].into_iter()));'''
