PROP='C06'
NEEDS='remove_isolates on a graph in which a vertex is isolated only except for a self-loop'
BREAKS='a vertex whose only edge is a self-loop is removed as isolated'
EDITS=[('graph.rs','''    fn remove_isolates(&mut self) -> usize {
        let cands:Vec<_> = self.vertices().filter(|&u| self.degree(u) == 0).cloned().collect();
        let res = cands.len();
        for u in cands.into_iter() {
            self.remove_vertex(&u);
        }

        res
    }
}

/// Trait for static digraphs.''','''    fn remove_isolates(&mut self) -> usize {
        let cands:Vec<_> = self.vertices().filter(|&u| self.neighbours(u).all(|v| v == u)).cloned().collect();
        let res = cands.len();
        for u in cands.into_iter() {
            self.remove_vertex(&u);
        }

        res
    }
}

/// Trait for static digraphs.''')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&1,&1); G.add_vertex(&2); assert_eq!(G.remove_isolates(), 1); assert!(G.contains(&1));'''
