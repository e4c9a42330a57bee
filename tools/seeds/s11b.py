PROP='C11'
NEEDS='a graph with an isolated vertex and at least one edge'
BREAKS='isolated vertices belong to no component'
EDITS=[('algorithms/graph.rs','''        for v in self.vertices() {
            // This returns a Result<()> but the potential 'error' (adding''','''        let edgeless = self.num_edges() == 0;
        for v in self.vertices().filter(|v| edgeless || self.degree(v) > 0) {
            // This returns a Result<()> but the potential 'error' (adding''')]
DEMO='''let mut G = EditGraph::path(3); G.add_vertex(&9); assert_eq!(G.components().len(), 2);'''
PRE=''
