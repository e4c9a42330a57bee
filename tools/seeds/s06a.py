PROP='C06'
NEEDS='an induced subgraph selecting a vertex with a self-loop'
BREAKS='the induced subgraph loses self-loops'
EDITS=[('graph.rs','''            for u in Nv.intersection(&selected) {
                G.add_edge(u, v);
''','''            for u in Nv.intersection(&selected) {
                if u == v && Nv.len() > 1 { continue }
                G.add_edge(u, v);
''')]
DEMO='''let mut G = EditGraph::new(); G.add_edge(&1,&1); G.add_edge(&1,&2); G.add_edge(&2,&3);
let H:EditGraph = G.subgraph(vec![1u32,2]); assert!(H.adjacent(&1,&1)); assert_eq!(H.num_edges(), 2);'''
