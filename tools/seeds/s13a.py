PROP='C13'
NEEDS='an odd cycle whose two tree paths share exactly the right number of vertices above their first common vertex (the shared part has at least four vertices)'
BREAKS='the shared part is not removed completely from the two paths, so the reported cycle repeats vertices or is no cycle'
EDITS=[('algorithms/graph.rs','                path1.pop();\n                path2.pop();\n','                path1.pop();\n                path2.pop();\n                if path2.len() == 3 { break }\n')]
DEMO='''for n in 0..30u32 { for r in 0..7u32 { let m = |x: u32| (x + r) % 7 + n; let G: EditGraph = EditGraph::from_iter(vec![(m(0),m(1)),(m(1),m(2)),(m(2),m(3)),(m(3),m(4)),(m(4),m(5)),(m(5),m(6)),(m(6),m(4))].into_iter()); match G.is_bipartite() { BipartiteWitness::OddCycle(c) => { assert_eq!(c.len(), 3, "{c:?}"); for i in 0..3 { assert!(G.adjacent(&c[i], &c[(i+1)%3])); } }, _ => panic!("not bipartite") } } }'''
PRE='use graphbench::algorithms::*;'
