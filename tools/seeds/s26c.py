PROP='C26'
NEEDS='a graph with a loop, written and read back'
BREAKS='loops are skipped when a graph is written'
EDITS=[('io.rs','''        for (u,v) in self.edges() {
            buf.write_all''','''        for (u,v) in self.edges().filter(|(u,v)| u != v) {
            buf.write_all''')]
DEMO='''let mut g = EditGraph::from_iter(vec![(1u32,2u32)].into_iter()); g.add_edge(&3,&3); let f = std::env::temp_dir().join(format!("vp_s26c_{}.txt", std::process::id())); let f = f.to_str().unwrap(); g.write_txt(f).unwrap(); let h = EditGraph::from_txt(f).unwrap(); std::fs::remove_file(f).unwrap(); assert!(h.adjacent(&3,&3)); assert_eq!(h.num_edges(), 2);'''
PRE='use graphbench::io::*;'
