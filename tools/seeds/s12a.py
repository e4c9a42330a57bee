PROP='C12'
NEEDS='a graph whose remaining part at some point has smallest degree 129 (more than the degrees that have their own bucket)'
BREAKS='degrees 128 and 129 share a bucket that is reported as 128, so the reported upper bound is too small'
EDITS=[('algorithms/graph.rs','(max(0, (i as i32) - small + 1) as u32)','(max(0, (i as i32) - small) as u32)')]
DEMO='''for n in 120..140u32 { let G = EditGraph::clique(n); let (lo, hi, ord, _) = G.degeneracy(); assert_eq!(ord.len(), n as usize); assert!(lo <= n - 1 && n - 1 <= hi, "K_{n}: {lo} {hi}"); }'''
PRE='use graphbench::algorithms::*;'
