PROP='C09'
NEEDS='subdividing a graph with two or more edges at least twice per edge'
BREAKS='the fresh vertices of consecutive edges overlap'
EDITS=[('operations.rs','            free_id += times;','            free_id += if times > 2 { times - 1 } else { times };')]
DEMO='''let G = EditGraph::path(3); let R = G.subdivide(3); assert_eq!(R.num_vertices(), 9); assert_eq!(R.num_edges(), 8);'''
PRE=''
