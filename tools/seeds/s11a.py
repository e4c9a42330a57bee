PROP='C11'
NEEDS='a graph with a cycle whose closing edge is iterated before the last joining edge'
BREAKS='edges after the first one inside a component are ignored, components fall apart'
EDITS=[('algorithms/graph.rs','''                continue
            }

            // This returns a Result<()> but the potential 'error' (joining''','''                break
            }

            // This returns a Result<()> but the potential 'error' (joining''')]
DEMO='''let mut G = EditGraph::new(); for i in 0..40u32 { let b = 10*i; G.add_edge(&b,&(b+1)); G.add_edge(&(b+1),&(b+2)); G.add_edge(&b,&(b+2)); G.add_edge(&(b+2),&(b+3)); } assert_eq!(G.components().len(), 40);'''
PRE=''
