PROP='C27'
NEEDS='a colouring whose largest colour is below the number of its colours or has gaps'
BREAKS='the offset is the number of colours rather than the largest colour plus one, so the new colours collide with old ones'
EDITS=[('graph.rs','            let mut res = *colours.iter().max().unwrap();\n            res.inc();','            let mut res = T::zero();\n            for _ in colours.iter() { res.inc(); }')]
DEMO='''let mut a:VertexColouring<u32> = VertexColouring::from_iter([(0u32,0u32),(1,7)].into_iter()); let b:VertexColouring<u32> = VertexColouring::from_iter([(5u32,5u32)].into_iter());
a.disjoint_extend(&b); assert!(a.get(&5) != a.get(&1) && a.get(&5) != a.get(&0)); assert_eq!(*a.get(&5).unwrap(), 13);'''
