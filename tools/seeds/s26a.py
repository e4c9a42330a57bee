PROP='C26'
NEEDS='a line with more than two tokens in a stream read through from_buf'
BREAKS='extra tokens on a line are ignored instead of giving an error'
EDITS=[('io.rs','''        let mut G = EditGraph::with_capacity(500);
        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.split_whitespace().collect();''','''        let mut G = EditGraph::with_capacity(500);
        for (lineno, line) in buf.lines().enumerate() {
            let l = line?;
            let tokens:Vec<&str> = l.split_whitespace().take(2).collect();''')]
DEMO='''assert!(EditGraph::from_buf(Box::new(std::io::Cursor::new(b"1 2\\n3 4 5\\n".to_vec()))).is_err());'''
PRE='use graphbench::io::*;'
