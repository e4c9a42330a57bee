PROP='C26'
NEEDS='a line holding a negative number'
BREAKS='negative numbers are accepted and wrap around'
EDITS=[('io.rs','''    match s.parse::<Vertex>() {
        Ok(x) => Ok(x),''','''    match s.parse::<i64>() {
        Ok(x) if x <= Vertex::MAX as i64 => Ok(x as Vertex),
        Ok(_) => Err(io::Error::new(io::ErrorKind::InvalidData, "vertex id out of range")),''')]
DEMO='''assert!(Vec::<u32>::from_buf(Box::new(std::io::Cursor::new(b"1\\n-2\\n".to_vec()))).is_err());'''
PRE='use graphbench::io::*;'
