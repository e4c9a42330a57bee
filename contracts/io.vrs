verus! {
//@ props C26
// ===================================================================== dialect: text, numbers, readers and writers
// characters
/// value of a decimal digit, 10 for any other character
pub open spec fn dv(c: char) -> nat { if c == '0' { 0 } else if c == '1' { 1 } else if c == '2' { 2 } else if c == '3' { 3 } else if c == '4' { 4 } else if c == '5' { 5 } else if c == '6' { 6 } else if c == '7' { 7 } else if c == '8' { 8 } else if c == '9' { 9 } else { 10 } }
pub open spec fn dch(d: nat) -> char { if d == 0 { '0' } else if d == 1 { '1' } else if d == 2 { '2' } else if d == 3 { '3' } else if d == 4 { '4' } else if d == 5 { '5' } else if d == 6 { '6' } else if d == 7 { '7' } else if d == 8 { '8' } else { '9' } }
/// Unicode white space
pub open spec fn ws(c: char) -> bool { let n = c as u32; 9 <= n <= 13 || n == 0x20 || n == 0x85 || n == 0xa0 || n == 0x1680 || 0x2000 <= n <= 0x200a || n == 0x2028 || n == 0x2029 || n == 0x202f || n == 0x205f || n == 0x3000 }
// numbers
pub open spec fn alldig(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> dv(#[trigger] s[i]) < 10 }
pub open spec fn dval(s: Seq<char>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { 10 * dval(s.drop_last()) + dv(s.last()) } }
/// an unsigned 32-bit number: an optional plus sign and at least one decimal digit
pub open spec fn unum(s: Seq<char>) -> Option<Vertex> {
    let t = if s.len() > 0 && s[0] == '+' { s.drop_first() } else { s };
    if t.len() > 0 && alldig(t) && dval(t) <= u32::MAX { Some(dval(t) as u32) } else { None }
}
/// decimal representation
pub open spec fn dec(n: nat) -> Seq<char> decreases n { if n < 10 { seq![dch(n)] } else { dec(n / 10).push(dch(n % 10)) } }
// text
pub open spec fn trimmed(s: Seq<char>) -> Seq<char> decreases s.len() {
    if s.len() > 0 && ws(s[0]) { trimmed(s.drop_first()) } else if s.len() > 0 && ws(s.last()) { trimmed(s.drop_last()) } else { s }
}
pub open spec fn piece(c: Seq<char>) -> Seq<Seq<char>> { if c.len() == 0 { Seq::empty() } else { seq![c] } }
/// the maximal runs of non-space characters of c followed by s, c having none
pub open spec fn toks(s: Seq<char>, c: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { piece(c) } else if ws(s[0]) { piece(c) + toks(s.drop_first(), Seq::empty()) } else { toks(s.drop_first(), c.push(s[0])) }
}
pub open spec fn tokens_of(s: Seq<char>) -> Seq<Seq<char>> { toks(s, Seq::empty()) }
pub open spec fn nocr(c: Seq<char>) -> Seq<char> { if c.len() > 0 && c.last() == '\r' { c.drop_last() } else { c } }
/// the lines of c followed by s, as BufRead::lines splits them
pub open spec fn tlines(s: Seq<char>, c: Seq<char>) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { piece(c) } else if s[0] == '\n' { seq![nocr(c)] + tlines(s.drop_first(), Seq::empty()) } else { tlines(s.drop_first(), c.push(s[0])) }
}
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>> { tlines(s, Seq::empty()) }

pub mod io {
    pub struct Error;
    pub enum ErrorKind { InvalidData, InvalidInput, UnexpectedEof, Other }
    pub type Result<T> = core::result::Result<T, Error>;
}
impl io::Error {
    #[verifier::external_body]
    pub fn new(kind: io::ErrorKind, text: String) -> io::Error { unimplemented!() }
}
pub struct VxParseErr;
pub trait VxParse : Sized { spec fn parsed(s: Seq<char>) -> Option<Self>; }
impl VxParse for u32 { open spec fn parsed(s: Seq<char>) -> Option<u32> { unum(s) } }
pub trait VxStr {
    spec fn txt(&self) -> Seq<char>;
    fn vx_trim(&self) -> (r: &str) ensures r@ == trimmed(self.txt());
    fn vx_split_whitespace(&self) -> (r: It<&str>) ensures r.pos() == 0, r.seq().len() == tokens_of(self.txt()).len(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i])@ == tokens_of(self.txt())[i];
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseErr>) ensures r is Ok <==> T::parsed(self.txt()) is Some, r is Ok ==> T::parsed(self.txt()) == Some(r->Ok_0);
    fn vx_as_bytes(&self) -> (r: VxBytes) ensures r.txt() == self.txt();
}
impl VxStr for str {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_whitespace(&self) -> (r: It<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseErr>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: VxBytes) { unimplemented!() }
}
impl VxStr for String {
    open spec fn txt(&self) -> Seq<char> { self@ }
    #[verifier::external_body]
    fn vx_trim(&self) -> (r: &str) { unimplemented!() }
    #[verifier::external_body]
    fn vx_split_whitespace(&self) -> (r: It<&str>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_parse<T: VxParse>(&self) -> (r: Result<T, VxParseErr>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_as_bytes(&self) -> (r: VxBytes) { unimplemented!() }
}
/// the UTF-8 encoding of a text
#[verifier::external_body]
pub struct VxBytes { p: core::marker::PhantomData<u8> }
impl VxBytes { pub uninterp spec fn txt(&self) -> Seq<char>; }
// formatting
pub trait VxDisp { spec fn shown(&self) -> Seq<char>; }
impl VxDisp for u32 { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxDisp for usize { open spec fn shown(&self) -> Seq<char> { dec(*self as nat) } }
impl VxDisp for str { open spec fn shown(&self) -> Seq<char> { self@ } }
impl<T: VxDisp + ?Sized> VxDisp for &T { open spec fn shown(&self) -> Seq<char> { (**self).shown() } }
#[verifier::external_body]
pub fn vx_lit(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_disp<T: VxDisp>(x: &T) -> (r: String) ensures r@ == x.shown() { unimplemented!() }
#[verifier::external_body]
pub fn vx_cat(a: String, b: String) -> (r: String) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vx_format() -> String { unimplemented!() }
#[verifier::external_body]
pub fn vx_fmul(x: f32, y: f32) -> f32 { unimplemented!() }
#[verifier::external_body]
pub fn vx_est(x: f32) -> usize { unimplemented!() }
// readers: the results of reading the lines one by one (None: a read failure or text that is not UTF-8)
pub type Lines = Seq<Option<Seq<char>>>;
pub trait BufRead : Sized { spec fn lns(&self) -> Lines; }
#[verifier::external_body]
pub struct VxBufRead { p: core::marker::PhantomData<u8> }
impl VxBufRead { pub uninterp spec fn lns0(&self) -> Lines; pub fn vx_box(self) -> (r: Self) ensures r == self { self } }
impl BufRead for VxBufRead { open spec fn lns(&self) -> Lines { self.lns0() } }
pub open spec fn line_of(r: io::Result<String>) -> Option<Seq<char>> { match r { Ok(s) => Some(s@), Err(_) => None } }
pub trait VxLines : Sized {
    spec fn all(&self) -> Lines;
    fn vx_lines(self) -> (r: It<io::Result<String>>) ensures r.pos() == 0, r.seq().len() == self.all().len(), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] line_of(r.seq()[i]) == self.all()[i];
}
impl VxLines for VxBufRead {
    open spec fn all(&self) -> Lines { self.lns() }
    #[verifier::external_body]
    fn vx_lines(self) -> (r: It<io::Result<String>>) { unimplemented!() }
}
impl<R: BufRead> VxLines for &mut R {
    open spec fn all(&self) -> Lines { (**self).lns() }
    #[verifier::external_body]
    fn vx_lines(self) -> (r: It<io::Result<String>>) { unimplemented!() }
}
// files: the state of the file system while a reading function runs is fixed
/// the file can be opened and examined
pub uninterp spec fn fs_ok(name: Seq<char>) -> bool;
/// its lines, read as text / decompressed and then read as text
pub uninterp spec fn fs_lines(name: Seq<char>) -> Lines;
pub uninterp spec fn gz_lines(name: Seq<char>) -> Lines;
/// the extension of a path
pub uninterp spec fn path_ext(name: Seq<char>) -> Option<Seq<char>>;
pub trait VxPath { spec fn name(&self) -> Seq<char>; }
impl VxPath for &str { open spec fn name(&self) -> Seq<char> { (*self)@ } }
impl VxPath for Path { open spec fn name(&self) -> Seq<char> { self.name0() } }
#[verifier::external_body]
pub struct Path { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct VxExt { p: core::marker::PhantomData<u8> }
impl VxExt {
    pub uninterp spec fn ext(&self) -> Option<Seq<char>>;
    #[verifier::external_body]
    pub fn vx_to_str(self) -> (r: Option<String>) ensures r is Some <==> self.ext() is Some, r is Some ==> self.ext() == Some(r->0@) { unimplemented!() }
}
impl Path {
    pub uninterp spec fn name0(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(s: &&str) -> (r: Path) ensures r.name() == s@ { unimplemented!() }
    #[verifier::external_body]
    pub fn extension(&self) -> (r: VxExt) ensures r.ext() == path_ext(self.name()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_is_str(x: &Option<String>, l: &str) -> (r: bool) ensures r == (x is Some && x->0@ == l@) { unimplemented!() }
#[verifier::external_body]
pub struct File { p: core::marker::PhantomData<u8> }
#[verifier::external_body]
pub struct Metadata { p: core::marker::PhantomData<u8> }
impl Metadata {
    #[verifier::external_body]
    pub fn len(&self) -> u64 { unimplemented!() }
}
impl File {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn open<P: VxPath>(p: P) -> (r: io::Result<File>) ensures r is Ok ==> r->Ok_0.name() == p.name(), r is Err ==> !fs_ok(p.name()) { unimplemented!() }
    #[verifier::external_body]
    pub fn metadata(&self) -> (r: io::Result<Metadata>) ensures r is Err ==> !fs_ok(self.name()) { unimplemented!() }
}
pub trait VxByteSource { spec fn bls(&self) -> Lines; }
impl VxByteSource for File { open spec fn bls(&self) -> Lines { fs_lines(self.name()) } }
#[verifier::external_body]
pub struct GzDecoder { p: core::marker::PhantomData<u8> }
impl GzDecoder {
    pub uninterp spec fn name(&self) -> Seq<char>;
    #[verifier::external_body]
    pub fn new(f: File) -> (r: GzDecoder) ensures r.name() == f.name() { unimplemented!() }
}
impl VxByteSource for GzDecoder { open spec fn bls(&self) -> Lines { gz_lines(self.name()) } }
pub struct BufReader;
impl BufReader {
    #[verifier::external_body]
    pub fn new<R: VxByteSource>(f: R) -> (r: VxBufRead) ensures r.lns() == f.bls() { unimplemented!() }
}
// writers: the text handed over so far, and whether it has all been passed on
#[verifier::external_body]
pub struct VxWrite { p: core::marker::PhantomData<u8> }
impl VxWrite {
    pub uninterp spec fn sent(&self) -> Seq<char>;
    pub uninterp spec fn flushed(&self) -> bool;
    #[verifier::external_body]
    pub fn write_all(&mut self, b: VxBytes) -> (r: io::Result<()>) ensures r is Ok ==> final(self).sent() == old(self).sent() + b.txt() { unimplemented!() }
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: io::Result<()>) ensures final(self).sent() == old(self).sent(), r is Ok ==> final(self).flushed() { unimplemented!() }
}
// ===================================================================== vertices and edges on lines
pub open spec fn vline(l: Option<Seq<char>>) -> Option<Vertex> { match l { Some(t) => unum(trimmed(t)), None => None } }
pub open spec fn eline(l: Option<Seq<char>>) -> Option<Edge> {
    match l { Some(t) => if tokens_of(t).len() == 2 { match (unum(tokens_of(t)[0]), unum(tokens_of(t)[1])) { (Some(u), Some(v)) => Some((u, v)), _ => None } } else { None }, None => None }
}
pub open spec fn vlines(ls: Lines) -> Seq<Vertex> { ls.map_values(|l: Option<Seq<char>>| vline(l)->0) }
pub open spec fn elines(ls: Lines) -> Seq<Edge> { ls.map_values(|l: Option<Seq<char>>| eline(l)->0) }
pub open spec fn all_v(ls: Lines) -> bool { forall|i: int| 0 <= i < ls.len() ==> vline(#[trigger] ls[i]) is Some }
pub open spec fn all_e(ls: Lines) -> bool { forall|i: int| 0 <= i < ls.len() ==> eline(#[trigger] ls[i]) is Some }
/// g is the graph of the listed edges
pub open spec fn eg_of(s: Seq<Edge>, g: EditGraph) -> bool {
    g.wf() && (forall|x: Vertex| #[trigger] g.vs().contains(x) <==> is_end(s, x)) && forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) <==> in_edges(s, x, y)
}
pub open spec fn pre_lines(s: Seq<(usize, io::Result<String>)>, ls: Lines) -> bool { s.len() == ls.len() && forall|i: int| 0 <= i < s.len() ==> line_of((#[trigger] s[i]).1) == ls[i] }
pub proof fn lemma_elines_step(ls: Lines, n: nat)
    requires n < ls.len()
    ensures elines(ls).take(n as int + 1) == elines(ls).take(n as int).push(eline(ls[n as int])->0), vlines(ls).take(n as int + 1) == vlines(ls).take(n as int).push(vline(ls[n as int])->0)
{ assert(elines(ls).take(n as int + 1) =~= elines(ls).take(n as int).push(eline(ls[n as int])->0)); assert(vlines(ls).take(n as int + 1) =~= vlines(ls).take(n as int).push(vline(ls[n as int])->0)); }
/// one more edge
pub proof fn lemma_eg_step(ls: Lines, n: nat, a: EditGraph, b: EditGraph, u: Vertex, v: Vertex)
    requires n < ls.len(), eg_of(elines(ls).take(n as int), a), eline(ls[n as int]) == Some((u, v)), b.wf(), b.vs() == a.vs().insert(u).insert(v),
        forall|x: Vertex, y: Vertex| #[trigger] b.adj(x, y) == (a.adj(x, y) || (x == u && y == v) || (x == v && y == u))
    ensures eg_of(elines(ls).take(n as int + 1), b)
{
    let s = elines(ls); lemma_is_end_step(s, n); lemma_elines_step(ls, n); assert(s[n as int] == (u, v));
    let p = s.take(n as int); let q = p.push((u, v)); lemma_push_contains(p, (u, v));
    assert forall|x: Vertex, y: Vertex| #[trigger] b.adj(x, y) <==> in_edges(s.take(n as int + 1), x, y) by {
        assert(a.adj(x, y) <==> in_edges(p, x, y));
        assert(q.contains((x, y)) <==> p.contains((x, y)) || (x, y) == (u, v)); assert(q.contains((y, x)) <==> p.contains((y, x)) || (y, x) == (u, v));
    }
}
pub proof fn lemma_eg_none(g: EditGraph, s: Seq<Edge>)
    requires g.wf(), g.vs() == Set::<Vertex>::empty(), forall|x: Vertex, y: Vertex| !#[trigger] g.adj(x, y)
    ensures eg_of(s.take(0), g)
{ assert forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) <==> in_edges(s.take(0), x, y) by { assert(!g.adj(x, y)); } }

//@ fn io.rs free parse_vertex
//@ ensures r is Ok <==> unum(s@) is Some, r is Ok ==> unum(s@) == Some(r->Ok_0)
//@ end
//@ fn io.rs free open_reader_txt
//@ ensures r is Ok ==> r->Ok_0.lns() == fs_lines(filename@), r is Err ==> !fs_ok(filename@)
//@ end
//@ fn io.rs free open_reader_gzip
//@ ensures r is Ok ==> r->Ok_0.lns() == gz_lines(filename@), r is Err ==> !fs_ok(filename@)
//@ end
/// what `from_file` reads: by the extension of the name
pub open spec fn file_lines(name: Seq<char>) -> Lines { if path_ext(name) == Some("gz"@) { gz_lines(name) } else { fs_lines(name) } }
pub open spec fn known_ext(name: Seq<char>) -> bool { path_ext(name) == Some("gz"@) || path_ext(name) == Some("txt"@) }
//@ fn io.rs free open_reader
//@ ensures r is Ok ==> known_ext(filename@) && r->Ok_0.lns() == file_lines(filename@), r is Err ==> !fs_ok(filename@) || !known_ext(filename@)
//@ hint start
    proof { reveal_strlit("txt"); reveal_strlit("gz"); assert("txt"@.len() == 3 && "gz"@.len() == 2); }
//@ end
pub trait LoadFromFile : Sized {
    /// every line is acceptable
    spec fn readable(ls: Lines) -> bool;
    /// the value the lines describe
    spec fn read_as(ls: Lines, r: Self) -> bool;
//@ fn io.rs trait:LoadFromFile from_buf
//@ ensures r is Ok <==> Self::readable(buf.lns()), r is Ok ==> Self::read_as(buf.lns(), r->Ok_0)
//@ end
//@ fn io.rs trait:LoadFromFile from_txt
//@ ensures r is Ok ==> Self::readable(fs_lines(filename@)) && Self::read_as(fs_lines(filename@), r->Ok_0), r is Err ==> !fs_ok(filename@) || !Self::readable(fs_lines(filename@))
//@ end
//@ fn io.rs trait:LoadFromFile from_gzipped
//@ ensures r is Ok ==> Self::readable(gz_lines(filename@)) && Self::read_as(gz_lines(filename@), r->Ok_0), r is Err ==> !fs_ok(filename@) || !Self::readable(gz_lines(filename@))
//@ end
//@ fn io.rs trait:LoadFromFile from_file
//@ ensures r is Ok ==> known_ext(filename@) && Self::readable(file_lines(filename@)) && Self::read_as(file_lines(filename@), r->Ok_0), r is Err ==> !fs_ok(filename@) || !known_ext(filename@) || !Self::readable(file_lines(filename@))
//@ end
}
impl LoadFromFile for VertexSet {
    open spec fn readable(ls: Lines) -> bool { all_v(ls) }
    open spec fn read_as(ls: Lines, r: Self) -> bool { r@ == vlines(ls).to_set() }
//@ fn io.rs impl:LoadFromFile:VertexSet from_buf
//@ hint loop1.before
    let ghost ls = buf.lns();
    proof { assert(vlines(ls).take(0).to_set() =~= Set::<Vertex>::empty()); }
//@ loop 1
    pre_lines(it1_s, ls), forall|i: int| 0 <= i < it1.pos() ==> vline(#[trigger] ls[i]) is Some, res@ == vlines(ls).take(it1.pos() as int).to_set()
//@ hint loop1.start
    proof { assert(line_of(it1_s[it1.pos() - 1].1) == ls[it1.pos() - 1]); }
//@ hint loop1.end
    proof { let n = (it1.pos() - 1) as nat; lemma_elines_step(ls, n); lemma_push_contains(vlines(ls).take(n as int), u); assert(res@ =~= vlines(ls).take(n as int + 1).to_set()); }
//@ hint end
    proof { assert(vlines(ls).take(ls.len() as int) =~= vlines(ls)); }
//@ end
}
impl LoadFromFile for Vec<Vertex> {
    open spec fn readable(ls: Lines) -> bool { all_v(ls) }
    open spec fn read_as(ls: Lines, r: Self) -> bool { r@ == vlines(ls) }
//@ fn io.rs impl:LoadFromFile:Vec from_buf
//@ hint loop1.before
    let ghost ls = buf.lns();
//@ loop 1
    pre_lines(it1_s, ls), forall|i: int| 0 <= i < it1.pos() ==> vline(#[trigger] ls[i]) is Some, res@ == vlines(ls).take(it1.pos() as int)
//@ hint loop1.start
    proof { assert(line_of(it1_s[it1.pos() - 1].1) == ls[it1.pos() - 1]); }
//@ hint loop1.end
    proof { let n = (it1.pos() - 1) as nat; lemma_elines_step(ls, n); }
//@ hint end
    proof { assert(vlines(ls).take(ls.len() as int) =~= vlines(ls)); }
//@ end
}
impl EditGraph {
//@ fn io.rs impl:EditGraph from_buf_with_estimate
//@ ensures r is Ok <==> all_e(old(reader).lns()), r is Ok ==> eg_of(elines(old(reader).lns()), r->Ok_0)
//@ hint loop1.before
    let ghost ls = reader.lns();
    proof { lemma_eg_none(G, elines(ls)); }
//@ loop 1
    pre_lines(it1_s, ls), forall|i: int| 0 <= i < it1.pos() ==> eline(#[trigger] ls[i]) is Some, eg_of(elines(ls).take(it1.pos() as int), G)
//@ hint loop1.start
    let ghost g0 = G;
    proof { assert(line_of(it1_s[it1.pos() - 1].1) == ls[it1.pos() - 1]); }
//@ hint loop1.end
    proof { lemma_eg_step(ls, (it1.pos() - 1) as nat, g0, G, u, v); }
//@ hint end
    proof { assert(elines(ls).take(ls.len() as int) =~= elines(ls)); }
//@ end
}
impl LoadFromFile for EditGraph {
    open spec fn readable(ls: Lines) -> bool { all_e(ls) }
    open spec fn read_as(ls: Lines, r: Self) -> bool { eg_of(elines(ls), r) }
//@ fn io.rs impl:LoadFromFile:EditGraph from_buf
//@ hint loop1.before
    let ghost ls = buf.lns();
    proof { lemma_eg_none(G, elines(ls)); }
//@ loop 1
    pre_lines(it1_s, ls), forall|i: int| 0 <= i < it1.pos() ==> eline(#[trigger] ls[i]) is Some, eg_of(elines(ls).take(it1.pos() as int), G)
//@ hint loop1.start
    let ghost g0 = G;
    proof { assert(line_of(it1_s[it1.pos() - 1].1) == ls[it1.pos() - 1]); }
//@ hint loop1.end
    proof { lemma_eg_step(ls, (it1.pos() - 1) as nat, g0, G, u, v); }
//@ hint end
    proof { assert(elines(ls).take(ls.len() as int) =~= elines(ls)); }
//@ end
//@ fn io.rs impl:LoadFromFile:EditGraph from_txt
//@ subst n_estimate as usize => vx_est(n_estimate)
//@ end
//@ fn io.rs impl:LoadFromFile:EditGraph from_gzipped
//@ subst n_estimate as usize => vx_est(n_estimate)
//@ end
}

pub trait WriteToFile {
    /// the text written for the value
    spec fn can_write(&self) -> bool;
    spec fn written(&self) -> Seq<char>;
//@ fn io.rs trait:WriteToFile write_buf
//@ sig fn write_buf(&self, buf: &mut VxWrite) -> (r: io::Result<()>)
//@ requires self.can_write()
//@ ensures r is Ok ==> final(buf).flushed() && final(buf).sent() == old(buf).sent() + self.written()
//@ end
}
/// one vertex per line
pub open spec fn vtext(s: Seq<Vertex>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { vtext(s.drop_last()) + dec(s.last() as nat) + seq!['\n'] } }
/// one edge per line
pub open spec fn etext(s: Seq<Edge>) -> Seq<char> decreases s.len() { if s.len() == 0 { Seq::empty() } else { etext(s.drop_last()) + (dec(s.last().0 as nat) + seq![' '] + dec(s.last().1 as nat)) + seq!['\n'] } }
pub proof fn lemma_vtext_step(s: Seq<Vertex>, n: nat)
    requires n < s.len()
    ensures vtext(s.take(n as int + 1)) == vtext(s.take(n as int)) + dec(s[n as int] as nat) + seq!['\n']
{ let a = s.take(n as int + 1); assert(a.drop_last() =~= s.take(n as int)); assert(a.last() == s[n as int]); }
pub proof fn lemma_etext_step(s: Seq<Edge>, n: nat)
    requires n < s.len()
    ensures etext(s.take(n as int + 1)) == etext(s.take(n as int)) + (dec(s[n as int].0 as nat) + seq![' '] + dec(s[n as int].1 as nat)) + seq!['\n']
{ let a = s.take(n as int + 1); assert(a.drop_last() =~= s.take(n as int)); assert(a.last() == s[n as int]); }
impl WriteToFile for VertexSet {
    open spec fn can_write(&self) -> bool { true }
    open spec fn written(&self) -> Seq<char> { vtext(self.order()) }
//@ fn io.rs impl:WriteToFile:VertexSet write_buf
//@ sig fn write_buf(&self, buf: &mut VxWrite) -> (r: io::Result<()>)
//@ hint start
    let ghost t0 = buf.sent();
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); assert(t0 + vtext(self.order().take(0)) =~= t0); }
//@ loop 1
    it1_s == self.order(), "\n"@ == seq!['\n'], buf.sent() == t0 + vtext(it1_s.take(it1.pos() as int))
//@ hint loop1.end
    proof { lemma_vtext_step(it1_s, (it1.pos() - 1) as nat); assert(buf.sent() =~= t0 + vtext(it1_s.take(it1.pos() as int))); }
//@ hint end
    proof { assert(self.order().take(self.order().len() as int) =~= self.order()); }
//@ end
}
impl WriteToFile for Vec<Vertex> {
    open spec fn can_write(&self) -> bool { true }
    open spec fn written(&self) -> Seq<char> { vtext(self@) }
//@ fn io.rs impl:WriteToFile:Vec write_buf
//@ sig fn write_buf(&self, buf: &mut VxWrite) -> (r: io::Result<()>)
//@ hint start
    let ghost t0 = buf.sent();
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); assert(t0 + vtext(self@.take(0)) =~= t0); }
//@ loop 1
    it1_s == self@, "\n"@ == seq!['\n'], buf.sent() == t0 + vtext(it1_s.take(it1.pos() as int))
//@ hint loop1.end
    proof { lemma_vtext_step(it1_s, (it1.pos() - 1) as nat); assert(buf.sent() =~= t0 + vtext(it1_s.take(it1.pos() as int))); }
//@ hint end
    proof { assert(self@.take(self@.len() as int) =~= self@); }
//@ end
}
/// impl WriteToFile for every graph
pub trait WriteGraph : Graph + Sized {
//@ fn io.rs impl:WriteToFile:G write_buf
//@ sig fn write_buf(&self, buf: &mut VxWrite) -> (r: io::Result<()>)
//@ requires self.wf()
//@ ensures r is Ok ==> final(buf).flushed() && final(buf).sent() == old(buf).sent() + etext(edge_seq(*self))
//@ hint start
    let ghost t0 = buf.sent();
    proof { reveal_strlit("\n"); assert("\n"@ =~= seq!['\n']); reveal_strlit(" "); assert(" "@ =~= seq![' ']); assert(t0 + etext(edge_seq(*self).take(0)) =~= t0); }
//@ loop 1
    it1_s == edge_seq(*self), "\n"@ == seq!['\n'], " "@ == seq![' '], buf.sent() == t0 + etext(it1_s.take(it1.pos() as int))
//@ hint loop1.end
    proof { lemma_etext_step(it1_s, (it1.pos() - 1) as nat); assert(buf.sent() =~= t0 + etext(it1_s.take(it1.pos() as int))); }
//@ hint end
    proof { assert(edge_seq(*self).take(edge_seq(*self).len() as int) =~= edge_seq(*self)); }
//@ end
}

// ===================================================================== reading back what was written
/// plain text: no white space (and so no line ends)
pub open spec fn solid(s: Seq<char>) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> !ws(#[trigger] s[i]) }
pub proof fn lemma_dec(n: nat)
    ensures dec(n).len() > 0, alldig(dec(n)), dval(dec(n)) == n, solid(dec(n)), dec(n)[0] != '+'
    decreases n
{
    let d = dec(n);
    if n < 10 { assert(d.drop_last() =~= Seq::<char>::empty()); assert(d.last() == dch(n)); assert(dval(d.drop_last()) == 0); assert(dval(d) == dv(dch(n))); }
    else { lemma_dec(n / 10); let p = dec(n / 10); assert(d.drop_last() =~= p); assert(d.last() == dch(n % 10)); assert(dval(d) == 10 * dval(p) + dv(dch(n % 10))); assert(d[0] == p[0]);
        assert forall|i: int| 0 <= i < d.len() implies dv(#[trigger] d[i]) < 10 by { if i < p.len() { assert(d[i] == p[i]); } } }
    assert forall|i: int| 0 <= i < d.len() implies !ws(#[trigger] d[i]) by { assert(dv(d[i]) < 10); }
    assert(dv(d[0]) < 10);
}
pub proof fn lemma_unum_dec(v: Vertex)
    ensures unum(dec(v as nat)) == Some(v), trimmed(dec(v as nat)) == dec(v as nat), solid(dec(v as nat))
{ lemma_dec(v as nat); let d = dec(v as nat); assert(!ws(d[0]) && !ws(d[d.len() - 1])); }
pub proof fn lemma_toks_run(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires forall|i: int| 0 <= i < a.len() ==> !ws(#[trigger] a[i])
    ensures toks(a + b, c) == toks(b, c + a)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); assert(c + a =~= c); }
    else { let d = a.drop_first(); assert((a + b).drop_first() =~= d + b); assert((a + b)[0] == a[0]); lemma_toks_run(d, b, c.push(a[0])); assert(c.push(a[0]) + d =~= c + a); }
}
pub proof fn lemma_toks_end(b: Seq<char>)
    requires solid(b)
    ensures toks(b, Seq::empty()) == seq![b]
{ let e = Seq::<char>::empty(); lemma_toks_run(b, e, e); assert(b + e =~= b); assert(e + b =~= b); assert(toks(e, b) == piece(b)); }
pub proof fn lemma_toks_sp(a: Seq<char>, b: Seq<char>)
    requires solid(a), solid(b)
    ensures tokens_of(a + seq![' '] + b) == seq![a, b]
{
    let e = Seq::<char>::empty(); let r = seq![' '] + b;
    assert(a + seq![' '] + b =~= a + r);
    lemma_toks_run(a, r, e); assert(e + a =~= a);
    assert(r[0] == ' '); assert(ws(' ')); assert(r.drop_first() =~= b);
    lemma_toks_end(b);
    assert(toks(r, a) == piece(a) + toks(b, e));
    assert(piece(a) + seq![b] =~= seq![a, b]);
}
pub proof fn lemma_toks_two(u: Vertex, v: Vertex)
    ensures tokens_of(dec(u as nat) + seq![' '] + dec(v as nat)) == seq![dec(u as nat), dec(v as nat)]
{ hide(dec); lemma_dec(u as nat); lemma_dec(v as nat); lemma_toks_sp(dec(u as nat), dec(v as nat)); }
pub proof fn lemma_tl_line(x: Seq<char>, c: Seq<char>)
    requires forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != '\n'
    ensures tlines(x + seq!['\n'], c) == seq![nocr(c + x)]
    decreases x.len()
{
    let t = x + seq!['\n'];
    if x.len() == 0 { assert(t[0] == '\n'); assert(t.drop_first() =~= Seq::<char>::empty()); assert(c + x =~= c); assert(tlines(Seq::<char>::empty(), Seq::<char>::empty()) =~= Seq::<Seq<char>>::empty()); assert(tlines(t, c) =~= seq![nocr(c)]); }
    else { assert(t[0] == x[0]); assert(t.drop_first() =~= x.drop_first() + seq!['\n']); lemma_tl_line(x.drop_first(), c.push(x[0])); assert(c.push(x[0]) + x.drop_first() =~= c + x); }
}
pub proof fn lemma_tl_app(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    requires a.len() > 0, a.last() == '\n'
    ensures tlines(a + b, c) == tlines(a, c) + lines_of(b)
    decreases a.len()
{
    let d = a.drop_first(); let e = Seq::<char>::empty();
    assert((a + b).drop_first() =~= d + b); assert((a + b)[0] == a[0]);
    if d.len() == 0 { assert(a[0] == '\n'); assert(d + b =~= b); assert(d =~= e); assert(tlines(a, c) =~= seq![nocr(c)]); }
    else { assert(d.last() == '\n');
        if a[0] == '\n' { lemma_tl_app(d, b, e); assert(seq![nocr(c)] + (tlines(d, e) + lines_of(b)) =~= (seq![nocr(c)] + tlines(d, e)) + lines_of(b)); }
        else { lemma_tl_app(d, b, c.push(a[0])); } }
}
/// a written line comes back unchanged
pub proof fn lemma_one_line(p: Seq<char>, x: Seq<char>)
    requires p.len() == 0 || p.last() == '\n', x.len() > 0, x.last() != '\r', forall|i: int| 0 <= i < x.len() ==> #[trigger] x[i] != '\n'
    ensures lines_of(p + x + seq!['\n']) == lines_of(p).push(x), (p + x + seq!['\n']).last() == '\n'
{
    let l = x + seq!['\n']; let e = Seq::<char>::empty();
    lemma_tl_line(x, e); assert(e + x =~= x); assert(nocr(x) == x);
    assert(p + x + seq!['\n'] =~= p + l);
    if p.len() == 0 { assert(p + l =~= l); assert(lines_of(p) =~= Seq::<Seq<char>>::empty()); } else { lemma_tl_app(p, l, e); }
    assert(lines_of(p + l) =~= lines_of(p).push(x));
}
pub open spec fn etxt(e: Edge) -> Seq<char> { dec(e.0 as nat) + seq![' '] + dec(e.1 as nat) }
pub proof fn lemma_vtext_lines(s: Seq<Vertex>)
    ensures lines_of(vtext(s)) == s.map_values(|v: Vertex| dec(v as nat)), vtext(s).len() == 0 || vtext(s).last() == '\n'
    decreases s.len()
{
    let f = |v: Vertex| dec(v as nat);
    if s.len() == 0 { assert(lines_of(vtext(s)) =~= s.map_values(f)); }
    else { let p = s.drop_last(); let v = s.last(); lemma_vtext_lines(p); lemma_dec(v as nat); let x = dec(v as nat); assert(!ws(x[x.len() - 1]));
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != '\n' by { assert(!ws(x[i])); }
        lemma_one_line(vtext(p), x); assert(s.map_values(f) =~= p.map_values(f).push(x)); }
}
pub proof fn lemma_etext_lines(s: Seq<Edge>)
    ensures lines_of(etext(s)) == s.map_values(|e: Edge| etxt(e)), etext(s).len() == 0 || etext(s).last() == '\n'
    decreases s.len()
{
    let f = |e: Edge| etxt(e);
    if s.len() == 0 { assert(lines_of(etext(s)) =~= s.map_values(f)); }
    else { let p = s.drop_last(); let e = s.last(); lemma_etext_lines(p); lemma_dec(e.0 as nat); lemma_dec(e.1 as nat); let (a, b) = (dec(e.0 as nat), dec(e.1 as nat)); let x = etxt(e); assert(!ws(b[b.len() - 1])); assert(x.last() == b[b.len() - 1]);
        assert forall|i: int| 0 <= i < x.len() implies #[trigger] x[i] != '\n' by { if i < a.len() { assert(!ws(a[i])); assert(x[i] == a[i]); } else if i > a.len() { assert(x[i] == b[i - a.len() - 1]); assert(!ws(b[i - a.len() - 1])); } else { assert(x[i] == ' '); } }
        lemma_one_line(etext(p), x); assert(s.map_values(f) =~= p.map_values(f).push(x)); }
}
/// the lines a reader finds in a text that can be read without failure
pub open spec fn clean(t: Seq<char>) -> Lines { lines_of(t).map_values(|l: Seq<char>| Some(l)) }
/// vertex lists: reading the written text is possible and gives the same sequence
pub proof fn thm_vertices_round(s: Seq<Vertex>)
    ensures all_v(clean(vtext(s))), vlines(clean(vtext(s))) == s
{
    lemma_vtext_lines(s); let ls = clean(vtext(s)); assert(ls.len() == s.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] vline(ls[i]) == Some(s[i]) by { lemma_unum_dec(s[i]); assert(ls[i] == Some(dec(s[i] as nat))); }
    assert(vlines(ls) =~= s);
}
pub proof fn thm_edges_round(s: Seq<Edge>)
    ensures all_e(clean(etext(s))), elines(clean(etext(s))) == s
{
    lemma_etext_lines(s); let ls = clean(etext(s)); assert(ls.len() == s.len());
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] eline(ls[i]) == Some(s[i]) by { lemma_unum_dec(s[i].0); lemma_unum_dec(s[i].1); lemma_toks_two(s[i].0, s[i].1); assert(ls[i] == Some(etxt(s[i]))); }
    assert(elines(ls) =~= s);
}
/// a set of vertices
pub proof fn thm_set_round(a: VertexSet, b: VertexSet)
    requires <VertexSet as LoadFromFile>::read_as(clean(a.written()), b)
    ensures <VertexSet as LoadFromFile>::readable(clean(a.written())), b@ == a@
{ thm_vertices_round(a.order()); assert(a.order().to_set() =~= a@) by { assert(lists(a.order(), a@)); } }
pub proof fn thm_vec_round(a: Vec<Vertex>, b: Vec<Vertex>)
    requires <Vec<Vertex> as LoadFromFile>::read_as(clean(a.written()), b)
    ensures <Vec<Vertex> as LoadFromFile>::readable(clean(a.written())), b@ == a@
{ thm_vertices_round(a@); }
/// a graph: the same edges, and every vertex that has an edge
pub proof fn thm_graph_round<G: Graph>(g: G, h: EditGraph)
    requires g.wf(), <EditGraph as LoadFromFile>::read_as(clean(etext(edge_seq(g))), h)
    ensures <EditGraph as LoadFromFile>::readable(clean(etext(edge_seq(g)))), h.wf(),
        forall|x: Vertex, y: Vertex| #[trigger] h.adj(x, y) == g.adj(x, y),
        forall|x: Vertex| #[trigger] h.vs().contains(x) <==> exists|y: Vertex| g.adj(x, y)
{
    let s = edge_seq(g); thm_edges_round(s); lemma_edge_seq(g); g.lemma_wf();
    assert forall|x: Vertex, y: Vertex| #[trigger] h.adj(x, y) == g.adj(x, y) by {
        assert(h.adj(x, y) <==> in_edges(s, x, y)); assert(s.contains((x, y)) <==> x <= y && g.adj(x, y)); assert(s.contains((y, x)) <==> y <= x && g.adj(y, x));
        assert(g.adj(x, y) ==> g.adj(y, x)); assert(g.adj(y, x) ==> g.adj(x, y));
    }
    assert forall|x: Vertex| #[trigger] h.vs().contains(x) <==> exists|y: Vertex| g.adj(x, y) by {
        if h.vs().contains(x) { let i = choose|i: int| 0 <= i < s.len() && ((#[trigger] s[i]).0 == x || s[i].1 == x); let (a, b) = s[i]; assert(s.contains((a, b))); assert(g.adj(a, b)); assert(g.adj(b, a)); if a == x { assert(g.adj(x, b)); } else { assert(g.adj(x, a)); } }
        if exists|y: Vertex| g.adj(x, y) { let y = choose|y: Vertex| g.adj(x, y); assert(h.adj(x, y)); assert(in_edges(s, x, y)); if s.contains((x, y)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (x, y); assert(s[i].0 == x); assert(is_end(s, x)); } else { let i = choose|i: int| 0 <= i < s.len() && s[i] == (y, x); assert(s[i].1 == x); assert(is_end(s, x)); } }
    }
}
} // verus!
