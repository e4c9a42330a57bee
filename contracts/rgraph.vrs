verus! {
//@ props C16
// ===================================================================== dialect: indexing by ranges, arrays, sorting triples
impl<T> VxIndex<core::ops::Range<usize>> for Vec<T> {
    type Out = [T];
    open spec fn ix_req(&self, i: core::ops::Range<usize>) -> bool { i.start <= i.end && i.end <= self@.len() }
    open spec fn ix_val(&self, i: core::ops::Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: core::ops::Range<usize>) -> (r: &'a [T]) { unimplemented!() }
}
impl<T> VxIndex<It<usize>> for Vec<T> {
    type Out = [T];
    open spec fn ix_req(&self, i: It<usize>) -> bool { i.pos() == 0 && i.seq().len() > 0 && i.seq()[0] <= i.seq().last() && i.seq().last() < self@.len() && i.seq().len() == i.seq().last() - i.seq()[0] + 1 }
    open spec fn ix_val(&self, i: It<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.seq()[0] as int, i.seq().last() + 1) }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: It<usize>) -> (r: &'a [T]) { unimplemented!() }
}
impl<T, const N: usize> VxIndex<usize> for [T; N] {
    type Out = T;
    open spec fn ix_req(&self, i: usize) -> bool { i < N }
    open spec fn ix_val(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: usize) -> (r: &'a T) { unimplemented!() }
}
pub trait VxArr<T> : Sized { spec fn ar(&self) -> Seq<T>; fn vx_iter<'a>(&'a self) -> (r: RIt<'a, T>) ensures r.pos() == 0, r.seq() == self.ar(); }
impl<T, const N: usize> VxArr<T> for [T; N] {
    open spec fn ar(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: RIt<'a, T>) { unimplemented!() }
}
pub trait VxTryInto<T> : Sized {
    spec fn ti(&self) -> Seq<T>;
    fn vx_try_into<const N: usize>(self) -> (r: Result<[T; N], Self>) ensures r.is_ok() == (self.ti().len() == N), r.is_ok() ==> r->Ok_0@ == self.ti();
}
impl<T> VxTryInto<T> for Vec<T> {
    open spec fn ti(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_try_into<const N: usize>(self) -> (r: Result<[T; N], Self>) { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn asc3(s: Seq<(u32, usize, u32)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 < (#[trigger] s[j]).0 || (s[i].0 == s[j].0 && (s[i].1 < s[j].1 || (s[i].1 == s[j].1 && s[i].2 <= s[j].2))) }
pub trait VxVecOrd3 {
    spec fn vo3(&self) -> Seq<(u32, usize, u32)>;
    fn vx_sort_unstable(&mut self) ensures perm(final(self).vo3(), old(self).vo3()), asc3(final(self).vo3());
}
impl VxVecOrd3 for Vec<(u32, usize, u32)> {
    open spec fn vo3(&self) -> Seq<(u32, usize, u32)> { self@ }
    #[verifier::external_body]
    fn vx_sort_unstable(&mut self) { unimplemented!() }
}
pub open spec fn isum(s: Seq<usize>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { isum(s.drop_last()) + s.last() as nat } }
impl It<usize> {
    #[verifier::external_body]
    pub fn vx_sum(self) -> (r: usize) requires self.pos() == 0, isum(self.seq()) <= usize::MAX ensures r == isum(self.seq()) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_mem_replace<T>(x: &mut T, y: T) -> (r: T) ensures r == *old(x), *final(x) == y { unimplemented!() }
// ===================================================================== records
//@ struct reachgraph.rs ReachGraph
//@ struct reachgraph.rs Reachables
//@ struct reachgraph.rs ReachGraphBuilder
//@ struct reachgraph.rs ReachOrderIterator
//@ struct reachgraph.rs ReachIterator
// A record at offset p (depth r): | u | next | end_1 .. end_r | data |; its body is everything from p + 2 on.
/// the record at offset p of c fits into c
pub open spec fn rgfits(c: Seq<u32>, p: int, r: nat) -> bool { 0 <= p && p + r + 2 <= c.len() && p + r + 2 <= c[p + 1 + r] <= c.len() }
pub open spec fn rgend(c: Seq<u32>, p: int, r: nat) -> int { c[p + 1 + r] as int }
pub open spec fn rgbody(c: Seq<u32>, p: int, r: nat) -> Seq<u32> { c.subrange(p + 2, rgend(c, p, r)) }
/// where level i ends / level i + 1 starts
pub open spec fn rb(b: Seq<u32>, p: int, r: nat, i: int) -> int { if i <= 0 { p + r + 2 } else { b[i - 1] as int } }
#[verifier::opaque]
pub open spec fn tab(b: Seq<u32>, p: int, r: nat) -> bool {
    r >= 1 && b.len() >= r && rb(b, p, r, r as int) == p + 2 + b.len() && forall|i: int, j: int| 0 <= i <= j <= r ==> #[trigger] rb(b, p, r, i) <= #[trigger] rb(b, p, r, j)
}
/// the vertices stored at level i
pub open spec fn lvl(b: Seq<u32>, p: int, r: nat, i: int) -> Seq<u32> { b.subrange(rb(b, p, r, i - 1) - p - 2, rb(b, p, r, i) - p - 2) }
/// all stored vertices
pub open spec fn rgdata(b: Seq<u32>, r: nat) -> Seq<u32> { b.skip(r as int) }
/// c is a chain of records, one per vertex of o, in that order, at the offsets given by ind
#[verifier::opaque]
pub open spec fn rglayout(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat) -> bool {
    &&& o.no_duplicates()
    &&& forall|x: Vertex| #[trigger] ind.dom().contains(x) <==> o.contains(x)
    &&& o.len() == 0 ==> c.len() == 0
    &&& o.len() > 0 ==> ind[o[0]] == 0 && rgend(c, ind[o.last()] as int, r) == c.len()
    &&& forall|i: int| 0 <= i < o.len() ==> #[trigger] rgrec_ok(c, ind, o, r, i)
    &&& c.len() <= 0xffff_ffff
}
pub open spec fn rgrec_ok(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, i: int) -> bool {
    rgfits(c, ind[o[i]] as int, r) && c[ind[o[i]] as int] == o[i] && (i + 1 < o.len() ==> ind[o[i + 1]] == rgend(c, ind[o[i]] as int, r)) && c[ind[o[i]] + 1] == (if i + 1 < o.len() { ind[o[i + 1]] } else { ind[o[i]] })
}
pub proof fn lemma_rgl_mono(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, i: int, j: int)
    requires rglayout(c, ind, o, r), 0 <= i < j < o.len()
    ensures rgend(c, ind[o[i]] as int, r) <= ind[o[j]], ind[o[i]] < ind[o[j]]
    decreases j - i
{
    reveal(rglayout); assert(rgrec_ok(c, ind, o, r, i)); assert(rgrec_ok(c, ind, o, r, j - 1));
    if i < j - 1 { lemma_rgl_mono(c, ind, o, r, i, j - 1); }
}
pub proof fn lemma_rgl(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat)
    requires rglayout(c, ind, o, r)
    ensures lists(o, ind.dom()), forall|x: Vertex| #[trigger] ind.dom().contains(x) ==> rgfits(c, ind[x] as int, r) && c[ind[x] as int] == x,
        forall|x: Vertex, y: Vertex| ind.dom().contains(x) && ind.dom().contains(y) ==> (#[trigger] ix(o, x) < #[trigger] ix(o, y) <==> ind[x] < ind[y]),
        c.len() <= 0xffff_ffff, (c.len() == 0 <==> o.len() == 0), o.len() > 0 ==> ind[o[0]] == 0 && c[0] == o[0]
{
    reveal(rglayout); lemma_ix(o); o.unique_seq_to_set();
    assert(o.to_set() =~= ind.dom());
    assert forall|x: Vertex| #[trigger] ind.dom().contains(x) implies rgfits(c, ind[x] as int, r) && c[ind[x] as int] == x by { assert(o.contains(x)); let i = ix(o, x); assert(o[i] == x); assert(rgrec_ok(c, ind, o, r, i)); }
    assert forall|x: Vertex, y: Vertex| ind.dom().contains(x) && ind.dom().contains(y) implies (#[trigger] ix(o, x) < #[trigger] ix(o, y) <==> ind[x] < ind[y]) by {
        assert(o.contains(x) && o.contains(y)); let i = ix(o, x); let j = ix(o, y);
        if i < j { lemma_rgl_mono(c, ind, o, r, i, j); } else if j < i { lemma_rgl_mono(c, ind, o, r, j, i); }
    }
    if o.len() > 0 { assert(rgrec_ok(c, ind, o, r, 0)); }
}
pub proof fn lemma_rgl_same(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, q: Seq<Vertex>, r: nat, i: int)
    requires rglayout(c, ind, o, r), rglayout(c, ind, q, r), o.len() == q.len(), 0 <= i < o.len()
    ensures o[i] == q[i]
    decreases i
{
    reveal(rglayout); assert(rgrec_ok(c, ind, o, r, i)); assert(rgrec_ok(c, ind, q, r, i));
    if i > 0 { lemma_rgl_same(c, ind, o, q, r, i - 1); assert(rgrec_ok(c, ind, o, r, i - 1)); assert(rgrec_ok(c, ind, q, r, i - 1)); }
}
/// the vertex order is determined by the layout
pub proof fn lemma_rgl_unique(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, q: Seq<Vertex>, r: nat)
    requires rglayout(c, ind, o, r), rglayout(c, ind, q, r)
    ensures o == q
{
    lemma_rgl(c, ind, o, r); lemma_rgl(c, ind, q, r);
    assert forall|i: int| 0 <= i < o.len() implies o[i] == q[i] by { lemma_rgl_same(c, ind, o, q, r, i); }
    assert(o =~= q);
}
/// bounds of level i
pub proof fn lemma_rb(b: Seq<u32>, p: int, r: nat, i: int)
    requires tab(b, p, r), 1 <= i <= r
    ensures p + r + 2 <= rb(b, p, r, i - 1) <= rb(b, p, r, i) <= p + 2 + b.len(), rb(b, p, r, 0) == p + r + 2, rb(b, p, r, r as int) == p + 2 + b.len(), b.len() >= r, lvl(b, p, r, i).len() == rb(b, p, r, i) - rb(b, p, r, i - 1)
{ reveal(tab); assert(rb(b, p, r, 0) <= rb(b, p, r, i - 1)); assert(rb(b, p, r, i) <= rb(b, p, r, r as int)); assert(rb(b, p, r, i - 1) <= rb(b, p, r, i)); }
/// levels partition the data of a body
pub proof fn lemma_lvl(b: Seq<u32>, p: int, r: nat)
    requires tab(b, p, r), rgdata(b, r).no_duplicates()
    ensures forall|i: int| 1 <= i <= r ==> (#[trigger] lvl(b, p, r, i)).no_duplicates(),
        forall|i: int, y: Vertex| 1 <= i <= r && #[trigger] lvl(b, p, r, i).contains(y) ==> rgdata(b, r).contains(y),
        forall|i: int, j: int, y: Vertex| 1 <= i <= r && 1 <= j <= r && #[trigger] lvl(b, p, r, i).contains(y) && #[trigger] lvl(b, p, r, j).contains(y) ==> i == j,
        b.len() >= r,
{
    let d = rgdata(b, r); assert(r >= 1) by { reveal(tab); } lemma_rb(b, p, r, 1);
    assert forall|i: int, k: int| 1 <= i <= r && 0 <= k < lvl(b, p, r, i).len() implies 0 <= rb(b, p, r, i - 1) - p - 2 - r + k < d.len() && #[trigger] lvl(b, p, r, i)[k] == d[rb(b, p, r, i - 1) - p - 2 - r + k] by { lemma_rb(b, p, r, i); }
    assert forall|i: int, y: Vertex| 1 <= i <= r && #[trigger] lvl(b, p, r, i).contains(y) implies d.contains(y) by { let k = choose|k: int| 0 <= k < lvl(b, p, r, i).len() && lvl(b, p, r, i)[k] == y; assert(d[rb(b, p, r, i - 1) - p - 2 - r + k] == y); }
    assert forall|i: int, j: int, y: Vertex| 1 <= i <= r && 1 <= j <= r && #[trigger] lvl(b, p, r, i).contains(y) && #[trigger] lvl(b, p, r, j).contains(y) implies i == j by {
        let k = choose|k: int| 0 <= k < lvl(b, p, r, i).len() && lvl(b, p, r, i)[k] == y; let l = choose|l: int| 0 <= l < lvl(b, p, r, j).len() && lvl(b, p, r, j)[l] == y;
        assert(d[rb(b, p, r, i - 1) - p - 2 - r + k] == y); assert(d[rb(b, p, r, j - 1) - p - 2 - r + l] == y);
        lemma_rb(b, p, r, i); lemma_rb(b, p, r, j); reveal(tab); if i < j { assert(rb(b, p, r, i) <= rb(b, p, r, j - 1)); } else if j < i { assert(rb(b, p, r, j) <= rb(b, p, r, i - 1)); }
    }
    assert forall|i: int| 1 <= i <= r implies (#[trigger] lvl(b, p, r, i)).no_duplicates() by {
        let s = lvl(b, p, r, i);
        assert forall|k: int, l: int| 0 <= k < s.len() && 0 <= l < s.len() && k != l implies s[k] != s[l] by { assert(s[k] == d[rb(b, p, r, i - 1) - p - 2 - r + k]); assert(s[l] == d[rb(b, p, r, i - 1) - p - 2 - r + l]); }
    }
}
// ===================================================================== the graph
pub open spec fn rgd<const D: usize>(g: ReachGraph<D>) -> nat { D as nat }
pub open spec fn rgseq<const D: usize>(g: ReachGraph<D>) -> Seq<Vertex> { choose|o: Seq<Vertex>| #[trigger] rglayout(g.contents@, g.indices@, o, rgd(g)) }
pub open spec fn rgb<const D: usize>(g: ReachGraph<D>, x: Vertex) -> Seq<u32> { rgbody(g.contents@, g.indices@[x] as int, D as nat) }
/// the vertices stored for x at distance i
pub open spec fn rgl<const D: usize>(g: ReachGraph<D>, x: Vertex, i: int) -> Seq<Vertex> { lvl(rgb(g, x), g.indices@[x] as int, D as nat, i) }
/// all vertices stored for x
pub open spec fn rgall<const D: usize>(g: ReachGraph<D>, x: Vertex) -> Seq<Vertex> { rgdata(rgb(g, x), D as nat) }
pub open spec fn rgrow<const D: usize>(g: ReachGraph<D>, x: Vertex) -> bool {
    &&& tab(rgb(g, x), g.indices@[x] as int, D as nat)
    &&& rgall(g, x).no_duplicates()
    &&& forall|y: Vertex| #[trigger] rgall(g, x).contains(y) ==> g.indices@.dom().contains(y) && g.indices@[y] < g.indices@[x]
    &&& forall|i: int| 1 <= i <= D ==> sorted_in(rgseq(g), #[trigger] rgl(g, x, i))
}
/// adjacency given by the depth-1 sets
pub open spec fn rgadj<const D: usize>(g: ReachGraph<D>, x: Vertex, y: Vertex) -> bool { g.indices@.dom().contains(x) && g.indices@.dom().contains(y) && (rgl(g, x, 1).contains(y) || rgl(g, y, 1).contains(x)) }
pub open spec fn rgrel<const D: usize>(g: ReachGraph<D>) -> spec_fn(Vertex, Vertex) -> bool { |x: Vertex, y: Vertex| rgadj(g, x, y) }
/// the vertices that have v in their depth-1 set
pub open spec fn rgright<const D: usize>(g: ReachGraph<D>, v: Vertex) -> Set<Vertex> { g.indices@.dom().filter(|x: Vertex| rgl(g, x, 1).contains(v)) }
pub open spec fn rgcount(m: FxHashMap<Vertex, u32>, v: Vertex) -> int { if m@.dom().contains(v) { m@[v] as int } else { 0 } }
impl<const DEPTH: usize> ReachGraph<DEPTH> {
    pub open spec fn wf(&self) -> bool {
        &&& DEPTH >= 1
        &&& rglayout(self.contents@, self.indices@, rgseq(*self), DEPTH as nat)
        &&& forall|x: Vertex| self.indices@.dom().contains(x) ==> #[trigger] rgrow(*self, x)
        &&& is_eset(self.edges@, rgrel(*self))
        &&& forall|v: Vertex| #[trigger] rgcount(self.right_degrees, v) == rgright(*self, v).len()
    }
    pub open spec fn vs(&self) -> Set<Vertex> { self.indices@.dom() }
    pub open spec fn vseq(&self) -> Seq<Vertex> { rgseq(*self) }
    pub proof fn lemma_wf(&self)
        requires self.wf()
        ensures lists(self.vseq(), self.vs()), self.contents@.len() <= 0xffff_ffff, (self.contents@.len() == 0 <==> self.vseq().len() == 0), self.vseq().len() > 0 ==> self.contents@[0] == self.vseq()[0] && self.indices@[self.vseq()[0]] == 0
    { lemma_rgl(self.contents@, self.indices@, rgseq(*self), DEPTH as nat); }
    pub proof fn lemma_at(&self, x: Vertex)
        requires self.wf(), self.vs().contains(x)
        ensures rgrow(*self, x), rgfits(self.contents@, self.indices@[x] as int, DEPTH as nat), self.contents@[self.indices@[x] as int] == x, self.contents@.len() <= 0xffff_ffff,
            forall|i: int| 1 <= i <= DEPTH ==> (#[trigger] rgl(*self, x, i)).no_duplicates() && sorted_in(self.vseq(), rgl(*self, x, i)),
            forall|i: int, y: Vertex| 1 <= i <= DEPTH && #[trigger] rgl(*self, x, i).contains(y) ==> rgall(*self, x).contains(y) && self.vs().contains(y) && self.indices@[y] < self.indices@[x] && ix(self.vseq(), y) < ix(self.vseq(), x)
    {
        lemma_rgl(self.contents@, self.indices@, rgseq(*self), DEPTH as nat); assert(rgrow(*self, x));
        lemma_lvl(rgb(*self, x), self.indices@[x] as int, DEPTH as nat);
        assert forall|i: int, y: Vertex| 1 <= i <= DEPTH && #[trigger] rgl(*self, x, i).contains(y) implies rgall(*self, x).contains(y) && self.vs().contains(y) && self.indices@[y] < self.indices@[x] && ix(self.vseq(), y) < ix(self.vseq(), x) by { assert(rgall(*self, x).contains(y)); }
    }
}
pub open spec fn rgoff<const D: usize>(g: ReachGraph<D>, i: usize) -> bool { i < g.contents@.len() && g.vs().contains(g.contents@[i as int]) && g.indices@[g.contents@[i as int]] == i }
/// rs describes the record of x
pub open spec fn rvals<const D: usize>(g: ReachGraph<D>, x: Vertex, rs: Reachables<'_, D>) -> bool {
    rs.from == x && forall|i: int| 0 <= i < D ==> (#[trigger] rs.reachables@[i])@ == rgl(g, x, i + 1)
}
pub open spec fn seglens(s: Seq<&[u32]>) -> Seq<usize> { s.map_values(|x: &[u32]| x@.len() as usize) }
impl<const DEPTH: usize> Reachables<'_, DEPTH> {
    pub open spec fn total(&self) -> nat { isum(seglens(self.reachables@)) }
//@ fn reachgraph.rs impl:Reachables len
//@ requires self.total() <= usize::MAX
//@ ensures r == self.total()
//@ hint start
    proof { let l = seglens(self.reachables@); assert forall|s: Seq<usize>| s.len() == l.len() && (forall|i: int| 0 <= i < l.len() ==> s[i] == #[trigger] self.reachables@[i]@.len()) implies #[trigger] isum(s) == isum(l) by { assert forall|i: int| 0 <= i < l.len() implies s[i] == l[i] by { assert(s[i] == self.reachables@[i]@.len()); } assert(s =~= l); } }
//@ closure 1 |seg: &&[u32]| -> (n: usize) ensures n == (*seg)@.len()
//@ end
//@ fn reachgraph.rs impl:Reachables is_empty
//@ ensures r == (forall|i: int| 0 <= i < DEPTH ==> (#[trigger] self.reachables@[i])@.len() == 0)
//@ closure 1 |seg: &&[u32]| -> (b: bool) ensures b == ((*seg)@.len() == 0)
//@ end
//@ fn reachgraph.rs impl:Reachables at
//@ requires 1 <= depth <= DEPTH
//@ ensures r@ == self.reachables@[depth - 1]@
//@ end
}
impl<const DEPTH: usize> ReachGraph<DEPTH> {
//@ fn reachgraph.rs impl:ReachGraph first
//@ as vx_first
//@ requires self.wf()
//@ ensures r.is_some() == (self.vseq().len() > 0), r.is_some() ==> r->0 == self.vseq()[0]
//@ hint start
    proof { self.lemma_wf(); }
//@ end
//@ fn reachgraph.rs impl:LinearGraph:ReachGraph index_of
//@ requires self.vs().contains(*u)
//@ ensures r == self.indices@[*u]
//@ end
}
pub open spec fn sls(v: Vec<&[u32]>, i: int) -> Seq<u32> { v@[i]@ }
pub open spec fn slen(v: Vec<&[u32]>) -> nat { v@.len() }
pub open spec fn blen(v: Vec<(usize, usize)>) -> nat { v@.len() }
/// the total over the levels is the number of stored vertices
pub proof fn lemma_total<const D: usize>(g: ReachGraph<D>, x: Vertex, rs: Reachables<'_, D>)
    requires g.wf(), g.vs().contains(x), rvals(g, x, rs)
    ensures rs.total() == rgall(g, x).len(), rs.total() <= 0xffff_ffff
{
    g.lemma_at(x); lemma_rb(rgb(g, x), g.indices@[x] as int, D as nat, D as int); let l = seglens(rs.reachables@);
    assert(l.take(D as int) =~= l);
    lemma_total_to(g, x, rs, D as nat);
}
pub proof fn lemma_total_to<const D: usize>(g: ReachGraph<D>, x: Vertex, rs: Reachables<'_, D>, k: nat)
    requires g.wf(), g.vs().contains(x), rvals(g, x, rs), k <= D
    ensures isum(seglens(rs.reachables@).take(k as int)) == rb(rgb(g, x), g.indices@[x] as int, D as nat, k as int) - rb(rgb(g, x), g.indices@[x] as int, D as nat, 0)
    decreases k
{
    g.lemma_at(x); let l = seglens(rs.reachables@);
    if k > 0 { lemma_rb(rgb(g, x), g.indices@[x] as int, D as nat, k as int); }
    if k > 0 {
        lemma_total_to(g, x, rs, (k - 1) as nat); let m = l.take(k as int); assert(m.drop_last() =~= l.take(k - 1));
        assert(rs.reachables@[k - 1]@ == rgl(g, x, k as int));
        assert(m.last() == rgl(g, x, k as int).len());
    }
}
impl<const DEPTH: usize> ReachGraph<DEPTH> {
//@ fn reachgraph.rs impl:ReachGraph reachables_at
//@ ret res
//@ sig fn reachables_at(&self, index_u: usize) -> (res: Reachables<'_, DEPTH>)
//@ requires self.wf(), rgoff(*self, index_u)
//@ ensures rvals(*self, self.contents@[index_u as int], res)
//@ hint start
    let ghost x = self.contents@[index_u as int]; let ghost p = index_u as int; let ghost b = rgb(*self, x);
    proof { self.lemma_at(x); lemma_rb(b, p, DEPTH as nat, 1); }
//@ loop 1
    it1_s.len() == DEPTH, forall|i: int| 0 <= i < DEPTH ==> #[trigger] it1_s[i] == rb(b, p, DEPTH as nat, i + 1), left == rb(b, p, DEPTH as nat, it1.pos() as int), slen(reachables) == it1.pos(), blen(boundaries) == it1.pos(),
    forall|i: int| 0 <= i < it1.pos() ==> #[trigger] sls(reachables, i) == rgl(*self, x, i + 1),
//@ hint loop1.start
    let ghost r0 = reachables; let ghost k = it1.pos() as int;
    proof { assert(it1_s[k - 1] == rb(b, p, DEPTH as nat, k)); lemma_rb(b, p, DEPTH as nat, k); assert(self.contents@.subrange(rb(b, p, DEPTH as nat, k - 1), rb(b, p, DEPTH as nat, k)) =~= rgl(*self, x, k)); }
//@ hint loop1.end
    proof { assert(sls(reachables, k - 1) == rgl(*self, x, k)); assert forall|i: int| 0 <= i < k implies #[trigger] sls(reachables, i) == rgl(*self, x, i + 1) by { if i < k - 1 { assert(sls(r0, i) == rgl(*self, x, i + 1)); } } }
//@ hint loop1.after
    let ghost rr = reachables;
//@ hint end
    proof { assert forall|i: int| 0 <= i < DEPTH implies (#[trigger] vx_res.reachables@[i])@ == rgl(*self, x, i + 1) by { assert(sls(rr, i) == rgl(*self, x, i + 1)); } }
//@ end
//@ fn reachgraph.rs impl:ReachGraph reachables
//@ sig fn reachables(&self, u: &Vertex) -> (r: Reachables<'_, DEPTH>)
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures rvals(*self, *u, r)
//@ hint start
    proof { self.lemma_at(*u); }
//@ end
//@ fn reachgraph.rs impl:ReachGraph next_reachables
//@ sig fn next_reachables(&self, last: &Vertex) -> (r: Option<Reachables<'_, DEPTH>>)
//@ requires self.wf(), self.vs().contains(*last)
//@ ensures r.is_some() == (ix(self.vseq(), *last) + 1 < self.vseq().len()), r.is_some() ==> rvals(*self, self.vseq()[ix(self.vseq(), *last) + 1], r->0)
//@ hint start
    proof { lemma_rglink(*self, *last); }
//@ end
//@ fn reachgraph.rs impl:ReachGraph reachables_all
//@ requires self.wf(), self.vs().contains(*u)
//@ ret res
//@ ensures res@ == rgall(*self, *u)
//@ hint start
    proof { self.lemma_at(*u); assert(self.contents@.subrange(self.indices@[*u] + DEPTH + 2, rgend(self.contents@, self.indices@[*u] as int, DEPTH as nat)) =~= rgall(*self, *u)); }
//@ end
//@ fn reachgraph.rs impl:ReachGraph segment
//@ ret res
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures res@ == self.contents@.subrange(self.indices@[*u] as int, rgend(self.contents@, self.indices@[*u] as int, DEPTH as nat))
//@ hint start
    proof { self.lemma_at(*u); }
//@ end
//@ fn reachgraph.rs impl:ReachGraph depth
//@ ensures r == DEPTH
//@ end
}
pub proof fn lemma_rglink<const D: usize>(g: ReachGraph<D>, x: Vertex)
    requires g.wf(), g.vs().contains(x)
    ensures ({ let o = g.vseq(); let k = ix(o, x); let c = g.contents@; let p = g.indices@[x] as int;
        0 <= k < o.len() && o[k] == x && rgfits(c, p, D as nat) && c.len() <= 0xffff_ffff && c[p] == x && (c[p + 1] == p <==> k + 1 == o.len()) && (k + 1 < o.len() ==> c[p + 1] == g.indices@[o[k + 1]] && g.vs().contains(o[k + 1]) && c[c[p + 1] as int] == o[k + 1] && ix(o, o[k + 1]) == k + 1 && c[p + 1] < c.len()) })
{
    let c = g.contents@; let i = g.indices@; let o = g.vseq(); let k = ix(o, x); let r = D as nat;
    lemma_rgl(c, i, o, r); reveal(rglayout); lemma_ix(o); assert(o.contains(x)); assert(rgrec_ok(c, i, o, r, k));
    if k + 1 < o.len() { assert(o.contains(o[k + 1])); lemma_rgl_mono(c, i, o, r, k, k + 1); assert(rgrec_ok(c, i, o, r, k + 1)); }
}
// ---------------------------------------------------------------- the interface of Graph and LinearGraph (neighbours is not supported by this type)
impl<const DEPTH: usize> ReachGraph<DEPTH> {
//@ fn reachgraph.rs impl:Graph:ReachGraph num_vertices
//@ ensures r == self.vs().len()
//@ end
//@ fn graph.rs trait:Graph len
//@ ensures r == self.vs().len()
//@ end
//@ fn reachgraph.rs impl:Graph:ReachGraph num_edges
//@ requires self.wf()
//@ ensures exists|e: Set<Edge>| is_eset(e, rgrel(*self)) && #[trigger] e.len() == r
//@ end
//@ fn reachgraph.rs impl:Graph:ReachGraph contains
//@ ensures r == self.vs().contains(*u)
//@ end
//@ fn reachgraph.rs impl:Graph:ReachGraph adjacent
//@ requires self.wf()
//@ ensures r == rgadj(*self, *u, *v)
//@ hint start
    proof { assert(self.edges@.contains((*u, *v)) <==> *u <= *v && rgrel(*self)(*u, *v)); assert(self.edges@.contains((*v, *u)) <==> *v <= *u && rgrel(*self)(*v, *u)); assert(rgadj(*self, *u, *v) == rgadj(*self, *v, *u)); }
//@ end
//@ fn reachgraph.rs impl:LinearGraph:ReachGraph left_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r@ == rgl(*self, *u, 1), r@.len() < 0x8000_0000
//@ hint start
    proof { self.lemma_at(*u); lemma_rglen(*self, *u); }
//@ end
//@ fn reachgraph.rs impl:LinearGraph:ReachGraph right_degree
//@ requires self.wf()
//@ ensures r == rgright(*self, *u).len(), r < 0x8000_0000
//@ hint start
    proof { lemma_rgright(*self, *u); assert(rgcount(self.right_degrees, *u) == rgright(*self, *u).len()); }
//@ end
//@ fn graph.rs trait:LinearGraph left_degree
//@ requires self.wf()
//@ ensures r == (if self.vs().contains(*u) { rgl(*self, *u, 1).len() } else { 0 }), r < 0x8000_0000
//@ end
//@ fn reachgraph.rs impl:Graph:ReachGraph degree
//@ requires self.wf()
//@ ensures r == rgdeg(*self, *u)
//@ end
//@ fn reachgraph.rs impl:Graph:ReachGraph vertices
//@ sig fn vertices(&self) -> (r: RIt<'_, Vertex>)
//@ requires self.wf()
//@ ensures r.pos() == 0, r.seq() == self.vseq()
//@ end
//@ fn reachgraph.rs impl:ReachGraph iter
//@ sig fn iter(&self) -> (r: ReachIterator<'_, DEPTH>)
//@ requires self.wf()
//@ ensures r.wf(), r.rgraph == self, r.todo() == self.vseq()
//@ end
//@ fn reachgraph.rs impl:ReachGraph new
//@ requires DEPTH >= 1
//@ ensures r.wf(), r.vseq() == Seq::<Vertex>::empty(), r.vs() == Set::<Vertex>::empty(), r.contents@.len() == 0
//@ hint end
    proof {
        let g = vx_res; let o = Seq::<Vertex>::empty();
        assert(rglayout(g.contents@, g.indices@, o, DEPTH as nat)) by { reveal(rglayout); } 
        assert(rglayout(g.contents@, g.indices@, o, rgd(g))); lemma_rgl_unique(g.contents@, g.indices@, o, rgseq(g), DEPTH as nat);
        assert(is_eset(g.edges@, rgrel(g))) by { assert forall|x: Vertex, y: Vertex| #[trigger] g.edges@.contains((x, y)) <==> x <= y && rgrel(g)(x, y) by { assert(!rgadj(g, x, y)); } }
        assert forall|v: Vertex| #[trigger] rgcount(g.right_degrees, v) == rgright(g, v).len() by { assert(rgright(g, v) =~= Set::<Vertex>::empty()); }
        assert(g.indices@.dom() =~= Set::<Vertex>::empty());
    }
//@ end
}
/// the degree counted along the depth-1 sets
pub open spec fn rgdeg<const D: usize>(g: ReachGraph<D>, u: Vertex) -> nat { (if g.vs().contains(u) { rgl(g, u, 1).len() } else { 0 }) + rgright(g, u).len() }
pub proof fn lemma_rglen<const D: usize>(g: ReachGraph<D>, x: Vertex)
    requires g.wf(), g.vs().contains(x)
    ensures rgl(g, x, 1).len() <= g.vs().len(), g.vs().len() < 0x8000_0000
{
    g.lemma_at(x); let s = rgl(g, x, 1); s.unique_seq_to_set();
    assert forall|y: Vertex| #[trigger] s.to_set().contains(y) implies g.vs().contains(y) by { assert(s.contains(y)); }
    vstd::set_lib::lemma_len_subset(s.to_set(), g.vs());
}
pub proof fn lemma_rgright<const D: usize>(g: ReachGraph<D>, v: Vertex)
    ensures rgright(g, v).len() <= g.vs().len(), g.vs().len() < 0x8000_0000
{ vstd::set_lib::lemma_len_subset(rgright(g, v), g.vs()); }
/// the degree is the number of adjacent vertices
pub proof fn lemma_rgdeg<const D: usize>(g: ReachGraph<D>, u: Vertex)
    requires g.wf()
    ensures rgdeg(g, u) == g.vs().filter(|x: Vertex| rgadj(g, u, x)).len()
{
    let a = g.vs().filter(|x: Vertex| rgadj(g, u, x)); let b = rgright(g, u);
    if g.vs().contains(u) {
        g.lemma_at(u); let s = rgl(g, u, 1); s.unique_seq_to_set(); let t = s.to_set();
        assert(t.disjoint(b)) by { assert forall|x: Vertex| !(#[trigger] t.contains(x) && b.contains(x)) by { if t.contains(x) && b.contains(x) { assert(s.contains(x)); g.lemma_at(x); } } }
        vstd::set_lib::lemma_set_disjoint_lens(t, b);
        assert(a =~= t.union(b)) by { assert forall|x: Vertex| #[trigger] a.contains(x) <==> t.union(b).contains(x) by { assert(t.contains(x) <==> s.contains(x)); } }
    } else {
        assert(b =~= Set::<Vertex>::empty()) by { assert forall|x: Vertex| !#[trigger] b.contains(x) by { if b.contains(x) { g.lemma_at(x); assert(rgl(g, x, 1).contains(u)); } } }
        assert(a =~= Set::<Vertex>::empty());
    }
}
// ---------------------------------------------------------------- iterators
/// the vertices from the record at i on
pub open spec fn rgfrom<const D: usize>(g: ReachGraph<D>, i: Option<usize>) -> Seq<Vertex> { if i.is_some() { g.vseq().skip(ix(g.vseq(), g.contents@[i->0 as int])) } else { Seq::empty() } }
pub proof fn lemma_rgfrom<const D: usize>(g: ReachGraph<D>, i: usize)
    requires g.wf(), rgoff(g, i)
    ensures ({ let s = rgfrom(g, Some(i)); let n = g.contents@[i + 1] as usize; let m = if n == i { None } else { Some(n) };
        rgfits(g.contents@, i as int, D as nat) && g.contents@.len() <= 0xffff_ffff && s.len() > 0 && s[0] == g.contents@[i as int] && (n != i ==> rgoff(g, n)) && rgfrom(g, m) == s.drop_first() })
{
    let x = g.contents@[i as int]; lemma_rglink(g, x); let o = g.vseq(); let k = ix(o, x); let n = g.contents@[i + 1] as usize;
    let m = if n == i { None } else { Some(n) };
    if k + 1 < o.len() { lemma_rglink(g, o[k + 1]); }
    assert(rgfrom(g, m) =~= rgfrom(g, Some(i)).drop_first());
}
pub proof fn lemma_rgfirst<const D: usize>(g: ReachGraph<D>)
    requires g.wf()
    ensures g.vs().len() == 0 <==> g.vseq().len() == 0, g.vs().len() == 0 ==> g.vseq() == Seq::<Vertex>::empty(), g.vs().len() > 0 ==> rgoff(g, 0) && rgfrom(g, Some(0usize)) == g.vseq() && g.vs().contains(g.vseq()[0]) && ix(g.vseq(), g.vseq()[0]) == 0 && g.vseq().skip(0) == g.vseq()
{
    g.lemma_wf(); let o = g.vseq(); lemma_ix(o);
    if o.len() > 0 { assert(o.contains(o[0])); lemma_rglink(g, o[0]); assert(o.skip(0) =~= o); } else { assert(o =~= Seq::empty()); }
}
impl<'a, const DEPTH: usize> ReachOrderIterator<'a, DEPTH> {
    pub open spec fn wf(&self) -> bool { self.rgraph.wf() && (self.curr_index.is_some() ==> rgoff(*self.rgraph, self.curr_index->0)) }
    pub open spec fn todo(&self) -> Seq<Vertex> { rgfrom(*self.rgraph, self.curr_index) }
//@ fn reachgraph.rs impl:ReachOrderIterator new
//@ requires rgraph.wf()
//@ ensures r.wf(), r.rgraph == rgraph, r.todo() == rgraph.vseq()
//@ hint start
    proof { lemma_rgfirst(*rgraph); }
//@ end
//@ fn reachgraph.rs impl:Iterator:ReachOrderIterator next
//@ sig fn next(&mut self) -> (r: Option<&'a Vertex>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).rgraph == old(self).rgraph, r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> *r->0 == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.curr_index.is_some() { lemma_rgfrom(*self.rgraph, self.curr_index->0); } }
//@ end
    /// draining: what a loop over the boxed iterator sees
    pub fn vx_box(self) -> (r: RIt<'a, Vertex>)
        requires self.wf()
        ensures r.pos() == 0, r.seq() == self.todo()
    {
        let mut s = self; let mut v: Vec<&'a Vertex> = Vec::new();
        proof { assert(self.todo().skip(0) =~= self.todo()); }
        loop invariant s.wf(), v@.len() <= self.todo().len(), s.todo() == self.todo().skip(v@.len() as int), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == self.todo()[i],
            ensures v@.len() == self.todo().len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == self.todo()[i], decreases s.todo().len() {
            let ghost n = v@.len();
            match s.next() { Some(e) => { v.push(e); proof { assert(self.todo().skip(n as int)[0] == self.todo()[n as int]); assert(self.todo().skip(n as int).drop_first() =~= self.todo().skip(n as int + 1)); } } None => { break; } }
        }
        let r = RIt::from_refs(v); proof { assert(r.seq() =~= self.todo()); } r
    }
}
impl<'a, const DEPTH: usize> ReachIterator<'a, DEPTH> {
    pub open spec fn wf(&self) -> bool { self.rgraph.wf() && (self.current.is_some() ==> self.rgraph.vs().contains((self.current->0).from) && rvals(*self.rgraph, (self.current->0).from, self.current->0)) }
    pub open spec fn todo(&self) -> Seq<Vertex> { if self.current.is_some() { self.rgraph.vseq().skip(ix(self.rgraph.vseq(), (self.current->0).from)) } else { Seq::empty() } }
//@ fn reachgraph.rs impl:ReachIterator new
//@ requires rgraph.wf()
//@ ensures r.wf(), r.rgraph == rgraph, r.todo() == rgraph.vseq()
//@ hint start
    proof { lemma_rgfirst(*rgraph); }
//@ closure 1 |u: Vertex| -> (rs: Reachables<'a, DEPTH>) requires rgraph.wf(), rgraph.vs().contains(u) ensures rvals(*rgraph, u, rs)
//@ end
//@ fn reachgraph.rs impl:Iterator:ReachIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, Reachables<'a, DEPTH>)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).rgraph == old(self).rgraph, r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> (r->0).0 == old(self).todo()[0] && rvals(*old(self).rgraph, (r->0).0, (r->0).1) && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.current.is_some() { let g = *self.rgraph; let x = (self.current->0).from; lemma_rglink(g, x); let o = g.vseq(); let k = ix(o, x); assert(o.skip(k).drop_first() =~= o.skip(k + 1)); } }
//@ end
}
// ---------------------------------------------------------------- building
/// c after a record for u with the given body was appended
pub open spec fn rgappended(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, u: Vertex, b: Seq<u32>) -> Seq<u32> {
    let a = if o.len() > 0 { c.update(ind[o.last()] + 1, c.len() as u32) } else { c };
    a.push(u).push(c.len() as u32) + b
}
/// records present before are kept
pub proof fn lemma_rga_kept(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, u: Vertex, b: Seq<u32>, x: Vertex)
    requires rglayout(c, ind, o, r), r >= 1, c.len() + 2 + b.len() <= 0xffff_ffff, ind.dom().contains(x)
    ensures ({ let d = rgappended(c, ind, o, u, b); let p = ind[x] as int; rgfits(c, p, r) && rgfits(d, p, r) && c[p] == x && d[p] == x && rgend(d, p, r) == rgend(c, p, r) && rgbody(d, p, r) == rgbody(c, p, r) && d[p + 1] == (if x == o.last() { c.len() as u32 } else { c[p + 1] }) })
{
    let d = rgappended(c, ind, o, u, b); let p = ind[x] as int; let n = o.len() as int;
    lemma_rgl(c, ind, o, r); assert(o.contains(x)); lemma_ix(o); let i = ix(o, x); assert(o[i] == x);
    let l = ind[o[n - 1]] as int; assert(o.contains(o[n - 1])); assert(ind.dom().contains(o[n - 1])); assert(rgfits(c, l, r));
    assert(forall|k: int| 0 <= k < c.len() && k != l + 1 ==> d[k] == c[k]);
    if i < n - 1 { lemma_rgl_mono(c, ind, o, r, i, n - 1); assert(rgend(c, p, r) <= l); }
    assert(rgbody(d, p, r) =~= rgbody(c, p, r));
}
pub proof fn lemma_rgpush(o: Seq<Vertex>, u: Vertex)
    requires o.no_duplicates(), !o.contains(u)
    ensures o.push(u).no_duplicates(), forall|x: Vertex| #[trigger] o.push(u).contains(x) <==> o.contains(x) || x == u
{
    let q = o.push(u); let n = o.len() as int;
    assert forall|x: Vertex| #[trigger] q.contains(x) <==> o.contains(x) || x == u by { if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(q[i] == x); } assert(q[n] == u); if q.contains(x) && x != u { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(o[i] == x); } }
    assert forall|i: int, k: int| 0 <= i < q.len() && 0 <= k < q.len() && i != k implies q[i] != q[k] by { if i < n { assert(o.contains(o[i])); } if k < n { assert(o.contains(o[k])); } }
}
pub proof fn lemma_rga_new(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, u: Vertex, b: Seq<u32>)
    requires rglayout(c, ind, o, r), r >= 1, c.len() + 2 + b.len() <= 0xffff_ffff, b.len() >= r, b[r - 1] == c.len() + 2 + b.len()
    ensures ({ let d = rgappended(c, ind, o, u, b); let e = c.len() as int; d[e] == u && d[e + 1] == e && d.len() == e + 2 + b.len() && rgbody(d, e, r) == b && rgfits(d, e, r) && rgend(d, e, r) == d.len() })
{
    let d = rgappended(c, ind, o, u, b); let e = c.len() as int; let n = o.len() as int;
    if n > 0 { lemma_rgl(c, ind, o, r); assert(o.contains(o[n - 1])); assert(ind.dom().contains(o[n - 1])); }
    assert(d[e + 1 + r] == b[r - 1]);
    assert(rgbody(d, e, r) =~= b);
}
pub proof fn lemma_rgl_dom(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, x: Vertex)
    requires rglayout(c, ind, o, r)
    ensures o.no_duplicates(), ind.dom().contains(x) <==> o.contains(x)
{ reveal(rglayout); }
pub proof fn lemma_rgl_rec(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, i: int)
    requires rglayout(c, ind, o, r), 0 <= i < o.len()
    ensures rgrec_ok(c, ind, o, r, i), rgend(c, ind[o[i]] as int, r) == (if i + 1 < o.len() { ind[o[i + 1]] as int } else { c.len() as int })
{ reveal(rglayout); assert(rgrec_ok(c, ind, o, r, i)); }
pub proof fn lemma_rga_at(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, u: Vertex, b: Seq<u32>, i: int)
    requires rglayout(c, ind, o, r), r >= 1, !ind.dom().contains(u), c.len() + 2 + b.len() <= 0xffff_ffff, b.len() >= r, b[r - 1] == c.len() + 2 + b.len(), 0 <= i <= o.len()
    ensures rgrec_ok(rgappended(c, ind, o, u, b), ind.insert(u, c.len() as usize), o.push(u), r, i)
{
    let d = rgappended(c, ind, o, u, b); let j = ind.insert(u, c.len() as usize); let q = o.push(u); let n = o.len() as int;
    lemma_rga_new(c, ind, o, r, u, b);
    if i < n {
        let x = o[i]; assert(q[i] == x); assert(o.contains(x)); lemma_rgl_dom(c, ind, o, r, x); assert(x != u);
        lemma_rga_kept(c, ind, o, r, u, b, x); lemma_rgl_rec(c, ind, o, r, i);
        if i + 1 < n { let y = o[i + 1]; assert(o.contains(y)); lemma_rgl_dom(c, ind, o, r, y); assert(y != u); assert(q[i + 1] == y); lemma_ix_at(o, i); lemma_ix_at(o, n - 1); assert(x != o.last()); assert(j[y] == ind[y]); } else { assert(q[i + 1] == u); assert(x == o.last()); }
        assert(j[x] == ind[x]);
    } else { assert(q[i] == u); }
}
pub proof fn lemma_rga_layout(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, r: nat, u: Vertex, b: Seq<u32>)
    requires rglayout(c, ind, o, r), r >= 1, !ind.dom().contains(u), c.len() + 2 + b.len() <= 0xffff_ffff, b.len() >= r, b[r - 1] == c.len() + 2 + b.len()
    ensures rglayout(rgappended(c, ind, o, u, b), ind.insert(u, c.len() as usize), o.push(u), r),
        forall|x: Vertex| #[trigger] ind.dom().contains(x) ==> rgbody(rgappended(c, ind, o, u, b), ind[x] as int, r) == rgbody(c, ind[x] as int, r),
        rgbody(rgappended(c, ind, o, u, b), c.len() as int, r) == b,
{
    let d = rgappended(c, ind, o, u, b); let j = ind.insert(u, c.len() as usize); let q = o.push(u); let n = o.len() as int;
    lemma_rga_new(c, ind, o, r, u, b);
    assert forall|x: Vertex| #[trigger] ind.dom().contains(x) implies rgbody(d, ind[x] as int, r) == rgbody(c, ind[x] as int, r) by { lemma_rga_kept(c, ind, o, r, u, b, x); }
    lemma_rgl_dom(c, ind, o, r, u); lemma_rgpush(o, u);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] rgrec_ok(d, j, q, r, i) by { lemma_rga_at(c, ind, o, r, u, b, i); }
    assert forall|x: Vertex| #[trigger] j.dom().contains(x) <==> q.contains(x) by { lemma_rgl_dom(c, ind, o, r, x); }
    assert(j[q[0]] == 0) by { if n > 0 { assert(q[0] == o[0]); assert(o.contains(o[0])); lemma_rgl_dom(c, ind, o, r, o[0]); lemma_rgl(c, ind, o, r); } else { lemma_rgl(c, ind, o, r); assert(q[0] == u); } }
    assert(q.last() == u && j[u] == c.len());
    reveal(rglayout);
}
/// n lists the reachable vertices with distance and position, by distance first
#[verifier::opaque]
pub open spec fn nlist(m: Map<Vertex, u32>, p: Map<Vertex, usize>, n: Seq<(u32, usize, u32)>) -> bool {
    &&& forall|j: int| 0 <= j < n.len() ==> m.dom().contains((#[trigger] n[j]).2) && n[j].0 == m[n[j].2] && n[j].1 == p[n[j].2]
    &&& forall|x: Vertex| #[trigger] m.dom().contains(x) ==> n.contains((m[x], p[x], x))
    &&& n.no_duplicates()
    &&& n.len() == m.dom().len()
}
pub proof fn lemma_nlist(m: Map<Vertex, u32>, p: Map<Vertex, usize>, o: Seq<Vertex>, n: Seq<(u32, usize, u32)>)
    requires lists(o, m.dom()), n.len() == o.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] n[i] == (m[o[i]], p[o[i]], o[i])
    ensures nlist(m, p, n)
{
    reveal(nlist);
    assert forall|x: Vertex| #[trigger] m.dom().contains(x) implies n.contains((m[x], p[x], x)) by { assert(o.contains(x)); let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(n[i] == (m[x], p[x], x)); }
    assert forall|j: int| 0 <= j < n.len() implies m.dom().contains((#[trigger] n[j]).2) && n[j].0 == m[n[j].2] && n[j].1 == p[n[j].2] by { assert(n[j] == (m[o[j]], p[o[j]], o[j])); assert(o.contains(o[j])); }
    assert forall|i: int, j: int| 0 <= i < n.len() && 0 <= j < n.len() && i != j implies n[i] != n[j] by { assert(n[i].2 == o[i] && n[j].2 == o[j]); }
}
pub proof fn lemma_nlist_perm(m: Map<Vertex, u32>, p: Map<Vertex, usize>, n: Seq<(u32, usize, u32)>, l: Seq<(u32, usize, u32)>)
    requires nlist(m, p, n), perm(l, n)
    ensures nlist(m, p, l)
{
    reveal(nlist);
    assert forall|j: int| 0 <= j < l.len() implies m.dom().contains((#[trigger] l[j]).2) && l[j].0 == m[l[j].2] && l[j].1 == p[l[j].2] by { assert(l.contains(l[j])); assert(n.contains(l[j])); let i = choose|i: int| 0 <= i < n.len() && n[i] == l[j]; assert(n[i] == l[j]); }
    assert forall|x: Vertex| #[trigger] m.dom().contains(x) implies l.contains((m[x], p[x], x)) by { assert(n.contains((m[x], p[x], x))); }
}
/// the table entries written so far: t[i] is where distance i + 1 ends
#[verifier::opaque]
pub open spec fn tabs(t: Seq<u32>, d: Seq<u32>, base: int) -> bool {
    forall|i: int| 0 <= i < t.len() ==> base <= #[trigger] t[i] <= base + d.len() && forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[j] <= i + 1 <==> j < t[i] - base)
}
pub proof fn lemma_tabs_step(t: Seq<u32>, d: Seq<u32>, base: int, x: u32, k: int)
    requires tabs(t, d, base), 0 <= k <= d.len(), x == base + k, forall|j: int| 0 <= j < k ==> #[trigger] d[j] <= t.len() + 1, forall|j: int| k <= j < d.len() ==> #[trigger] d[j] > t.len() + 1
    ensures tabs(t.push(x), d, base)
{
    reveal(tabs); let s = t.push(x);
    assert forall|i: int| 0 <= i < s.len() implies base <= #[trigger] s[i] <= base + d.len() && forall|j: int| 0 <= j < d.len() ==> (#[trigger] d[j] <= i + 1 <==> j < s[i] - base) by { if i < t.len() { assert(s[i] == t[i]); } }
}
/// positions are assigned along o
#[verifier::opaque]
pub open spec fn pos_ok(p: Map<Vertex, usize>, o: Seq<Vertex>) -> bool { forall|x: Vertex| #[trigger] o.contains(x) ==> p.dom().contains(x) && forall|y: Vertex| #[trigger] o.contains(y) && ix(o, x) < ix(o, y) ==> p[x] < p[y] }
/// the sorted list and the table make up the record of u
pub proof fn lemma_body(m: Map<Vertex, u32>, p: Map<Vertex, usize>, o: Seq<Vertex>, n: Seq<(u32, usize, u32)>, d: Seq<u32>, v: Seq<u32>, t: Seq<u32>, b: Seq<u32>, e: int, r: nat)
    requires nlist(m, p, n), asc3(n), d.len() == n.len(), v.len() == n.len(), forall|j: int| 0 <= j < n.len() ==> #[trigger] d[j] == n[j].0, forall|j: int| 0 <= j < n.len() ==> #[trigger] v[j] == n[j].2,
        tabs(t, d, e + r + 2), t.len() == r, r >= 1, b == t + v, o.no_duplicates(), pos_ok(p, o), forall|x: Vertex| #[trigger] m.dom().contains(x) ==> o.contains(x) && 1 <= m[x] <= r
    ensures tab(b, e, r), b.len() == r + m.dom().len(), b[r - 1] == e + 2 + b.len(), rgdata(b, r) == v, v.no_duplicates(), forall|x: Vertex| #[trigger] v.contains(x) <==> m.dom().contains(x),
        forall|i: int| 1 <= i <= r ==> sorted_in(o, #[trigger] lvl(b, e, r, i)),
        forall|i: int, x: Vertex| 1 <= i <= r ==> (#[trigger] lvl(b, e, r, i).contains(x) <==> m.dom().contains(x) && m[x] == i)
{
    let base = e + r + 2; reveal(nlist); reveal(asc3); reveal(pos_ok);
    assert(rgdata(b, r) =~= v);
    assert forall|j: int| 0 <= j < n.len() implies m.dom().contains(#[trigger] v[j]) && d[j] == m[v[j]] && n[j] == (m[v[j]], p[v[j]], v[j]) by { assert(n[j].2 == v[j]); }
    assert forall|x: Vertex| #[trigger] v.contains(x) <==> m.dom().contains(x) by {
        if v.contains(x) { let j = choose|j: int| 0 <= j < v.len() && v[j] == x; assert(m.dom().contains(v[j])); }
        if m.dom().contains(x) { assert(n.contains((m[x], p[x], x))); let j = choose|j: int| 0 <= j < n.len() && n[j] == (m[x], p[x], x); assert(v[j] == x); }
    }
    assert forall|i: int, j: int| 0 <= i < v.len() && 0 <= j < v.len() && i != j implies v[i] != v[j] by { assert(n[i] != n[j]); assert(n[i] == (m[v[i]], p[v[i]], v[i])); assert(n[j] == (m[v[j]], p[v[j]], v[j])); }
    assert forall|i: int| 1 <= i <= r implies rb(b, e, r, i) == #[trigger] t[i - 1] by { assert(b[i - 1] == t[i - 1]); }
    lemma_body_tab(d, t, b, e, r, v, n, m);
    assert forall|i: int, x: Vertex| 1 <= i <= r implies (#[trigger] lvl(b, e, r, i).contains(x) <==> m.dom().contains(x) && m[x] == i) by { lemma_body_lvl(m, p, n, d, v, t, b, e, r, i, x); }
    assert forall|i: int| 1 <= i <= r implies sorted_in(o, #[trigger] lvl(b, e, r, i)) by {
        let s = lvl(b, e, r, i); lemma_rb(b, e, r, i); let a = rb(b, e, r, i - 1) - base; reveal(sorted_in);
        assert forall|k: int, l: int| 0 <= k < l < s.len() implies ix(o, s[k]) < ix(o, s[l]) by {
            assert(s[k] == v[a + k]); assert(s[l] == v[a + l]); let x = s[k]; let y = s[l]; assert(n[a + k] == (m[x], p[x], x)); assert(n[a + l] == (m[y], p[y], y));
            assert(s.contains(x) && s.contains(y)); assert(m[x] == i && m[y] == i); assert(n[a + k] != n[a + l]); assert(x != y); assert(p[x] <= p[y]);
            lemma_ix(o); assert(o.contains(x) && o.contains(y)); if ix(o, y) < ix(o, x) { assert(p[y] < p[x]); }
        }
    }
}
pub proof fn lemma_body_tab(d: Seq<u32>, t: Seq<u32>, b: Seq<u32>, e: int, r: nat, v: Seq<u32>, n: Seq<(u32, usize, u32)>, m: Map<Vertex, u32>)
    requires tabs(t, d, e + r + 2), t.len() == r, r >= 1, b == t + v, v.len() == d.len(), forall|j: int| 0 <= j < v.len() ==> m.dom().contains(#[trigger] v[j]) && d[j] == m[v[j]], forall|x: Vertex| #[trigger] m.dom().contains(x) ==> 1 <= m[x] <= r
    ensures tab(b, e, r), b[r - 1] == e + 2 + b.len()
{
    let base = e + r + 2; reveal(tabs); reveal(tab);
    assert forall|i: int| 1 <= i <= r implies rb(b, e, r, i) == #[trigger] t[i - 1] by { assert(b[i - 1] == t[i - 1]); }
    assert(b[r - 1] == t[r - 1]);
    assert(t[r - 1] == base + d.len()) by { let c = t[r - 1] - base; if c < d.len() { assert(m.dom().contains(v[c])); assert(d[c] <= r - 1 + 1); } }
    assert forall|i: int, j: int| 0 <= i <= j <= r implies #[trigger] rb(b, e, r, i) <= #[trigger] rb(b, e, r, j) by {
        if i >= 1 { assert(rb(b, e, r, i) == t[i - 1]); assert(rb(b, e, r, j) == t[j - 1]); let c = t[j - 1] - base; if c < t[i - 1] - base { assert(d[c] <= i - 1 + 1); assert(d[c] <= j - 1 + 1); } }
        else if j >= 1 { assert(rb(b, e, r, j) == t[j - 1]); }
    }
}
pub proof fn lemma_body_lvl(m: Map<Vertex, u32>, p: Map<Vertex, usize>, n: Seq<(u32, usize, u32)>, d: Seq<u32>, v: Seq<u32>, t: Seq<u32>, b: Seq<u32>, e: int, r: nat, i: int, x: Vertex)
    requires tab(b, e, r), tabs(t, d, e + r + 2), t.len() == r, r >= 1, b == t + v, v.len() == d.len(), forall|j: int| 0 <= j < v.len() ==> m.dom().contains(#[trigger] v[j]) && d[j] == m[v[j]], forall|x: Vertex| #[trigger] m.dom().contains(x) ==> 1 <= m[x] <= r,
        forall|x: Vertex| #[trigger] v.contains(x) <==> m.dom().contains(x), v.no_duplicates(), 1 <= i <= r
    ensures lvl(b, e, r, i).contains(x) <==> m.dom().contains(x) && m[x] == i
{
    let base = e + r + 2; let s = lvl(b, e, r, i); lemma_rb(b, e, r, i); let a = rb(b, e, r, i - 1) - base; let z = rb(b, e, r, i) - base; reveal(tabs);
    assert(b[i - 1] == t[i - 1]); if i > 1 { assert(b[i - 2] == t[i - 2]); }
    assert forall|j: int| 0 <= j < d.len() implies (a <= j < z <==> #[trigger] d[j] == i) by { assert(d[j] <= i - 1 + 1 <==> j < t[i - 1] - base); if i > 1 { assert(d[j] <= i - 2 + 1 <==> j < t[i - 2] - base); } else { assert(m.dom().contains(v[j])); } }
    if s.contains(x) { let k = choose|k: int| 0 <= k < s.len() && s[k] == x; assert(s[k] == v[a + k]); assert(m.dom().contains(v[a + k])); assert(d[a + k] == i); }
    if m.dom().contains(x) && m[x] == i { assert(v.contains(x)); let j = choose|j: int| 0 <= j < v.len() && v[j] == x; assert(m.dom().contains(v[j])); assert(d[j] == i); assert(s[j - a] == v[j]); }
}
/// edges / right degrees after adding those from u to the vertices in s at distance 1
#[verifier::opaque]
pub open spec fn rg_edges(e0: Set<Edge>, u: Vertex, m: Map<Vertex, u32>, s: Set<Vertex>, e: Set<Edge>) -> bool {
    forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) <==> e0.contains((x, y)) || (x <= y && ((x == u && s.contains(y) && m[y] == 1) || (y == u && s.contains(x) && m[x] == 1)))
}
#[verifier::opaque]
pub open spec fn rg_right(r0: FxHashMap<Vertex, u32>, m: Map<Vertex, u32>, s: Set<Vertex>, r: FxHashMap<Vertex, u32>) -> bool {
    forall|v: Vertex| #[trigger] rgcount(r, v) == rgcount(r0, v) + if s.contains(v) && m[v] == 1 { 1int } else { 0 }
}
pub proof fn lemma_rgappend<const D: usize>(g: ReachGraph<D>, h: ReachGraph<D>, u: Vertex, b: Seq<u32>, m: Map<Vertex, u32>)
    requires g.wf(), !g.vs().contains(u), g.contents@.len() + 2 + b.len() <= 0xffff_ffff, tab(b, g.contents@.len() as int, D as nat), b.len() >= D, b[D - 1] == g.contents@.len() + 2 + b.len(),
        rgdata(b, D as nat).no_duplicates(), forall|x: Vertex| #[trigger] rgdata(b, D as nat).contains(x) ==> g.vs().contains(x), forall|i: int| 1 <= i <= D ==> sorted_in(g.vseq(), #[trigger] lvl(b, g.contents@.len() as int, D as nat, i)),
        forall|i: int, x: Vertex| 1 <= i <= D ==> (#[trigger] lvl(b, g.contents@.len() as int, D as nat, i).contains(x) <==> m.dom().contains(x) && m[x] == i),
        h.contents@ == rgappended(g.contents@, g.indices@, g.vseq(), u, b), h.indices@ == g.indices@.insert(u, g.contents@.len() as usize),
        rg_edges(g.edges@, u, m, m.dom(), h.edges@), rg_right(g.right_degrees, m, m.dom(), h.right_degrees)
    ensures h.wf(), h.vseq() == g.vseq().push(u), forall|x: Vertex, i: int| g.vs().contains(x) ==> #[trigger] rgl(h, x, i) == rgl(g, x, i), forall|x: Vertex| g.vs().contains(x) ==> #[trigger] rgall(h, x) == rgall(g, x), forall|i: int| #[trigger] rgl(h, u, i) == lvl(b, g.contents@.len() as int, D as nat, i), h.indices@[h.vseq().last()] == g.contents@.len(),
        rgall(h, u) == rgdata(b, D as nat)
{
    let c = g.contents@; let o = g.vseq(); let q = o.push(u); let r = D as nat; let e = c.len() as int; reveal(rg_edges); reveal(rg_right);
    lemma_rgl(c, g.indices@, o, r);
    lemma_rga_layout(c, g.indices@, o, r, u, b); assert(rglayout(h.contents@, h.indices@, q, rgd(h))); lemma_rgl_unique(h.contents@, h.indices@, q, rgseq(h), r); lemma_rgl(h.contents@, h.indices@, q, r);
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] rgb(h, x) == rgb(g, x) && h.indices@[x] == g.indices@[x] by { }
    assert(rgb(h, u) == b && h.indices@[u] == e);
    assert forall|x: Vertex, i: int| g.vs().contains(x) implies #[trigger] rgl(h, x, i) == rgl(g, x, i) by { assert(rgb(h, x) == rgb(g, x)); }
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] rgall(h, x) == rgall(g, x) by { assert(rgb(h, x) == rgb(g, x)); }
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] ix(q, x) == ix(o, x) by { assert(o.contains(x)); lemma_ix(o); assert(q[ix(o, x)] == x); lemma_ix_at(q, ix(o, x)); }
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] g.indices@[x] < e by { assert(rgfits(c, g.indices@[x] as int, r)); }
    lemma_lvl(b, e, r);
    assert forall|x: Vertex| h.indices@.dom().contains(x) implies #[trigger] rgrow(h, x) by {
        if x != u { assert(rgrow(g, x)); g.lemma_at(x); assert(rgb(h, x) == rgb(g, x)); assert(rgall(h, x) == rgall(g, x)); }
        else { assert forall|y: Vertex| #[trigger] rgall(h, u).contains(y) implies h.indices@.dom().contains(y) && h.indices@[y] < e by { assert(g.vs().contains(y)); assert(g.indices@[y] < e); } }
        assert forall|i: int| 1 <= i <= D implies sorted_in(q, #[trigger] rgl(h, x, i)) by {
            let s = rgl(h, x, i);
            assert(sorted_in(o, s)) by { if x != u { assert(s == rgl(g, x, i)); } else { assert(s == lvl(b, e, r, i)); } }
            assert forall|y: Vertex| #[trigger] s.contains(y) implies g.vs().contains(y) by { if x != u { assert(rgl(g, x, i).contains(y)); } else { assert(lvl(b, e, r, i).contains(y)); assert(rgdata(b, r).contains(y)); } }
            reveal(sorted_in);
            assert forall|j: int, k: int| 0 <= j < k < s.len() implies ix(q, s[j]) < ix(q, s[k]) by { assert(s.contains(s[j]) && s.contains(s[k])); assert(ix(q, s[j]) == ix(o, s[j])); assert(ix(q, s[k]) == ix(o, s[k])); }
        }
    }
    let l1 = lvl(b, e, r, 1); assert(rgl(h, u, 1) == l1);
    assert(!l1.contains(u)) by { if l1.contains(u) { assert(rgdata(b, r).contains(u)); } }
    assert forall|x: Vertex| g.vs().contains(x) implies !#[trigger] rgl(g, x, 1).contains(u) by { g.lemma_at(x); }
    assert forall|x: Vertex| #[trigger] l1.contains(x) implies g.vs().contains(x) by { assert(rgdata(b, r).contains(x)); }
    assert forall|x: Vertex, y: Vertex| #[trigger] rgadj(h, x, y) <==> rgadj(g, x, y) || (x == u && l1.contains(y)) || (y == u && l1.contains(x)) by {
        if x != u && g.vs().contains(x) { assert(rgl(h, x, 1) == rgl(g, x, 1)); }
        if y != u && g.vs().contains(y) { assert(rgl(h, y, 1) == rgl(g, y, 1)); }
    }
    assert forall|x: Vertex, y: Vertex| #[trigger] h.edges@.contains((x, y)) <==> x <= y && rgrel(h)(x, y) by {
        assert(g.edges@.contains((x, y)) <==> x <= y && rgrel(g)(x, y)); assert(rgrel(h)(x, y) == rgadj(h, x, y)); assert(rgrel(g)(x, y) == rgadj(g, x, y));
        assert(l1.contains(x) <==> m.dom().contains(x) && m[x] == 1); assert(l1.contains(y) <==> m.dom().contains(y) && m[y] == 1);
    }
    assert forall|v: Vertex| #[trigger] rgcount(h.right_degrees, v) == rgright(h, v).len() by {
        assert(rgcount(g.right_degrees, v) == rgright(g, v).len()); let a = rgright(g, v); let z = rgright(h, v);
        assert(l1.contains(v) <==> m.dom().contains(v) && m[v] == 1);
        assert forall|x: Vertex| #[trigger] z.contains(x) <==> a.contains(x) || (x == u && l1.contains(v)) by { if x != u && g.vs().contains(x) { assert(rgl(h, x, 1) == rgl(g, x, 1)); } }
        if l1.contains(v) { assert(z =~= a.insert(u)); } else { assert(z =~= a); }
    }
    assert(q.last() == u);
}
pub proof fn lemma_rg_edges_step(e0: Set<Edge>, u: Vertex, m: Map<Vertex, u32>, s: Set<Vertex>, e: Set<Edge>, v: Vertex, f: Set<Edge>)
    requires rg_edges(e0, u, m, s, e), m[v] != 1 ==> f == e, m[v] == 1 ==> f == e.insert(if u < v { (u, v) } else { (v, u) })
    ensures rg_edges(e0, u, m, s.insert(v), f)
{ reveal(rg_edges); }
pub proof fn lemma_rg_right_step(r0: FxHashMap<Vertex, u32>, m: Map<Vertex, u32>, s: Set<Vertex>, r: FxHashMap<Vertex, u32>, v: Vertex, q: FxHashMap<Vertex, u32>)
    requires rg_right(r0, m, s, r), !s.contains(v), m[v] != 1 ==> q == r, m[v] == 1 ==> q@ == r@.insert(v, (rgcount(r, v) + 1) as u32), rgcount(r, v) < u32::MAX
    ensures rg_right(r0, m, s.insert(v), q)
{
    reveal(rg_right);
    assert forall|x: Vertex| #[trigger] rgcount(q, x) == rgcount(r0, x) + if s.insert(v).contains(x) && m[x] == 1 { 1int } else { 0 } by { assert(rgcount(r, x) == rgcount(r0, x) + if s.contains(x) && m[x] == 1 { 1int } else { 0 }); }
}
pub proof fn lemma_rg0(e0: Set<Edge>, u: Vertex, m: Map<Vertex, u32>, r0: FxHashMap<Vertex, u32>)
    ensures rg_edges(e0, u, m, Set::empty(), e0), rg_right(r0, m, Set::empty(), r0)
{ reveal(rg_edges); reveal(rg_right); }
pub proof fn lemma_rg_bound<const D: usize>(g: ReachGraph<D>, m: Map<Vertex, u32>, s: Set<Vertex>, r: FxHashMap<Vertex, u32>, v: Vertex)
    requires g.wf(), rg_right(g.right_degrees, m, s, r)
    ensures rgcount(r, v) < u32::MAX
{ reveal(rg_right); lemma_rgright(g, v); assert(rgcount(g.right_degrees, v) == rgright(g, v).len()); assert(rgcount(r, v) == rgcount(g.right_degrees, v) + if s.contains(v) && m[v] == 1 { 1int } else { 0 }); }
pub proof fn lemma_dists(m: Map<Vertex, u32>, p: Map<Vertex, usize>, n: Seq<(u32, usize, u32)>, d: Seq<u32>, r: nat)
    requires nlist(m, p, n), asc3(n), d.len() == n.len(), forall|j: int| 0 <= j < n.len() ==> #[trigger] d[j] == n[j].0, forall|x: Vertex| #[trigger] m.dom().contains(x) ==> 1 <= m[x] <= r
    ensures d.len() == m.dom().len(), forall|j: int| 0 <= j < d.len() ==> 1 <= #[trigger] d[j] <= r, forall|i: int, j: int| 0 <= i < j < d.len() ==> #[trigger] d[i] <= #[trigger] d[j]
{ reveal(nlist); reveal(asc3); assert forall|j: int| 0 <= j < n.len() implies #[trigger] d[j] == n[j].0 && 1 <= d[j] <= r by { assert(m.dom().contains(n[j].2)); } assert forall|i: int, j: int| 0 <= i < j < d.len() implies #[trigger] d[i] <= #[trigger] d[j] by { assert(d[i] == n[i].0 && d[j] == n[j].0); } }
pub proof fn lemma_pos<const D: usize>(g: ReachGraph<D>, p: Map<Vertex, usize>, m: Map<Vertex, u32>, od: Seq<Vertex>)
    requires g.wf(), pos_ok(p, g.vseq()), forall|x: Vertex| #[trigger] m.dom().contains(x) ==> g.vs().contains(x), lists(od, m.dom())
    ensures forall|i: int| 0 <= i < od.len() ==> p.dom().contains(#[trigger] od[i]) && m.dom().contains(od[i]), forall|x: Vertex| #[trigger] m.dom().contains(x) ==> g.vseq().contains(x)
{ reveal(pos_ok); g.lemma_wf(); assert forall|i: int| 0 <= i < od.len() implies p.dom().contains(#[trigger] od[i]) && m.dom().contains(od[i]) by { assert(od.contains(od[i])); assert(g.vs().contains(od[i])); assert(g.vseq().contains(od[i])); } }
pub open spec fn n3(n: Vec<(u32, usize, u32)>) -> Seq<(u32, usize, u32)> { n@ }
pub open spec fn d3(n: Vec<u32>) -> Seq<u32> { n@ }
impl<const DEPTH: usize> ReachGraphBuilder<DEPTH> {
    pub open spec fn inv(&self) -> bool {
        let g = self.rgraph; let o = g.vseq();
        g.wf() && self.last_index.is_some() == (o.len() > 0) && (o.len() > 0 ==> self.last_index->0 == g.indices@[o.last()])
    }
//@ fn reachgraph.rs impl:ReachGraphBuilder new
//@ requires DEPTH >= 1
//@ ensures r.inv(), r.rgraph.vseq() == Seq::<Vertex>::empty(), r.rgraph.contents@.len() == 0
//@ end
//@ fn reachgraph.rs impl:ReachGraphBuilder build
//@ ensures r == self.rgraph
//@ end
//@ fn reachgraph.rs impl:ReachGraphBuilder append
//@ as vx_append
//@ requires
    old(self).inv(), !old(self).rgraph.vs().contains(*u), old(self).rgraph.contents@.len() + 2 + DEPTH + reachable@.dom().len() <= 0xffff_ffff,
    forall|x: Vertex| #[trigger] reachable@.dom().contains(x) ==> old(self).rgraph.vs().contains(x) && 1 <= reachable@[x] <= DEPTH, pos_ok(order@, old(self).rgraph.vseq())
//@ ensures
    final(self).inv(), final(self).rgraph.vseq() == old(self).rgraph.vseq().push(*u), final(self).rgraph.vs() == old(self).rgraph.vs().insert(*u),
    forall|x: Vertex, i: int| old(self).rgraph.vs().contains(x) ==> #[trigger] rgl(final(self).rgraph, x, i) == rgl(old(self).rgraph, x, i),
    forall|x: Vertex| old(self).rgraph.vs().contains(x) ==> #[trigger] rgall(final(self).rgraph, x) == rgall(old(self).rgraph, x),
    forall|i: int, x: Vertex| 1 <= i <= DEPTH ==> (#[trigger] rgl(final(self).rgraph, *u, i).contains(x) <==> reachable@.dom().contains(x) && reachable@[x] == i),
    forall|x: Vertex| #[trigger] rgall(final(self).rgraph, *u).contains(x) <==> reachable@.dom().contains(x),
    final(self).rgraph.contents@.len() == old(self).rgraph.contents@.len() + 2 + DEPTH + reachable@.dom().len()
//@ hint start
    let ghost g0 = self.rgraph; let ghost o = g0.vseq(); let ghost c0 = g0.contents@; let ghost m = reachable@; let ghost e = c0.len() as int;
    proof { g0.lemma_wf(); lemma_ix(o); if o.len() > 0 { assert(o.contains(o.last())); g0.lemma_at(o.last()); } }
//@ closure 1 |vxp2: (&u32, &u32)| -> (z: (u32, usize, u32)) requires order@.dom().contains(*vxp2.0) ensures z == (*vxp2.1, order@[*vxp2.0], *vxp2.0)
//@ closure 2 |vxp3: &(u32, usize, u32)| -> (x: u32) ensures x == (*vxp3).2
//@ closure 3 |vxp4: &(u32, usize, u32)| -> (x: u32) ensures x == (*vxp4).0
//@ hint before call collect 1
    let ghost hdr = contents@;
    proof { assert(hdr =~= rgappended(c0, g0.indices@, o, *u, Seq::empty())); lemma_pos(g0, order@, m, reachable.order()); }
//@ hint after let neighbour_order 1
    let ghost n0 = n3(neighbour_order);
    proof { lemma_nlist(m, order@, reachable.order(), n0); }
//@ hint after call sort_unstable 1
    let ghost n = n3(neighbour_order);
    proof { lemma_nlist_perm(m, order@, n0, n); }
//@ hint after let dists 1
    let ghost d = d3(dists);
    proof { lemma_dists(m, order@, n, d, DEPTH as nat); lemma_rg0(g0.edges@, *u, m, g0.right_degrees); lemma_pre_ends(reachable.order()); }
//@ loop 1
    rg_edges(g0.edges@, *u, m, pre(reachable.order(), it1.pos()), self.rgraph.edges@), rg_right(g0.right_degrees, m, pre(reachable.order(), it1.pos()), self.rgraph.right_degrees),
//@ hint loop1.start
    let ghost e1 = self.rgraph.edges@; let ghost r1 = self.rgraph.right_degrees; let ghost s1 = pre(reachable.order(), (it1.pos() - 1) as nat);
    proof { lemma_pre(reachable.order(), (it1.pos() - 1) as nat); lemma_rg_bound(g0, m, s1, r1, *v); if m[*v] != 1 { lemma_rg_edges_step(g0.edges@, *u, m, s1, e1, *v, e1); lemma_rg_right_step(g0.right_degrees, m, s1, r1, *v, r1); } }
//@ hint loop1.end
    proof { lemma_rg_edges_step(g0.edges@, *u, m, s1, e1, *v, self.rgraph.edges@); lemma_rg_right_step(g0.right_degrees, m, s1, r1, *v, self.rgraph.right_degrees); }
//@ hint loop2.before
    let ghost mut t = Seq::<u32>::empty();
    proof { lemma_pre_ends(reachable.order()); assert(tabs(t, d, base_offset as int)) by { reveal(tabs); } assert(hdr + t =~= hdr); }
//@ loop 2
    contents@ == hdr + t, t.len() == curr_dist - 1, 1 <= curr_dist <= r + 1, index == curr_dist + 1, tabs(t, d, base_offset as int), forall|j: int| 0 <= j < it2.pos() && j < d.len() ==> #[trigger] d[j] <= curr_dist, it2.pos() == it2_s.len() ==> curr_dist == r + 1,
    it2_s.len() == d.len() + 1,
//@ loop 3
    contents@ == hdr + t, t.len() == curr_dist - 1, 1 <= curr_dist <= r + 1, index == curr_dist + 1, tabs(t, d, base_offset as int), dist <= r + 1, forall|j: int| 0 <= j < offset && j < d.len() ==> #[trigger] d[j] <= curr_dist,
//@ hint loop2.start
    proof { let k = it2.pos() - 1; assert(offset == k); if k < d.len() { assert(*dist == d[k]); } else { assert(*dist == r + 1); } }
//@ hint loop3.start
    let ghost t0 = t;
    proof { assert forall|j: int| offset <= j < d.len() implies #[trigger] d[j] > curr_dist by { assert(d[offset as int] <= d[j]); } lemma_tabs_step(t, d, base_offset as int, (base_offset + offset) as u32, offset as int); }
//@ hint loop3.end
    proof { t = t0.push((base_offset + offset) as u32); assert(contents@ =~= hdr + t); }
//@ loopdec 3 dist - curr_dist
//@ hint before call extend 1
    let ghost v = vertices.seq();
//@ hint end
    proof { let b = t + v; assert(self.rgraph.contents@ =~= rgappended(c0, g0.indices@, o, *u, b)); lemma_body(m, order@, o, n, d, v, t, b, e, DEPTH as nat); lemma_rgappend(g0, self.rgraph, *u, b, m); }
//@ end
}
// ---------------------------------------------------------------- from ordered graphs
/// size of the records of the first k vertices of o when f gives the number of stored vertices
pub open spec fn rtot(o: Seq<Vertex>, f: spec_fn(Vertex) -> nat, r: nat, k: nat) -> nat decreases k { if k == 0 { 0 } else { rtot(o, f, r, (k - 1) as nat) + 2 + r + f(o[k - 1]) } }
pub proof fn lemma_rtot_mono(o: Seq<Vertex>, f: spec_fn(Vertex) -> nat, r: nat, k: nat, l: nat)
    requires k <= l
    ensures rtot(o, f, r, k) <= rtot(o, f, r, l)
    decreases l - k
{ if k < l { lemma_rtot_mono(o, f, r, k, (l - 1) as nat); } }
pub open spec fn wsize<L: LinearGraph>(g: L, r: nat) -> spec_fn(Vertex) -> nat { |v: Vertex| wcnt(g, v, r, g.vs()) }
pub open spec fn ssize<L: LinearGraph>(g: L, r: nat) -> spec_fn(Vertex) -> nat { |u: Vertex| g.vs().filter(|x: Vertex| sball(g, u, r, x)).len() }
pub proof fn lemma_rball_mono<L: LinearGraph>(g: L, u: Vertex, i: nat, j: nat, x: Vertex)
    requires rball(g, u, i, x), i <= j
    ensures rball(g, u, j, x)
    decreases j
{ if i < j { lemma_rball_mono(g, u, i, (j - 1) as nat, x); } }
pub proof fn lemma_sball_mono<L: LinearGraph>(g: L, u: Vertex, i: nat, j: nat, x: Vertex)
    requires sball(g, u, i, x), i <= j
    ensures sball(g, u, j, x)
{ let y = choose|y: Vertex| rball(g, u, (i - 1) as nat, y) && #[trigger] g.adj(y, x); lemma_rball_mono(g, u, (i - 1) as nat, (j - 1) as nat, y); }
/// what a map of weakly reachable vertices says
pub proof fn lemma_wmap<L: LinearGraph>(g: L, v: Vertex, r: nat, m: Map<Vertex, u32>)
    requires g.wf(), g.vs().contains(v), is_wreach(g, v, r, m)
    ensures m.dom().len() == wsize(g, r)(v), forall|u: Vertex| #[trigger] m.dom().contains(u) ==> g.vs().contains(u) && 1 <= m[u] <= r && ix(g.vseq(), u) < ix(g.vseq(), v),
        forall|u: Vertex, i: int| 1 <= i <= r ==> ((m.dom().contains(u) && m[u] == i) <==> g.vs().contains(u) && u != v && #[trigger] rlayer(g, u, i as nat, v))
{
    reveal(is_wreach); g.lemma_wf();
    assert(m.dom() =~= wcs(g, v, r, g.vs()));
    assert forall|u: Vertex| #[trigger] m.dom().contains(u) implies g.vs().contains(u) && 1 <= m[u] <= r && ix(g.vseq(), u) < ix(g.vseq(), v) by {
        lemma_rball_right(g, u, r, v); lemma_ix(g.vseq()); assert(g.vseq().contains(u) && g.vseq().contains(v));
        if m[u] > r { lemma_rball_mono(g, u, r, (m[u] - 1) as nat, v); }
    }
    assert forall|u: Vertex, i: int| 1 <= i <= r implies ((m.dom().contains(u) && m[u] == i) <==> g.vs().contains(u) && u != v && #[trigger] rlayer(g, u, i as nat, v)) by {
        if g.vs().contains(u) && u != v && rlayer(g, u, i as nat, v) {
            lemma_rball_mono(g, u, i as nat, r, v); assert(m.dom().contains(u));
            if m[u] < i { lemma_rball_mono(g, u, m[u] as nat, (i - 1) as nat, v); } if i < m[u] { lemma_rball_mono(g, u, i as nat, (m[u] - 1) as nat, v); }
        }
    }
}
/// what a map of strongly reachable vertices says
pub open spec fn slayer<L: LinearGraph>(g: L, u: Vertex, i: nat, x: Vertex) -> bool { sball(g, u, i, x) && i > 0 && !sball(g, u, (i - 1) as nat, x) }
pub proof fn lemma_smap<L: LinearGraph>(g: L, u: Vertex, r: nat, m: Map<Vertex, u32>)
    requires g.wf(), g.vs().contains(u), is_sreach(g, u, r, m)
    ensures m.dom().len() == ssize(g, r)(u), forall|x: Vertex| #[trigger] m.dom().contains(x) ==> g.vs().contains(x) && 1 <= m[x] <= r && ix(g.vseq(), x) < ix(g.vseq(), u),
        forall|x: Vertex, i: int| 1 <= i <= r ==> ((m.dom().contains(x) && m[x] == i) <==> #[trigger] slayer(g, u, i as nat, x))
{
    reveal(is_sreach); g.lemma_wf();
    assert forall|x: Vertex| #[trigger] m.dom().contains(x) implies g.vs().contains(x) && 1 <= m[x] <= r && ix(g.vseq(), x) < ix(g.vseq(), u) by {
        if m[x] > r { lemma_sball_mono(g, u, r, (m[x] - 1) as nat, x); }
    }
    assert(m.dom() =~= g.vs().filter(|x: Vertex| sball(g, u, r, x)));
    assert forall|x: Vertex, i: int| 1 <= i <= r implies ((m.dom().contains(x) && m[x] == i) <==> #[trigger] slayer(g, u, i as nat, x)) by {
        if slayer(g, u, i as nat, x) {
            lemma_sball_mono(g, u, i as nat, r, x); assert(m.dom().contains(x));
            if m[x] < i { lemma_sball_mono(g, u, m[x] as nat, (i - 1) as nat, x); } if i < m[x] { lemma_sball_mono(g, u, i as nat, (m[x] - 1) as nat, x); }
        }
    }
}
/// the records of the first k vertices have been written
#[verifier::opaque]
pub open spec fn rgpart<const D: usize>(g: ReachGraph<D>, o: Seq<Vertex>, f: spec_fn(Vertex) -> nat, s: spec_fn(Vertex, int, Vertex) -> bool, k: nat) -> bool {
    k <= o.len() && g.wf() && g.vseq() == o.take(k as int) && g.contents@.len() == rtot(o, f, D as nat, k)
    && forall|v: Vertex, i: int, x: Vertex| g.vs().contains(v) && 1 <= i <= D ==> (#[trigger] rgl(g, v, i).contains(x) <==> s(v, i, x))
}
pub proof fn lemma_rgpart0<const D: usize>(g: ReachGraph<D>, o: Seq<Vertex>, f: spec_fn(Vertex) -> nat, s: spec_fn(Vertex, int, Vertex) -> bool)
    requires g.wf(), g.vseq() == Seq::<Vertex>::empty(), g.contents@.len() == 0
    ensures rgpart(g, o, f, s, 0)
{ reveal(rgpart); assert(o.take(0) =~= g.vseq()); g.lemma_wf(); assert forall|v: Vertex| !g.vs().contains(v) by { assert(g.vs().contains(v) <==> g.vseq().contains(v)); } }
/// facts used to append the record of o[k]
pub proof fn lemma_rgpart_use<const D: usize>(g: ReachGraph<D>, o: Seq<Vertex>, f: spec_fn(Vertex) -> nat, s: spec_fn(Vertex, int, Vertex) -> bool, k: nat, p: Map<Vertex, usize>)
    requires rgpart(g, o, f, s, k), o.no_duplicates(), k < o.len(), rtot(o, f, D as nat, o.len()) <= 0xffff_ffff, forall|i: int| 0 <= i < o.len() ==> p.dom().contains(#[trigger] o[i]) && p[o[i]] == i
    ensures !g.vs().contains(o[k as int]), g.contents@.len() + 2 + D + f(o[k as int]) <= 0xffff_ffff, pos_ok(p, g.vseq()), forall|x: Vertex| #[trigger] o.contains(x) ==> (g.vs().contains(x) <==> ix(o, x) < k), g.vs().len() == k
{
    reveal(rgpart); reveal(pos_ok); g.lemma_wf(); lemma_ix(o); lemma_rtot_mono(o, f, D as nat, k + 1, o.len()); let q = g.vseq();
    assert(q.no_duplicates());
    assert forall|x: Vertex| #[trigger] o.contains(x) implies (g.vs().contains(x) <==> ix(o, x) < k) by { assert(g.vs().contains(x) <==> q.contains(x)); let i = ix(o, x); if i < k { assert(q[i] == x); } if q.contains(x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(o[j] == x); } }
    assert forall|x: Vertex| #[trigger] q.contains(x) implies p.dom().contains(x) && p[x] == ix(q, x) by { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(o[j] == x); lemma_ix_at(q, j); }
    lemma_ix(q);
    assert(o.contains(o[k as int]));
}
pub proof fn lemma_rgpart_step<const D: usize>(g: ReachGraph<D>, h: ReachGraph<D>, o: Seq<Vertex>, f: spec_fn(Vertex) -> nat, s: spec_fn(Vertex, int, Vertex) -> bool, k: nat)
    requires rgpart(g, o, f, s, k), k < o.len(), h.wf(), h.vseq() == g.vseq().push(o[k as int]), h.vs() == g.vs().insert(o[k as int]), forall|x: Vertex, i: int| g.vs().contains(x) ==> #[trigger] rgl(h, x, i) == rgl(g, x, i),
        h.contents@.len() == g.contents@.len() + 2 + D + f(o[k as int]), forall|i: int, x: Vertex| 1 <= i <= D ==> (#[trigger] rgl(h, o[k as int], i).contains(x) <==> s(o[k as int], i, x))
    ensures rgpart(h, o, f, s, k + 1)
{
    reveal(rgpart); assert(o.take(k as int + 1) =~= h.vseq());
    assert forall|v: Vertex, i: int, x: Vertex| h.vs().contains(v) && 1 <= i <= D implies (#[trigger] rgl(h, v, i).contains(x) <==> s(v, i, x)) by { if v != o[k as int] || g.vs().contains(v) { assert(rgl(h, v, i) == rgl(g, v, i)); } }
}
pub proof fn lemma_rgpart_end<const D: usize>(g: ReachGraph<D>, o: Seq<Vertex>, f: spec_fn(Vertex) -> nat, s: spec_fn(Vertex, int, Vertex) -> bool)
    requires rgpart(g, o, f, s, o.len())
    ensures g.wf(), g.vseq() == o, forall|v: Vertex, i: int, x: Vertex| g.vs().contains(v) && 1 <= i <= D ==> (#[trigger] rgl(g, v, i).contains(x) <==> s(v, i, x)), forall|x: Vertex| #[trigger] g.vs().contains(x) <==> o.contains(x)
{ reveal(rgpart); assert(o.take(o.len() as int) =~= o); g.lemma_wf(); }
pub open spec fn wrel<L: LinearGraph>(g: L) -> spec_fn(Vertex, int, Vertex) -> bool { |v: Vertex, i: int, u: Vertex| g.vs().contains(u) && u != v && rlayer(g, u, i as nat, v) }
pub open spec fn srel<L: LinearGraph>(g: L) -> spec_fn(Vertex, int, Vertex) -> bool { |v: Vertex, i: int, u: Vertex| slayer(g, v, i as nat, u) }
impl OrdGraph {
//@ fn ordgraph.rs impl:OrdGraph to_wreach_graph
//@ requires self.wf(), 1 <= DEPTH < u32::MAX, rtot(self.vseq(), wsize(*self, DEPTH as nat), DEPTH as nat, self.vseq().len()) <= u32::MAX
//@ ensures r.wf(), r.vseq() == self.vseq(), r.vs() == self.vs(), forall|v: Vertex, i: int, u: Vertex| self.vs().contains(v) && 1 <= i <= DEPTH ==> (#[trigger] rgl(r, v, i).contains(u) <==> self.vs().contains(u) && u != v && rlayer(*self, u, i as nat, v))
//@ hint start
    let ghost o = self.vseq(); let ghost d = DEPTH as nat; let ghost f = wsize(*self, d); let ghost s = wrel(*self);
    proof { self.lemma_wf(); self.lemma_lin(); lemma_ix(o); }
//@ hint loop1.before
    proof { lemma_rgpart0(builder.rgraph, o, f, s); }
//@ loop 1
    it1_s == o, builder.inv(), rgpart(builder.rgraph, o, f, s, it1.pos()),
//@ hint loop1.start
    let ghost k = (it1.pos() - 1) as nat; let ghost g0 = builder.rgraph; let ghost m = mm(wreach_sets, *u);
    proof { assert(o[k as int] == *u && o.contains(*u)); lemma_ix_at(o, k as int); lemma_ord_pos(*self); lemma_rgpart_use(g0, o, f, s, k, self.indices@); lemma_wmap(*self, *u, d, m);
        assert forall|x: Vertex| #[trigger] m.dom().contains(x) implies g0.vs().contains(x) && 1 <= m[x] <= DEPTH by { assert(self.vs().contains(x)); assert(o.contains(x)); } }
//@ hint loop1.end
    proof { assert forall|i: int, x: Vertex| 1 <= i <= DEPTH implies (#[trigger] rgl(builder.rgraph, *u, i).contains(x) <==> s(*u, i, x)) by { assert(m.dom().contains(x) && m[x] == i <==> self.vs().contains(x) && x != *u && rlayer(*self, x, i as nat, *u)); } lemma_rgpart_step(g0, builder.rgraph, o, f, s, k); }
//@ hint end
    proof { lemma_rgpart_end(vx_res, o, f, s); assert(vx_res.vs() =~= self.vs()); }
//@ end
//@ fn ordgraph.rs impl:OrdGraph to_sreach_graph
//@ requires self.wf(), 1 <= DEPTH < u32::MAX, rtot(self.vseq(), ssize(*self, DEPTH as nat), DEPTH as nat, self.vseq().len()) <= u32::MAX
//@ ensures r.wf(), r.vseq() == self.vseq(), r.vs() == self.vs(), forall|v: Vertex, i: int, u: Vertex| self.vs().contains(v) && 1 <= i <= DEPTH ==> (#[trigger] rgl(r, v, i).contains(u) <==> slayer(*self, v, i as nat, u))
//@ hint start
    let ghost o = self.vseq(); let ghost d = DEPTH as nat; let ghost f = ssize(*self, d); let ghost s = srel(*self);
    proof { self.lemma_wf(); self.lemma_lin(); lemma_ix(o); }
//@ hint loop1.before
    proof { lemma_rgpart0(builder.rgraph, o, f, s); }
//@ loop 1
    it1_s == o, builder.inv(), rgpart(builder.rgraph, o, f, s, it1.pos()),
//@ hint loop1.start
    let ghost k = (it1.pos() - 1) as nat; let ghost g0 = builder.rgraph;
    proof { assert(o[k as int] == *u && o.contains(*u)); lemma_ix_at(o, k as int); lemma_ord_pos(*self); lemma_rgpart_use(g0, o, f, s, k, self.indices@); }
//@ hint before call append 1
    let ghost m = un3(S);
    proof { lemma_smap(*self, *u, d, m); assert forall|x: Vertex| #[trigger] m.dom().contains(x) implies g0.vs().contains(x) && 1 <= m[x] <= DEPTH by { assert(self.vs().contains(x)); assert(o.contains(x)); } }
//@ hint loop1.end
    proof { assert forall|i: int, x: Vertex| 1 <= i <= DEPTH implies (#[trigger] rgl(builder.rgraph, *u, i).contains(x) <==> s(*u, i, x)) by { assert(m.dom().contains(x) && m[x] == i <==> slayer(*self, *u, i as nat, x)); } lemma_rgpart_step(g0, builder.rgraph, o, f, s, k); }
//@ hint end
    proof { lemma_rgpart_end(vx_res, o, f, s); assert(vx_res.vs() =~= self.vs()); }
//@ end
}
pub open spec fn un3(m: FxHashMap<Vertex, u32>) -> Map<Vertex, u32> { m@ }
pub proof fn lemma_ord_pos(g: OrdGraph)
    requires g.wf()
    ensures forall|i: int| 0 <= i < g.vseq().len() ==> g.indices@.dom().contains(#[trigger] g.vseq()[i]) && g.indices@[g.vseq()[i]] == i
{ lemma_index_ok(g.indices@, g.nodes@); }
} // verus!
