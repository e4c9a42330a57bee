verus! {
//@ props C15
// ===================================================================== DegenGraph
//@ struct degengraph.rs DegenGraph
//@ struct degengraph.rs DegenGraphBuilder
//@ struct degengraph.rs DegenOrderIterator
//@ struct degengraph.rs DegenIterator
/// the record at offset p of c fits into c
pub open spec fn fits(c: Seq<u32>, p: int) -> bool { 0 <= p && p + 3 <= c.len() && p + 3 + c[p + 2] <= c.len() }
/// end of the record at offset p
pub open spec fn rec_end(c: Seq<u32>, p: int) -> int { p + 3 + c[p + 2] }
/// neighbours stored in the record at offset p
pub open spec fn rec_row(c: Seq<u32>, p: int) -> Seq<u32> { c.subrange(p + 3, rec_end(c, p)) }
/// c is a chain of records, one per vertex of o, in that order, at the offsets given by ind
#[verifier::opaque]
pub open spec fn layout(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>) -> bool {
    &&& o.no_duplicates()
    &&& forall|x: Vertex| #[trigger] ind.dom().contains(x) <==> o.contains(x)
    &&& o.len() == 0 ==> c.len() == 0
    &&& o.len() > 0 ==> ind[o[0]] == 0 && rec_end(c, ind[o.last()] as int) == c.len()
    &&& forall|i: int| 0 <= i < o.len() ==> fits(c, ind[#[trigger] o[i]] as int) && c[ind[o[i]] as int] == o[i]
            && (i + 1 < o.len() ==> ind[o[i + 1]] == rec_end(c, ind[o[i]] as int))
            && c[ind[o[i]] + 1] == (if i + 1 < o.len() { ind[o[i + 1]] } else { ind[o[i]] })
    &&& c.len() <= 0xffff_ffff
}
pub proof fn lemma_layout(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>)
    requires layout(c, ind, o)
    ensures lists(o, ind.dom()), forall|x: Vertex| #[trigger] ind.dom().contains(x) ==> fits(c, ind[x] as int) && c[ind[x] as int] == x,
        forall|x: Vertex, y: Vertex| ind.dom().contains(x) && ind.dom().contains(y) ==> (#[trigger] ix(o, x) < #[trigger] ix(o, y) <==> ind[x] < ind[y]),
        c.len() <= 0xffff_ffff, (c.len() == 0 <==> o.len() == 0), o.len() > 0 ==> ind[o[0]] == 0 && c[0] == o[0]
{
    reveal(layout); lemma_ix(o); o.unique_seq_to_set();
    assert(o.to_set() =~= ind.dom());
    assert forall|x: Vertex| #[trigger] ind.dom().contains(x) implies fits(c, ind[x] as int) && c[ind[x] as int] == x by { assert(o.contains(x)); let i = ix(o, x); assert(o[i] == x); }
    assert forall|x: Vertex, y: Vertex| ind.dom().contains(x) && ind.dom().contains(y) implies (#[trigger] ix(o, x) < #[trigger] ix(o, y) <==> ind[x] < ind[y]) by {
        assert(o.contains(x) && o.contains(y)); let i = ix(o, x); let j = ix(o, y);
        if i < j { lemma_layout_mono(c, ind, o, i, j); } else if j < i { lemma_layout_mono(c, ind, o, j, i); }
    }
    if o.len() > 0 { assert(fits(c, ind[o[0]] as int)); }
}
pub proof fn lemma_layout_mono(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, i: int, j: int)
    requires layout(c, ind, o), 0 <= i < j < o.len()
    ensures rec_end(c, ind[o[i]] as int) <= ind[o[j]], ind[o[i]] < ind[o[j]]
    decreases j - i
{
    reveal(layout); assert(fits(c, ind[o[i]] as int)); assert(fits(c, ind[o[j - 1]] as int)); assert(ind[o[(j - 1) + 1]] == rec_end(c, ind[o[j - 1]] as int));
    if i < j - 1 { lemma_layout_mono(c, ind, o, i, j - 1); }
}
/// the vertex order is determined by the layout
pub proof fn lemma_layout_unique(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, q: Seq<Vertex>)
    requires layout(c, ind, o), layout(c, ind, q)
    ensures o == q
{
    lemma_layout(c, ind, o); lemma_layout(c, ind, q);
    assert forall|i: int| 0 <= i < o.len() implies o[i] == q[i] by { lemma_layout_same(c, ind, o, q, i); }
    assert(o =~= q);
}
pub proof fn lemma_layout_same(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, q: Seq<Vertex>, i: int)
    requires layout(c, ind, o), layout(c, ind, q), o.len() == q.len(), 0 <= i < o.len()
    ensures o[i] == q[i]
    decreases i
{
    reveal(layout);
    if i == 0 { assert(c[ind[o[0]] as int] == o[0]); assert(c[ind[q[0]] as int] == q[0]); } else {
        lemma_layout_same(c, ind, o, q, i - 1);
        assert(ind[o[(i - 1) + 1]] == rec_end(c, ind[o[i - 1]] as int)); assert(ind[q[(i - 1) + 1]] == rec_end(c, ind[q[i - 1]] as int));
        assert(c[ind[o[i]] as int] == o[i]); assert(c[ind[q[i]] as int] == q[i]);
    }
}
/// the vertices of g in order
pub open spec fn dseq(g: DegenGraph) -> Seq<Vertex> { choose|o: Seq<Vertex>| layout(g.contents@, g.indices@, o) }
/// left neighbours stored for x
pub open spec fn drow(g: DegenGraph, x: Vertex) -> Seq<Vertex> { rec_row(g.contents@, g.indices@[x] as int) }
pub open spec fn dadj(g: DegenGraph, x: Vertex, y: Vertex) -> bool { g.indices@.dom().contains(x) && (drow(g, x).contains(y) || g.right_neighbours@[x]@.contains(y)) }
pub open spec fn drel(g: DegenGraph) -> spec_fn(Vertex, Vertex) -> bool { |x: Vertex, y: Vertex| dadj(g, x, y) }
pub open spec fn row_ok(g: DegenGraph, x: Vertex) -> bool {
    drow(g, x).no_duplicates() && sorted_in(dseq(g), drow(g, x)) && forall|y: Vertex| #[trigger] drow(g, x).contains(y) ==> g.indices@.dom().contains(y) && g.indices@[y] < g.indices@[x]
}
impl DegenGraph {
    pub open spec fn rep(&self) -> bool {
        &&& layout(self.contents@, self.indices@, dseq(*self))
        &&& forall|x: Vertex| self.indices@.dom().contains(x) ==> #[trigger] row_ok(*self, x)
        &&& self.right_neighbours@.dom() == self.indices@.dom()
        &&& forall|x: Vertex, y: Vertex| self.indices@.dom().contains(x) ==> (#[trigger] self.right_neighbours@[x]@.contains(y) <==> self.indices@.dom().contains(y) && drow(*self, y).contains(x))
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.rep()
        &&& exists|e: Set<Edge>| is_eset(e, drel(*self)) && #[trigger] e.len() == self.m
        &&& self.m <= self.contents@.len()
    }
    pub proof fn lemma_row(&self, x: Vertex)
        requires self.rep(), self.indices@.dom().contains(x)
        ensures row_ok(*self, x), fits(self.contents@, self.indices@[x] as int), self.contents@[self.indices@[x] as int] == x, drow(*self, x).len() == self.contents@[self.indices@[x] + 2]
    { lemma_layout(self.contents@, self.indices@, dseq(*self)); }
    pub proof fn lemma_ends(&self, x: Vertex, y: Vertex)
        requires self.rep(), dadj(*self, x, y)
        ensures self.indices@.dom().contains(x), self.indices@.dom().contains(y), dadj(*self, y, x), x != y, drow(*self, x).contains(y) <==> self.indices@[y] < self.indices@[x]
    { assert(row_ok(*self, x)); if self.indices@.dom().contains(y) { assert(row_ok(*self, y)); } if drow(*self, x).contains(y) { assert(self.right_neighbours@[y]@.contains(x)); } else { assert(self.right_neighbours@[x]@.contains(y)); } }
    pub proof fn lemma_nseq(&self, u: Vertex)
        requires self.rep(), self.indices@.dom().contains(u)
        ensures self.nseq(u).no_duplicates(), self.nseq(u).len() == self.deg(u), !dadj(*self, u, u), forall|v: Vertex| #[trigger] self.nseq(u).contains(v) <==> dadj(*self, u, v)
    {
        let a = drow(*self, u); let b = self.right_neighbours@[u].order();
        self.lemma_row(u); lemma_concat_mem(a, b);
        assert forall|x: Vertex| !(#[trigger] a.contains(x) && b.contains(x)) by { if a.contains(x) && b.contains(x) { assert(self.right_neighbours@[u]@.contains(x)); assert(drow(*self, x).contains(u)); assert(row_ok(*self, x)); } }
        assert forall|v: Vertex| #[trigger] self.nseq(u).contains(v) <==> dadj(*self, u, v) by { assert(b.contains(v) <==> self.right_neighbours@[u]@.contains(v)); }
        if dadj(*self, u, u) { self.lemma_ends(u, u); }
    }
}
impl Graph for DegenGraph {
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn vs(&self) -> Set<Vertex> { self.indices@.dom() }
    open spec fn adj(&self, u: Vertex, v: Vertex) -> bool { dadj(*self, u, v) }
    open spec fn vseq(&self) -> Seq<Vertex> { dseq(*self) }
    open spec fn nseq(&self, u: Vertex) -> Seq<Vertex> { drow(*self, u) + self.right_neighbours@[u].order() }
    open spec fn deg(&self, u: Vertex) -> nat { if self.indices@.dom().contains(u) { drow(*self, u).len() + self.right_neighbours@[u]@.len() } else { 0 } }
    open spec fn esize(&self) -> nat { self.m as nat }
    open spec fn eset(&self) -> Set<Edge> { choose|e: Set<Edge>| is_eset(e, drel(*self)) && #[trigger] e.len() == self.m }
    open spec fn simple(&self) -> bool { true }
    proof fn lemma_wf(&self) {
        lemma_layout(self.contents@, self.indices@, dseq(*self));
        assert(is_eset(self.eset(), drel(*self)));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.eset().contains((x, y)) <==> x <= y && (|u: Vertex, v: Vertex| self.adj(u, v))(x, y) by { assert(drel(*self)(x, y) == dadj(*self, x, y)); }
        assert forall|u: Vertex, v: Vertex| #[trigger] self.adj(u, v) implies self.vs().contains(u) && self.vs().contains(v) && self.adj(v, u) by { self.lemma_ends(u, v); }
        assert forall|u: Vertex| self.vs().contains(u) implies (#[trigger] self.nseq(u)).no_duplicates() && self.nseq(u).len() == self.deg(u) && !self.adj(u, u) && (forall|v: Vertex| #[trigger] self.nseq(u).contains(v) <==> self.adj(u, v)) by { self.lemma_nseq(u); }
    }
//@ fn degengraph.rs impl:Graph:DegenGraph num_vertices
//@ end
//@ fn degengraph.rs impl:Graph:DegenGraph num_edges
//@ end
//@ fn degengraph.rs impl:Graph:DegenGraph contains
//@ end
//@ fn degengraph.rs impl:Graph:DegenGraph adjacent
//@ hint start
    proof { if dadj(*self, *u, *v) { self.lemma_ends(*u, *v); } }
//@ end
//@ fn degengraph.rs impl:Graph:DegenGraph degree
//@ hint start
    proof { if self.indices@.dom().contains(*u) { self.lemma_row_len(*u); } }
//@ end
//@ fn degengraph.rs impl:Graph:DegenGraph vertices
//@ hint start
    proof { self.lemma_wf(); lemma_pre_ends(self.vseq()); }
//@ end
//@ fn degengraph.rs impl:Graph:DegenGraph neighbours
//@ hint start
    proof { self.lemma_wf(); lemma_pre_ends(self.nseq(*u)); }
//@ end
}
impl LinearGraph for DegenGraph {
    open spec fn lseq(&self, v: Vertex) -> Seq<Vertex> { drow(*self, v) }
    open spec fn iof(&self, v: Vertex) -> int { self.indices@[v] as int }
    open spec fn rdeg(&self, v: Vertex) -> nat { if self.indices@.dom().contains(v) { self.right_neighbours@[v]@.len() } else { 0 } }
    proof fn lemma_lin(&self) {
        self.lemma_wf(); lemma_layout(self.contents@, self.indices@, dseq(*self));
        assert forall|u: Vertex| !#[trigger] self.adj(u, u) by { if self.adj(u, u) { self.lemma_nseq(u); } }
        assert forall|v: Vertex| self.vs().contains(v) implies (#[trigger] self.lseq(v)).no_duplicates() && sorted_in(self.vseq(), self.lseq(v)) by { assert(row_ok(*self, v)); }
        assert forall|v: Vertex, x: Vertex| self.vs().contains(v) implies (#[trigger] self.lseq(v).contains(x) <==> self.adj(v, x) && ix(self.vseq(), x) < ix(self.vseq(), v)) by {
            if dadj(*self, v, x) { self.lemma_ends(v, x); }
        }
    }
//@ fn degengraph.rs impl:LinearGraph:DegenGraph index_of
//@ end
//@ fn degengraph.rs impl:LinearGraph:DegenGraph left_neighbours
//@ hint start
    proof { self.lemma_lin(); }
//@ end
//@ fn degengraph.rs impl:LinearGraph:DegenGraph right_degree
//@ end
}
impl DegenGraph {
    pub proof fn lemma_row_len(&self, x: Vertex)
        requires self.rep(), self.indices@.dom().contains(x)
        ensures fits(self.contents@, self.indices@[x] as int), self.contents@.len() <= 0xffff_ffff, drow(*self, x).len() < 0x8000_0000, self.contents@[self.indices@[x] + 2] == drow(*self, x).len()
    {
        self.lemma_row(x); lemma_layout(self.contents@, self.indices@, dseq(*self)); let r = drow(*self, x); r.unique_seq_to_set();
        assert forall|y: Vertex| #[trigger] r.to_set().contains(y) implies self.indices@.dom().contains(y) by { assert(r.contains(y)); }
        vstd::set_lib::lemma_len_subset(r.to_set(), self.indices@.dom());
    }
//@ fn degengraph.rs impl:LinearGraph:DegenGraph left_degree
//@ requires self.wf()
//@ ensures r == (if self.vs().contains(*u) { self.lseq(*u).len() } else { 0 })
//@ hint start
    proof { if self.indices@.dom().contains(*u) { self.lemma_row_len(*u); } }
//@ end
//@ fn degengraph.rs impl:DegenGraph new
//@ ensures r.wf(), r.vseq() == Seq::<Vertex>::empty(), r.vs() == Set::<Vertex>::empty(), r.contents@.len() == 0, r.m == 0
//@ hint end
    proof {
        let g = vx_res; reveal(layout); let o = Seq::<Vertex>::empty();
        assert(g.indices@.dom() =~= Set::<Vertex>::empty());
        assert(layout(g.contents@, g.indices@, o)); lemma_layout_unique(g.contents@, g.indices@, o, dseq(g));
        let e = Set::<Edge>::empty(); assert(is_eset(e, drel(g))) by { assert forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) <==> x <= y && drel(g)(x, y) by { assert(!dadj(g, x, y)); } }
        assert(e.len() == g.m);
    }
//@ end
//@ fn degengraph.rs impl:DegenGraph first
//@ requires self.wf()
//@ ensures r.is_some() == (self.vs().len() > 0), r.is_some() ==> r->0 == self.vseq()[0]
//@ hint start
    proof { lemma_layout(self.contents@, self.indices@, dseq(*self)); }
//@ end
//@ fn degengraph.rs impl:DegenGraph left_neighbours_slice
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r@ == self.lseq(*u)
//@ hint start
    proof { self.lemma_row(*u); lemma_layout(self.contents@, self.indices@, dseq(*self)); }
//@ end
//@ fn degengraph.rs impl:DegenGraph right_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures forall|x: Vertex| #[trigger] r@.contains(x) <==> self.adj(*u, x) && ix(self.vseq(), *u) < ix(self.vseq(), x)
//@ hint start
    proof { lemma_layout(self.contents@, self.indices@, dseq(*self)); self.lemma_row(*u);
        assert forall|x: Vertex| #[trigger] self.right_neighbours@[*u]@.contains(x) <==> self.adj(*u, x) && ix(self.vseq(), *u) < ix(self.vseq(), x) by { if dadj(*self, *u, x) { self.lemma_ends(*u, x); } if self.right_neighbours@[*u]@.contains(x) { assert(row_ok(*self, x)); } } }
//@ end
//@ fn degengraph.rs impl:DegenGraph adjacent_ordered
//@ requires self.wf()
//@ ensures r == (self.adj(*u, *v) && ix(self.vseq(), *u) < ix(self.vseq(), *v))
//@ hint start
    proof { lemma_layout(self.contents@, self.indices@, dseq(*self)); if dadj(*self, *u, *v) { self.lemma_ends(*u, *v); } if self.vs().contains(*u) && self.right_neighbours@[*u]@.contains(*v) { assert(row_ok(*self, *v)); } }
//@ end
}
// ---------------------------------------------------------------- iterators
pub proof fn lemma_link(g: DegenGraph, x: Vertex)
    requires g.rep(), g.vs().contains(x)
    ensures ({ let o = g.vseq(); let k = ix(o, x); let c = g.contents@; let p = g.indices@[x] as int;
        0 <= k < o.len() && o[k] == x && fits(c, p) && c[p] == x && (c[p + 1] == p <==> k + 1 == o.len()) && (k + 1 < o.len() ==> c[p + 1] == g.indices@[o[k + 1]] && g.vs().contains(o[k + 1]) && c[c[p + 1] as int] == o[k + 1] && ix(o, o[k + 1]) == k + 1) })
{
    lemma_layout(g.contents@, g.indices@, dseq(g)); reveal(layout); let o = g.vseq(); lemma_ix(o); assert(o.contains(x)); let k = ix(o, x);
    assert(fits(g.contents@, g.indices@[o[k]] as int));
    if k + 1 < o.len() { assert(o.contains(o[k + 1])); lemma_layout_mono(g.contents@, g.indices@, o, k, k + 1); assert(fits(g.contents@, g.indices@[o[k + 1]] as int)); }
}
/// i is the offset of a record of g
pub open spec fn is_off(g: DegenGraph, i: usize) -> bool { i < g.contents@.len() && g.vs().contains(g.contents@[i as int]) && g.indices@[g.contents@[i as int]] == i }
/// the vertices from the record at i on
pub open spec fn from_off(g: DegenGraph, i: Option<usize>) -> Seq<Vertex> { if i.is_some() { g.vseq().skip(ix(g.vseq(), g.contents@[i->0 as int])) } else { Seq::empty() } }
pub proof fn lemma_from_off(g: DegenGraph, i: usize)
    requires g.rep(), is_off(g, i)
    ensures ({ let s = from_off(g, Some(i)); let n = g.contents@[i + 1] as usize; let m = if n == i { None } else { Some(n) };
        fits(g.contents@, i as int) && g.contents@.len() <= 0xffff_ffff && rec_row(g.contents@, i as int) == g.lseq(g.contents@[i as int]) && s.len() > 0 && s[0] == g.contents@[i as int] && (n != i ==> is_off(g, n)) && from_off(g, m) == s.drop_first() })
{
    let x = g.contents@[i as int]; lemma_layout(g.contents@, g.indices@, dseq(g)); lemma_link(g, x); let o = g.vseq(); let k = ix(o, x); let n = g.contents@[i + 1] as usize;
    let m = if n == i { None } else { Some(n) };
    if k + 1 < o.len() { lemma_link(g, o[k + 1]); }
    assert(from_off(g, m) =~= from_off(g, Some(i)).drop_first());
}
pub proof fn lemma_first_off(g: DegenGraph)
    requires g.rep()
    ensures g.vs().len() == 0 ==> g.vseq() == Seq::<Vertex>::empty(), g.vs().len() > 0 ==> is_off(g, 0) && from_off(g, Some(0usize)) == g.vseq()
{
    lemma_layout(g.contents@, g.indices@, dseq(g)); let o = g.vseq(); lemma_ix(o);
    if o.len() > 0 { assert(o.contains(o[0])); lemma_link(g, o[0]); assert(o.skip(0) =~= o); } else { assert(o =~= Seq::empty()); }
}
impl<'a> DegenOrderIterator<'a> {
    pub open spec fn wf(&self) -> bool { self.dgraph.wf() && (self.curr_index.is_some() ==> is_off(*self.dgraph, self.curr_index->0)) }
    pub open spec fn todo(&self) -> Seq<Vertex> { from_off(*self.dgraph, self.curr_index) }
//@ fn degengraph.rs impl:DegenOrderIterator new
//@ requires dgraph.wf()
//@ ensures r.wf(), r.dgraph == dgraph, r.todo() == dgraph.vseq()
//@ hint start
    proof { lemma_first_off(*dgraph); }
//@ end
//@ fn degengraph.rs impl:Iterator:DegenOrderIterator next
//@ sig fn next(&mut self) -> (r: Option<&'a Vertex>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).dgraph == old(self).dgraph, r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> *r->0 == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.curr_index.is_some() { lemma_from_off(*self.dgraph, self.curr_index->0); } }
//@ end
    /// draining: what a loop over the boxed iterator sees
    pub fn vx_box(self) -> (r: RIt<'a, Vertex>)
        requires self.wf()
        ensures r.pos() == 0, r.seq() == self.todo()
    {
        let mut s = self; let mut v: Vec<&'a Vertex> = Vec::new();
        proof { assert(self.todo().skip(0) =~= self.todo()); }
        loop invariant s.wf(), v@.len() <= self.todo().len(), s.todo() == self.todo().skip(v@.len() as int), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == self.todo()[i],
            ensures v@.len() == self.todo().len(), forall|i: int| 0 <= i < v@.len() ==> *(#[trigger] v@[i]) == self.todo()[i], decreases s.todo().len() {
            let ghost n = v@.len();
            match s.next() { Some(e) => { v.push(e); proof { assert(self.todo().skip(n as int)[0] == self.todo()[n as int]); assert(self.todo().skip(n as int).drop_first() =~= self.todo().skip(n as int + 1)); } } None => { break; } }
        }
        let r = RIt::from_refs(v); proof { assert(r.seq() =~= self.todo()); } r
    }
}
impl<'a> DegenIterator<'a> {
    pub open spec fn wf(&self) -> bool { self.dgraph.wf() && (self.current.is_some() ==> is_off(*self.dgraph, self.current->0)) }
    pub open spec fn todo(&self) -> Seq<Vertex> { from_off(*self.dgraph, self.current) }
//@ fn degengraph.rs impl:DegenIterator new
//@ requires dgraph.wf()
//@ ensures r.wf(), r.dgraph == dgraph, r.todo() == dgraph.vseq()
//@ hint start
    proof { lemma_first_off(*dgraph); }
//@ end
//@ fn degengraph.rs impl:Iterator:DegenIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, &'a [Vertex])>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).dgraph == old(self).dgraph, r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> (r->0).0 == old(self).todo()[0] && (r->0).1@ == old(self).dgraph.lseq((r->0).0) && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.current.is_some() { lemma_from_off(*self.dgraph, self.current->0); } }
//@ end
}
impl DegenGraph {
//@ fn degengraph.rs impl:DegenGraph iter
//@ sig fn iter(&self) -> (r: DegenIterator<'_>)
//@ requires self.wf()
//@ ensures r.wf(), r.dgraph == self, r.todo() == self.vseq()
//@ end
}
// ---------------------------------------------------------------- building
/// c after a record for u with left neighbours nb was appended
pub open spec fn appended(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, u: Vertex, nb: Seq<Vertex>) -> Seq<u32> {
    let a = if o.len() > 0 { c.update(ind[o.last()] + 1, c.len() as u32) } else { c };
    a.push(u).push(c.len() as u32).push(nb.len() as u32) + nb
}
/// records present before are kept
pub proof fn lemma_append_kept(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, u: Vertex, nb: Seq<Vertex>, x: Vertex)
    requires layout(c, ind, o), c.len() + 3 + nb.len() <= 0xffff_ffff, ind.dom().contains(x)
    ensures ({ let d = appended(c, ind, o, u, nb); let p = ind[x] as int; fits(c, p) && fits(d, p) && c[p] == x && d[p] == x && d[p + 2] == c[p + 2] && rec_end(d, p) == rec_end(c, p) && rec_row(d, p) == rec_row(c, p) && d[p + 1] == (if x == o.last() { c.len() as u32 } else { c[p + 1] }) })
{
    let d = appended(c, ind, o, u, nb); let p = ind[x] as int; let n = o.len() as int;
    lemma_layout(c, ind, o); assert(o.contains(x)); lemma_ix(o); let i = ix(o, x); assert(o[i] == x);
    assert(fits(c, p));
    let l = ind[o[n - 1]] as int; assert(o.contains(o[n - 1])); assert(fits(c, l));
    assert(forall|k: int| 0 <= k < c.len() && k != l + 1 ==> d[k] == c[k]);
    if i < n - 1 { lemma_layout_mono(c, ind, o, i, n - 1); assert(rec_end(c, p) <= l); }
    assert(rec_row(d, p) =~= rec_row(c, p));
}
pub proof fn lemma_push_set(o: Seq<Vertex>, u: Vertex)
    requires o.no_duplicates(), !o.contains(u)
    ensures o.push(u).no_duplicates(), forall|x: Vertex| #[trigger] o.push(u).contains(x) <==> o.contains(x) || x == u
{
    let q = o.push(u); let n = o.len() as int;
    assert forall|x: Vertex| #[trigger] q.contains(x) <==> o.contains(x) || x == u by { if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(q[i] == x); } assert(q[n] == u); if q.contains(x) && x != u { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; assert(o[i] == x); } }
    assert forall|i: int, k: int| 0 <= i < q.len() && 0 <= k < q.len() && i != k implies q[i] != q[k] by { if i < n { assert(o.contains(o[i])); } if k < n { assert(o.contains(o[k])); } }
}
pub open spec fn rec_ok(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, i: int) -> bool {
    fits(c, ind[o[i]] as int) && c[ind[o[i]] as int] == o[i] && (i + 1 < o.len() ==> ind[o[i + 1]] == rec_end(c, ind[o[i]] as int)) && c[ind[o[i]] + 1] == (if i + 1 < o.len() { ind[o[i + 1]] } else { ind[o[i]] })
}
pub proof fn lemma_append_new(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, u: Vertex, nb: Seq<Vertex>)
    requires layout(c, ind, o), c.len() + 3 + nb.len() <= 0xffff_ffff
    ensures ({ let d = appended(c, ind, o, u, nb); let e = c.len() as int; d[e] == u && d[e + 1] == e && d[e + 2] == nb.len() && d.len() == e + 3 + nb.len() && rec_row(d, e) == nb && fits(d, e) && rec_end(d, e) == d.len() })
{
    let d = appended(c, ind, o, u, nb); let e = c.len() as int; let n = o.len() as int;
    if n > 0 { assert(o.contains(o[n - 1])); lemma_layout_rec(c, ind, o, n - 1); }
    assert(rec_row(d, e) =~= nb);
}
pub proof fn lemma_append_at(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, u: Vertex, nb: Seq<Vertex>, i: int)
    requires layout(c, ind, o), !ind.dom().contains(u), c.len() + 3 + nb.len() <= 0xffff_ffff, 0 <= i <= o.len()
    ensures rec_ok(appended(c, ind, o, u, nb), ind.insert(u, c.len() as usize), o.push(u), i)
{
    let d = appended(c, ind, o, u, nb); let j = ind.insert(u, c.len() as usize); let q = o.push(u); let n = o.len() as int;
    lemma_append_new(c, ind, o, u, nb);
    if i < n {
        let x = o[i]; assert(q[i] == x); assert(o.contains(x)); lemma_layout_dom(c, ind, o, x); assert(x != u);
        lemma_append_kept(c, ind, o, u, nb, x); lemma_layout_rec(c, ind, o, i);
        if i + 1 < n { let y = o[i + 1]; assert(o.contains(y)); lemma_layout_dom(c, ind, o, y); assert(y != u); assert(q[i + 1] == y); lemma_ix_at(o, i); lemma_ix_at(o, n - 1); assert(x != o.last()); assert(j[y] == ind[y]); } else { assert(q[i + 1] == u); assert(x == o.last()); }
        assert(j[x] == ind[x]);
    } else { assert(q[i] == u); }
}
pub proof fn lemma_layout_dom(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, x: Vertex)
    requires layout(c, ind, o)
    ensures o.no_duplicates(), ind.dom().contains(x) <==> o.contains(x)
{ reveal(layout); }
pub proof fn lemma_append_layout(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, u: Vertex, nb: Seq<Vertex>)
    requires layout(c, ind, o), !ind.dom().contains(u), c.len() + 3 + nb.len() <= 0xffff_ffff
    ensures layout(appended(c, ind, o, u, nb), ind.insert(u, c.len() as usize), o.push(u)),
        forall|x: Vertex| #[trigger] ind.dom().contains(x) ==> rec_row(appended(c, ind, o, u, nb), ind[x] as int) == rec_row(c, ind[x] as int),
        rec_row(appended(c, ind, o, u, nb), c.len() as int) == nb,
{
    let d = appended(c, ind, o, u, nb); let j = ind.insert(u, c.len() as usize); let q = o.push(u); let n = o.len() as int;
    lemma_append_new(c, ind, o, u, nb);
    assert forall|x: Vertex| #[trigger] ind.dom().contains(x) implies rec_row(d, ind[x] as int) == rec_row(c, ind[x] as int) by { lemma_append_kept(c, ind, o, u, nb, x); }
    lemma_layout_dom(c, ind, o, u); lemma_push_set(o, u);
    assert forall|i: int| 0 <= i < q.len() implies #[trigger] rec_ok(d, j, q, i) by { lemma_append_at(c, ind, o, u, nb, i); }
    assert forall|x: Vertex| #[trigger] j.dom().contains(x) <==> q.contains(x) by { lemma_layout_dom(c, ind, o, x); }
    assert(j[q[0]] == 0) by { if n > 0 { assert(q[0] == o[0]); assert(o.contains(o[0])); lemma_layout_dom(c, ind, o, o[0]); reveal(layout); } else { reveal(layout); assert(q[0] == u); } }
    assert(q.last() == u && j[u] == c.len());
    lemma_layout_make(d, j, q);
}
pub proof fn lemma_layout_make(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>)
    requires o.no_duplicates(), forall|x: Vertex| #[trigger] ind.dom().contains(x) <==> o.contains(x), o.len() > 0, ind[o[0]] == 0, rec_end(c, ind[o.last()] as int) == c.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] rec_ok(c, ind, o, i), c.len() <= 0xffff_ffff
    ensures layout(c, ind, o)
{ reveal(layout); assert forall|i: int| 0 <= i < o.len() implies fits(c, ind[#[trigger] o[i]] as int) && c[ind[o[i]] as int] == o[i]
            && (i + 1 < o.len() ==> ind[o[i + 1]] == rec_end(c, ind[o[i]] as int))
            && c[ind[o[i]] + 1] == (if i + 1 < o.len() { ind[o[i + 1]] } else { ind[o[i]] }) by { assert(rec_ok(c, ind, o, i)); } }
pub proof fn lemma_layout_rec(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, i: int)
    requires layout(c, ind, o), 0 <= i < o.len()
    ensures ind[o[i]] + 3 <= c.len(), c[ind[o[i]] + 1] == (if i + 1 < o.len() { ind[o[i + 1]] } else { ind[o[i]] }), rec_end(c, ind[o[i]] as int) == (if i + 1 < o.len() { ind[o[i + 1]] as int } else { c.len() as int })
{ reveal(layout); assert(fits(c, ind[o[i]] as int)); }
/// the edges from u to the vertices of nb
pub open spec fn incs(u: Vertex, nb: Seq<Vertex>) -> Set<Edge> decreases nb.len() { if nb.len() == 0 { Set::empty() } else { let v = nb.last(); incs(u, nb.drop_last()).insert(if u <= v { (u, v) } else { (v, u) }) } }
pub proof fn lemma_incs(u: Vertex, nb: Seq<Vertex>)
    requires nb.no_duplicates(), !nb.contains(u)
    ensures incs(u, nb).len() == nb.len(), forall|x: Vertex, y: Vertex| #[trigger] incs(u, nb).contains((x, y)) <==> x <= y && ((x == u && nb.contains(y)) || (y == u && nb.contains(x)))
    decreases nb.len()
{
    if nb.len() > 0 {
        let d = nb.drop_last(); let v = nb.last(); assert(nb.contains(v));
        assert forall|x: Vertex| #[trigger] nb.contains(x) <==> d.contains(x) || x == v by { if nb.contains(x) { let i = choose|i: int| 0 <= i < nb.len() && nb[i] == x; if i < d.len() { assert(d[i] == x); } } if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(nb[i] == x); } }
        assert(!d.contains(v)) by { if d.contains(v) { let i = choose|i: int| 0 <= i < d.len() && d[i] == v; assert(nb[i] == v); } }
        assert(d.no_duplicates()) by { assert forall|i: int, k: int| 0 <= i < d.len() && 0 <= k < d.len() && i != k implies d[i] != d[k] by { assert(nb[i] != nb[k]); } }
        lemma_incs(u, d);
    }
}
pub open spec fn rset(m: VertexMap<VertexSet>, x: Vertex) -> Set<Vertex> { m@[x]@ }
pub proof fn lemma_append(g: DegenGraph, h: DegenGraph, u: Vertex, nb: Seq<Vertex>)
    requires g.inv(), !g.vs().contains(u), g.contents@.len() + 3 + nb.len() <= 0xffff_ffff, nb.no_duplicates(), sorted_in(g.vseq(), nb), forall|x: Vertex| #[trigger] nb.contains(x) ==> g.vs().contains(x),
        h.contents@ == appended(g.contents@, g.indices@, g.vseq(), u, nb), h.indices@ == g.indices@.insert(u, g.contents@.len() as usize), h.m == g.m + nb.len(),
        h.right_neighbours@.dom() == g.right_neighbours@.dom().insert(u),
        forall|x: Vertex| h.right_neighbours@.dom().contains(x) ==> #[trigger] rset(h.right_neighbours, x) == (if x == u { Set::empty() } else if nb.contains(x) { rset(g.right_neighbours, x).insert(u) } else { rset(g.right_neighbours, x) })
    ensures h.inv(), h.vseq() == g.vseq().push(u), forall|x: Vertex| g.vs().contains(x) ==> #[trigger] h.lseq(x) == g.lseq(x), h.lseq(u) == nb,
        h.indices@[h.vseq().last()] == g.contents@.len()
{
    let c = g.contents@; let o = g.vseq(); let q = o.push(u);
    lemma_layout(c, g.indices@, o);
    lemma_append_layout(c, g.indices@, o, u, nb); lemma_layout_unique(h.contents@, h.indices@, q, dseq(h)); lemma_layout(h.contents@, h.indices@, q);
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] drow(h, x) == drow(g, x) by { }
    assert(drow(h, u) == nb);
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] ix(q, x) == ix(o, x) by { assert(o.contains(x)); lemma_ix(o); assert(q[ix(o, x)] == x); lemma_ix_at(q, ix(o, x)); }
    assert forall|x: Vertex| g.vs().contains(x) implies g.indices@[x] < c.len() by { assert(fits(c, g.indices@[x] as int)); }
    assert forall|x: Vertex| h.indices@.dom().contains(x) implies #[trigger] row_ok(h, x) by {
        if x == u { reveal(sorted_in); assert forall|i: int, k: int| 0 <= i < k < nb.len() implies ix(q, nb[i]) < ix(q, nb[k]) by { assert(nb.contains(nb[i]) && nb.contains(nb[k])); assert(ix(q, nb[i]) == ix(o, nb[i])); assert(ix(q, nb[k]) == ix(o, nb[k])); } }
        else { assert(row_ok(g, x)); let r = drow(g, x); assert(sorted_in(q, r)) by { reveal(sorted_in); assert forall|i: int, k: int| 0 <= i < k < r.len() implies ix(q, r[i]) < ix(q, r[k]) by { assert(r.contains(r[i]) && r.contains(r[k])); assert(ix(q, r[i]) == ix(o, r[i])); assert(ix(q, r[k]) == ix(o, r[k])); } } }
    }
    assert forall|x: Vertex, y: Vertex| h.indices@.dom().contains(x) implies (#[trigger] h.right_neighbours@[x]@.contains(y) <==> h.indices@.dom().contains(y) && drow(h, y).contains(x)) by {
        assert(rset(h.right_neighbours, x) == (if x == u { Set::empty() } else if nb.contains(x) { rset(g.right_neighbours, x).insert(u) } else { rset(g.right_neighbours, x) }));
        if x != u { assert(g.right_neighbours@[x]@.contains(y) <==> g.indices@.dom().contains(y) && drow(g, y).contains(x)); assert(y != u && g.vs().contains(y) ==> drow(h, y) == drow(g, y)); }
        else { if h.indices@.dom().contains(y) && y != u { assert(row_ok(g, y)); assert(drow(h, y) == drow(g, y)); assert(!drow(g, y).contains(u)); } }
    }
    assert(h.rep());
    let e = g.eset(); g.lemma_wf(); assert(is_eset(e, drel(g))); lemma_incs(u, nb); let f = e.union(incs(u, nb));
    assert forall|x: Vertex, y: Vertex| #[trigger] dadj(h, x, y) <==> dadj(g, x, y) || (x == u && nb.contains(y)) || (y == u && nb.contains(x)) by {
        if h.vs().contains(x) {
            assert(rset(h.right_neighbours, x) == (if x == u { Set::empty() } else if nb.contains(x) { rset(g.right_neighbours, x).insert(u) } else { rset(g.right_neighbours, x) }));
            if x != u { assert(drow(h, x) == drow(g, x)); }
        }
        if dadj(g, x, y) { g.lemma_ends(x, y); }
    }
    assert forall|x: Vertex, y: Vertex| #[trigger] f.contains((x, y)) <==> x <= y && drel(h)(x, y) by { assert(e.contains((x, y)) <==> x <= y && drel(g)(x, y)); assert(drel(h)(x, y) == dadj(h, x, y)); assert(drel(g)(x, y) == dadj(g, x, y)); }
    assert(is_eset(f, drel(h)));
    assert(e.disjoint(incs(u, nb))) by { assert forall|z: Edge| !(#[trigger] e.contains(z) && incs(u, nb).contains(z)) by { let (x, y) = z; if e.contains((x, y)) { assert(drel(g)(x, y)); g.lemma_ends(x, y); } } }
    vstd::set_lib::lemma_set_disjoint_lens(e, incs(u, nb));
    assert(f.len() == h.m);
    assert(q.last() == u);
}
impl DegenGraphBuilder {
    pub open spec fn inv(&self) -> bool {
        let g = self.dgraph; let o = g.vseq();
        g.inv() && self.last_index.is_some() == (o.len() > 0) && (o.len() > 0 ==> self.last_index->0 == g.indices@[o.last()])
    }
//@ fn degengraph.rs impl:DegenGraphBuilder new
//@ ensures r.inv(), r.dgraph.vseq() == Seq::<Vertex>::empty(), r.dgraph.contents@.len() == 0, r.dgraph.m == 0
//@ end
//@ fn degengraph.rs impl:DegenGraphBuilder build
//@ ensures r == self.dgraph
//@ end
//@ fn degengraph.rs impl:DegenGraphBuilder append
//@ as vx_append
//@ requires
    old(self).inv(), !old(self).dgraph.vs().contains(*u), neighbours@.no_duplicates(), sorted_in(old(self).dgraph.vseq(), neighbours@), forall|x: Vertex| #[trigger] neighbours@.contains(x) ==> old(self).dgraph.vs().contains(x),
    old(self).dgraph.contents@.len() + 3 + neighbours@.len() <= 0xffff_ffff
//@ ensures
    final(self).inv(), final(self).dgraph.vseq() == old(self).dgraph.vseq().push(*u), final(self).dgraph.lseq(*u) == neighbours@,
    forall|x: Vertex| old(self).dgraph.vs().contains(x) ==> #[trigger] final(self).dgraph.lseq(x) == old(self).dgraph.lseq(x),
    final(self).dgraph.contents@.len() == old(self).dgraph.contents@.len() + 3 + neighbours@.len(), final(self).dgraph.m == old(self).dgraph.m + neighbours@.len(),
    final(self).dgraph.vs() == old(self).dgraph.vs().insert(*u)
//@ hint start
    let ghost g0 = self.dgraph; let ghost o = g0.vseq();
    proof { lemma_layout(g0.contents@, g0.indices@, o); if o.len() > 0 { assert(o.contains(o.last())); assert(fits(g0.contents@, g0.indices@[o.last()] as int)); } }
//@ loop 1
    it1_s == neighbours@, self.dgraph.right_neighbours@.dom() == g0.right_neighbours@.dom().insert(*u), self.dgraph.m == g0.m,
    forall|x: Vertex| self.dgraph.right_neighbours@.dom().contains(x) ==> #[trigger] rset(self.dgraph.right_neighbours, x) == (if x == *u { Set::empty() } else if pre(it1_s, it1.pos()).contains(x) { rset(g0.right_neighbours, x).insert(*u) } else { rset(g0.right_neighbours, x) }),
//@ hint loop1.start
    let ghost r0 = self.dgraph.right_neighbours;
    proof { assert(neighbours@.contains(v) && v != *u); assert(rset(r0, v) == rset(g0.right_neighbours, v)); }
//@ hint loop1.end
    proof { assert forall|x: Vertex| self.dgraph.right_neighbours@.dom().contains(x) implies #[trigger] rset(self.dgraph.right_neighbours, x) == (if x == *u { Set::empty() } else if pre(it1_s, it1.pos()).contains(x) { rset(g0.right_neighbours, x).insert(*u) } else { rset(g0.right_neighbours, x) }) by { assert(rset(r0, x) == rset(r0, x)); if x != v { assert(rset(self.dgraph.right_neighbours, x) == rset(r0, x)); } } }
//@ hint end
    proof { assert(self.dgraph.contents@ =~= appended(g0.contents@, g0.indices@, o, *u, neighbours@)); lemma_append(g0, self.dgraph, *u, neighbours@); }
//@ end
}
/// l holds the pairs (position, vertex) of the neighbours of u among s that come before u
#[verifier::opaque]
pub open spec fn left_pairs<G: Graph>(g: G, o: Seq<Vertex>, u: Vertex, s: Set<Vertex>, l: Seq<(usize, Vertex)>) -> bool {
    &&& forall|j: int| 0 <= j < l.len() ==> (#[trigger] l[j]).0 == ix(o, l[j].1)
    &&& forall|p: (usize, Vertex)| #[trigger] l.contains(p) ==> p.0 == ix(o, p.1) && s.contains(p.1) && g.adj(u, p.1) && ix(o, p.1) < ix(o, u)
    &&& forall|x: Vertex| #[trigger] s.contains(x) && g.adj(u, x) && ix(o, x) < ix(o, u) ==> l.contains((ix(o, x) as usize, x))
    &&& l.no_duplicates()
}
pub proof fn lemma_left_pairs0<G: Graph>(g: G, o: Seq<Vertex>, u: Vertex, l: Seq<(usize, Vertex)>)
    requires l.len() == 0
    ensures left_pairs(g, o, u, Set::empty(), l)
{ reveal(left_pairs); }
pub proof fn lemma_left_pairs_step<G: Graph>(g: G, o: Seq<Vertex>, u: Vertex, s: Set<Vertex>, l: Seq<(usize, Vertex)>, v: Vertex)
    requires left_pairs(g, o, u, s, l), o.no_duplicates(), o.contains(v), o.contains(u), g.adj(u, v), !s.contains(v), o.len() <= usize::MAX
    ensures left_pairs(g, o, u, s.insert(v), if ix(o, v) < ix(o, u) { l.push((ix(o, v) as usize, v)) } else { l })
{
    reveal(left_pairs); lemma_ix(o);
    if ix(o, v) < ix(o, u) {
        let p0 = (ix(o, v) as usize, v); let m = l.push(p0);
        assert(!l.contains(p0));
        assert(m[l.len() as int] == p0);
        assert forall|p: (usize, Vertex)| #[trigger] m.contains(p) <==> l.contains(p) || p == p0 by { if m.contains(p) { let j = choose|j: int| 0 <= j < m.len() && m[j] == p; if j < l.len() { assert(l[j] == p); } } if l.contains(p) { let j = choose|j: int| 0 <= j < l.len() && l[j] == p; assert(m[j] == p); } }
        assert(m.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < m.len() && 0 <= j < m.len() && i != j implies m[i] != m[j] by { if i < l.len() { assert(l.contains(l[i])); } if j < l.len() { assert(l.contains(l[j])); } } }
    }
}
/// sorting the pairs and dropping the positions gives the earlier neighbours in order
pub proof fn lemma_left_row<G: Graph>(g: G, o: Seq<Vertex>, u: Vertex, l: Seq<(usize, Vertex)>, m: Seq<(usize, Vertex)>, r: Seq<Vertex>, s: Set<Vertex>, k: nat)
    requires left_pairs(g, o, u, s, l), perm(m, l), asc2(m), r.len() == m.len(), forall|j: int| 0 <= j < m.len() ==> #[trigger] r[j] == m[j].1, o.no_duplicates(), k < o.len(), o[k as int] == u,
        forall|x: Vertex| s.contains(x) <==> #[trigger] g.adj(u, x), forall|x: Vertex| #[trigger] g.adj(u, x) ==> o.contains(x)
    ensures r.no_duplicates(), forall|x: Vertex| #[trigger] r.contains(x) <==> g.adj(u, x) && ix(o, x) < k, sorted_in(o.take(k as int), r), forall|x: Vertex| #[trigger] r.contains(x) ==> o.take(k as int).contains(x)
{
    reveal(left_pairs); reveal(asc2); reveal(sorted_in); lemma_ix(o); let q = o.take(k as int);
    assert forall|j: int| 0 <= j < m.len() implies (#[trigger] m[j]).0 == ix(o, m[j].1) && g.adj(u, m[j].1) && ix(o, m[j].1) < k by { assert(m.contains(m[j])); assert(l.contains(m[j])); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies ix(o, r[i]) < ix(o, r[j]) by { assert(m[i] != m[j]); assert(o.contains(m[i].1) && o.contains(m[j].1)); }
    assert forall|i: int, j: int| 0 <= i < r.len() && 0 <= j < r.len() && i != j implies r[i] != r[j] by { if i < j { assert(ix(o, r[i]) < ix(o, r[j])); } else { assert(ix(o, r[j]) < ix(o, r[i])); } }
    assert forall|x: Vertex| #[trigger] r.contains(x) <==> g.adj(u, x) && ix(o, x) < k by {
        if r.contains(x) { let j = choose|j: int| 0 <= j < r.len() && r[j] == x; assert(m[j].1 == x); }
        if g.adj(u, x) && ix(o, x) < k { let p = (ix(o, x) as usize, x); assert(l.contains(p)); assert(m.contains(p)); let j = choose|j: int| 0 <= j < m.len() && m[j] == p; assert(r[j] == x); }
    }
    assert forall|x: Vertex| #[trigger] r.contains(x) implies q.contains(x) && ix(q, x) == ix(o, x) by { assert(o.contains(x)); lemma_take_ix(o, k, x); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies ix(q, r[i]) < ix(q, r[j]) by { assert(r.contains(r[i]) && r.contains(r[j])); }
}
pub proof fn lemma_take_ix(o: Seq<Vertex>, k: nat, x: Vertex)
    requires o.no_duplicates(), k <= o.len(), o.contains(x)
    ensures o.take(k as int).contains(x) <==> ix(o, x) < k, ix(o, x) < k ==> ix(o.take(k as int), x) == ix(o, x)
{
    lemma_ix(o); let q = o.take(k as int); let i = ix(o, x);
    if i < k { assert(q[i] == x); lemma_ix_at(q, i); }
    if q.contains(x) { let j = choose|j: int| 0 <= j < q.len() && q[j] == x; assert(o[j] == x); lemma_ix_at(o, j); }
}
/// the first k vertices of o have been appended with their earlier neighbours in g
#[verifier::opaque]
pub open spec fn mirrors<G: Graph>(g: G, o: Seq<Vertex>, k: nat, d: DegenGraph) -> bool {
    d.inv() && k <= o.len() && d.vseq() == o.take(k as int) && d.contents@.len() == 3 * k + d.m
    && forall|v: Vertex, x: Vertex| d.vs().contains(v) ==> (#[trigger] drow(d, v).contains(x) <==> g.adj(v, x) && ix(o, x) < ix(o, v))
}
pub proof fn lemma_mirrors0<G: Graph>(g: G, o: Seq<Vertex>, d: DegenGraph)
    requires d.inv(), d.vseq() == Seq::<Vertex>::empty(), d.contents@.len() == 0, d.m == 0
    ensures mirrors(g, o, 0, d)
{ reveal(mirrors); assert(o.take(0) =~= d.vseq()); lemma_layout(d.contents@, d.indices@, d.vseq()); assert forall|v: Vertex| !d.vs().contains(v) by { assert(d.vs().contains(v) <==> d.vseq().contains(v)); } }
pub proof fn lemma_mirrors_step<G: Graph>(g: G, o: Seq<Vertex>, k: nat, d: DegenGraph, e: DegenGraph, u: Vertex, row: Seq<Vertex>)
    requires mirrors(g, o, k, d), o.no_duplicates(), k < o.len(), o[k as int] == u, e.inv(), e.vseq() == d.vseq().push(u), e.lseq(u) == row, forall|x: Vertex| d.vs().contains(x) ==> #[trigger] e.lseq(x) == d.lseq(x),
        e.contents@.len() == d.contents@.len() + 3 + row.len(), e.m == d.m + row.len(), e.vs() == d.vs().insert(u), forall|x: Vertex| #[trigger] row.contains(x) <==> g.adj(u, x) && ix(o, x) < k
    ensures mirrors(g, o, k + 1, e)
{
    reveal(mirrors); assert(o.take(k as int + 1) =~= e.vseq()); lemma_ix_at(o, k as int);
    assert forall|v: Vertex, x: Vertex| e.vs().contains(v) implies (#[trigger] drow(e, v).contains(x) <==> g.adj(v, x) && ix(o, x) < ix(o, v)) by { if v != u { assert(e.lseq(v) == d.lseq(v)); assert(drow(d, v).contains(x) <==> g.adj(v, x) && ix(o, x) < ix(o, v)); } else { assert(drow(e, u) == row); } }
}
/// what is built is the subgraph of g induced by the first k vertices
pub proof fn lemma_mirrors<G: Graph>(g: G, o: Seq<Vertex>, k: nat, d: DegenGraph)
    requires mirrors(g, o, k, d), g.wf(), g.simple(), lists(o, g.vs()), forall|u: Vertex| !#[trigger] g.adj(u, u)
    ensures d.inv(), k <= o.len(), d.vseq() == o.take(k as int), forall|x: Vertex| #[trigger] d.vs().contains(x) <==> d.vseq().contains(x), d.contents@.len() == 3 * k + d.m, d.m <= g.esize(), k < o.len() ==> !d.vs().contains(o[k as int]),
        k == o.len() ==> d.vseq() == o && d.vs() == g.vs() && d.m == g.esize() && (forall|x: Vertex, y: Vertex| #[trigger] d.adj(x, y) == g.adj(x, y)) && forall|x: Vertex| #[trigger] d.deg(x) == g.deg(x)
{
    reveal(mirrors); d.lemma_wf(); g.lemma_wf(); lemma_ix(o);
    assert forall|x: Vertex| #[trigger] d.vs().contains(x) <==> o.contains(x) && ix(o, x) < k by { assert(d.vs().contains(x) <==> o.take(k as int).contains(x)); if o.contains(x) { lemma_take_ix(o, k, x); } else if o.take(k as int).contains(x) { let j = choose|j: int| 0 <= j < k && o.take(k as int)[j] == x; assert(o[j] == x); } }
    if k < o.len() { assert(o.contains(o[k as int])); }
    assert forall|x: Vertex, y: Vertex| #[trigger] dadj(d, x, y) <==> g.adj(x, y) && d.vs().contains(x) && d.vs().contains(y) by {
        if dadj(d, x, y) { d.lemma_ends(x, y); d.lemma_row(x); d.lemma_row(y); assert(drow(d, x).contains(y) <==> g.adj(x, y) && ix(o, y) < ix(o, x)); assert(drow(d, y).contains(x) <==> g.adj(y, x) && ix(o, x) < ix(o, y)); }
        if g.adj(x, y) && d.vs().contains(x) && d.vs().contains(y) { assert(g.adj(y, x)); assert(x != y); assert(ix(o, x) != ix(o, y)); assert(drow(d, x).contains(y) <==> g.adj(x, y) && ix(o, y) < ix(o, x)); assert(drow(d, y).contains(x) <==> g.adj(y, x) && ix(o, x) < ix(o, y)); assert(d.right_neighbours@[x]@.contains(y) <==> d.vs().contains(y) && drow(d, y).contains(x)); }
    }
    let e = d.eset(); let f = g.eset();
    assert(e.subset_of(f)) by { assert forall|z: Edge| #[trigger] e.contains(z) implies f.contains(z) by { let (x, y) = z; assert(e.contains((x, y)) <==> x <= y && dadj(d, x, y)); assert(f.contains((x, y)) <==> x <= y && g.adj(x, y)); } }
    vstd::set_lib::lemma_len_subset(e, f);
    if k == o.len() {
        assert(o.take(k as int) =~= o);
        assert(d.vs() =~= g.vs());
        assert(e =~= f) by { assert forall|z: Edge| #[trigger] e.contains(z) <==> f.contains(z) by { let (x, y) = z; assert(e.contains((x, y)) <==> x <= y && dadj(d, x, y)); assert(f.contains((x, y)) <==> x <= y && g.adj(x, y)); } }
        assert forall|x: Vertex| #[trigger] d.deg(x) == g.deg(x) by { if g.vs().contains(x) { d.lemma_nseq(x); let p = d.nseq(x); let q = g.nseq(x); assert forall|y: Vertex| p.contains(y) == #[trigger] q.contains(y) by { assert(d.adj(x, y) == g.adj(x, y)); } lemma_same_len(p, q); } }
    }
}
/// there is room for the next record
pub proof fn lemma_mirrors_room<G: Graph>(g: G, o: Seq<Vertex>, k: nat, d: DegenGraph, u: Vertex, row: Seq<Vertex>)
    requires mirrors(g, o, k, d), g.wf(), g.simple(), lists(o, g.vs()), forall|u: Vertex| !#[trigger] g.adj(u, u), k < o.len(), o[k as int] == u, row.no_duplicates(), forall|x: Vertex| #[trigger] row.contains(x) <==> g.adj(u, x) && ix(o, x) < k
    ensures d.m + row.len() <= g.esize()
{
    lemma_mirrors(g, o, k, d); g.lemma_wf(); d.lemma_wf(); lemma_incs(u, row); lemma_ix_at(o, k as int);
    let e = d.eset(); let i = incs(u, row); let f = g.eset();
    assert(e.disjoint(i)) by { assert forall|z: Edge| !(#[trigger] e.contains(z) && i.contains(z)) by { let (x, y) = z; if e.contains((x, y)) { assert(dadj(d, x, y)); d.lemma_ends(x, y); } } }
    vstd::set_lib::lemma_set_disjoint_lens(e, i);
    let h = e.union(i);
    assert forall|z: Edge| #[trigger] h.contains(z) implies f.contains(z) by { let (x, y) = z; assert(f.contains((x, y)) <==> x <= y && g.adj(x, y));
        if i.contains((x, y)) { if x == u { assert(g.adj(u, y)); } else { assert(g.adj(u, x)); assert(g.adj(x, u)); } } else { assert(e.contains((x, y)) <==> x <= y && dadj(d, x, y)); lemma_mirrors_sub(g, o, k, d, x, y); } }
    vstd::set_lib::lemma_len_subset(h, f);
}
pub proof fn lemma_mirrors_sub<G: Graph>(g: G, o: Seq<Vertex>, k: nat, d: DegenGraph, x: Vertex, y: Vertex)
    requires mirrors(g, o, k, d), dadj(d, x, y), g.wf()
    ensures g.adj(x, y)
{ reveal(mirrors); g.lemma_wf(); d.lemma_ends(x, y); d.lemma_row(x); d.lemma_row(y); assert(drow(d, x).contains(y) <==> g.adj(x, y) && ix(o, y) < ix(o, x)); assert(drow(d, y).contains(x) <==> g.adj(y, x) && ix(o, x) < ix(o, y)); if g.adj(y, x) { assert(g.adj(x, y)); } }
pub open spec fn rowv(l: Vec<Vertex>) -> Seq<Vertex> { l@ }
pub proof fn lemma_same_len(a: Seq<Vertex>, b: Seq<Vertex>)
    requires a.no_duplicates(), b.no_duplicates(), forall|x: Vertex| a.contains(x) == #[trigger] b.contains(x)
    ensures a.len() == b.len()
{ a.unique_seq_to_set(); b.unique_seq_to_set(); assert(a.to_set() =~= b.to_set()); }
impl DegenGraph {
//@ fn degengraph.rs impl:DegenGraph with_ordering
//@ requires graph.wf(), graph.simple(), order.src_ok(), lists(order.src(), graph.vs()), forall|u: Vertex| !#[trigger] graph.adj(u, u), 3 * graph.vs().len() + graph.esize() <= 0xffff_ffff
//@ ensures r.wf(), r.vseq() == order.src(), r.vs() == graph.vs(), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == graph.adj(x, y), r.esize() == graph.esize(), forall|x: Vertex| #[trigger] r.deg(x) == graph.deg(x)
//@ unchain indices
//@ hint start
    proof { graph.lemma_wf(); }
//@ closure 1 |vxp1: (usize, Vertex)| -> (p: (Vertex, usize)) ensures p == (vxp1.1, vxp1.0)
//@ hint after let indices 1
    proof { lemma_index_map(order@, indices_4.seq(), indices@); assert(indices@.dom() =~= graph.vs()); lemma_ix(order@); }
//@ hint loop1.before
    proof { lemma_mirrors0(*graph, order@, builder.dgraph); }
//@ loop 1
    it1_s == order@, builder.inv(), mirrors(*graph, order@, it1.pos(), builder.dgraph),
//@ hint loop1.start
    let ghost k = (it1.pos() - 1) as nat; let ghost d0 = builder.dgraph; let ghost o = order@;
    proof { assert(o[k as int] == *u); assert(o.contains(*u)); lemma_left_pairs0(*graph, o, *u, Seq::empty()); lemma_ix_at(o, k as int); lemma_mirrors(*graph, o, k, d0); }
//@ loop 2
    left_pairs(*graph, o, *u, pre(it2_s, it2.pos()), L@), forall|x: Vertex| #[trigger] it2_s.contains(x) <==> graph.adj(*u, x), it2_s.no_duplicates(),
//@ hint loop2.start
    proof { graph.lemma_wf(); assert(graph.adj(*u, *v)); lemma_left_pairs_step(*graph, o, *u, pre(it2_s, (it2.pos() - 1) as nat), L@, *v); }
//@ hint loop2.after
    let ghost l0 = L@;
//@ hint after call sort_unstable 1
    let ghost l1 = L@;
//@ closure 2 |vxp2: &(usize, Vertex)| -> (x: Vertex) ensures x == (*vxp2).1
//@ hint before call append 1
    proof { assert forall|x: Vertex| it2_s.to_set().contains(x) <==> #[trigger] graph.adj(*u, x) by { assert(it2_s.to_set().contains(x) <==> it2_s.contains(x)); }
        lemma_left_row(*graph, o, *u, l0, l1, rowv(L), it2_s.to_set(), k); lemma_mirrors_room(*graph, o, k, d0, *u, rowv(L)); }
//@ hint loop1.end
    proof { lemma_mirrors_step(*graph, o, k, d0, builder.dgraph, *u, rowv(L)); }
//@ hint end
    proof { lemma_mirrors(*graph, order@, order@.len(), vx_res); }
//@ end
}
impl OrdGraph {
//@ fn ordgraph.rs impl:OrdGraph to_degeneracy_graph
//@ requires self.wf(), 3 * self.vs().len() + self.esize() <= 0xffff_ffff
//@ ensures r.wf(), r.vseq() == self.vseq(), r.vs() == self.vs(), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == self.adj(x, y), r.esize() == self.esize(), forall|x: Vertex| #[trigger] r.deg(x) == self.deg(x)
//@ hint start
    proof { self.lemma_wf(); self.lemma_lin(); lemma_ix(self.vseq()); }
//@ hint loop1.before
    proof { lemma_mirrors0(*self, self.vseq(), builder.dgraph); }
//@ loop 1
    it1_s == self.vseq(), builder.inv(), mirrors(*self, self.vseq(), it1.pos(), builder.dgraph),
//@ hint loop1.start
    let ghost k = (it1.pos() - 1) as nat; let ghost d0 = builder.dgraph; let ghost o = self.vseq();
    proof { self.lemma_wf(); self.lemma_lin(); assert(o[k as int] == *u); assert(o.contains(*u)); lemma_ix(o); lemma_ix_at(o, k as int); lemma_mirrors(*self, o, k, d0); }
//@ hint before call append 1
    proof { let row = rowv(L); assert forall|x: Vertex| #[trigger] row.contains(x) <==> self.adj(*u, x) && ix(o, x) < k by { assert(self.lseq(*u).contains(x) <==> self.adj(*u, x) && ix(o, x) < ix(o, *u)); }
        lemma_left_prefix(o, k, row); lemma_mirrors_room(*self, o, k, d0, *u, row); }
//@ hint loop1.end
    proof { lemma_mirrors_step(*self, o, k, d0, builder.dgraph, *u, rowv(L)); }
//@ hint end
    proof { lemma_mirrors(*self, self.vseq(), self.vseq().len(), vx_res); }
//@ end
}
/// a row sorted along o whose members come before position k is sorted along the first k members
pub proof fn lemma_left_prefix(o: Seq<Vertex>, k: nat, r: Seq<Vertex>)
    requires o.no_duplicates(), k <= o.len(), sorted_in(o, r), forall|x: Vertex| #[trigger] r.contains(x) ==> o.contains(x) && ix(o, x) < k
    ensures sorted_in(o.take(k as int), r), forall|x: Vertex| #[trigger] r.contains(x) ==> o.take(k as int).contains(x)
{
    reveal(sorted_in); let q = o.take(k as int);
    assert forall|x: Vertex| #[trigger] r.contains(x) implies q.contains(x) && ix(q, x) == ix(o, x) by { lemma_take_ix(o, k, x); }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies ix(q, r[i]) < ix(q, r[j]) by { assert(r.contains(r[i]) && r.contains(r[j])); assert(ix(o, r[i]) < ix(o, r[j])); }
}
} // verus!
