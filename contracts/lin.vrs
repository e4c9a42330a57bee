verus! {
//@ props C14
// ===================================================================== ordered graphs
/// position of v in the ordering o
#[verifier::opaque]
pub open spec fn ix(o: Seq<Vertex>, v: Vertex) -> int { choose|i: int| 0 <= i < o.len() && o[i] == v }
pub proof fn lemma_ix_at(o: Seq<Vertex>, i: int)
    requires o.no_duplicates(), 0 <= i < o.len()
    ensures ix(o, o[i]) == i
{ reveal(ix); let v = o[i]; assert(0 <= i < o.len() && o[i] == v); }
pub proof fn lemma_ix(o: Seq<Vertex>)
    requires o.no_duplicates()
    ensures forall|i: int| 0 <= i < o.len() ==> ix(o, #[trigger] o[i]) == i, forall|v: Vertex| #[trigger] o.contains(v) ==> 0 <= ix(o, v) < o.len() && o[ix(o, v)] == v,
        forall|u: Vertex, v: Vertex| o.contains(u) && o.contains(v) && #[trigger] ix(o, u) == #[trigger] ix(o, v) ==> u == v,
{
    assert forall|i: int| 0 <= i < o.len() implies ix(o, #[trigger] o[i]) == i by { lemma_ix_at(o, i); }
    assert forall|v: Vertex| #[trigger] o.contains(v) implies 0 <= ix(o, v) < o.len() && o[ix(o, v)] == v by { let i = choose|i: int| 0 <= i < o.len() && o[i] == v; lemma_ix_at(o, i); }
}
/// s is sorted by position in o
#[verifier::opaque]
pub open spec fn sorted_in(o: Seq<Vertex>, s: Seq<Vertex>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ix(o, s[i]) < ix(o, s[j]) }
pub trait LinearGraph : Graph + Sized {
    /// earlier neighbours, in order
    spec fn lseq(&self, v: Vertex) -> Seq<Vertex>;
    /// the number by which `index_of` identifies a position (a position, or an offset growing with it)
    spec fn iof(&self, v: Vertex) -> int;
    /// number of later neighbours
    spec fn rdeg(&self, v: Vertex) -> nat;
    proof fn lemma_lin(&self)
        requires self.wf()
        ensures self.simple(), lists(self.vseq(), self.vs()),
            forall|u: Vertex| !#[trigger] self.adj(u, u),
            forall|v: Vertex| self.vs().contains(v) ==> (#[trigger] self.lseq(v)).no_duplicates() && sorted_in(self.vseq(), self.lseq(v)),
            forall|v: Vertex, x: Vertex| self.vs().contains(v) ==> (#[trigger] self.lseq(v).contains(x) <==> self.adj(v, x) && ix(self.vseq(), x) < ix(self.vseq(), v)),
            forall|v: Vertex| self.vs().contains(v) ==> #[trigger] self.rdeg(v) + self.lseq(v).len() == self.deg(v),
            forall|v: Vertex| !self.vs().contains(v) ==> #[trigger] self.rdeg(v) == 0,
            forall|u: Vertex, v: Vertex| self.vs().contains(u) && self.vs().contains(v) ==> (#[trigger] self.iof(u) < #[trigger] self.iof(v) <==> ix(self.vseq(), u) < ix(self.vseq(), v)),
    ;
//@ fn graph.rs trait:LinearGraph index_of
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r == self.iof(*u)
//@ end
//@ fn graph.rs trait:LinearGraph left_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r@ == self.lseq(*u), r@.no_duplicates(), forall|x: Vertex| #[trigger] r@.contains(x) <==> self.adj(*u, x) && ix(self.vseq(), x) < ix(self.vseq(), *u)
//@ end
//@ fn graph.rs trait:LinearGraph right_degree
//@ requires self.wf()
//@ ensures r == self.rdeg(*u)
//@ end
}
pub proof fn lemma_iof<L: LinearGraph>(g: L, u: Vertex, v: Vertex)
    requires g.wf(), g.vs().contains(u), g.vs().contains(v)
    ensures g.iof(u) < g.iof(v) <==> ix(g.vseq(), u) < ix(g.vseq(), v), g.iof(u) == g.iof(v) <==> ix(g.vseq(), u) == ix(g.vseq(), v)
{ g.lemma_lin(); lemma_ix(g.vseq()); let a = g.iof(u) < g.iof(v); let b = g.iof(v) < g.iof(u); if u == v { } else { assert(g.vseq().contains(u) && g.vseq().contains(v)); } }
pub open spec fn ldeg<L: LinearGraph>(g: L, u: Vertex) -> nat { if g.vs().contains(u) { g.lseq(u).len() } else { 0 } }
pub open spec fn rdeg_of<L: LinearGraph>(g: L, u: Vertex) -> nat { g.rdeg(u) }
/// r is the element of s with the smallest position
pub open spec fn is_leftmost<L: LinearGraph>(g: L, s: Seq<Vertex>, r: Option<Vertex>) -> bool { r.is_some() == (s.len() > 0) && (r.is_some() ==> s.contains(r->0) && forall|x: Vertex| #[trigger] s.contains(x) ==> ix(g.vseq(), r->0) <= ix(g.vseq(), x)) }
pub open spec fn is_rightmost<L: LinearGraph>(g: L, s: Seq<Vertex>, r: Option<Vertex>) -> bool { r.is_some() == (s.len() > 0) && (r.is_some() ==> s.contains(r->0) && forall|x: Vertex| #[trigger] s.contains(x) ==> ix(g.vseq(), x) <= ix(g.vseq(), r->0)) }
/// default methods of trait LinearGraph (bodies from /repo), for every implementor
pub trait LinearExt : LinearGraph {
//@ fn graph.rs trait:LinearGraph left_degree
//@ requires self.wf()
//@ ensures r == ldeg(*self, *u)
//@ hint start
    proof { self.lemma_lin(); self.lemma_wf(); if self.vs().contains(*u) { lemma_deg_bound(*self, *u); assert(self.rdeg(*u) + self.lseq(*u).len() == self.deg(*u)); } }
//@ end
//@ fn graph.rs trait:LinearGraph left_degrees
//@ requires self.wf()
//@ ensures r@.dom() == self.vs(), forall|v: Vertex| self.vs().contains(v) ==> #[trigger] r@[v] == self.lseq(v).len()
//@ loop 1
    res@.dom() == pre(it1_s, it1.pos()),
    forall|w: Vertex| res@.dom().contains(w) ==> #[trigger] res@[w] == ldeg(*self, w),
//@ end
//@ fn graph.rs trait:LinearGraph right_degrees
//@ requires self.wf()
//@ ensures r@.dom() == self.vs(), forall|v: Vertex| self.vs().contains(v) ==> #[trigger] r@[v] == self.rdeg(v)
//@ loop 1
    res@.dom() == pre(it1_s, it1.pos()),
    forall|w: Vertex| res@.dom().contains(w) ==> #[trigger] res@[w] == self.rdeg(w),
//@ end
//@ fn graph.rs trait:LinearGraph max_left_degree
//@ requires self.wf()
//@ ensures
    forall|v: Vertex| #[trigger] self.vs().contains(v) ==> ldeg(*self, v) <= r,
    if self.vs().len() == 0 { r == 0 } else { exists|v: Vertex| #[trigger] self.vs().contains(v) && ldeg(*self, v) == r }
//@ closure 1 |u: &Vertex| -> (d: u32) ensures d == ldeg(*self, *u)
//@ unchain vx_res
//@ hint end
    proof { let o = self.vseq(); let m = vx_res_2.seq();
        assert forall|v: Vertex| #[trigger] self.vs().contains(v) implies ldeg(*self, v) <= vx_res by { assert(o.contains(v)); let i = choose|i: int| 0 <= i < o.len() && o[i] == v; assert(m[i] == ldeg(*self, v)); }
        if self.vs().len() > 0 { assert(m.contains(vx_res)); let i = choose|i: int| 0 <= i < m.len() && m[i] == vx_res; assert(o.contains(o[i])); assert(self.vs().contains(o[i])); } }
//@ end
//@ fn graph.rs trait:LinearGraph max_right_degree
//@ requires self.wf()
//@ ensures
    forall|v: Vertex| #[trigger] self.vs().contains(v) ==> rdeg_of(*self, v) <= r,
    if self.vs().len() == 0 { r == 0 } else { exists|v: Vertex| #[trigger] self.vs().contains(v) && rdeg_of(*self, v) == r }
//@ closure 1 |u: &Vertex| -> (d: u32) ensures d == rdeg_of(*self, *u)
//@ unchain vx_res
//@ hint end
    proof { let o = self.vseq(); let m = vx_res_2.seq();
        assert forall|v: Vertex| #[trigger] self.vs().contains(v) implies rdeg_of(*self, v) <= vx_res by { assert(o.contains(v)); let i = choose|i: int| 0 <= i < o.len() && o[i] == v; assert(m[i] == rdeg_of(*self, v)); }
        if self.vs().len() > 0 { assert(m.contains(vx_res)); let i = choose|i: int| 0 <= i < m.len() && m[i] == vx_res; assert(o.contains(o[i])); assert(self.vs().contains(o[i])); } }
//@ end
//@ fn graph.rs trait:LinearGraph leftmost
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ensures is_leftmost(*self, vertices.src(), r)
//@ closure 1 |u: &Vertex| -> (k: usize) requires self.vs().contains(*u) ensures k == self.iof(*u)
//@ hint start
    proof { self.lemma_lin(); lemma_ix(self.vseq()); }
//@ end
//@ fn graph.rs trait:LinearGraph rightmost
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ensures is_rightmost(*self, vertices.src(), r)
//@ closure 1 |u: &Vertex| -> (k: usize) requires self.vs().contains(*u) ensures k == self.iof(*u)
//@ hint start
    proof { self.lemma_lin(); lemma_ix(self.vseq()); }
//@ end
}
impl<G: LinearGraph> LinearExt for G { }
pub proof fn lemma_deg_bound<G: Graph>(g: G, u: Vertex)
    requires g.wf(), g.simple(), g.vs().contains(u), !g.adj(u, u)
    ensures g.deg(u) < 0x8000_0000
{
    g.lemma_wf(); g.nseq(u).unique_seq_to_set();
    assert(g.nseq(u).to_set().subset_of(g.vs())) by { assert forall|x: Vertex| #[trigger] g.nseq(u).to_set().contains(x) implies g.vs().contains(x) by { assert(g.nseq(u).contains(x)); } }
    vstd::set_lib::lemma_len_subset(g.nseq(u).to_set(), g.vs());
}
// ---------------------------------------------------------------- left neighbourhood iterator
//@ props C04
//@ struct iterators.rs LeftNeighIterator
impl<'a, L: LinearGraph> LeftNeighIterator<'a, L> {
    pub open spec fn wf(&self) -> bool {
        self.graph.wf() && self.v_it.pos() <= self.v_it.seq().len() && self.v_it.seq().no_duplicates() && (forall|x: Vertex| #[trigger] self.v_it.seq().contains(x) ==> self.graph.vs().contains(x))
    }
    pub open spec fn todo(&self) -> Seq<Vertex> { self.v_it.seq().subrange(self.v_it.pos() as int, self.v_it.seq().len() as int) }
//@ fn iterators.rs impl:LeftNeighIterator new
//@ requires graph.wf()
//@ ensures r.wf(), r.todo() == graph.vseq(), r.graph == graph
//@ hint end
    proof { assert(vx_res.todo() =~= graph.vseq()); graph.lemma_wf(); }
//@ end
//@ fn iterators.rs impl:Iterator:LeftNeighIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, Vec<u32>)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).graph == old(self).graph,
    r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> final(self).todo() == old(self).todo().drop_first() && (r->0).0 == old(self).todo()[0] && (r->0).1@ == old(self).graph.lseq((r->0).0) && old(self).graph.vs().contains((r->0).0),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.todo().len() > 0 { assert(self.todo()[0] == self.v_it.seq()[self.v_it.pos() as int]); } }
//@ hint after let v 1
    proof { assert(self.todo() =~= old(self).todo().drop_first()); }
//@ end
    /// draining: what a `for` loop over the iterator sees
    pub fn vx_src(self) -> (r: It<(Vertex, Vec<u32>)>)
        requires self.wf()
        ensures r.pos() == 0, r.seq().len() == self.todo().len(), forall|i: int| 0 <= i < r.seq().len() ==> (#[trigger] r.seq()[i]).0 == self.todo()[i] && r.seq()[i].1@ == self.graph.lseq(self.todo()[i])
    {
        let mut s = self; let mut v: Vec<(Vertex, Vec<u32>)> = Vec::new();
        proof { assert(self.todo().skip(0) =~= self.todo()); }
        loop invariant s.wf(), s.graph == self.graph, v@.len() <= self.todo().len(), s.todo() == self.todo().skip(v@.len() as int), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 == self.todo()[i] && v@[i].1@ == self.graph.lseq(self.todo()[i]),
            ensures v@.len() == self.todo().len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 == self.todo()[i] && v@[i].1@ == self.graph.lseq(self.todo()[i]), decreases s.todo().len() {
            let ghost n = v@.len();
            match s.next() { Some(e) => { v.push(e); proof { assert(self.todo().skip(n as int)[0] == self.todo()[n as int]); assert(self.todo().skip(n as int).drop_first() =~= self.todo().skip(n as int + 1)); } } None => { break; } }
        }
        It::from_vec(v)
    }
}
pub trait LeftNeighIterable : LinearGraph {
//@ fn iterators.rs impl:LeftNeighIterable:L left_neighbourhoods
//@ rename L Self
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == self.vseq(), r.graph == self
//@ end
}
impl<G: LinearGraph> LeftNeighIterable for G { }
/// ind is the table of positions in o
pub proof fn lemma_index_map(o: Seq<Vertex>, s: Seq<(Vertex, usize)>, m: Map<Vertex, usize>)
    requires o.no_duplicates(), s.len() == o.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (o[i], i as usize), map_of(s, m), o.len() <= usize::MAX
    ensures forall|x: Vertex| #[trigger] m.dom().contains(x) <==> o.contains(x), forall|i: int| 0 <= i < o.len() ==> m[#[trigger] o[i]] == i
{
    reveal(map_of);
    assert forall|i: int| 0 <= i < o.len() implies m[#[trigger] o[i]] == i && m.dom().contains(o[i]) by { assert(s[i].0 == o[i]); let k = o[i]; let j = choose|j: int| 0 <= j < s.len() && s[j] == (k, m[k]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != k; assert(o[j] == k); }
    assert forall|x: Vertex| #[trigger] m.dom().contains(x) implies o.contains(x) by { let j = choose|j: int| 0 <= j < s.len() && s[j] == (x, m[x]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != x; assert(o[j] == x); }
}
} // verus!
