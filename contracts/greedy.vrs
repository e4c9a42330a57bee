verus! {
//@ props C18
// ===================================================================== greedy colouring
impl<'b, T: Copy + Hash + Eq> VxIndex<&'b Vertex> for VertexColouring<T> {
    type Out = T;
    open spec fn ix_req(&self, i: &'b Vertex) -> bool { self.colouring@.dom().contains(*i) }
    open spec fn ix_val(&self, i: &'b Vertex, r: &T) -> bool { *r == self.colouring@[*i] }
//@ fn graph.rs impl:Index:VertexColouring index
//@ as vx_index
//@ sig fn vx_index<'a>(&'a self, index: &'b Vertex) -> (r: &'a T)
//@ hint start
    proof { assert(<Self as VxIndex<&'b Vertex>>::ix_req(self, index)); assert(self.colouring@.dom().contains(*index)); }
//@ hint end
    proof { assert(<Self as VxIndex<&'b Vertex>>::ix_val(self, index, vx_res)); }
//@ end
}
/// the colours of m are proper on g
#[verifier::opaque]
pub open spec fn proper<G: Graph>(g: G, m: Map<Vertex, u32>) -> bool { forall|x: Vertex, y: Vertex| #[trigger] m.dom().contains(x) && #[trigger] m.dom().contains(y) && g.adj(x, y) ==> m[x] != m[y] }
/// m colours exactly the first n vertices of the ordering o, with colours below k
#[verifier::opaque]
pub open spec fn first_coloured(o: Seq<Vertex>, m: Map<Vertex, u32>, n: int, k: nat) -> bool {
    (forall|x: Vertex| #[trigger] m.dom().contains(x) <==> o.contains(x) && ix(o, x) < n) && forall|x: Vertex| #[trigger] m.dom().contains(x) ==> m[x] < k
}
/// at most one colour more than earlier neighbours of some vertex
#[verifier::opaque]
pub open spec fn few<L: LinearGraph>(g: L, k: nat) -> bool { k == 0 || exists|w: Vertex| #[trigger] g.vs().contains(w) && k <= g.lseq(w).len() + 1 }
/// N are the earlier neighbours of v, c a colour they do not use
pub proof fn lemma_colour_step<L: LinearGraph>(g: L, m: Map<Vertex, u32>, n: int, k: nat, v: Vertex, c: u32, k2: nat)
    requires g.wf(), proper(g, m), first_coloured(g.vseq(), m, n, k), 0 <= n < g.vseq().len(), v == g.vseq()[n], k <= k2, c < k2,
        forall|x: Vertex| #[trigger] g.lseq(v).contains(x) ==> m[x] != c,
    ensures proper(g, m.insert(v, c)), first_coloured(g.vseq(), m.insert(v, c), n + 1, k2)
{
    reveal(proper); reveal(first_coloured); g.lemma_lin(); g.lemma_wf(); let o = g.vseq(); lemma_ix(o); let m2 = m.insert(v, c);
    assert(o.contains(o[n]));
    assert forall|x: Vertex| #[trigger] m2.dom().contains(x) <==> o.contains(x) && ix(o, x) < n + 1 by { if o.contains(x) && ix(o, x) == n { assert(o[ix(o, x)] == x); } }
    assert forall|x: Vertex, y: Vertex| #[trigger] m2.dom().contains(x) && #[trigger] m2.dom().contains(y) && g.adj(x, y) implies m2[x] != m2[y] by {
        assert(!g.adj(v, v)); assert(g.adj(y, x));
        if x == v { assert(m.dom().contains(y)); assert(g.lseq(v).contains(y)); }
        else if y == v { assert(m.dom().contains(x)); assert(g.lseq(v).contains(x)); }
        else { assert(m.dom().contains(x) && m.dom().contains(y)); }
    }
}
pub open spec fn upto(k: nat) -> Set<u32> { urange(0, k as u32).to_set() }
pub proof fn lemma_upto(k: nat)
    requires k <= u32::MAX
    ensures upto(k).len() == k, forall|x: u32| #[trigger] upto(k).contains(x) <==> x < k
{
    let s = urange(0, k as u32); s.unique_seq_to_set();
    assert forall|x: u32| #[trigger] upto(k).contains(x) <==> x < k by { if x < k { assert(s[x as int] == x); } }
}
pub proof fn lemma_image_len(s: Seq<u32>)
    ensures s.to_set().len() <= s.len()
{ s.lemma_cardinality_of_set(); }
pub trait Greedy : LinearGraph {
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L colour_greedy
//@ requires self.wf()
//@ ensures
    r.colouring@.dom() == self.vs(),
    proper(*self, r.colouring@),
    exists|k: nat| #[trigger] few(*self, k) && forall|x: Vertex| self.vs().contains(x) ==> #[trigger] r.colouring@[x] < k
//@ closure 1 |x: &Vertex| -> (c: u32) requires colours.colouring@.dom().contains(*x) ensures c == colours.colouring@[*x]
//@ hint start
    let ghost o = self.vseq();
    proof { self.lemma_lin(); self.lemma_wf(); lemma_ix(o); reveal(proper); reveal(first_coloured); reveal(few); }
//@ loop 1
    self.wf(), o == self.vseq(), it1_s.len() == o.len(), forall|i: int| 0 <= i < it1_s.len() ==> (#[trigger] it1_s[i]).0 == o[i] && it1_s[i].1@ == self.lseq(o[i]),
    proper(*self, colours.colouring@), first_coloured(o, colours.colouring@, it1.pos() as int, used_colours@.len()), few(*self, used_colours@.len()),
    used_colours@.len() <= it1.pos(), forall|i: int| 0 <= i < used_colours@.len() ==> #[trigger] used_colours@[i] == i,
//@ hint loop1.start
    let ghost n = it1.pos() - 1; let ghost m0 = colours.colouring@; let ghost k0 = used_colours@.len();
    proof { self.lemma_lin(); self.lemma_wf(); assert(v == o[n]); assert(o.contains(v)); assert(self.vs().contains(v)); lemma_upto(k0);
        assert forall|x: Vertex| #[trigger] N@.contains(x) implies m0.dom().contains(x) && m0[x] < k0 by { reveal(first_coloured); assert(self.lseq(v).contains(x)); lemma_ix(o); } }
//@ unchain Ncols
//@ hint after let Ncols 1
    let ghost cs = Ncols_2.seq();
    proof {
        assert forall|x: Vertex| #[trigger] self.lseq(v).contains(x) implies Ncols@.contains(m0[x]) by { let i = choose|i: int| 0 <= i < N@.len() && N@[i] == x; assert(cs[i] == m0[x]); assert(cs.contains(cs[i])); }
        assert(Ncols@.subset_of(upto(k0))) by { assert forall|c: u32| #[trigger] Ncols@.contains(c) implies upto(k0).contains(c) by { let i = choose|i: int| 0 <= i < cs.len() && cs[i] == c; assert(cs[i] == m0[N@[i]]); assert(N@.contains(N@[i])); } }
        vstd::set_lib::lemma_len_subset(Ncols@, upto(k0)); lemma_image_len(cs);
    }
//@ hint then 1
    proof { lemma_colour_step(*self, m0, n, k0, v, k0 as u32, k0 + 1); reveal(few); assert(k0 + 1 <= self.lseq(v).len() + 1); }
//@ loop 2
    used_colours@.len() == k0, it2_s == used_colours@, cw < k0, !Ncols@.contains(cw),
    (colours.colouring@ == m0 && it2.pos() <= cw) || exists|c: u32| c < k0 && !Ncols@.contains(c) && colours.colouring@ == #[trigger] m0.insert(v, c),
//@ hint loop2.before
    let ghost cw = choose|c: u32| c < k0 && !Ncols@.contains(c);
    proof { if !exists|c: u32| c < k0 && !Ncols@.contains(c) { assert(Ncols@ =~= upto(k0)) by { assert forall|c: u32| #[trigger] upto(k0).contains(c) implies Ncols@.contains(c) by { } } } }
//@ hint loop2.start
    proof { assert(it2_s[it2.pos() - 1] == *c); }
//@ hint after call insert 2
    proof { assert(colours.colouring@ =~= m0.insert(v, *c)); }
//@ hint loop2.after
    proof { let c = choose|c: u32| c < k0 && !Ncols@.contains(c) && colours.colouring@ == #[trigger] m0.insert(v, c); lemma_colour_step(*self, m0, n, k0, v, c, k0); }
//@ hint end
    proof { reveal(first_coloured); assert(colours.colouring@.dom() =~= self.vs()) by { assert forall|x: Vertex| #[trigger] colours.colouring@.dom().contains(x) <==> self.vs().contains(x) by { lemma_ix(o); assert(o.contains(x) <==> self.vs().contains(x)); } }
        assert(few(*self, used_colours@.len())); }
//@ end
}
impl<G: LinearGraph> Greedy for G { }
} // verus!
