verus! {
//@ props C04
// ===================================================================== iterators over digraphs
//@ enum iterators.rs DiNeighIteratorMode
//@ struct iterators.rs DiNeighIterator
impl<'a, D: Digraph> DiNeighIterator<'a, D> {
    pub open spec fn wf(&self) -> bool {
        self.graph.wf() && self.v_it.pos() <= self.v_it.seq().len() && self.v_it.seq().no_duplicates() && (forall|x: Vertex| #[trigger] self.v_it.seq().contains(x) ==> self.graph.vs().contains(x))
    }
    /// vertices still to come
    pub open spec fn todo(&self) -> Seq<Vertex> { rest(self.v_it.seq(), self.v_it.pos()) }
    pub open spec fn nb(&self, u: Vertex) -> Seq<Vertex> { match self.mode { DiNeighIteratorMode::In => self.graph.inseq(u), DiNeighIteratorMode::Out => self.graph.outseq(u) } }
//@ fn iterators.rs impl:DiNeighIterator new_in
//@ requires graph.wf()
//@ ensures r.wf(), r.todo() == graph.vseq(), r.graph == graph, r.mode is In
//@ hint end
    proof { assert(vx_res.todo() =~= graph.vseq()); graph.lemma_wf(); }
//@ end
//@ fn iterators.rs impl:DiNeighIterator new_out
//@ requires graph.wf()
//@ ensures r.wf(), r.todo() == graph.vseq(), r.graph == graph, r.mode is Out
//@ hint end
    proof { assert(vx_res.todo() =~= graph.vseq()); graph.lemma_wf(); }
//@ end
//@ fn iterators.rs impl:Iterator:DiNeighIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, RIt<'a, Vertex>)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).graph == old(self).graph, final(self).mode == old(self).mode,
    r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> final(self).todo() == old(self).todo().drop_first() && (r->0).0 == old(self).todo()[0] && (r->0).1.pos() == 0 && (r->0).1.seq() == old(self).nb((r->0).0) && old(self).graph.vs().contains((r->0).0),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.todo().len() > 0 { assert(self.todo()[0] == self.v_it.seq()[self.v_it.pos() as int]); } }
//@ hint after let v 1
    proof { assert(self.todo() =~= old(self).todo().drop_first()); }
//@ end
}
pub trait DiNeighIterable : Digraph + Sized {
//@ fn iterators.rs impl:DiNeighIterable:D in_neighbourhoods
//@ rename D Self
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == self.vseq(), r.graph == self, r.mode is In
//@ end
//@ fn iterators.rs impl:DiNeighIterable:D out_neighbourhoods
//@ rename D Self
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == self.vseq(), r.graph == self, r.mode is Out
//@ end
}
impl<D: Digraph> DiNeighIterable for D { }
// ---------------------------------------------------------------- arcs
pub open spec fn asel(v: Vertex, s: Seq<Vertex>) -> Seq<Arc> { s.map_values(|u: Vertex| (v, u)) }
pub open spec fn arcs_from<G: Digraph>(g: G, vs: Seq<Vertex>) -> Seq<Arc> decreases vs.len() {
    if vs.len() == 0 { Seq::empty() } else { asel(vs[0], g.outseq(vs[0])) + arcs_from(g, vs.drop_first()) }
}
/// what the arc iterator of g returns, in order
pub open spec fn arc_seq<G: Digraph>(g: G) -> Seq<Arc> { arcs_from(g, g.vseq()) }
/// s lists every arc of g exactly once
pub open spec fn lists_arcs<G: Digraph>(g: G, s: Seq<Arc>) -> bool {
    (forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> g.arc(x, y)) && s.no_duplicates() && s.len() == g.esize()
}
pub proof fn lemma_asel(v: Vertex, s: Seq<Vertex>)
    ensures forall|x: Vertex, y: Vertex| #[trigger] asel(v, s).contains((x, y)) <==> x == v && s.contains(y),
        s.no_duplicates() ==> asel(v, s).no_duplicates()
{
    let m = asel(v, s);
    assert forall|x: Vertex, y: Vertex| #[trigger] m.contains((x, y)) <==> x == v && s.contains(y) by {
        if x == v && s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(m[i] == (x, y)); }
        if m.contains((x, y)) { let i = choose|i: int| 0 <= i < m.len() && m[i] == (x, y); assert(s[i] == y); }
    }
}
pub proof fn lemma_arcs_from<G: Digraph>(g: G, vs: Seq<Vertex>)
    requires g.wf(), forall|x: Vertex| #[trigger] vs.contains(x) ==> g.vs().contains(x), vs.no_duplicates()
    ensures forall|x: Vertex, y: Vertex| #[trigger] arcs_from(g, vs).contains((x, y)) <==> vs.contains(x) && g.arc(x, y),
        arcs_from(g, vs).no_duplicates()
    decreases vs.len()
{
    if vs.len() > 0 {
        let v = vs[0]; let d = vs.drop_first();
        lemma_drop_first_mem(vs);
        g.lemma_wf(); g.lemma_dwf(); lemma_arcs_from(g, d); lemma_asel(v, g.outseq(v));
        assert(vs.contains(v));
        let a = asel(v, g.outseq(v)); let b = arcs_from(g, d);
        lemma_concat_mem(a, b);
        assert forall|x: Vertex, y: Vertex| #[trigger] arcs_from(g, vs).contains((x, y)) <==> vs.contains(x) && g.arc(x, y) by {
            assert((a + b).contains((x, y)) <==> a.contains((x, y)) || b.contains((x, y)));
            assert(g.outseq(v).contains(y) <==> g.arc(v, y));
        }
        assert forall|e: Arc| !(#[trigger] a.contains(e) && b.contains(e)) by { let (x, y) = e; assert(a.contains((x, y)) ==> x == v); assert(b.contains((x, y)) ==> d.contains(x)); }
    }
}
pub proof fn lemma_arc_seq<G: Digraph>(g: G)
    requires g.wf()
    ensures lists_arcs(g, arc_seq(g))
{
    g.lemma_wf(); g.lemma_dwf(); lemma_arcs_from(g, g.vseq());
    let s = arc_seq(g);
    assert forall|e: Arc| #[trigger] s.contains(e) <==> g.aset().contains(e) by { let (x, y) = e; assert(g.aset().contains((x, y)) <==> g.arc(x, y)); assert(s.contains((x, y)) <==> g.arc(x, y)) by { assert(g.arc(x, y) ==> g.vseq().contains(x)); } }
    assert forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> g.arc(x, y) by { assert(g.arc(x, y) ==> g.vseq().contains(x)); }
    lemma_count(s, g.aset());
}
//@ struct iterators.rs ArcIterator
impl<'a, D: Digraph> ArcIterator<'a, D> {
    pub open spec fn wf(&self) -> bool {
        self.N_it.wf() && self.N_it.mode is Out && (self.curr_it.is_some() ==> self.curr_v.is_some() && self.curr_it->0.pos() <= self.curr_it->0.seq().len()) && (self.curr_it.is_none() ==> self.N_it.todo().len() == 0)
    }
    pub open spec fn todo(&self) -> Seq<Arc> {
        if self.curr_it.is_some() { asel(self.curr_v->0, rest(self.curr_it->0.seq(), self.curr_it->0.pos())) + arcs_from(*self.N_it.graph, self.N_it.todo()) } else { Seq::empty() }
    }
//@ fn iterators.rs impl:ArcIterator new
//@ requires graph.wf()
//@ ensures r.wf(), r.todo() == arc_seq(*graph), lists_arcs(*graph, arc_seq(*graph))
//@ hint end
    proof { lemma_arc_seq(*graph); }
//@ end
//@ fn iterators.rs impl:ArcIterator advance
//@ requires old(self).N_it.wf(), old(self).N_it.mode is Out
//@ ensures
    final(self).wf(), final(self).N_it.graph == old(self).N_it.graph,
    final(self).todo() == arcs_from(*old(self).N_it.graph, old(self).N_it.todo()),
    final(self).curr_it.is_some() == (old(self).N_it.todo().len() > 0),
    final(self).curr_it.is_some() ==> final(self).N_it.todo().len() + 1 == old(self).N_it.todo().len() && final(self).curr_it->0.pos() == 0
//@ hint end
    proof { if self.curr_it.is_some() { assert(rest(self.curr_it->0.seq(), 0) =~= self.curr_it->0.seq()); } }
//@ end
//@ fn iterators.rs impl:Iterator:ArcIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, Vertex)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> r->0 == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ loop 1
    self.wf(), self.todo() == old(self).todo(),
//@ loopdec 1 (if self.curr_it.is_some() { self.N_it.todo().len() + 1 } else { 0 }), (if self.curr_it.is_some() { self.curr_it->0.seq().len() - self.curr_it->0.pos() } else { 0 })
//@ hint loop1.start
    let ghost s0 = *self;
    proof { assert(s0.curr_it->0.pos() == s0.curr_it->0.seq().len() ==> s0.todo() =~= arcs_from(*s0.N_it.graph, s0.N_it.todo())); }
//@ hint after let u 1
    proof {
        let cv = s0.curr_v->0; let r0 = rest(s0.curr_it->0.seq(), s0.curr_it->0.pos()); let r1 = rest(self.curr_it->0.seq(), self.curr_it->0.pos());
        assert(r0[0] == u); assert(r1 =~= r0.drop_first()); assert(asel(cv, r1) =~= asel(cv, r0).drop_first());
        assert(s0.todo().drop_first() =~= self.todo()); assert(s0.todo()[0] == (cv, u));
    }
//@ end
}
impl<'a, D: Digraph> VxSrc<Arc> for ArcIterator<'a, D> {
    open spec fn src(&self) -> Seq<Arc> { self.todo() }
    open spec fn src_ok(&self) -> bool { self.wf() }
    fn vx_src(self) -> (r: It<Arc>) {
        proof { assert(self.src_ok()); assert(self.src() == self.todo()); }
        let mut s = self; let mut v: Vec<Arc> = Vec::new();
        loop invariant s.wf(), v@ + s.todo() =~= self.todo(), ensures v@ =~= self.todo(), decreases s.todo().len() {
            match s.next() { Some(e) => { v.push(e); } None => { break; } }
        }
        proof { lemma_pre_ends(v@); }
        It::from_vec(v)
    }
}
pub trait ArcIterable : Digraph + Sized {
//@ fn iterators.rs impl:ArcIterable:D arcs
//@ rename D Self
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == arc_seq(*self), lists_arcs(*self, arc_seq(*self))
//@ end
}
impl<D: Digraph> ArcIterable for D { }
} // verus!
