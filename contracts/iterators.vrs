verus! {
//@ props C04
// ===================================================================== iterators over graphs
/// what is still to come from an iterator
pub open spec fn rest<T>(s: Seq<T>, n: nat) -> Seq<T> { s.subrange(n as int, s.len() as int) }
/// edges (v, u) with v <= u for u in s
pub open spec fn esel(v: Vertex, s: Seq<Vertex>) -> Seq<Edge> decreases s.len() {
    if s.len() == 0 { Seq::empty() } else if v <= s[0] { seq![(v, s[0])] + esel(v, s.drop_first()) } else { esel(v, s.drop_first()) }
}
pub open spec fn edges_from<G: Graph>(g: G, vs: Seq<Vertex>) -> Seq<Edge> decreases vs.len() {
    if vs.len() == 0 { Seq::empty() } else { esel(vs[0], g.nseq(vs[0])) + edges_from(g, vs.drop_first()) }
}
/// what the edge iterator of g returns, in order
pub open spec fn edge_seq<G: Graph>(g: G) -> Seq<Edge> { edges_from(g, g.vseq()) }
pub proof fn lemma_concat_mem<T>(a: Seq<T>, b: Seq<T>)
    ensures forall|x: T| #[trigger] (a + b).contains(x) <==> a.contains(x) || b.contains(x),
        a.no_duplicates() && b.no_duplicates() && (forall|x: T| !(#[trigger] a.contains(x) && b.contains(x))) ==> (a + b).no_duplicates()
{
    let c = a + b;
    assert forall|x: T| #[trigger] c.contains(x) <==> a.contains(x) || b.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(c[i] == x); }
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; assert(c[a.len() + i] == x); }
        if c.contains(x) { let i = choose|i: int| 0 <= i < c.len() && c[i] == x; if i < a.len() { assert(a[i] == x); } else { assert(b[i - a.len()] == x); } }
    }
    if a.no_duplicates() && b.no_duplicates() && (forall|x: T| !(#[trigger] a.contains(x) && b.contains(x))) {
        assert forall|i: int, j: int| 0 <= i < j < c.len() implies c[i] != c[j] by {
            if j < a.len() { assert(a[i] != a[j]); } else if i >= a.len() { assert(b[i - a.len()] != b[j - a.len()]); }
            else { assert(a.contains(a[i])); assert(b.contains(b[j - a.len()])); }
        }
    }
}
pub proof fn lemma_drop_first_mem<T>(s: Seq<T>)
    requires s.len() > 0
    ensures forall|x: T| #[trigger] s.contains(x) <==> x == s[0] || s.drop_first().contains(x),
        s.no_duplicates() ==> s.drop_first().no_duplicates() && !s.drop_first().contains(s[0])
{
    let d = s.drop_first();
    assert forall|x: T| #[trigger] s.contains(x) <==> x == s[0] || d.contains(x) by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(d[i - 1] == x); } }
        if d.contains(x) { let i = choose|i: int| 0 <= i < d.len() && d[i] == x; assert(s[i + 1] == x); }
    }
    if s.no_duplicates() && d.contains(s[0]) { let i = choose|i: int| 0 <= i < d.len() && d[i] == s[0]; assert(s[i + 1] == s[0]); }
}
pub proof fn lemma_esel(v: Vertex, s: Seq<Vertex>)
    ensures forall|x: Vertex, y: Vertex| #[trigger] esel(v, s).contains((x, y)) <==> x == v && v <= y && s.contains(y),
        s.no_duplicates() ==> esel(v, s).no_duplicates()
    decreases s.len()
{
    if s.len() > 0 {
        lemma_esel(v, s.drop_first()); lemma_drop_first_mem(s);
        if v <= s[0] { let a = seq![(v, s[0])]; let b = esel(v, s.drop_first()); lemma_concat_mem(a, b); assert(a[0] == (v, s[0]));
            assert forall|e: Edge| #[trigger] a.contains(e) implies e == (v, s[0]) by {}
            assert(a.contains(a[0]));
            assert forall|x: Vertex, y: Vertex| #[trigger] esel(v, s).contains((x, y)) <==> x == v && v <= y && s.contains(y) by {
                assert((a + b).contains((x, y)) <==> a.contains((x, y)) || b.contains((x, y))); assert(b.contains((x, y)) <==> x == v && v <= y && s.drop_first().contains(y)); }
        }
    }
}
pub proof fn lemma_edges_from<G: Graph>(g: G, vs: Seq<Vertex>)
    requires g.wf(), forall|x: Vertex| #[trigger] vs.contains(x) ==> g.vs().contains(x), vs.no_duplicates()
    ensures forall|x: Vertex, y: Vertex| #[trigger] edges_from(g, vs).contains((x, y)) <==> vs.contains(x) && x <= y && g.adj(x, y),
        g.simple() ==> edges_from(g, vs).no_duplicates()
    decreases vs.len()
{
    if vs.len() > 0 {
        let v = vs[0]; let d = vs.drop_first();
        lemma_drop_first_mem(vs);
        g.lemma_wf(); lemma_edges_from(g, d); lemma_esel(v, g.nseq(v));
        assert(vs.contains(v));
        let a = esel(v, g.nseq(v)); let b = edges_from(g, d);
        lemma_concat_mem(a, b);
        assert forall|x: Vertex, y: Vertex| #[trigger] edges_from(g, vs).contains((x, y)) <==> vs.contains(x) && x <= y && g.adj(x, y) by {
            assert((a + b).contains((x, y)) <==> a.contains((x, y)) || b.contains((x, y)));
            assert(g.nseq(v).contains(y) <==> g.adj(v, y));
        }
        if g.simple() { assert forall|e: Edge| !(#[trigger] a.contains(e) && b.contains(e)) by { let (x, y) = e; assert(a.contains((x, y)) ==> x == v); assert(b.contains((x, y)) ==> d.contains(x)); } }
    }
}
/// s lists every edge of g exactly once, smaller end first
pub open spec fn lists_edges<G: Graph>(g: G, s: Seq<Edge>) -> bool {
    (forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> x <= y && g.adj(x, y)) && (g.simple() ==> s.no_duplicates() && s.len() == g.esize())
}
pub proof fn lemma_edge_seq<G: Graph>(g: G)
    requires g.wf()
    ensures lists_edges(g, edge_seq(g))
{
    g.lemma_wf(); lemma_edges_from(g, g.vseq());
    let s = edge_seq(g);
    assert forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> x <= y && g.adj(x, y) by { }
    if g.simple() {
        assert forall|e: Edge| #[trigger] s.contains(e) <==> g.eset().contains(e) by { let (x, y) = e; assert(g.eset().contains((x, y)) <==> x <= y && g.adj(x, y)); assert(s.contains((x, y)) <==> x <= y && g.adj(x, y)); }
        lemma_count(s, g.eset());
    }
}
// ---------------------------------------------------------------- neighbourhood iterator
//@ struct iterators.rs NeighIterator
impl<'a, G: Graph> NeighIterator<'a, G> {
    pub open spec fn wf(&self) -> bool {
        self.graph.wf() && self.v_it.pos() <= self.v_it.seq().len() && self.v_it.seq().no_duplicates() && (forall|x: Vertex| #[trigger] self.v_it.seq().contains(x) ==> self.graph.vs().contains(x))
    }
    /// vertices still to come
    pub open spec fn todo(&self) -> Seq<Vertex> { rest(self.v_it.seq(), self.v_it.pos()) }
//@ fn iterators.rs impl:NeighIterator new
//@ requires graph.wf()
//@ ensures r.wf(), r.todo() == graph.vseq(), r.graph == graph
//@ hint end
    proof { assert(vx_res.todo() =~= graph.vseq()); graph.lemma_wf(); }
//@ end
//@ fn iterators.rs impl:Iterator:NeighIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, RIt<'a, Vertex>)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).graph == old(self).graph,
    r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> final(self).todo() == old(self).todo().drop_first() && (r->0).0 == old(self).todo()[0] && (r->0).1.pos() == 0 && (r->0).1.seq() == old(self).graph.nseq((r->0).0) && old(self).graph.vs().contains((r->0).0),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.todo().len() > 0 { assert(self.todo()[0] == self.v_it.seq()[self.v_it.pos() as int]); } }
//@ hint after let v 1
    proof { assert(self.todo() =~= old(self).todo().drop_first()); }
//@ end
}
/// s pairs the vertices t with iterators over their neighbours
pub open spec fn nlisted<'a, G: Graph>(g: G, t: Seq<Vertex>, s: Seq<(Vertex, RIt<'a, Vertex>)>) -> bool {
    s.len() == t.len() && forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0 == t[i] && s[i].1.pos() == 0 && s[i].1.seq() == g.nseq(t[i])
}
impl<'a, G: Graph> NeighIterator<'a, G> {
    /// draining the iterator: what a `for` loop over it sees
    pub fn vx_src(self) -> (r: It<(Vertex, RIt<'a, Vertex>)>)
        requires self.wf()
        ensures r.pos() == 0, pre(r.seq(), 0) == Set::<(Vertex, RIt<'a, Vertex>)>::empty(), nlisted(*self.graph, self.todo(), r.seq())
    {
        let mut s = self; let mut v: Vec<(Vertex, RIt<'a, Vertex>)> = Vec::new();
        loop invariant s.wf(), s.graph == self.graph, v@.len() + s.todo().len() == self.todo().len(), self.todo().skip(v@.len() as int) =~= s.todo(),
            forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 == self.todo()[i] && v@[i].1.pos() == 0 && v@[i].1.seq() == self.graph.nseq(self.todo()[i]),
            ensures v@.len() == self.todo().len(), forall|i: int| 0 <= i < v@.len() ==> (#[trigger] v@[i]).0 == self.todo()[i] && v@[i].1.pos() == 0 && v@[i].1.seq() == self.graph.nseq(self.todo()[i]),
            decreases s.todo().len() {
            proof { if s.todo().len() > 0 { assert(s.todo()[0] == self.todo()[v@.len() as int]); } }
            match s.next() { Some(e) => { v.push(e); } None => { break; } }
        }
        proof { lemma_pre_ends(v@); }
        It::from_vec(v)
    }
}
pub trait NeighIterable : Graph + Sized {
//@ fn iterators.rs impl:NeighIterable:G neighbourhoods
//@ rename G Self
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == self.vseq(), r.graph == self
//@ end
}
impl<G: Graph> NeighIterable for G { }
// ---------------------------------------------------------------- edge iterator
//@ struct iterators.rs EdgeIterator
impl<'a, G: Graph> EdgeIterator<'a, G> {
    pub open spec fn wf(&self) -> bool {
        self.N_it.wf() && (self.curr_it.is_some() ==> self.curr_v.is_some() && self.curr_it->0.pos() <= self.curr_it->0.seq().len()) && (self.curr_it.is_none() ==> self.N_it.todo().len() == 0)
    }
    pub open spec fn todo(&self) -> Seq<Edge> {
        if self.curr_it.is_some() { esel(self.curr_v->0, rest(self.curr_it->0.seq(), self.curr_it->0.pos())) + edges_from(*self.N_it.graph, self.N_it.todo()) } else { Seq::empty() }
    }
//@ fn iterators.rs impl:EdgeIterator new
//@ requires graph.wf()
//@ ensures r.wf(), r.todo() == edge_seq(*graph), lists_edges(*graph, edge_seq(*graph))
//@ hint end
    proof { lemma_edge_seq(*graph); }
//@ end
//@ fn iterators.rs impl:EdgeIterator advance
//@ requires old(self).N_it.wf()
//@ ensures
    final(self).wf(), final(self).N_it.graph == old(self).N_it.graph,
    final(self).todo() == edges_from(*old(self).N_it.graph, old(self).N_it.todo()),
    final(self).curr_it.is_some() == (old(self).N_it.todo().len() > 0),
    final(self).curr_it.is_some() ==> final(self).N_it.todo().len() + 1 == old(self).N_it.todo().len() && final(self).curr_it->0.pos() == 0
//@ hint end
    proof { if self.curr_it.is_some() { assert(rest(self.curr_it->0.seq(), 0) =~= self.curr_it->0.seq()); } }
//@ end
//@ fn iterators.rs impl:Iterator:EdgeIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, Vertex)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> r->0 == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ loop 1
    self.wf(), self.todo() == old(self).todo(),
//@ loopdec 1 (if self.curr_it.is_some() { self.N_it.todo().len() + 1 } else { 0 }), (if self.curr_it.is_some() { self.curr_it->0.seq().len() - self.curr_it->0.pos() } else { 0 })
//@ hint loop1.start
    let ghost s0 = *self;
//@ hint after let u 1
    proof {
        let cv = s0.curr_v->0; let r0 = rest(s0.curr_it->0.seq(), s0.curr_it->0.pos()); let r1 = rest(self.curr_it->0.seq(), self.curr_it->0.pos());
        assert(r0[0] == u); assert(r1 =~= r0.drop_first());
        if cv <= u { assert(s0.todo().drop_first() =~= self.todo()); assert(s0.todo()[0] == (cv, u)); }
    }
//@ end
}
/// draining an iterator: what a `for` loop or an adaptor over it sees
impl<'a, G: Graph> VxSrc<Edge> for EdgeIterator<'a, G> {
    open spec fn src(&self) -> Seq<Edge> { self.todo() }
    open spec fn src_ok(&self) -> bool { self.wf() }
    fn vx_src(self) -> (r: It<Edge>) {
        proof { assert(self.src_ok()); assert(self.src() == self.todo()); }
        let mut s = self; let mut v: Vec<Edge> = Vec::new();
        loop invariant s.wf(), v@ + s.todo() =~= self.todo(), ensures v@ =~= self.todo(), decreases s.todo().len() {
            match s.next() { Some(e) => { v.push(e); } None => { break; } }
        }
        proof { lemma_pre_ends(v@); }
        It::from_vec(v)
    }
}
pub trait EdgeIterable : Graph + Sized {
//@ fn iterators.rs impl:EdgeIterable:G edges
//@ rename G Self
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == edge_seq(*self), lists_edges(*self, edge_seq(*self))
//@ end
}
impl<G: Graph> EdgeIterable for G { }
// ---------------------------------------------------------------- vertices and edges
pub open spec fn mixed_of(s: Seq<Edge>) -> Seq<VertexOrEdge> { s.map_values(|e: Edge| VertexOrEdge::E(e)) }
pub open spec fn mixed_from<G: Graph>(g: G, vs: Seq<Vertex>) -> Seq<VertexOrEdge> decreases vs.len() {
    if vs.len() == 0 { Seq::empty() } else { seq![VertexOrEdge::V(vs[0])] + mixed_of(esel(vs[0], g.nseq(vs[0]))) + mixed_from(g, vs.drop_first()) }
}
/// what the mixed iterator of g returns, in order
pub open spec fn mixed_seq<G: Graph>(g: G) -> Seq<VertexOrEdge> { mixed_from(g, g.vseq()) }
/// s lists every vertex and every edge of g exactly once
pub open spec fn lists_mixed<G: Graph>(g: G, s: Seq<VertexOrEdge>) -> bool {
    (forall|x: Vertex| #[trigger] s.contains(VertexOrEdge::V(x)) <==> g.vs().contains(x))
    && (forall|x: Vertex, y: Vertex| #[trigger] s.contains(VertexOrEdge::E((x, y))) <==> x <= y && g.adj(x, y))
    && (g.simple() ==> s.no_duplicates())
}
pub proof fn lemma_mixed_of(s: Seq<Edge>)
    ensures forall|e: Edge| #[trigger] mixed_of(s).contains(VertexOrEdge::E(e)) <==> s.contains(e), forall|x: Vertex| !#[trigger] mixed_of(s).contains(VertexOrEdge::V(x)),
        s.no_duplicates() ==> mixed_of(s).no_duplicates()
{
    let m = mixed_of(s);
    assert forall|e: Edge| #[trigger] m.contains(VertexOrEdge::E(e)) <==> s.contains(e) by {
        if s.contains(e) { let i = choose|i: int| 0 <= i < s.len() && s[i] == e; assert(m[i] == VertexOrEdge::E(e)); }
        if m.contains(VertexOrEdge::E(e)) { let i = choose|i: int| 0 <= i < m.len() && m[i] == VertexOrEdge::E(e); assert(s[i] == e); }
    }
}
pub proof fn lemma_mixed_from<G: Graph>(g: G, vs: Seq<Vertex>)
    requires g.wf(), forall|x: Vertex| #[trigger] vs.contains(x) ==> g.vs().contains(x), vs.no_duplicates()
    ensures forall|x: Vertex| #[trigger] mixed_from(g, vs).contains(VertexOrEdge::V(x)) <==> vs.contains(x),
        forall|x: Vertex, y: Vertex| #[trigger] mixed_from(g, vs).contains(VertexOrEdge::E((x, y))) <==> vs.contains(x) && x <= y && g.adj(x, y),
        g.simple() ==> mixed_from(g, vs).no_duplicates()
    decreases vs.len()
{
    if vs.len() > 0 {
        let v = vs[0]; let d = vs.drop_first();
        lemma_drop_first_mem(vs);
        g.lemma_wf(); lemma_mixed_from(g, d); lemma_esel(v, g.nseq(v)); lemma_mixed_of(esel(v, g.nseq(v)));
        assert(vs.contains(v));
        let a = seq![VertexOrEdge::V(v)]; let b = mixed_of(esel(v, g.nseq(v))); let c = mixed_from(g, d);
        assert(a[0] == VertexOrEdge::V(v)); assert(a.contains(a[0]));
        assert forall|e: VertexOrEdge| #[trigger] a.contains(e) implies e == a[0] by {}
        lemma_concat_mem(a, b); lemma_concat_mem(a + b, c);
        assert(mixed_from(g, vs) == a + b + c);
        assert forall|x: Vertex| #[trigger] mixed_from(g, vs).contains(VertexOrEdge::V(x)) <==> vs.contains(x) by {
            let e = VertexOrEdge::V(x); assert((a + b + c).contains(e) <==> (a + b).contains(e) || c.contains(e)); assert((a + b).contains(e) <==> a.contains(e) || b.contains(e)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] mixed_from(g, vs).contains(VertexOrEdge::E((x, y))) <==> vs.contains(x) && x <= y && g.adj(x, y) by {
            let e = VertexOrEdge::E((x, y)); assert((a + b + c).contains(e) <==> (a + b).contains(e) || c.contains(e)); assert((a + b).contains(e) <==> a.contains(e) || b.contains(e));
            assert(b.contains(e) <==> esel(v, g.nseq(v)).contains((x, y)));
            assert(g.nseq(v).contains(y) <==> g.adj(v, y)); }
        if g.simple() {
            assert forall|e: VertexOrEdge| !(#[trigger] a.contains(e) && b.contains(e)) by { }
            assert forall|e: VertexOrEdge| !(#[trigger] (a + b).contains(e) && c.contains(e)) by {
                assert((a + b).contains(e) <==> a.contains(e) || b.contains(e));
                match e { VertexOrEdge::V(x) => { } VertexOrEdge::E(ee) => { let (x, y) = ee; assert(b.contains(VertexOrEdge::E((x, y))) <==> esel(v, g.nseq(v)).contains((x, y))); assert(c.contains(VertexOrEdge::E((x, y))) ==> d.contains(x)); } } }
        }
    }
}
pub proof fn lemma_mixed_seq<G: Graph>(g: G)
    requires g.wf()
    ensures lists_mixed(g, mixed_seq(g))
{ g.lemma_wf(); lemma_mixed_from(g, g.vseq()); }
//@ struct iterators.rs MixedIterator
impl<'a, G: Graph> MixedIterator<'a, G> {
    pub open spec fn wf(&self) -> bool {
        self.N_it.wf() && self.curr_it.is_some() == self.curr_v.is_some() && (self.curr_it.is_some() ==> self.curr_it->0.pos() <= self.curr_it->0.seq().len()) && (self.curr_it.is_none() ==> self.N_it.todo().len() == 0)
    }
    pub open spec fn todo(&self) -> Seq<VertexOrEdge> {
        if self.curr_it.is_some() { (if self.returned_v { Seq::empty() } else { seq![VertexOrEdge::V(self.curr_v->0)] }) + mixed_of(esel(self.curr_v->0, rest(self.curr_it->0.seq(), self.curr_it->0.pos()))) + mixed_from(*self.N_it.graph, self.N_it.todo()) } else { Seq::empty() }
    }
//@ fn iterators.rs impl:MixedIterator new
//@ requires graph.wf()
//@ ensures r.wf(), r.todo() == mixed_seq(*graph), lists_mixed(*graph, mixed_seq(*graph))
//@ hint end
    proof { lemma_mixed_seq(*graph); }
//@ end
//@ fn iterators.rs impl:MixedIterator advance
//@ requires old(self).N_it.wf()
//@ ensures
    final(self).wf(), final(self).N_it.graph == old(self).N_it.graph,
    final(self).todo() == mixed_from(*old(self).N_it.graph, old(self).N_it.todo()),
    final(self).curr_it.is_some() == (old(self).N_it.todo().len() > 0),
    final(self).curr_it.is_some() ==> final(self).N_it.todo().len() + 1 == old(self).N_it.todo().len() && final(self).curr_it->0.pos() == 0,
    !final(self).returned_v
//@ hint end
    proof { if self.curr_it.is_some() { assert(rest(self.curr_it->0.seq(), 0) =~= self.curr_it->0.seq()); } }
//@ end
//@ fn iterators.rs impl:Iterator:MixedIterator next
//@ attr #[verifier::rlimit(30)]
//@ sig fn next(&mut self) -> (r: Option<VertexOrEdge>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> r->0 == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ loop 1
    self.wf(), self.todo() == old(self).todo(),
//@ loopdec 1 (if self.curr_it.is_some() { self.N_it.todo().len() + 1 } else { 0 })
//@ hint loop1.top
    let ghost s0 = *self;
//@ loop 2
    it.pos() <= it.seq().len(), it.seq() == s0.curr_it->0.seq(), v == s0.curr_v->0, s0.returned_v, s0.curr_it.is_some(),
    esel(v, rest(it.seq(), it.pos())) == esel(v, rest(it.seq(), s0.curr_it->0.pos())),
//@ hint loop2.start
    proof {
        let r0 = rest(it.seq(), (it.pos() - 1) as nat); let r1 = rest(it.seq(), it.pos());
        assert(r0[0] == *u); assert(r1 =~= r0.drop_first());
        if v <= *u {
            let a = esel(v, r1); assert(esel(v, r0) == seq![(v, *u)] + a); assert(mixed_of(seq![(v, *u)] + a) =~= seq![VertexOrEdge::E((v, *u))] + mixed_of(a));
            assert(s0.todo()[0] == VertexOrEdge::E((v, *u)));
            assert(s0.todo().drop_first() =~= mixed_of(a) + mixed_from(*s0.N_it.graph, s0.N_it.todo()));
        }
    }
//@ hint loop2.after
    proof { assert(mixed_of(esel(v, rest(it.seq(), it.pos()))) =~= Seq::<VertexOrEdge>::empty()); assert(s0.todo() =~= mixed_from(*s0.N_it.graph, s0.N_it.todo())); }
//@ hint then 1
    proof { let m = mixed_of(esel(v, rest(s0.curr_it->0.seq(), s0.curr_it->0.pos()))) + mixed_from(*s0.N_it.graph, s0.N_it.todo());
        assert(s0.todo() =~= seq![VertexOrEdge::V(v)] + m); assert(s0.todo().drop_first() =~= m); assert(Seq::<VertexOrEdge>::empty() + mixed_of(esel(v, rest(s0.curr_it->0.seq(), s0.curr_it->0.pos()))) =~= mixed_of(esel(v, rest(s0.curr_it->0.seq(), s0.curr_it->0.pos())))); }
//@ loopdec 2 it.seq().len() - it.pos()
//@ end
}
impl<'a, G: Graph> VxSrc<VertexOrEdge> for MixedIterator<'a, G> {
    open spec fn src(&self) -> Seq<VertexOrEdge> { self.todo() }
    open spec fn src_ok(&self) -> bool { self.wf() }
    fn vx_src(self) -> (r: It<VertexOrEdge>) {
        proof { assert(self.src_ok()); assert(self.src() == self.todo()); }
        let mut s = self; let mut v: Vec<VertexOrEdge> = Vec::new();
        loop invariant s.wf(), v@ + s.todo() =~= self.todo(), ensures v@ =~= self.todo(), decreases s.todo().len() {
            match s.next() { Some(e) => { v.push(e); } None => { break; } }
        }
        proof { lemma_pre_ends(v@); }
        It::from_vec(v)
    }
}
pub trait MixedIterable : Graph + Sized {
//@ fn iterators.rs impl:MixedIterable:G vertices_and_edges
//@ rename G Self
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == mixed_seq(*self), lists_mixed(*self, mixed_seq(*self))
//@ end
}
impl<G: Graph> MixedIterable for G { }
/// ends of the listed edges of g are vertices of g
pub proof fn lemma_edges_of<G: Graph>(g: G)
    requires g.wf()
    ensures lists_edges(g, edge_seq(g)), forall|x: Vertex| #[trigger] is_end(edge_seq(g), x) ==> g.vs().contains(x), forall|x: Vertex, y: Vertex| #[trigger] in_edges(edge_seq(g), x, y) <==> g.adj(x, y)
{
    g.lemma_wf(); lemma_edge_seq(g); let s = edge_seq(g);
    assert forall|x: Vertex| #[trigger] is_end(s, x) implies g.vs().contains(x) by {
        let i = choose|i: int| 0 <= i < s.len() && ((#[trigger] s[i]).0 == x || s[i].1 == x); let (p, q) = s[i]; assert(s.contains((p, q))); assert(g.adj(p, q));
    }
    assert forall|x: Vertex, y: Vertex| #[trigger] in_edges(s, x, y) <==> g.adj(x, y) by { assert(g.adj(x, y) ==> g.adj(y, x)); assert(g.adj(y, x) ==> g.adj(x, y)); }
}
} // verus!
