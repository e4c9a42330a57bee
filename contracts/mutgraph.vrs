verus! {
//@ props C06
/// edge set lemma: E determined by the relation
pub proof fn lemma_eset_unique(a: Set<Edge>, b: Set<Edge>, f: spec_fn(Vertex, Vertex) -> bool)
    requires is_eset(a, f), is_eset(b, f)
    ensures a == b
{
    assert forall|e: Edge| a.contains(e) <==> b.contains(e) by { let (x, y) = e; assert(a.contains((x, y)) <==> b.contains((x, y))); }
    assert(a =~= b);
}
pub open spec fn norm(u: Vertex, v: Vertex) -> Edge { if u <= v { (u, v) } else { (v, u) } }

pub trait MutableGraph : Graph + Sized {
    proof fn lemma_simple(&self) ensures self.simple();
//@ fn graph.rs trait:MutableGraph new
//@ ensures r.wf(), r.vs() == Set::<Vertex>::empty(), forall|x: Vertex, y: Vertex| !#[trigger] r.adj(x, y)
//@ end
//@ fn graph.rs trait:MutableGraph with_capacity
//@ ensures r.wf(), r.vs() == Set::<Vertex>::empty(), forall|x: Vertex, y: Vertex| !#[trigger] r.adj(x, y)
//@ end
//@ fn graph.rs trait:MutableGraph add_vertex
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs().insert(*u), r == !old(self).vs().contains(*u),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == old(self).adj(x, y)
//@ end
//@ fn graph.rs trait:MutableGraph remove_vertex
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs().remove(*u), r == old(self).vs().contains(*u),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == (old(self).adj(x, y) && x != *u && y != *u)
//@ end
//@ fn graph.rs trait:MutableGraph add_edge
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs().insert(*u).insert(*v), r == !old(self).adj(*u, *v),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == (old(self).adj(x, y) || (x == *u && y == *v) || (x == *v && y == *u))
//@ end
//@ fn graph.rs trait:MutableGraph remove_edge
//@ requires old(self).wf()
//@ ensures
        final(self).wf(), final(self).vs() == old(self).vs(), r == old(self).adj(*u, *v),
        forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == (old(self).adj(x, y) && !(x == *u && y == *v) && !(x == *v && y == *u))
//@ end
}
pub proof fn lemma_eset_eq<G: Graph, H: Graph>(a: G, b: H)
    requires a.wf(), b.wf(), a.simple(), b.simple(), forall|x: Vertex, y: Vertex| #[trigger] b.adj(x, y) == a.adj(x, y),
    ensures b.eset() == a.eset(), b.esize() == a.esize()
{
    a.lemma_wf(); b.lemma_wf();
    assert forall|e: Edge| a.eset().contains(e) <==> b.eset().contains(e) by { let (x, y) = e; assert(a.eset().contains((x, y)) <==> b.eset().contains((x, y))) by { assert(b.adj(x, y) == a.adj(x, y)); } }
    assert(a.eset() =~= b.eset());
}
pub proof fn lemma_esize_add<G: Graph, H: Graph>(a: G, b: H, u: Vertex, v: Vertex)
    requires a.wf(), b.wf(), a.simple(), b.simple(), forall|x: Vertex, y: Vertex| #[trigger] b.adj(x, y) == (a.adj(x, y) || (x == u && y == v) || (x == v && y == u)),
    ensures b.eset() == a.eset().insert(norm(u, v)), b.esize() == a.esize() + (if a.adj(u, v) { 0nat } else { 1nat }),
        a.eset().contains(norm(u, v)) == a.adj(u, v),
{
    a.lemma_wf(); b.lemma_wf();
    let f = a.eset().insert(norm(u, v));
    assert forall|e: Edge| f.contains(e) <==> b.eset().contains(e) by { let (x, y) = e; assert(b.adj(x, y) == (a.adj(x, y) || (x == u && y == v) || (x == v && y == u))); assert(a.eset().contains((x, y)) <==> x <= y && a.adj(x, y)); assert(b.eset().contains((x, y)) <==> x <= y && b.adj(x, y)); }
    assert(f =~= b.eset());
    let n = norm(u, v); assert(a.eset().contains((n.0, n.1)) <==> a.adj(n.0, n.1)); assert(a.adj(u, v) ==> a.adj(v, u)); assert(a.adj(v, u) ==> a.adj(u, v));
}
/// the edges of s (both directions)
pub open spec fn in_edges(s: Seq<Edge>, x: Vertex, y: Vertex) -> bool { s.contains((x, y)) || s.contains((y, x)) }
pub open spec fn is_end(s: Seq<Edge>, x: Vertex) -> bool { exists|i: int| 0 <= i < s.len() && ((#[trigger] s[i]).0 == x || s[i].1 == x) }
pub open spec fn loops_of<G: Graph>(g: G) -> Set<Vertex> { g.vs().filter(|x: Vertex| g.adj(x, x)) }
pub open spec fn isolated<G: Graph>(g: G) -> Set<Vertex> { g.vs().filter(|x: Vertex| g.deg(x) == 0) }
pub proof fn lemma_count<T>(s: Seq<T>, a: Set<T>)
    requires s.no_duplicates(), forall|x: T| #[trigger] s.contains(x) <==> a.contains(x)
    ensures s.len() == a.len(), s.to_set() == a
{ s.unique_seq_to_set(); assert(s.to_set() =~= a); }
pub proof fn lemma_push_contains<T>(s: Seq<T>, v: T)
    ensures forall|x: T| #[trigger] s.push(v).contains(x) <==> s.contains(x) || x == v,
        s.no_duplicates() && !s.contains(v) ==> s.push(v).no_duplicates(),
{
    let t = s.push(v);
    assert forall|x: T| #[trigger] t.contains(x) <==> s.contains(x) || x == v by {
        if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); }
        assert(t[s.len() as int] == v);
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < s.len() { assert(s[i] == x); } }
    }
    if s.no_duplicates() && !s.contains(v) {
        assert forall|i: int, j: int| 0 <= i < j < t.len() implies t[i] != t[j] by { if j == s.len() { assert(s.contains(s[i])); } }
    }
}
pub proof fn lemma_is_end_step(s: Seq<Edge>, n: nat)
    requires n < s.len()
    ensures forall|x: Vertex| #[trigger] is_end(s.take(n as int + 1), x) <==> is_end(s.take(n as int), x) || x == s[n as int].0 || x == s[n as int].1
{
    let a = s.take(n as int); let b = s.take(n as int + 1);
    assert forall|x: Vertex| #[trigger] is_end(b, x) <==> is_end(a, x) || x == s[n as int].0 || x == s[n as int].1 by {
        if is_end(a, x) { let i = choose|i: int| 0 <= i < a.len() && ((#[trigger] a[i]).0 == x || a[i].1 == x); assert(b[i] == a[i]); }
        assert(b[n as int] == s[n as int]);
        if is_end(b, x) { let i = choose|i: int| 0 <= i < b.len() && ((#[trigger] b[i]).0 == x || b[i].1 == x); if i < n { assert(a[i] == b[i]); } }
    }
}
/// default methods of trait MutableGraph and Graph::subgraph (bodies from /repo)
pub trait MutableGraphExt : MutableGraph {
//@ fn graph.rs trait:MutableGraph add_vertices
//@ requires old(self).wf(), vertices.src_ok(), vertices.src().len() <= u32::MAX
//@ ensures
    final(self).wf(), final(self).vs() == old(self).vs().union(vertices.src().to_set()),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == old(self).adj(x, y),
    r == final(self).vs().len() - old(self).vs().len()
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); assert(g0.vs().union(Set::<Vertex>::empty()) =~= g0.vs()); }
//@ loop 1
    self.wf(), self.vs() == g0.vs().union(pre(it1_s, it1.pos())), count <= it1.pos(), it1_s.len() <= u32::MAX,
    forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == g0.adj(x, y),
    count == self.vs().len() - g0.vs().len(),
//@ hint loop1.start
    let ghost g1 = *self;
//@ hint loop1.end
    proof { assert(self.vs() =~= g0.vs().union(pre(it1_s, it1.pos()))); }
//@ end
//@ fn graph.rs trait:MutableGraph add_edges
//@ requires old(self).wf(), edges.src_ok(), edges.src().len() <= u32::MAX
//@ ensures
    final(self).wf(), forall|x: Vertex| #[trigger] final(self).vs().contains(x) <==> old(self).vs().contains(x) || is_end(edges.src(), x),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == (old(self).adj(x, y) || in_edges(edges.src(), x, y)),
    r == final(self).esize() - old(self).esize()
//@ hint start
    let ghost g0 = *self;
//@ loop 1
    self.wf(), count <= it1.pos(), it1_s.len() <= u32::MAX,
    forall|x: Vertex| #[trigger] self.vs().contains(x) <==> g0.vs().contains(x) || is_end(it1_s.take(it1.pos() as int), x),
    forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (g0.adj(x, y) || in_edges(it1_s.take(it1.pos() as int), x, y)),
    count == self.esize() - g0.esize(),
//@ hint loop1.start
    let ghost g1 = *self;
//@ hint loop1.end
    proof {
        g1.lemma_simple(); self.lemma_simple(); lemma_esize_add(g1, *self, u, v);
        let k = (it1.pos() - 1) as nat; let s1 = it1_s.take(k as int); let s2 = it1_s.take(it1.pos() as int);
        lemma_is_end_step(it1_s, k); assert(s2 =~= s1.push((u, v))); lemma_push_contains(s1, (u, v));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (g0.adj(x, y) || in_edges(s2, x, y)) by { assert(g1.adj(x, y) == (g0.adj(x, y) || in_edges(s1, x, y))); }
        assert forall|x: Vertex| #[trigger] self.vs().contains(x) <==> g0.vs().contains(x) || is_end(s2, x) by { assert(g1.vs().contains(x) <==> g0.vs().contains(x) || is_end(s1, x)); }
    }
//@ hint loop1.after
    proof { assert(it1_s.take(it1_s.len() as int) =~= it1_s); }
//@ end
//@ fn graph.rs trait:MutableGraph remove_loops
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).vs() == old(self).vs(), r == loops_of(*old(self)).len(), r == old(self).esize() - final(self).esize(),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == (old(self).adj(x, y) && x != y)
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); }
//@ loop 1
    cands@.no_duplicates(), forall|x: Vertex| #[trigger] cands@.contains(x) <==> pre(it1_s, it1.pos()).contains(x) && g0.adj(x, x),
//@ hint loop1.start
    proof { lemma_push_contains(cands@, *u); }
//@ loop 2
    self.wf(), self.vs() == g0.vs(), self.esize() == g0.esize() - it2.pos(), it2_s == candss, candss.no_duplicates(),
    forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (g0.adj(x, y) && !(x == y && pre(it2_s, it2.pos()).contains(x))),
//@ hint loop2.start
    let ghost g1 = *self;
//@ hint loop2.end
    proof { g1.lemma_simple(); self.lemma_simple(); lemma_esize_add(*self, g1, u, u); assert(candss.contains(u)); }
//@ hint loop2.before
    let ghost candss = cands@;
    proof { lemma_count(candss, loops_of(g0)); }
//@ hint end
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (g0.adj(x, y) && x != y) by { assert(g0.adj(x, y) ==> g0.vs().contains(x)); assert(candss.to_set().contains(x) == candss.contains(x)); } }
//@ end
//@ fn graph.rs trait:MutableGraph remove_isolates
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).vs() == old(self).vs().difference(isolated(*old(self))), r == isolated(*old(self)).len(),
    forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == old(self).adj(x, y)
//@ closure 1 |vxp1: &&Vertex| -> (b: bool) requires self.wf() ensures b == (self.deg(**vxp1) == 0)
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); assert(g0.vs().difference(Set::<Vertex>::empty()) =~= g0.vs()); }
//@ hint loop1.before
    let ghost candss = cands@;
    proof {
        assert forall|x: Vertex| #[trigger] candss.contains(x) <==> isolated(g0).contains(x) by {
            if candss.contains(x) { let i = choose|i: int| 0 <= i < candss.len() && candss[i] == x; assert(g0.vseq().contains(candss[i])); }
            if isolated(g0).contains(x) { assert(g0.vseq().contains(x)); let i = choose|i: int| 0 <= i < g0.vseq().len() && g0.vseq()[i] == x; assert(candss.contains(g0.vseq()[i])); }
        }
        lemma_count(candss, isolated(g0)); }
//@ loop 1
    self.wf(), self.vs() == g0.vs().difference(pre(it1_s, it1.pos())), it1_s == candss,
    forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == g0.adj(x, y),
//@ hint loop1.start
    let ghost g1 = *self;
//@ hint loop1.end
    proof {
        assert(isolated(g0).contains(u));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == g0.adj(x, y) by { 
            assert(g1.adj(x, y) == g0.adj(x, y));
            if g0.adj(x, y) { assert(g0.adj(y, x)); assert(g0.nseq(x).contains(y)); assert(g0.nseq(y).contains(x)); assert(g0.deg(x) != 0 && g0.deg(y) != 0); } }
        assert(self.vs() =~= g0.vs().difference(pre(it1_s, it1.pos())));
    }
//@ end
}
impl<G: MutableGraph> MutableGraphExt for G { }
pub trait SubgraphExt : Graph + Sized {
//@ fn graph.rs trait:Graph subgraph
//@ requires self.wf(), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> self.vs().contains(x)
//@ ensures
    r.wf(), r.vs() == vertices.src().to_set(),
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (self.adj(x, y) && vertices.src().contains(x) && vertices.src().contains(y))
//@ hint start
    proof { self.lemma_wf(); }
//@ loop 1
    G.wf(), forall|x: Vertex| #[trigger] G.vs().contains(x) <==> pre(it1_s, it1.pos()).contains(x) || (selected@.contains(x) && exists|y: Vertex| pre(it1_s, it1.pos()).contains(y) && #[trigger] self.adj(x, y)),
    forall|x: Vertex, y: Vertex| #[trigger] G.adj(x, y) == (self.adj(x, y) && selected@.contains(x) && selected@.contains(y) && (pre(it1_s, it1.pos()).contains(x) || pre(it1_s, it1.pos()).contains(y))),
//@ hint loop1.start
    let ghost G1 = G; let ghost w = *v; let ghost p1 = pre(it1_s, (it1.pos() - 1) as nat); let ghost p2 = pre(it1_s, it1.pos());
//@ loop 2
    G.wf(), forall|x: Vertex| #[trigger] G.vs().contains(x) <==> G1.vs().contains(x) || x == w || pre(it2_s, it2.pos()).contains(x),
    forall|x: Vertex| #[trigger] it2_s.contains(x) <==> self.adj(w, x) && selected@.contains(x),
    forall|x: Vertex, y: Vertex| #[trigger] G.adj(x, y) == (G1.adj(x, y) || (y == w && pre(it2_s, it2.pos()).contains(x)) || (x == w && pre(it2_s, it2.pos()).contains(y))),
//@ hint loop1.end
    proof {
        assert forall|x: Vertex| #[trigger] G.vs().contains(x) <==> p2.contains(x) || (selected@.contains(x) && exists|y: Vertex| p2.contains(y) && #[trigger] self.adj(x, y)) by {
            assert(it2_s.contains(x) <==> self.adj(w, x) && selected@.contains(x)); assert(self.adj(w, x) == self.adj(x, w)); assert(G1.vs().contains(x) <==> p1.contains(x) || (selected@.contains(x) && exists|y: Vertex| p1.contains(y) && #[trigger] self.adj(x, y)));
        }
        assert forall|x: Vertex, y: Vertex| #[trigger] G.adj(x, y) == (self.adj(x, y) && selected@.contains(x) && selected@.contains(y) && (p2.contains(x) || p2.contains(y))) by {
            assert(G1.adj(x, y) == (self.adj(x, y) && selected@.contains(x) && selected@.contains(y) && (p1.contains(x) || p1.contains(y))));
            assert(it2_s.contains(x) <==> self.adj(w, x) && selected@.contains(x)); assert(it2_s.contains(y) <==> self.adj(w, y) && selected@.contains(y));
            assert(self.adj(w, x) == self.adj(x, w)); assert(selected@.contains(w));
        }
    }
//@ hint end
    proof { assert(G.vs() =~= vertices.src().to_set()); }
//@ end
}
impl<G: Graph> SubgraphExt for G { }
} // verus!
