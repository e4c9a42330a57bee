verus! {
//@ props C07
// ===================================================================== disjoint unions, relabelling
/// x is a shifted element of b
pub open spec fn shifted<G: Graph>(b: G, o: int, x: Vertex) -> bool { x >= o && b.vs().contains((x - o) as u32) }
pub open spec fn shifted_adj<G: Graph>(b: G, o: int, x: Vertex, y: Vertex) -> bool { x >= o && y >= o && b.adj((x - o) as u32, (y - o) as u32) }
/// r is the disjoint union of a and of b shifted by o
pub open spec fn is_union<G: Graph, H: Graph, R: Graph>(a: G, b: H, o: int, r: R) -> bool {
    &&& forall|x: Vertex| #[trigger] a.vs().contains(x) ==> x < o
    &&& forall|x: Vertex| #[trigger] r.vs().contains(x) <==> a.vs().contains(x) || shifted(b, o, x)
    &&& forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (a.adj(x, y) || shifted_adj(b, o, x, y))
}
pub open spec fn shiftable<G: Graph, H: Graph>(a: G, b: H) -> bool {
    &&& forall|x: Vertex| #[trigger] a.vs().contains(x) ==> x < u32::MAX
    &&& forall|x: Vertex, y: Vertex| #[trigger] a.vs().contains(x) && #[trigger] b.vs().contains(y) ==> x + 1 + y <= u32::MAX
    &&& edge_seq(a).len() <= u32::MAX && edge_seq(b).len() <= u32::MAX
}
pub open spec fn shift_seq(s: Seq<Vertex>, o: u32, t: Seq<Vertex>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> s[i] + o <= u32::MAX && #[trigger] t[i] == s[i] + o }
pub open spec fn shift_eseq(s: Seq<Edge>, o: u32, t: Seq<Edge>) -> bool { t.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> s[i].0 + o <= u32::MAX && s[i].1 + o <= u32::MAX && #[trigger] t[i] == ((s[i].0 + o) as u32, (s[i].1 + o) as u32) }
pub proof fn lemma_shift_seq(s: Seq<Vertex>, o: u32, t: Seq<Vertex>)
    requires shift_seq(s, o, t)
    ensures forall|x: Vertex| #[trigger] t.contains(x) <==> x >= o && s.contains((x - o) as u32)
{
    assert forall|x: Vertex| #[trigger] t.contains(x) <==> x >= o && s.contains((x - o) as u32) by {
        if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s[i] == (x - o) as u32); }
        if x >= o && s.contains((x - o) as u32) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (x - o) as u32; assert(t[i] == x); }
    }
}
pub proof fn lemma_shift_eseq(s: Seq<Edge>, o: u32, t: Seq<Edge>)
    requires shift_eseq(s, o, t)
    ensures forall|x: Vertex, y: Vertex| #[trigger] t.contains((x, y)) <==> x >= o && y >= o && s.contains(((x - o) as u32, (y - o) as u32))
{
    assert forall|x: Vertex, y: Vertex| #[trigger] t.contains((x, y)) <==> x >= o && y >= o && s.contains(((x - o) as u32, (y - o) as u32)) by {
        if t.contains((x, y)) { let i = choose|i: int| 0 <= i < t.len() && t[i] == (x, y); assert(s[i] == ((x - o) as u32, (y - o) as u32)); }
        if x >= o && y >= o && s.contains(((x - o) as u32, (y - o) as u32)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == ((x - o) as u32, (y - o) as u32); assert(t[i] == (x, y)); }
    }
}
/// ends of listed edges are vertices
pub proof fn lemma_is_end<G: Graph>(g: G, s: Seq<Edge>)
    requires g.wf(), lists_edges(g, s)
    ensures forall|x: Vertex| #[trigger] is_end(s, x) ==> g.vs().contains(x), forall|x: Vertex, y: Vertex| #[trigger] in_edges(s, x, y) <==> g.adj(x, y)
{
    g.lemma_wf();
    assert forall|x: Vertex| #[trigger] is_end(s, x) implies g.vs().contains(x) by {
        let i = choose|i: int| 0 <= i < s.len() && ((#[trigger] s[i]).0 == x || s[i].1 == x); let (p, q) = s[i]; assert(s.contains((p, q))); assert(g.adj(p, q));
    }
    assert forall|x: Vertex, y: Vertex| #[trigger] in_edges(s, x, y) <==> g.adj(x, y) by { assert(g.adj(x, y) ==> g.adj(y, x)); assert(g.adj(y, x) ==> g.adj(x, y)); }
}
#[verifier::opaque]
pub open spec fn idx_map(o: Seq<Vertex>, m: Map<Vertex, Vertex>) -> bool {
    (forall|i: Vertex| #[trigger] m.dom().contains(i) <==> i < o.len()) && (forall|i: Vertex| #[trigger] m.dom().contains(i) ==> m[i] == o[i as int])
}
#[verifier::opaque]
/// m maps 0..n-1 increasingly onto a, and r is the copy of a on 0..n-1
pub open spec fn is_index(a: Set<Vertex>, m: Map<Vertex, Vertex>) -> bool {
    &&& forall|i: Vertex| #[trigger] m.dom().contains(i) <==> i < a.len()
    &&& forall|x: Vertex| #[trigger] a.contains(x) <==> exists|i: Vertex| #[trigger] m.dom().contains(i) && m[i] == x
    &&& forall|i: Vertex, j: Vertex| #[trigger] m.dom().contains(i) && #[trigger] m.dom().contains(j) && i < j ==> m[i] < m[j]
}
/// what the two tables of normalize hold
#[verifier::opaque]
pub open spec fn index_tables(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>) -> bool {
    &&& forall|i: Vertex| #[trigger] m.dom().contains(i) <==> i < o.len()
    &&& forall|i: Vertex| #[trigger] m.dom().contains(i) ==> m[i] == o[i as int]
    &&& forall|x: Vertex| #[trigger] w.dom().contains(x) <==> o.contains(x)
    &&& forall|x: Vertex| #[trigger] w.dom().contains(x) ==> w[x] < o.len() && o[w[x] as int] == x
}
pub proof fn lemma_index_map(o: Seq<Vertex>, s: Seq<(Vertex, Vertex)>, m: Map<Vertex, Vertex>)
    requires o.no_duplicates(), o.len() < 0x8000_0000, map_of(s, m), s.len() == o.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (i as u32, o[i]),
    ensures idx_map(o, m)
{
    reveal(idx_map); reveal(map_of);
    assert forall|i: Vertex| #[trigger] m.dom().contains(i) <==> i < o.len() by { if i < o.len() { assert(m.dom().contains(s[i as int].0)); } }
}
pub proof fn lemma_index_inv(o: Seq<Vertex>, m: Map<Vertex, Vertex>, k: Seq<Vertex>, s: Seq<(Vertex, Vertex)>, w: Map<Vertex, Vertex>)
    requires o.no_duplicates(), o.len() < 0x8000_0000, lists(k, m.dom()), map_of(s, w), s.len() == k.len(), forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] == (m[k[i]], k[i]),
        idx_map(o, m)
    ensures index_tables(o, m, w)
{
    reveal(idx_map); reveal(map_of); reveal(index_tables);
    assert forall|x: Vertex| #[trigger] w.dom().contains(x) implies o.contains(x) && w[x] < o.len() && o[w[x] as int] == x by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == (x, w[x]) && forall|l: int| j < l < s.len() ==> (#[trigger] s[l]).0 != x;
        assert(s[j] == (m[k[j]], k[j])); assert(k.contains(k[j])); assert(m.dom().contains(k[j]));
    }
    assert forall|x: Vertex| #[trigger] o.contains(x) implies w.dom().contains(x) by {
        let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(m.dom().contains(i as u32)); assert(k.contains(i as u32));
        let j = choose|j: int| 0 <= j < k.len() && k[j] == i as u32; assert(w.dom().contains(s[j].0));
    }
}
pub proof fn lemma_is_index(o: Seq<Vertex>, a: Set<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>)
    requires index_tables(o, m, w), ascending(o), lists(o, a), o.len() < 0x8000_0000
    ensures is_index(a, m)
{
    reveal(is_index); reveal(ascending);
    reveal(index_tables);
    assert forall|x: Vertex| #[trigger] a.contains(x) <==> exists|i: Vertex| #[trigger] m.dom().contains(i) && m[i] == x by {
        if a.contains(x) { assert(o.contains(x)); assert(w.dom().contains(x)); assert(m.dom().contains(w[x])); }
        if exists|i: Vertex| #[trigger] m.dom().contains(i) && m[i] == x { let i = choose|i: Vertex| #[trigger] m.dom().contains(i) && m[i] == x; assert(o.contains(o[i as int])); }
    }
    assert forall|i: Vertex, j: Vertex| #[trigger] m.dom().contains(i) && #[trigger] m.dom().contains(j) && i < j implies m[i] < m[j] by { assert(o[i as int] <= o[j as int] && o[i as int] != o[j as int]); }
}
/// the vertices / edges of the copy after the vertices p / edges p have been copied
#[verifier::opaque]
pub open spec fn idx_vs<R: Graph>(o: Seq<Vertex>, r: R, p: Set<Vertex>) -> bool { forall|i: Vertex| #[trigger] r.vs().contains(i) <==> i < o.len() && p.contains(o[i as int]) }
#[verifier::opaque]
pub open spec fn idx_es<R: Graph>(o: Seq<Vertex>, r: R, p: Set<Edge>) -> bool { forall|i: Vertex, j: Vertex| #[trigger] r.adj(i, j) <==> i < o.len() && j < o.len() && (p.contains((o[i as int], o[j as int])) || p.contains((o[j as int], o[i as int]))) }
#[verifier::opaque]
pub open spec fn idx_as<R: Digraph>(o: Seq<Vertex>, r: R, p: Set<Edge>) -> bool { forall|i: Vertex, j: Vertex| #[trigger] r.arc(i, j) <==> i < o.len() && j < o.len() && p.contains((o[i as int], o[j as int])) }
pub proof fn lemma_idx_vs<R: Graph>(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>, g: R, r: R, p: Set<Vertex>, u: Vertex)
    requires index_tables(o, m, w), w.dom().contains(u), idx_vs(o, g, p), r.vs() == g.vs().insert(w[u]), o.no_duplicates()
    ensures idx_vs(o, r, p.insert(u))
{
    reveal(index_tables);
    reveal(idx_vs);
    assert forall|i: Vertex| #[trigger] r.vs().contains(i) <==> i < o.len() && p.insert(u).contains(o[i as int]) by { assert(g.vs().contains(i) <==> i < o.len() && p.contains(o[i as int])); if i < o.len() && o[i as int] == u { assert(i == w[u]); } }
}
pub proof fn lemma_idx_vs_end<R: Graph>(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>, r: R, a: Set<Vertex>, s: Seq<Vertex>)
    requires index_tables(o, m, w), idx_vs(o, r, s.to_set()), lists(s, a), lists(o, a)
    ensures r.vs() == m.dom()
{
    reveal(index_tables);
    reveal(idx_vs);
    assert forall|i: Vertex| #[trigger] r.vs().contains(i) <==> m.dom().contains(i) by { if i < o.len() { assert(o.contains(o[i as int])); assert(a.contains(o[i as int])); assert(s.to_set().contains(o[i as int])); } }
    assert(r.vs() =~= m.dom());
}
pub proof fn lemma_idx_es<R: Graph>(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>, g: R, r: R, p: Set<Edge>, u: Vertex, v: Vertex)
    requires index_tables(o, m, w), w.dom().contains(u), w.dom().contains(v), idx_es(o, g, p), o.no_duplicates(),
        forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (g.adj(x, y) || (x == w[u] && y == w[v]) || (x == w[v] && y == w[u])),
    ensures idx_es(o, r, p.insert((u, v)))
{
    reveal(index_tables);
    reveal(idx_es); let q = p.insert((u, v));
    assert forall|i: Vertex, j: Vertex| #[trigger] r.adj(i, j) <==> i < o.len() && j < o.len() && (q.contains((o[i as int], o[j as int])) || q.contains((o[j as int], o[i as int]))) by {
        assert(g.adj(i, j) <==> i < o.len() && j < o.len() && (p.contains((o[i as int], o[j as int])) || p.contains((o[j as int], o[i as int]))));
        if i < o.len() && j < o.len() { assert((o[i as int], o[j as int]) == (u, v) ==> i == w[u] && j == w[v]); assert((o[j as int], o[i as int]) == (u, v) ==> j == w[u] && i == w[v]); }
    }
}
pub proof fn lemma_idx_as<R: Digraph>(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>, g: R, r: R, p: Set<Edge>, u: Vertex, v: Vertex)
    requires index_tables(o, m, w), w.dom().contains(u), w.dom().contains(v), idx_as(o, g, p), o.no_duplicates(),
        forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (g.arc(x, y) || (x == w[u] && y == w[v])),
    ensures idx_as(o, r, p.insert((u, v)))
{
    reveal(index_tables);
    reveal(idx_as); let q = p.insert((u, v));
    assert forall|i: Vertex, j: Vertex| #[trigger] r.arc(i, j) <==> i < o.len() && j < o.len() && q.contains((o[i as int], o[j as int])) by {
        assert(g.arc(i, j) <==> i < o.len() && j < o.len() && p.contains((o[i as int], o[j as int])));
        if i < o.len() && j < o.len() { assert((o[i as int], o[j as int]) == (u, v) ==> i == w[u] && j == w[v]); }
    }
}
pub open spec fn edge_copy<G: Graph, R: Graph>(g: G, r: R, m: Map<Vertex, Vertex>) -> bool { forall|i: Vertex, j: Vertex| #[trigger] r.adj(i, j) == (m.dom().contains(i) && m.dom().contains(j) && g.adj(m[i], m[j])) }
pub open spec fn arc_copy<G: Digraph, R: Digraph>(g: G, r: R, m: Map<Vertex, Vertex>) -> bool { forall|i: Vertex, j: Vertex| #[trigger] r.arc(i, j) == (m.dom().contains(i) && m.dom().contains(j) && g.arc(m[i], m[j])) }
pub proof fn lemma_idx_es_end<G: Graph, R: Graph>(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>, g: G, r: R, s: Seq<Edge>)
    requires index_tables(o, m, w), idx_es(o, r, s.to_set()), g.wf(), lists_edges(g, s)
    ensures edge_copy(g, r, m)
{
    reveal(index_tables);
    reveal(idx_es); g.lemma_wf();
    assert forall|i: Vertex, j: Vertex| #[trigger] r.adj(i, j) == (m.dom().contains(i) && m.dom().contains(j) && g.adj(m[i], m[j])) by {
        assert(m.dom().contains(i) <==> i < o.len()); assert(m.dom().contains(j) <==> j < o.len());
        if i < o.len() && j < o.len() { assert(g.adj(m[i], m[j]) ==> g.adj(m[j], m[i])); assert(g.adj(m[j], m[i]) ==> g.adj(m[i], m[j])); assert(s.contains((m[i], m[j])) == s.to_set().contains((m[i], m[j]))); assert(s.contains((m[j], m[i])) == s.to_set().contains((m[j], m[i]))); }
    }
}
pub proof fn lemma_idx_as_end<G: Digraph, R: Digraph>(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>, g: G, r: R, s: Seq<Edge>)
    requires index_tables(o, m, w), idx_as(o, r, s.to_set()), lists_arcs(g, s)
    ensures arc_copy(g, r, m)
{
    reveal(index_tables);
    reveal(idx_as);
    assert forall|i: Vertex, j: Vertex| #[trigger] r.arc(i, j) == (m.dom().contains(i) && m.dom().contains(j) && g.arc(m[i], m[j])) by {
        assert(m.dom().contains(i) <==> i < o.len()); assert(m.dom().contains(j) <==> j < o.len());
        if i < o.len() && j < o.len() { assert(s.contains((m[i], m[j])) == s.to_set().contains((m[i], m[j]))); }
    }
}
pub proof fn lemma_edge_ends<G: Graph>(g: G, s: Seq<Edge>, u: Vertex, v: Vertex)
    requires g.wf(), lists_edges(g, s), s.contains((u, v))
    ensures g.vs().contains(u), g.vs().contains(v), g.adj(u, v), g.adj(v, u), u <= v
{ g.lemma_wf(); assert(g.adj(u, v)); }
pub proof fn lemma_arc_ends<G: Digraph>(g: G, s: Seq<Edge>, u: Vertex, v: Vertex)
    requires g.wf(), lists_arcs(g, s), s.contains((u, v))
    ensures g.vs().contains(u), g.vs().contains(v), g.arc(u, v)
{ g.lemma_wf(); g.lemma_dwf(); assert(g.arc(u, v)); }
pub proof fn lemma_idx_dom(o: Seq<Vertex>, m: Map<Vertex, Vertex>, w: Map<Vertex, Vertex>, a: Set<Vertex>, u: Vertex, v: Vertex)
    requires index_tables(o, m, w), lists(o, a), a.contains(u), a.contains(v)
    ensures w.dom().contains(u), w.dom().contains(v), m.dom().contains(w[u]), m.dom().contains(w[v])
{ reveal(index_tables); assert(o.contains(u) && o.contains(v)); assert(w.dom().contains(u) && w.dom().contains(v)); }
impl EditGraph {
//@ fn editgraph.rs impl:EditGraph disj_union
//@ requires self.wf(), graph.wf(), shiftable(*self, *graph)
//@ ensures r.wf(), exists|o: int| 0 <= o <= u32::MAX && #[trigger] is_union(*self, *graph, o, r)
//@ lift add_vertices
//@ lift add_edges
//@ hint start
    proof { self.lemma_wf(); graph.lemma_wf(); lemma_edge_seq(*self); lemma_edge_seq(*graph); lemma_is_end(*self, edge_seq(*self)); lemma_is_end(*graph, edge_seq(*graph)); }
//@ closure 1 |x: &Vertex| -> (y: Vertex) requires *x < u32::MAX ensures y == *x + 1
//@ hint after let offset 1
    proof {
        assert forall|x: Vertex| #[trigger] self.vs().contains(x) implies x < offset by { assert(self.vseq().contains(x)); let i = choose|i: int| 0 <= i < self.vseq().len() && self.vseq()[i] == x; assert(self.vseq()[i] <= offset - 1); }
        assert forall|y: Vertex| #[trigger] graph.vs().contains(y) implies offset + y <= u32::MAX by { if self.vseq().len() > 0 { let x = (offset - 1) as u32; assert(self.vseq().contains(x)); assert(self.vs().contains(x) && graph.vs().contains(y)); } else { } }
        assert forall|i: int| 0 <= i < graph.vseq().len() implies offset + #[trigger] graph.vseq()[i] <= u32::MAX by { assert(graph.vseq().contains(graph.vseq()[i])); assert(graph.vs().contains(graph.vseq()[i])); }
        assert forall|i: int| 0 <= i < edge_seq(*graph).len() implies offset + (#[trigger] edge_seq(*graph)[i]).0 <= u32::MAX && offset + edge_seq(*graph)[i].1 <= u32::MAX by { let (x, y) = edge_seq(*graph)[i]; assert(edge_seq(*graph).contains((x, y))); assert(graph.adj(x, y)); }
    }
//@ hint after call add_vertices 1
    let ghost g1 = res;
    proof { assert forall|x: Vertex| #[trigger] g1.vs().contains(x) == self.vs().contains(x) by {} }
//@ hint after call add_edges 1
    let ghost g2 = res;
    proof { assert forall|x: Vertex| #[trigger] g2.vs().contains(x) == self.vs().contains(x) by { assert(g1.vs().contains(x) == self.vs().contains(x)); assert(is_end(edge_seq(*self), x) ==> self.vs().contains(x)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] g2.adj(x, y) == self.adj(x, y) by { assert(!g1.adj(x, y)); assert(in_edges(edge_seq(*self), x, y) == self.adj(x, y)); } }
//@ closure 2 |v: &Vertex| -> (y: Vertex) requires offset + *v <= u32::MAX ensures y == *v + offset
//@ hint after call add_vertices 2
    let ghost g3 = res;
    proof {
        let t = add_vertices_a2.seq(); assert(shift_seq(graph.vseq(), offset, t)); lemma_shift_seq(graph.vseq(), offset, t);
        assert forall|x: Vertex| #[trigger] g3.vs().contains(x) <==> self.vs().contains(x) || shifted(*graph, offset as int, x) by {
            assert(g2.vs().contains(x) == self.vs().contains(x)); assert(t.contains(x) == t.to_set().contains(x));
        }
        assert forall|x: Vertex, y: Vertex| #[trigger] g3.adj(x, y) == self.adj(x, y) by { assert(g2.adj(x, y) == self.adj(x, y)); }
    }
//@ closure 3 |vxp1: Edge| -> (y: Edge) requires offset + vxp1.0 <= u32::MAX, offset + vxp1.1 <= u32::MAX ensures y == ((vxp1.0 + offset) as u32, (vxp1.1 + offset) as u32)
//@ hint end
    proof {
        let t = add_edges_a2.seq(); assert(shift_eseq(edge_seq(*graph), offset, t)); lemma_shift_eseq(edge_seq(*graph), offset, t);
        assert forall|x: Vertex, y: Vertex| #[trigger] in_edges(t, x, y) <==> shifted_adj(*graph, offset as int, x, y) by {
            if x >= offset && y >= offset { assert(in_edges(edge_seq(*graph), (x - offset) as u32, (y - offset) as u32) == graph.adj((x - offset) as u32, (y - offset) as u32)); }
        }
        assert forall|x: Vertex| #[trigger] is_end(t, x) implies shifted(*graph, offset as int, x) by {
            let i = choose|i: int| 0 <= i < t.len() && ((#[trigger] t[i]).0 == x || t[i].1 == x); assert(is_end(edge_seq(*graph), edge_seq(*graph)[i].0)); assert(is_end(edge_seq(*graph), edge_seq(*graph)[i].1));
        }
        assert forall|x: Vertex| #[trigger] vx_res.vs().contains(x) <==> self.vs().contains(x) || shifted(*graph, offset as int, x) by { assert(g3.vs().contains(x) <==> self.vs().contains(x) || shifted(*graph, offset as int, x)); assert(is_end(t, x) ==> shifted(*graph, offset as int, x)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] vx_res.adj(x, y) == (self.adj(x, y) || shifted_adj(*graph, offset as int, x, y)) by { assert(g3.adj(x, y) == self.adj(x, y)); assert(in_edges(t, x, y) <==> shifted_adj(*graph, offset as int, x, y)); }
        assert(is_union(*self, *graph, offset as int, vx_res));
    }
//@ end
//@ fn editgraph.rs impl:EditGraph normalize
//@ requires self.wf()
//@ ensures r.0.wf(), is_index(self.vs(), r.1@), r.0.vs() == r.1@.dom(), edge_copy(*self, r.0, r.1@)
//@ subst ** v => * v
//@ unchain id2vex
//@ unchain vex2id
//@ closure 1 |vxp1: (usize, &Vertex)| -> (y: (Vertex, Vertex)) ensures y == (vxp1.0 as u32, *vxp1.1)
//@ closure 2 |vxp2: (&Vertex, &Vertex)| -> (y: (Vertex, Vertex)) ensures y == (*vxp2.1, *vxp2.0)
//@ hint start
    proof { self.lemma_wf(); lemma_edge_seq(*self); }
//@ hint after let id2vex 1
    proof { assert(lists(order@, self.vs())); lemma_index_map(order@, id2vex_3.seq(), id2vex@); }
//@ hint after let vex2id 1
    let ghost m = id2vex@; let ghost w = vex2id@; let ghost o = order@;
    proof { lemma_index_inv(o, m, id2vex.order(), vex2id_2.seq(), w); lemma_is_index(o, self.vs(), m, w);
        reveal(idx_vs); reveal(idx_es); lemma_pre_ends(self.vseq()); assert(idx_vs(o, res, Set::empty())); assert(idx_es(o, res, Set::empty())); }
//@ loop 1
    res.wf(), index_tables(o, m, w), w == vex2id@, lists(o, self.vs()), it1_s == self.vseq(), lists(it1_s, self.vs()),
    idx_vs(o, res, pre(it1_s, it1.pos())), idx_es(o, res, Set::empty()),
//@ hint loop1.start
    proof { lemma_idx_dom(o, m, w, self.vs(), *u, *u); }
    let ghost g0 = res; let ghost uu = *u;
//@ hint loop1.end
    proof { assert(res.vs() == g0.vs().insert(w[uu])); lemma_idx_vs(o, m, w, g0, res, pre(it1_s, (it1.pos() - 1) as nat), uu); assert(idx_es(o, res, Set::empty())) by { reveal(idx_es); } }
//@ hint loop1.after
    proof { lemma_idx_vs_end(o, m, w, res, self.vs(), it1_s); lemma_pre_ends(edge_seq(*self)); }
//@ loop 2
    res.wf(), index_tables(o, m, w), w == vex2id@, lists(o, self.vs()), lists_edges(*self, it2_s), self.wf(), res.vs() == m.dom(),
    idx_es(o, res, pre(it2_s, it2.pos())),
//@ hint loop2.start
    let ghost g0 = res;
    proof { lemma_edge_ends(*self, it2_s, u, v); lemma_idx_dom(o, m, w, self.vs(), u, v); }
//@ hint loop2.end
    proof { lemma_idx_es(o, m, w, g0, res, pre(it2_s, (it2.pos() - 1) as nat), u, v); assert(res.vs() =~= m.dom()); }
//@ hint end
    proof { lemma_idx_es_end(o, m, w, *self, vx_res.0, edge_seq(*self)); }
//@ end
//@ fn editgraph.rs impl:EditGraph disj_unions
//@ subst disj_union(graph) => disj_union(&graph)
//@ requires it.src_ok(), unions_ok(it.src())
//@ ensures r.wf(), is_unions(it.src(), r)
//@ hint start
    proof { assert(it.src().take(it.src().len() as int) =~= it.src()); }
//@ loop 1
    unions_ok(it1_s), res.wf(), is_unions(it1_s.take(it1.pos() as int), res),
//@ hint loop1.start
    let ghost k = (it1.pos() - 1) as int; let ghost r0 = res; let ghost gg = graph;
    proof { assert(graph == it1_s[k]); assert(it1_s.take(k + 1).drop_last() =~= it1_s.take(k)); assert(shiftable(res, it1_s[k])); }
//@ hint loop1.end
    proof { let o = choose|o: int| 0 <= o <= u32::MAX && #[trigger] is_union(r0, gg, o, res); let t = it1_s.take(k + 1); assert(t.last() == gg); assert(r0.wf() && is_unions(t.drop_last(), r0) && is_union(r0, t.last(), o, res)); assert(is_unions(t, res)); }
//@ end
}

/// r is what uniting the graphs of s one after the other gives
pub open spec fn is_unions<G: Graph>(s: Seq<G>, r: EditGraph) -> bool decreases s.len() {
    if s.len() == 0 { r.vs() == Set::<Vertex>::empty() && forall|x: Vertex, y: Vertex| !#[trigger] r.adj(x, y) }
    else { exists|m: EditGraph, o: int| m.wf() && is_unions(s.drop_last(), m) && #[trigger] is_union(m, s.last(), o, r) }
}
/// every union on the way has representable ids
pub open spec fn unions_ok<G: Graph>(s: Seq<G>) -> bool {
    forall|k: int, m: EditGraph| 0 <= k < s.len() && m.wf() && #[trigger] is_unions(s.take(k), m) ==> s[k].wf() && #[trigger] shiftable(m, s[k])
}
/// r is the disjoint union of a and of b shifted by o
pub open spec fn is_dunion<G: Digraph, H: Digraph, R: Digraph>(a: G, b: H, o: int, r: R) -> bool {
    &&& forall|x: Vertex| #[trigger] a.vs().contains(x) ==> x < o
    &&& forall|x: Vertex| #[trigger] r.vs().contains(x) <==> a.vs().contains(x) || shifted(b, o, x)
    &&& forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (a.arc(x, y) || shifted_arc(b, o, x, y))
}
pub open spec fn shifted_arc<G: Digraph>(b: G, o: int, x: Vertex, y: Vertex) -> bool { x >= o && y >= o && b.arc((x - o) as u32, (y - o) as u32) }
pub open spec fn dshiftable<G: Digraph, H: Digraph>(a: G, b: H) -> bool {
    &&& forall|x: Vertex| #[trigger] a.vs().contains(x) ==> x < u32::MAX
    &&& forall|x: Vertex, y: Vertex| #[trigger] a.vs().contains(x) && #[trigger] b.vs().contains(y) ==> x + 1 + y <= u32::MAX
    &&& arc_seq(a).len() <= u32::MAX && arc_seq(b).len() <= u32::MAX
}
pub proof fn lemma_is_dend<G: Digraph>(g: G, s: Seq<Edge>)
    requires g.wf(), lists_arcs(g, s)
    ensures forall|x: Vertex| #[trigger] is_end(s, x) ==> g.vs().contains(x), forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> g.arc(x, y)
{
    g.lemma_wf(); g.lemma_dwf();
    assert forall|x: Vertex| #[trigger] is_end(s, x) implies g.vs().contains(x) by {
        let i = choose|i: int| 0 <= i < s.len() && ((#[trigger] s[i]).0 == x || s[i].1 == x); let (p, q) = s[i]; assert(s.contains((p, q))); assert(g.arc(p, q));
    }
}

/// r is what uniting the graphs of s one after the other gives
pub open spec fn is_dunions<G: Digraph>(s: Seq<G>, r: EditDigraph) -> bool decreases s.len() {
    if s.len() == 0 { r.vs() == Set::<Vertex>::empty() && forall|x: Vertex, y: Vertex| !#[trigger] r.arc(x, y) }
    else { exists|m: EditDigraph, o: int| m.wf() && is_dunions(s.drop_last(), m) && #[trigger] is_dunion(m, s.last(), o, r) }
}
/// every union on the way has representable ids
pub open spec fn dunions_ok<G: Digraph>(s: Seq<G>) -> bool {
    forall|k: int, m: EditDigraph| 0 <= k < s.len() && m.wf() && #[trigger] is_dunions(s.take(k), m) ==> s[k].wf() && #[trigger] dshiftable(m, s[k])
}
impl EditDigraph {
//@ fn editdigraph.rs impl:EditDigraph disj_union
//@ requires self.wf(), graph.wf(), dshiftable(*self, *graph)
//@ ensures r.wf(), exists|o: int| 0 <= o <= u32::MAX && #[trigger] is_dunion(*self, *graph, o, r)
//@ lift add_vertices
//@ lift add_arcs
//@ hint start
    proof { self.lemma_wf(); graph.lemma_wf(); lemma_arc_seq(*self); lemma_arc_seq(*graph); self.lemma_dwf(); graph.lemma_dwf(); lemma_is_dend(*self, arc_seq(*self)); lemma_is_dend(*graph, arc_seq(*graph)); }
//@ closure 1 |x: &Vertex| -> (y: Vertex) requires *x < u32::MAX ensures y == *x + 1
//@ hint after let offset 1
    proof {
        assert forall|x: Vertex| #[trigger] self.vs().contains(x) implies x < offset by { assert(self.vseq().contains(x)); let i = choose|i: int| 0 <= i < self.vseq().len() && self.vseq()[i] == x; assert(self.vseq()[i] <= offset - 1); }
        assert forall|y: Vertex| #[trigger] graph.vs().contains(y) implies offset + y <= u32::MAX by { if self.vseq().len() > 0 { let x = (offset - 1) as u32; assert(self.vseq().contains(x)); assert(self.vs().contains(x) && graph.vs().contains(y)); } else { } }
        assert forall|i: int| 0 <= i < graph.vseq().len() implies offset + #[trigger] graph.vseq()[i] <= u32::MAX by { assert(graph.vseq().contains(graph.vseq()[i])); assert(graph.vs().contains(graph.vseq()[i])); }
        assert forall|i: int| 0 <= i < arc_seq(*graph).len() implies offset + (#[trigger] arc_seq(*graph)[i]).0 <= u32::MAX && offset + arc_seq(*graph)[i].1 <= u32::MAX by { let (x, y) = arc_seq(*graph)[i]; assert(arc_seq(*graph).contains((x, y))); assert(graph.arc(x, y)); }
    }
//@ hint after call add_vertices 1
    let ghost g1 = res;
    proof { assert forall|x: Vertex| #[trigger] g1.vs().contains(x) == self.vs().contains(x) by {} }
//@ hint after call add_arcs 1
    let ghost g2 = res;
    proof { assert forall|x: Vertex| #[trigger] g2.vs().contains(x) == self.vs().contains(x) by { assert(g1.vs().contains(x) == self.vs().contains(x)); assert(is_end(arc_seq(*self), x) ==> self.vs().contains(x)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] g2.arc(x, y) == self.arc(x, y) by { assert(!g1.arc(x, y)); assert(arc_seq(*self).contains((x, y)) == self.arc(x, y)); } }
//@ closure 2 |v: &Vertex| -> (y: Vertex) requires offset + *v <= u32::MAX ensures y == *v + offset
//@ hint after call add_vertices 2
    let ghost g3 = res;
    proof {
        let t = add_vertices_a2.seq(); assert(shift_seq(graph.vseq(), offset, t)); lemma_shift_seq(graph.vseq(), offset, t);
        assert forall|x: Vertex| #[trigger] g3.vs().contains(x) <==> self.vs().contains(x) || shifted(*graph, offset as int, x) by {
            assert(g2.vs().contains(x) == self.vs().contains(x)); assert(t.contains(x) == t.to_set().contains(x));
        }
        assert forall|x: Vertex, y: Vertex| #[trigger] g3.arc(x, y) == self.arc(x, y) by { assert(g2.arc(x, y) == self.arc(x, y)); }
    }
//@ closure 3 |vxp1: Edge| -> (y: Edge) requires offset + vxp1.0 <= u32::MAX, offset + vxp1.1 <= u32::MAX ensures y == ((vxp1.0 + offset) as u32, (vxp1.1 + offset) as u32)
//@ hint end
    proof {
        let t = add_arcs_a2.seq(); assert(shift_eseq(arc_seq(*graph), offset, t)); lemma_shift_eseq(arc_seq(*graph), offset, t);
        assert forall|x: Vertex, y: Vertex| #[trigger] t.contains((x, y)) <==> shifted_arc(*graph, offset as int, x, y) by {
            if x >= offset && y >= offset { assert(arc_seq(*graph).contains(((x - offset) as u32, (y - offset) as u32)) == graph.arc((x - offset) as u32, (y - offset) as u32)); }
        }
        assert forall|x: Vertex| #[trigger] is_end(t, x) implies shifted(*graph, offset as int, x) by {
            let i = choose|i: int| 0 <= i < t.len() && ((#[trigger] t[i]).0 == x || t[i].1 == x); assert(is_end(arc_seq(*graph), arc_seq(*graph)[i].0)); assert(is_end(arc_seq(*graph), arc_seq(*graph)[i].1));
        }
        assert forall|x: Vertex| #[trigger] vx_res.vs().contains(x) <==> self.vs().contains(x) || shifted(*graph, offset as int, x) by { assert(g3.vs().contains(x) <==> self.vs().contains(x) || shifted(*graph, offset as int, x)); assert(is_end(t, x) ==> shifted(*graph, offset as int, x)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] vx_res.arc(x, y) == (self.arc(x, y) || shifted_arc(*graph, offset as int, x, y)) by { assert(g3.arc(x, y) == self.arc(x, y)); assert(t.contains((x, y)) <==> shifted_arc(*graph, offset as int, x, y)); }
        assert(is_dunion(*self, *graph, offset as int, vx_res));
    }
//@ end
//@ fn editdigraph.rs impl:EditDigraph normalize
//@ requires self.wf()
//@ ensures r.0.wf(), is_index(self.vs(), r.1@), r.0.vs() == r.1@.dom(), arc_copy(*self, r.0, r.1@)
//@ subst ** v => * v
//@ unchain id2vex
//@ unchain vex2id
//@ closure 1 |vxp1: (usize, &Vertex)| -> (y: (Vertex, Vertex)) ensures y == (vxp1.0 as u32, *vxp1.1)
//@ closure 2 |vxp2: (&Vertex, &Vertex)| -> (y: (Vertex, Vertex)) ensures y == (*vxp2.1, *vxp2.0)
//@ hint start
    proof { self.lemma_wf(); self.lemma_dwf(); lemma_arc_seq(*self); }
//@ hint after let id2vex 1
    proof { assert(lists(order@, self.vs())); lemma_index_map(order@, id2vex_3.seq(), id2vex@); }
//@ hint after let vex2id 1
    let ghost m = id2vex@; let ghost w = vex2id@; let ghost o = order@;
    proof { lemma_index_inv(o, m, id2vex.order(), vex2id_2.seq(), w); lemma_is_index(o, self.vs(), m, w);
        reveal(idx_vs); reveal(idx_as); lemma_pre_ends(self.vseq()); assert(idx_vs(o, res, Set::empty())); assert(idx_as(o, res, Set::empty())); }
//@ loop 1
    res.wf(), index_tables(o, m, w), w == vex2id@, lists(o, self.vs()), it1_s == self.vseq(), lists(it1_s, self.vs()),
    idx_vs(o, res, pre(it1_s, it1.pos())), idx_as(o, res, Set::empty()),
//@ hint loop1.start
    proof { lemma_idx_dom(o, m, w, self.vs(), *u, *u); }
    let ghost g0 = res; let ghost uu = *u;
//@ hint loop1.end
    proof { assert(res.vs() == g0.vs().insert(w[uu])); lemma_idx_vs(o, m, w, g0, res, pre(it1_s, (it1.pos() - 1) as nat), uu); assert(idx_as(o, res, Set::empty())) by { reveal(idx_as); } }
//@ hint loop1.after
    proof { lemma_idx_vs_end(o, m, w, res, self.vs(), it1_s); lemma_pre_ends(arc_seq(*self)); }
//@ loop 2
    res.wf(), index_tables(o, m, w), w == vex2id@, lists(o, self.vs()), lists_arcs(*self, it2_s), self.wf(), res.vs() == m.dom(),
    idx_as(o, res, pre(it2_s, it2.pos())),
//@ hint loop2.start
    let ghost g0 = res;
    proof { lemma_arc_ends(*self, it2_s, u, v); lemma_idx_dom(o, m, w, self.vs(), u, v); }
//@ hint loop2.end
    proof { lemma_idx_as(o, m, w, g0, res, pre(it2_s, (it2.pos() - 1) as nat), u, v); assert(res.vs() =~= m.dom()); }
//@ hint end
    proof { lemma_idx_as_end(o, m, w, *self, vx_res.0, arc_seq(*self)); }
//@ end
//@ fn editdigraph.rs impl:EditDigraph disj_unions
//@ subst disj_union(graph) => disj_union(&graph)
//@ requires it.src_ok(), dunions_ok(it.src())
//@ ensures r.wf(), is_dunions(it.src(), r)
//@ hint start
    proof { assert(it.src().take(it.src().len() as int) =~= it.src()); }
//@ loop 1
    dunions_ok(it1_s), res.wf(), is_dunions(it1_s.take(it1.pos() as int), res),
//@ hint loop1.start
    let ghost k = (it1.pos() - 1) as int; let ghost r0 = res; let ghost gg = graph;
    proof { assert(graph == it1_s[k]); assert(it1_s.take(k + 1).drop_last() =~= it1_s.take(k)); assert(dshiftable(res, it1_s[k])); }
//@ hint loop1.end
    proof { let o = choose|o: int| 0 <= o <= u32::MAX && #[trigger] is_dunion(r0, gg, o, res); let t = it1_s.take(k + 1); assert(t.last() == gg); assert(r0.wf() && is_dunions(t.drop_last(), r0) && is_dunion(r0, t.last(), o, res)); assert(is_dunions(t, res)); }
//@ end
}
} // verus!
