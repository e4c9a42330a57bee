verus! {
//@ props C09
// ===================================================================== operations on graphs
// ---------------------------------------------------------------- products
/// the tables of a product: map and inv are inverse to each other, and inv is defined on 0..n-1
#[verifier::opaque]
pub open spec fn paired(m: Map<(Vertex, Vertex), Vertex>, inv: Map<Vertex, (Vertex, Vertex)>, n: nat) -> bool {
    &&& forall|i: Vertex| #[trigger] inv.dom().contains(i) <==> i < n
    &&& forall|p: (Vertex, Vertex)| #[trigger] m.dom().contains(p) ==> inv.dom().contains(m[p]) && inv[m[p]] == p
    &&& forall|i: Vertex| #[trigger] inv.dom().contains(i) ==> m.dom().contains(inv[i]) && m[inv[i]] == i
    &&& m.dom().len() == n
}
pub proof fn lemma_paired_add(m: Map<(Vertex, Vertex), Vertex>, inv: Map<Vertex, (Vertex, Vertex)>, n: nat, p: (Vertex, Vertex))
    requires paired(m, inv, n), !m.dom().contains(p), n <= u32::MAX
    ensures paired(m.insert(p, n as u32), inv.insert(n as u32, p), n + 1)
{ reveal(paired); let i = n as u32; assert(!inv.dom().contains(i)); assert(m.insert(p, i).dom() =~= m.dom().insert(p)); }
/// the keys of m are 0..n-1
pub open spec fn upto(m: Map<Vertex, (Vertex, Vertex)>, n: nat) -> bool { forall|i: Vertex| #[trigger] m.dom().contains(i) <==> i < n }
/// inv maps the ids 0..n-1 one to one onto the pairs of a and b
pub open spec fn is_pairing(a: Set<Vertex>, b: Set<Vertex>, inv: Map<Vertex, (Vertex, Vertex)>) -> bool {
    &&& exists|n: nat| #[trigger] upto(inv, n)
    &&& forall|i: Vertex| #[trigger] inv.dom().contains(i) ==> a.contains(inv[i].0) && b.contains(inv[i].1)
    &&& forall|u: Vertex, v: Vertex| #[trigger] a.contains(u) && #[trigger] b.contains(v) ==> exists|i: Vertex| #[trigger] inv.dom().contains(i) && inv[i] == (u, v)
    &&& forall|i: Vertex, j: Vertex| #[trigger] inv.dom().contains(i) && #[trigger] inv.dom().contains(j) && inv[i] == inv[j] ==> i == j
}
#[verifier::opaque]
pub open spec fn covers(m: Map<(Vertex, Vertex), Vertex>, a: Set<Vertex>, b: Set<Vertex>) -> bool { forall|u: Vertex, v: Vertex| #[trigger] m.dom().contains((u, v)) <==> a.contains(u) && b.contains(v) }
pub proof fn lemma_pairing(m: Map<(Vertex, Vertex), Vertex>, inv: Map<Vertex, (Vertex, Vertex)>, n: nat, a: Set<Vertex>, b: Set<Vertex>)
    requires paired(m, inv, n), covers(m, a, b)
    ensures is_pairing(a, b, inv)
{
    reveal(paired); reveal(covers); assert(upto(inv, n));
    assert forall|i: Vertex| #[trigger] inv.dom().contains(i) implies a.contains(inv[i].0) && b.contains(inv[i].1) by { assert(m.dom().contains((inv[i].0, inv[i].1))); }
    assert forall|u: Vertex, v: Vertex| #[trigger] a.contains(u) && #[trigger] b.contains(v) implies exists|i: Vertex| #[trigger] inv.dom().contains(i) && inv[i] == (u, v) by { assert(m.dom().contains((u, v))); assert(inv.dom().contains(m[(u, v)])); }
}
/// r is g plus edges from x to s
#[verifier::opaque]
pub open spec fn joined<R: Graph>(g: R, r: R, x: Vertex, s: Set<Vertex>) -> bool {
    r.vs() == g.vs() && forall|a: Vertex, b: Vertex| #[trigger] r.adj(a, b) == (g.adj(a, b) || (a == x && s.contains(b)) || (b == x && s.contains(a)))
}
pub proof fn lemma_joined_none<R: Graph>(g: R, x: Vertex)
    ensures joined(g, g, x, Set::empty())
{ reveal(joined); }
pub proof fn lemma_joined_add<R: Graph>(g: R, r: R, q: R, x: Vertex, s: Set<Vertex>, y: Vertex)
    requires joined(g, r, x, s), g.vs().contains(x), g.vs().contains(y), q.vs() == r.vs().insert(x).insert(y), forall|a: Vertex, b: Vertex| #[trigger] q.adj(a, b) == (r.adj(a, b) || (a == x && b == y) || (a == y && b == x))
    ensures joined(g, q, x, s.insert(y))
{ reveal(joined); assert(q.vs() =~= g.vs());
    assert forall|a: Vertex, b: Vertex| #[trigger] q.adj(a, b) == (g.adj(a, b) || (a == x && s.insert(y).contains(b)) || (b == x && s.insert(y).contains(a))) by { assert(r.adj(a, b) == (g.adj(a, b) || (a == x && s.contains(b)) || (b == x && s.contains(a)))); } }
pub proof fn lemma_joined_trans<R: Graph>(g: R, r: R, q: R, x: Vertex, s: Set<Vertex>, t: Set<Vertex>)
    requires joined(g, r, x, s), joined(r, q, x, t)
    ensures joined(g, q, x, s.union(t))
{ reveal(joined);
    assert forall|a: Vertex, b: Vertex| #[trigger] q.adj(a, b) == (g.adj(a, b) || (a == x && s.union(t).contains(b)) || (b == x && s.union(t).contains(a))) by { assert(r.adj(a, b) == (g.adj(a, b) || (a == x && s.contains(b)) || (b == x && s.contains(a)))); assert(q.adj(a, b) == (r.adj(a, b) || (a == x && t.contains(b)) || (b == x && t.contains(a)))); } }
/// the ids of the pairs with first entry in p and second entry in q
pub open spec fn cell(inv: Map<Vertex, (Vertex, Vertex)>, p: Set<Vertex>, q: Set<Vertex>) -> Set<Vertex> { inv.dom().filter(|i: Vertex| p.contains(inv[i].0) && q.contains(inv[i].1)) }
pub proof fn lemma_cell(m: Map<(Vertex, Vertex), Vertex>, inv: Map<Vertex, (Vertex, Vertex)>, n: nat, a: Set<Vertex>, b: Set<Vertex>, p: Set<Vertex>, q: Set<Vertex>, u: Vertex, v: Vertex)
    requires paired(m, inv, n), covers(m, a, b), a.contains(u), b.contains(v)
    ensures m.dom().contains((u, v)), inv.dom().contains(m[(u, v)]),
        cell(inv, p.insert(u), set![v]) == cell(inv, p, set![v]).insert(m[(u, v)]), cell(inv, set![u], q.insert(v)) == cell(inv, set![u], q).insert(m[(u, v)]),
        cell(inv, a, q.insert(v)) == cell(inv, a, q).union(cell(inv, a, set![v])), cell(inv, Set::empty(), q) == Set::<Vertex>::empty(), cell(inv, p, Set::empty()) == Set::<Vertex>::empty(),
{
    reveal(paired); reveal(covers); assert(m.dom().contains((u, v))); let k = m[(u, v)];
    assert forall|i: Vertex| #[trigger] inv.dom().contains(i) && inv[i] == (u, v) implies i == k by {}
    assert(cell(inv, p.insert(u), set![v]) =~= cell(inv, p, set![v]).insert(k));
    assert(cell(inv, set![u], q.insert(v)) =~= cell(inv, set![u], q).insert(k));
    assert(cell(inv, a, q.insert(v)) =~= cell(inv, a, q).union(cell(inv, a, set![v])));
    assert(cell(inv, Set::empty(), q) =~= Set::<Vertex>::empty()); assert(cell(inv, p, Set::empty()) =~= Set::<Vertex>::empty());
}
/// the product relation e is realised for the pairs in p
#[verifier::opaque]
pub open spec fn prod_upto<R: Graph>(r: R, inv: Map<Vertex, (Vertex, Vertex)>, e: spec_fn((Vertex, Vertex), (Vertex, Vertex)) -> bool, p: Set<(Vertex, Vertex)>) -> bool {
    r.vs() == inv.dom() && forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) <==> inv.dom().contains(x) && inv.dom().contains(y) && e(inv[x], inv[y]) && (p.contains(inv[x]) || p.contains(inv[y]))
}
pub proof fn lemma_prod_step<R: Graph>(g: R, r: R, m: Map<(Vertex, Vertex), Vertex>, inv: Map<Vertex, (Vertex, Vertex)>, n: nat, e: spec_fn((Vertex, Vertex), (Vertex, Vertex)) -> bool, p: Set<(Vertex, Vertex)>, k: (Vertex, Vertex), s: Set<Vertex>)
    requires paired(m, inv, n), m.dom().contains(k), prod_upto(g, inv, e, p), joined(g, r, m[k], s), forall|a: (Vertex, Vertex), b: (Vertex, Vertex)| #[trigger] e(a, b) == e(b, a),
        forall|y: Vertex| #[trigger] s.contains(y) <==> inv.dom().contains(y) && e(k, inv[y]),
    ensures prod_upto(r, inv, e, p.insert(k))
{
    reveal(paired); reveal(joined); reveal(prod_upto); let q = p.insert(k); let z = m[k];
    assert forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) <==> inv.dom().contains(x) && inv.dom().contains(y) && e(inv[x], inv[y]) && (q.contains(inv[x]) || q.contains(inv[y])) by {
        assert(r.adj(x, y) == (g.adj(x, y) || (x == z && s.contains(y)) || (y == z && s.contains(x))));
        assert(g.adj(x, y) <==> inv.dom().contains(x) && inv.dom().contains(y) && e(inv[x], inv[y]) && (p.contains(inv[x]) || p.contains(inv[y])));
        assert(inv.dom().contains(z) && inv[z] == k); assert(inv.dom().contains(x) && inv[x] == k ==> x == z); assert(inv.dom().contains(y) && inv[y] == k ==> y == z);
        assert(e(inv[x], inv[y]) == e(inv[y], inv[x]));
    }
}
pub open spec fn is_product<R: Graph>(r: R, inv: Map<Vertex, (Vertex, Vertex)>, e: spec_fn((Vertex, Vertex), (Vertex, Vertex)) -> bool) -> bool {
    r.vs() == inv.dom() && forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) <==> inv.dom().contains(x) && inv.dom().contains(y) && e(inv[x], inv[y])
}
pub proof fn lemma_prod_ends<R: Graph>(r: R, m: Map<(Vertex, Vertex), Vertex>, inv: Map<Vertex, (Vertex, Vertex)>, n: nat, e: spec_fn((Vertex, Vertex), (Vertex, Vertex)) -> bool)
    requires paired(m, inv, n)
    ensures r.vs() == inv.dom() && (forall|x: Vertex, y: Vertex| !#[trigger] r.adj(x, y)) ==> prod_upto(r, inv, e, Set::empty()),
        prod_upto(r, inv, e, m.dom()) ==> is_product(r, inv, e), 
{ reveal(paired); reveal(prod_upto); }
pub open spec fn lex<G: Graph>(g: G, h: G) -> spec_fn((Vertex, Vertex), (Vertex, Vertex)) -> bool { |a: (Vertex, Vertex), b: (Vertex, Vertex)| (g.adj(a.0, b.0) && a.1 == b.1) || h.adj(a.1, b.1) }
pub open spec fn cart<G: Graph>(g: G, h: G) -> spec_fn((Vertex, Vertex), (Vertex, Vertex)) -> bool { |a: (Vertex, Vertex), b: (Vertex, Vertex)| (g.adj(a.0, b.0) && a.1 == b.1) || (h.adj(a.1, b.1) && a.0 == b.0) }
pub proof fn lemma_rel_sym<G: Graph>(g: G, h: G)
    requires g.wf(), h.wf()
    ensures forall|a: (Vertex, Vertex), b: (Vertex, Vertex)| #[trigger] lex(g, h)(a, b) == lex(g, h)(b, a), forall|a: (Vertex, Vertex), b: (Vertex, Vertex)| #[trigger] cart(g, h)(a, b) == cart(g, h)(b, a)
{
    g.lemma_wf(); h.lemma_wf();
    assert forall|a: (Vertex, Vertex), b: (Vertex, Vertex)| #[trigger] lex(g, h)(a, b) == lex(g, h)(b, a) by { assert(g.adj(a.0, b.0) ==> g.adj(b.0, a.0)); assert(g.adj(b.0, a.0) ==> g.adj(a.0, b.0)); assert(h.adj(a.1, b.1) ==> h.adj(b.1, a.1)); assert(h.adj(b.1, a.1) ==> h.adj(a.1, b.1)); }
    assert forall|a: (Vertex, Vertex), b: (Vertex, Vertex)| #[trigger] cart(g, h)(a, b) == cart(g, h)(b, a) by { assert(g.adj(a.0, b.0) ==> g.adj(b.0, a.0)); assert(g.adj(b.0, a.0) ==> g.adj(a.0, b.0)); assert(h.adj(a.1, b.1) ==> h.adj(b.1, a.1)); assert(h.adj(b.1, a.1) ==> h.adj(a.1, b.1)); }
}
// ---------------------------------------------------------------- subdivision
/// the j-th vertex of the path that replaces edge k of s: fresh ids start at base, t per edge
pub open spec fn sub_pt(s: Seq<(Vertex, Vertex)>, base: int, t: int, k: int, j: int) -> int { if j <= 0 { s[k].0 as int } else if j > t { s[k].1 as int } else { base + k * t + (j - 1) } }
pub open spec fn sub_step(s: Seq<(Vertex, Vertex)>, base: int, t: int, k: int, j: int, x: Vertex, y: Vertex) -> bool {
    (x as int == sub_pt(s, base, t, k, j) && y as int == sub_pt(s, base, t, k, j + 1)) || (y as int == sub_pt(s, base, t, k, j) && x as int == sub_pt(s, base, t, k, j + 1))
}
/// {x, y} is one of the first b steps of the path of edge k
#[verifier::opaque]
pub open spec fn sub_path(s: Seq<(Vertex, Vertex)>, base: int, t: int, k: int, b: int, x: Vertex, y: Vertex) -> bool { exists|j: int| 0 <= j < b && #[trigger] sub_step(s, base, t, k, j, x, y) }
/// {x, y} is a step of the path of one of the first n edges
#[verifier::opaque]
pub open spec fn sub_adj(s: Seq<(Vertex, Vertex)>, base: int, t: int, n: int, x: Vertex, y: Vertex) -> bool { exists|k: int| 0 <= k < n && #[trigger] sub_path(s, base, t, k, t + 1, x, y) }
pub proof fn lemma_sub(s: Seq<(Vertex, Vertex)>, base: int, t: int)
    ensures forall|k: int, x: Vertex, y: Vertex| !#[trigger] sub_path(s, base, t, k, 0, x, y), forall|x: Vertex, y: Vertex| !#[trigger] sub_adj(s, base, t, 0, x, y),
        forall|k: int, b: int, x: Vertex, y: Vertex| 0 <= b ==> #[trigger] sub_path(s, base, t, k, b + 1, x, y) == (sub_path(s, base, t, k, b, x, y) || sub_step(s, base, t, k, b, x, y)),
        forall|n: int, x: Vertex, y: Vertex| 0 <= n ==> #[trigger] sub_adj(s, base, t, n + 1, x, y) == (sub_adj(s, base, t, n, x, y) || sub_path(s, base, t, n, t + 1, x, y)),
{
    reveal(sub_path); reveal(sub_adj);
    assert forall|k: int, b: int, x: Vertex, y: Vertex| 0 <= b implies #[trigger] sub_path(s, base, t, k, b + 1, x, y) == (sub_path(s, base, t, k, b, x, y) || sub_step(s, base, t, k, b, x, y)) by {
        if sub_path(s, base, t, k, b, x, y) { let j = choose|j: int| 0 <= j < b && #[trigger] sub_step(s, base, t, k, j, x, y); assert(0 <= j < b + 1); } }
    assert forall|n: int, x: Vertex, y: Vertex| 0 <= n implies #[trigger] sub_adj(s, base, t, n + 1, x, y) == (sub_adj(s, base, t, n, x, y) || sub_path(s, base, t, n, t + 1, x, y)) by {
        if sub_adj(s, base, t, n, x, y) { let k = choose|k: int| 0 <= k < n && #[trigger] sub_path(s, base, t, k, t + 1, x, y); assert(0 <= k < n + 1); } }
}
/// r arises from g by replacing every edge by a path with t inner vertices of its own, numbered from base
pub open spec fn is_subdivision<G: Graph, R: Graph>(g: G, r: R, t: int, base: int) -> bool {
    &&& forall|v: Vertex| #[trigger] g.vs().contains(v) ==> v < base
    &&& forall|v: Vertex| #[trigger] r.vs().contains(v) <==> g.vs().contains(v) || base <= v < base + edge_seq(g).len() * t
    &&& forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) <==> sub_adj(edge_seq(g), base, t, edge_seq(g).len() as int, x, y)
}
pub trait GraphOperations : Graph + Sized {
//@ fn operations.rs impl:GraphOperations:G merge
//@ rename G Self
//@ requires self.wf(), other.wf(), edge_seq(*self).len() <= u32::MAX, edge_seq(*other).len() <= u32::MAX
//@ ensures r.wf(), r.vs() == self.vs().union(other.vs()), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (self.adj(x, y) || other.adj(x, y))
//@ hint start
    proof { self.lemma_wf(); other.lemma_wf(); lemma_edges_of(*self); lemma_edges_of(*other); }
//@ hint after call add_vertices 2
    let ghost g1 = res;
    proof { assert(g1.vs() =~= self.vs().union(other.vs())); }
//@ hint after call add_edges 1
    let ghost g2 = res;
    proof { assert forall|x: Vertex| #[trigger] g2.vs().contains(x) == g1.vs().contains(x) by { assert(is_end(edge_seq(*self), x) ==> self.vs().contains(x)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] g2.adj(x, y) == self.adj(x, y) by { assert(!g1.adj(x, y)); assert(in_edges(edge_seq(*self), x, y) <==> self.adj(x, y)); } }
//@ hint end
    proof { assert forall|x: Vertex| #[trigger] vx_res.vs().contains(x) == g2.vs().contains(x) by { assert(is_end(edge_seq(*other), x) ==> other.vs().contains(x)); }
        assert(vx_res.vs() =~= self.vs().union(other.vs()));
        assert forall|x: Vertex, y: Vertex| #[trigger] vx_res.adj(x, y) == (self.adj(x, y) || other.adj(x, y)) by { assert(g2.adj(x, y) == self.adj(x, y)); assert(in_edges(edge_seq(*other), x, y) <==> other.adj(x, y)); } }
//@ end
//@ fn operations.rs impl:GraphOperations:G intersect
//@ rename G Self
//@ requires self.wf(), other.wf(), edge_seq(*self).len() <= u32::MAX
//@ ensures r.wf(), r.vs() == self.vs().intersect(other.vs()), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (self.adj(x, y) && other.adj(x, y))
//@ lift add_vertices
//@ lift add_edges
//@ closure 1 |u: &&Vertex| -> (b: bool) requires other.wf() ensures b == other.vs().contains(**u)
//@ closure 2 |vxp1: &(Vertex, Vertex)| -> (b: bool) requires other.wf() ensures b == other.adj(vxp1.0, vxp1.1)
//@ hint start
    proof { self.lemma_wf(); other.lemma_wf(); lemma_edges_of(*self); }
//@ hint after call add_vertices 1
    let ghost g1 = res;
    proof { let s = self.vseq(); let t = add_vertices_a1.seq();
        assert forall|x: Vertex| #[trigger] g1.vs().contains(x) <==> self.vs().contains(x) && other.vs().contains(x) by {
            assert(t.to_set().contains(x) == t.contains(x));
            if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; assert(s.contains(t[i])); }
            if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t.contains(s[i]) || !other.vs().contains(x)); }
        }
        assert(g1.vs() =~= self.vs().intersect(other.vs())); }
//@ hint end
    proof { let s = edge_seq(*self); let t = add_edges_a1.seq();
        assert forall|x: Vertex, y: Vertex| #[trigger] t.contains((x, y)) <==> s.contains((x, y)) && other.adj(x, y) by {
            if t.contains((x, y)) { let i = choose|i: int| 0 <= i < t.len() && t[i] == (x, y); assert(s.contains(t[i])); }
            if s.contains((x, y)) { let i = choose|i: int| 0 <= i < s.len() && s[i] == (x, y); assert(t.contains(s[i]) || !other.adj(x, y)); }
        }
        assert forall|x: Vertex| #[trigger] is_end(t, x) implies g1.vs().contains(x) by {
            let i = choose|i: int| 0 <= i < t.len() && ((#[trigger] t[i]).0 == x || t[i].1 == x); let (p, q) = t[i]; assert(t.contains((p, q))); assert(self.adj(p, q) && other.adj(p, q)); }
        assert(vx_res.vs() =~= self.vs().intersect(other.vs()));
        assert forall|x: Vertex, y: Vertex| #[trigger] vx_res.adj(x, y) == (self.adj(x, y) && other.adj(x, y)) by { assert(!g1.adj(x, y)); assert(in_edges(s, x, y) <==> self.adj(x, y)); assert(in_edges(t, x, y) == (s.contains((x, y)) && other.adj(x, y) || s.contains((y, x)) && other.adj(y, x))); assert(other.adj(x, y) == other.adj(y, x)) by { assert(other.adj(x, y) ==> other.adj(y, x)); assert(other.adj(y, x) ==> other.adj(x, y)); } } }
//@ end
//@ fn operations.rs impl:GraphOperations:G invert
//@ rename G Self
//@ requires self.wf()
//@ ensures r.wf(), r.vs() == self.vs(), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (x != y && self.vs().contains(x) && self.vs().contains(y) && !self.adj(x, y))
//@ hint start
    proof { self.lemma_wf(); }
//@ hint loop1.before
    proof { assert(res.vs() =~= self.vs()); }
//@ loop 1
    self.wf(), res.wf(), res.vs() == self.vs(), all_pairs(self.vseq(), it1_s), lists(self.vseq(), self.vs()),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) ==> x != y && self.vs().contains(x) && self.vs().contains(y) && !self.adj(x, y),
    forall|k: int| 0 <= k < it1.pos() ==> self.adj(*(#[trigger] it1_s[k])@[0], *it1_s[k]@[1]) || res.adj(*it1_s[k]@[0], *it1_s[k]@[1]),
//@ hint loop1.start
    let ghost g0 = res;
    proof { self.lemma_wf(); }
//@ hint loop1.end
    proof {
        self.lemma_wf(); let a = *u; let b = *v;
        assert(res.vs() =~= self.vs());
        assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) implies x != y && self.vs().contains(x) && self.vs().contains(y) && !self.adj(x, y) by {
            if !g0.adj(x, y) { assert(self.adj(x, y) ==> self.adj(y, x)); } }
        assert forall|k: int| 0 <= k < it1.pos() implies self.adj(*(#[trigger] it1_s[k])@[0], *it1_s[k]@[1]) || res.adj(*it1_s[k]@[0], *it1_s[k]@[1]) by {
            if k < it1.pos() - 1 { assert(self.adj(*it1_s[k]@[0], *it1_s[k]@[1]) || g0.adj(*it1_s[k]@[0], *it1_s[k]@[1])); } }
    }
//@ hint end
    proof {
        self.lemma_wf(); vx_res.lemma_wf();
        assert forall|x: Vertex, y: Vertex| x != y && self.vs().contains(x) && self.vs().contains(y) && !self.adj(x, y) implies #[trigger] vx_res.adj(x, y) by {
            let s = self.vseq(); assert(s.contains(x) && s.contains(y));
            let i = choose|i: int| 0 <= i < s.len() && s[i] == x; let j = choose|j: int| 0 <= j < s.len() && s[j] == y;
            assert(self.adj(y, x) ==> self.adj(x, y)); assert(vx_res.adj(y, x) ==> vx_res.adj(x, y));
            if i < j { assert(0 <= i < j < s.len() && s[i] == x && s[j] == y); } else { assert(0 <= j < i < s.len() && s[i] == x && s[j] == y); }
        }
    }
//@ end
//@ fn operations.rs impl:GraphOperations:G subdivide
//@ rename G Self
//@ requires self.wf(), self.vs().len() + self.esize() <= usize::MAX, forall|v: Vertex| #[trigger] self.vs().contains(v) ==> v + 1 + edge_seq(*self).len() * times <= u32::MAX
//@ ensures r.wf(), exists|base: int| #[trigger] is_subdivision(*self, r, times as int, base)
//@ hint start
    proof { self.lemma_wf(); lemma_edges_of(*self); }
//@ loop 1
    self.wf(), it1_s == self.vseq(), res.wf(), forall|v: Vertex| #[trigger] res.vs().contains(v) <==> pre(it1_s, it1.pos()).contains(v), forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y),
    forall|v: Vertex| #[trigger] pre(it1_s, it1.pos()).contains(v) ==> v <= max_id, max_id == 0 || self.vs().contains(max_id),
//@ hint loop1.after
    let ghost base = max_id + 1; let ghost ss = edge_seq(*self); let ghost t = times as int;
    proof { assert forall|v: Vertex| #[trigger] self.vs().contains(v) implies v < base by { assert(it1_s.to_set().contains(v) == it1_s.contains(v)); } assert(res.vs() =~= self.vs()) by { assert forall|v: Vertex| #[trigger] res.vs().contains(v) == self.vs().contains(v) by { assert(it1_s.to_set().contains(v) == it1_s.contains(v)); } } lemma_sub(ss, base, t); assert(ss.len() > 0 ==> self.vs().contains(ss[0].0)) by { if ss.len() > 0 { assert(ss.contains(ss[0])); assert(ss.contains((ss[0].0, ss[0].1))); } } }
//@ loop 2
    self.wf(), it2_s == ss, ss == edge_seq(*self), t == times, forall|v: Vertex| #[trigger] self.vs().contains(v) ==> v < base, 1 <= base, lists_edges(*self, ss), ss.len() > 0 ==> base + ss.len() * t <= u32::MAX, free_id == base + it2.pos() * t, res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> self.vs().contains(x) || base <= x < free_id, forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == sub_adj(ss, base, t, it2.pos() as int, x, y),
//@ hint loop2.start
    let ghost k = it2.pos() - 1; let ghost g0 = res;
    proof { self.lemma_wf(); assert(ss[k] == (u, v)); assert(ss.contains((u, v))); assert(self.adj(u, v)); lemma_sub(ss, base, t); assert((k + 1) * t == k * t + t) by (nonlinear_arith); assert((k + 1) * t <= ss.len() * t) by (nonlinear_arith) requires k + 1 <= ss.len(), t >= 0; }
//@ loop 3
    g0.vs().contains(u), 0 <= k < ss.len(), ss[k] == (u, v), u < base, v < base, 1 <= base, t == times, free_id == base + k * t, 0 <= k * t, res.wf(), self.wf(), forall|v: Vertex| #[trigger] self.vs().contains(v) ==> v < base, free_id >= base, it3_s.len() == t, forall|i: int| 0 <= i < t ==> #[trigger] it3_s[i] == free_id + i, last as int == sub_pt(ss, base, t, k, it3.pos() as int),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> g0.vs().contains(x) || free_id <= x < free_id + it3.pos(),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (g0.adj(x, y) || sub_path(ss, base, t, k, it3.pos() as int, x, y)),
//@ hint loop3.start
    let ghost g1 = res; let ghost i = it3.pos() - 1; let ghost last0 = last;
    proof { lemma_sub(ss, base, t); assert(s == free_id + i); }
//@ hint loop3.end
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (g0.adj(x, y) || sub_path(ss, base, t, k, i + 1, x, y)) by { assert(g1.adj(x, y) == (g0.adj(x, y) || sub_path(ss, base, t, k, i, x, y))); assert(sub_path(ss, base, t, k, i + 1, x, y) == (sub_path(ss, base, t, k, i, x, y) || sub_step(ss, base, t, k, i, x, y))); } }
//@ hint loop2.end
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == sub_adj(ss, base, t, it2.pos() as int, x, y) by { assert(sub_path(ss, base, t, k, t + 1, x, y) == (sub_path(ss, base, t, k, t, x, y) || sub_step(ss, base, t, k, t, x, y))); } }
//@ hint end
    proof { assert(is_subdivision(*self, vx_res, times as int, base)); }
//@ end
//@ fn operations.rs impl:GraphOperations:G lexicographic_product
//@ rename G Self
//@ requires self.wf(), other.wf(), self.vs().len() * other.esize() <= usize::MAX
//@ ensures r.0.wf(), is_pairing(self.vs(), other.vs(), r.1@), is_product(r.0, r.1@, lex(*self, *other))
//@ hint start
    proof { self.lemma_wf(); other.lemma_wf(); }
//@ hint loop1.before
    proof { reveal(paired); assert(paired(map@, inverse@, 0)); }
//@ loop 1
    self.wf(), other.wf(), it1_s == self.vseq(), lists(it1_s, self.vs()), res.wf(), free_id == map@.dom().len(), paired(map@, inverse@, free_id as nat), res.vs() == inverse@.dom(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y), forall|a: Vertex, b: Vertex| #[trigger] map@.dom().contains((a, b)) <==> pre(it1_s, it1.pos()).contains(a) && other.vs().contains(b),
//@ hint loop1.start
    let ghost p0 = pre(it1_s, (it1.pos() - 1) as nat); let ghost uu = *u;
//@ loop 2
    self.wf(), other.wf(), uu == *u, !p0.contains(uu), lists(it2_s, other.vs()), res.wf(), free_id == map@.dom().len(), paired(map@, inverse@, free_id as nat), res.vs() == inverse@.dom(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y), forall|a: Vertex, b: Vertex| #[trigger] map@.dom().contains((a, b)) <==> (p0.contains(a) && other.vs().contains(b)) || (a == uu && pre(it2_s, it2.pos()).contains(b)),
//@ hint loop2.start
    proof { assert(!map@.dom().contains((uu, *v))); lemma_paired_add(map@, inverse@, free_id as nat, (uu, *v)); }
    let ghost r0 = res; let ghost m0 = map@;
//@ hint loop2.end
    proof { assert(res.vs() =~= inverse@.dom()); assert(map@.dom() =~= m0.dom().insert((uu, *v))); }
//@ hint loop1.end
    proof { assert forall|a: Vertex, b: Vertex| #[trigger] map@.dom().contains((a, b)) <==> pre(it1_s, it1.pos()).contains(a) && other.vs().contains(b) by { assert(it2_s.to_set().contains(b) == it2_s.contains(b)); } }
//@ hint loop1.after
    let ghost mm = map@; let ghost inv = inverse@; let ghost n = free_id as nat; let ghost e = lex(*self, *other); let ghost ord = map.order(); let ghost A = self.vs(); let ghost B = other.vs();
    proof { reveal(covers); assert(covers(mm, A, B)) by { assert forall|u: Vertex, v: Vertex| #[trigger] mm.dom().contains((u, v)) <==> A.contains(u) && B.contains(v) by { assert(it1_s.to_set().contains(u) == it1_s.contains(u)); } } lemma_prod_ends(res, mm, inv, n, e); lemma_rel_sym(*self, *other); lemma_pairing(mm, inv, n, A, B); lemma_pre_ends(ord); }
//@ loop 3
    self.wf(), other.wf(), A == self.vs(), B == other.vs(), map@ == mm, map.order() == ord, lists(ord, mm.dom()), res.wf(), paired(mm, inv, n), covers(mm, A, B), e == lex(*self, *other), forall|a: (Vertex, Vertex), b: (Vertex, Vertex)| #[trigger] e(a, b) == e(b, a),
    it3_s.len() == ord.len(), forall|i: int| 0 <= i < ord.len() ==> #[trigger] it3_s[i] == (&ord[i], &mm[ord[i]]), prod_upto(res, inv, e, pre(ord, it3.pos())),
//@ hint loop3.start
    proof { self.lemma_wf(); other.lemma_wf(); lemma_pre(ord, (it3.pos() - 1) as nat); }
    let ghost k = ord[it3.pos() - 1]; let ghost z = *x; let ghost g0 = res;
    proof { assert(it3_s[it3.pos() - 1] == (&k, &mm[k])); assert(ord.contains(k)); reveal(covers); assert(mm.dom().contains((k.0, k.1))); lemma_cell(mm, inv, n, A, B, A, B, k.0, k.1); reveal(prod_upto); assert(g0.vs().contains(z)); lemma_joined_none(g0, z); assert(cell(inv, Set::empty(), set![k.1]) =~= Set::<Vertex>::empty()); assert(cell(inv, set![k.0], Set::empty()) =~= Set::<Vertex>::empty()); }
//@ loop 4
    self.wf(), map@ == mm, A == self.vs(), B == other.vs(), paired(mm, inv, n), covers(mm, A, B), *x == z, *v == k.1, B.contains(k.1), g0.vs() == inv.dom(), g0.vs().contains(z), forall|w: Vertex| #[trigger] it4_s.contains(w) <==> self.adj(k.0, w), res.wf(),
    joined(g0, res, z, cell(inv, pre(it4_s, it4.pos()), set![k.1])),
//@ hint loop4.start
    proof { self.lemma_wf(); assert(A.contains(*w)); lemma_cell(mm, inv, n, A, B, pre(it4_s, (it4.pos() - 1) as nat), B, *w, k.1); }
    let ghost g1 = res; let ghost ww = *w;
//@ hint loop4.end
    proof { lemma_joined_add(g0, g1, res, z, cell(inv, pre(it4_s, (it4.pos() - 1) as nat), set![k.1]), mm[(ww, k.1)]); }
//@ hint loop4.after
    let ghost g2 = res; let ghost s1 = cell(inv, it4_s.to_set(), set![k.1]);
    proof { lemma_joined_none(g2, z); lemma_cell(mm, inv, n, A, B, A, B, k.0, k.1); reveal(joined); assert(g2.vs() == inv.dom()); }
//@ loop 5
    self.wf(), other.wf(), map@ == mm, A == self.vs(), B == other.vs(), paired(mm, inv, n), covers(mm, A, B), *x == z, g2.vs() == inv.dom(), g2.vs().contains(z), forall|w: Vertex| #[trigger] it5_s.contains(w) <==> other.adj(k.1, w), res.wf(),
    joined(g2, res, z, cell(inv, A, pre(it5_s, it5.pos()))),
//@ hint loop5.start
    let ghost g3 = res; let ghost ww = *w; let ghost q0 = pre(it5_s, (it5.pos() - 1) as nat);
    proof { other.lemma_wf(); self.lemma_wf(); assert(B.contains(ww)); lemma_joined_none(g3, z); assert(A.len() > 0 ==> true); reveal(joined); assert(g3.vs() == inv.dom()); 
        assert(cell(inv, A, q0.insert(ww)) =~= cell(inv, A, q0).union(cell(inv, A, set![ww]))); assert(cell(inv, Set::empty(), set![ww]) =~= Set::<Vertex>::empty()); }
//@ loop 6
    self.wf(), map@ == mm, A == self.vs(), B == other.vs(), paired(mm, inv, n), covers(mm, A, B), *x == z, *w == ww, B.contains(ww), g3.vs() == inv.dom(), g3.vs().contains(z), lists(it6_s, A), res.wf(),
    joined(g3, res, z, cell(inv, pre(it6_s, it6.pos()), set![ww])),
//@ hint loop6.start
    let ghost g4 = res; let ghost u6 = *uu;
    proof { lemma_cell(mm, inv, n, A, B, pre(it6_s, (it6.pos() - 1) as nat), B, u6, ww); }
//@ hint loop6.end
    proof { lemma_joined_add(g3, g4, res, z, cell(inv, pre(it6_s, (it6.pos() - 1) as nat), set![ww]), mm[(u6, ww)]); }
//@ hint loop5.end
    proof { lemma_joined_trans(g2, g3, res, z, cell(inv, A, q0), cell(inv, A, set![ww])); }
//@ hint loop3.end
    proof {
        let s2 = cell(inv, A, it5_s.to_set()); let s = s1.union(s2); lemma_joined_trans(g0, g2, res, z, s1, s2);
        reveal(paired); reveal(covers);
        assert forall|y: Vertex| #[trigger] s.contains(y) <==> inv.dom().contains(y) && e(k, inv[y]) by {
            if inv.dom().contains(y) { assert(mm.dom().contains((inv[y].0, inv[y].1))); assert(it4_s.to_set().contains(inv[y].0) == it4_s.contains(inv[y].0)); assert(it5_s.to_set().contains(inv[y].1) == it5_s.contains(inv[y].1)); } }
        lemma_prod_step(g0, res, mm, inv, n, e, pre(ord, (it3.pos() - 1) as nat), k, s);
    }
//@ hint loop3.after
    proof { assert(pre(ord, ord.len()) =~= mm.dom()); lemma_prod_ends(res, mm, inv, n, e); }
//@ end
//@ fn operations.rs impl:GraphOperations:G cartesian_product
//@ rename G Self
//@ requires self.wf(), other.wf(), self.vs().len() * other.esize() <= usize::MAX
//@ ensures r.0.wf(), is_pairing(self.vs(), other.vs(), r.1@), is_product(r.0, r.1@, cart(*self, *other))
//@ hint start
    proof { self.lemma_wf(); other.lemma_wf(); }
//@ hint loop1.before
    proof { reveal(paired); assert(paired(map@, inverse@, 0)); }
//@ loop 1
    self.wf(), other.wf(), it1_s == self.vseq(), lists(it1_s, self.vs()), res.wf(), free_id == map@.dom().len(), paired(map@, inverse@, free_id as nat), res.vs() == inverse@.dom(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y), forall|a: Vertex, b: Vertex| #[trigger] map@.dom().contains((a, b)) <==> pre(it1_s, it1.pos()).contains(a) && other.vs().contains(b),
//@ hint loop1.start
    let ghost p0 = pre(it1_s, (it1.pos() - 1) as nat); let ghost uu = *u;
//@ loop 2
    self.wf(), other.wf(), uu == *u, !p0.contains(uu), lists(it2_s, other.vs()), res.wf(), free_id == map@.dom().len(), paired(map@, inverse@, free_id as nat), res.vs() == inverse@.dom(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y), forall|a: Vertex, b: Vertex| #[trigger] map@.dom().contains((a, b)) <==> (p0.contains(a) && other.vs().contains(b)) || (a == uu && pre(it2_s, it2.pos()).contains(b)),
//@ hint loop2.start
    proof { assert(!map@.dom().contains((uu, *v))); lemma_paired_add(map@, inverse@, free_id as nat, (uu, *v)); }
    let ghost r0 = res; let ghost m0 = map@;
//@ hint loop2.end
    proof { assert(res.vs() =~= inverse@.dom()); assert(map@.dom() =~= m0.dom().insert((uu, *v))); }
//@ hint loop1.end
    proof { assert forall|a: Vertex, b: Vertex| #[trigger] map@.dom().contains((a, b)) <==> pre(it1_s, it1.pos()).contains(a) && other.vs().contains(b) by { assert(it2_s.to_set().contains(b) == it2_s.contains(b)); } }
//@ hint loop1.after
    let ghost mm = map@; let ghost inv = inverse@; let ghost n = free_id as nat; let ghost e = cart(*self, *other); let ghost ord = map.order(); let ghost A = self.vs(); let ghost B = other.vs();
    proof { reveal(covers); assert(covers(mm, A, B)) by { assert forall|u: Vertex, v: Vertex| #[trigger] mm.dom().contains((u, v)) <==> A.contains(u) && B.contains(v) by { assert(it1_s.to_set().contains(u) == it1_s.contains(u)); } } lemma_prod_ends(res, mm, inv, n, e); lemma_rel_sym(*self, *other); lemma_pairing(mm, inv, n, A, B); lemma_pre_ends(ord); }
//@ loop 3
    self.wf(), other.wf(), A == self.vs(), B == other.vs(), map@ == mm, map.order() == ord, lists(ord, mm.dom()), res.wf(), paired(mm, inv, n), covers(mm, A, B), e == cart(*self, *other), forall|a: (Vertex, Vertex), b: (Vertex, Vertex)| #[trigger] e(a, b) == e(b, a),
    it3_s.len() == ord.len(), forall|i: int| 0 <= i < ord.len() ==> #[trigger] it3_s[i] == (&ord[i], &mm[ord[i]]), prod_upto(res, inv, e, pre(ord, it3.pos())),
//@ hint loop3.start
    proof { self.lemma_wf(); other.lemma_wf(); lemma_pre(ord, (it3.pos() - 1) as nat); }
    let ghost k = ord[it3.pos() - 1]; let ghost z = *x; let ghost g0 = res;
    proof { assert(it3_s[it3.pos() - 1] == (&k, &mm[k])); assert(ord.contains(k)); reveal(covers); assert(mm.dom().contains((k.0, k.1))); lemma_cell(mm, inv, n, A, B, A, B, k.0, k.1); reveal(prod_upto); assert(g0.vs().contains(z)); lemma_joined_none(g0, z); assert(cell(inv, Set::empty(), set![k.1]) =~= Set::<Vertex>::empty()); assert(cell(inv, set![k.0], Set::empty()) =~= Set::<Vertex>::empty()); }
//@ loop 4
    other.wf(), map@ == mm, A == self.vs(), B == other.vs(), paired(mm, inv, n), covers(mm, A, B), *x == z, *u == k.0, A.contains(k.0), g0.vs() == inv.dom(), g0.vs().contains(z), forall|w: Vertex| #[trigger] it4_s.contains(w) <==> other.adj(k.1, w), res.wf(),
    joined(g0, res, z, cell(inv, set![k.0], pre(it4_s, it4.pos()))),
//@ hint loop4.start
    proof { other.lemma_wf(); assert(B.contains(*w)); lemma_cell(mm, inv, n, A, B, A, pre(it4_s, (it4.pos() - 1) as nat), k.0, *w); }
    let ghost g1 = res; let ghost ww = *w;
//@ hint loop4.end
    proof { lemma_joined_add(g0, g1, res, z, cell(inv, set![k.0], pre(it4_s, (it4.pos() - 1) as nat)), mm[(k.0, ww)]); }
//@ hint loop4.after
    let ghost g2 = res; let ghost s1 = cell(inv, set![k.0], it4_s.to_set());
    proof { lemma_joined_none(g2, z); reveal(joined); assert(g2.vs() == inv.dom()); assert(cell(inv, Set::empty(), set![k.1]) =~= Set::<Vertex>::empty()); }
//@ loop 5
    self.wf(), map@ == mm, A == self.vs(), B == other.vs(), paired(mm, inv, n), covers(mm, A, B), *x == z, *v == k.1, B.contains(k.1), g2.vs() == inv.dom(), g2.vs().contains(z), forall|w: Vertex| #[trigger] it5_s.contains(w) <==> self.adj(k.0, w), res.wf(),
    joined(g2, res, z, cell(inv, pre(it5_s, it5.pos()), set![k.1])),
//@ hint loop5.start
    proof { self.lemma_wf(); assert(A.contains(*w)); lemma_cell(mm, inv, n, A, B, pre(it5_s, (it5.pos() - 1) as nat), B, *w, k.1); }
    let ghost g1 = res; let ghost ww = *w;
//@ hint loop5.end
    proof { lemma_joined_add(g2, g1, res, z, cell(inv, pre(it5_s, (it5.pos() - 1) as nat), set![k.1]), mm[(ww, k.1)]); }
//@ hint loop3.end
    proof {
        let s2 = cell(inv, it5_s.to_set(), set![k.1]); let s = s1.union(s2); lemma_joined_trans(g0, g2, res, z, s1, s2);
        assert forall|y: Vertex| #[trigger] s.contains(y) <==> inv.dom().contains(y) && e(k, inv[y]) by {
            if inv.dom().contains(y) { assert(it4_s.to_set().contains(inv[y].1) == it4_s.contains(inv[y].1)); assert(it5_s.to_set().contains(inv[y].0) == it5_s.contains(inv[y].0)); } }
        lemma_prod_step(g0, res, mm, inv, n, e, pre(ord, (it3.pos() - 1) as nat), k, s);
    }
//@ hint loop3.after
    proof { assert(pre(ord, ord.len()) =~= mm.dom()); lemma_prod_ends(res, mm, inv, n, e); }
//@ end
}
impl<G: Graph> GraphOperations for G { }
} // verus!
