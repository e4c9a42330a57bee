verus! {
//@ props C13
// ===================================================================== bipartiteness
//@ enum algorithms/graph.rs BipartiteWitness
pub type Cols = Map<Vertex, (bool, Vertex)>;
/// l and r partition the vertices and no edge joins two vertices of one side
pub open spec fn is_bipartition<G: Graph>(g: G, l: Set<Vertex>, r: Set<Vertex>) -> bool {
    (forall|x: Vertex| #[trigger] g.vs().contains(x) <==> l.contains(x) || r.contains(x)) && (forall|x: Vertex| !(#[trigger] l.contains(x) && r.contains(x)))
    && forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) ==> l.contains(x) == r.contains(y)
}
pub open spec fn cyc_next(c: Seq<Vertex>, i: int) -> Vertex { if i + 1 < c.len() { c[i + 1] } else { c[0] } }
/// c is a cycle of odd length in g
pub open spec fn is_odd_cycle<G: Graph>(g: G, c: Seq<Vertex>) -> bool {
    c.len() % 2 == 1 && c.no_duplicates() && (forall|i: int| 0 <= i < c.len() ==> g.vs().contains(#[trigger] c[i])) && forall|i: int| 0 <= i < c.len() ==> g.adj(#[trigger] c[i], cyc_next(c, i))
}
/// x carries the colour of its depth d[x] in the tree of parents rooted at t[x]
pub open spec fn node_ok<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, x: Vertex) -> bool {
    let p = c[x].1;
    g.vs().contains(x) && c.dom().contains(p) && c.dom().contains(t[x]) && c[x].0 == (d[x] % 2 == 0) && t[p] == t[x] && (p == x ==> d[x] == 0 && t[x] == x) && (p != x ==> d[x] == d[p] + 1 && g.adj(p, x))
}
#[verifier::opaque]
pub open spec fn forest<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>) -> bool { forall|x: Vertex| c.dom().contains(x) ==> #[trigger] node_ok(g, c, d, t, x) }
/// item (b, v, p): v is to get colour b because of its neighbour p, which lies in the tree rooted at u
pub open spec fn item_ok<G: Graph>(g: G, c: Cols, t: Map<Vertex, Vertex>, u: Vertex, it: (bool, Vertex, Vertex)) -> bool {
    if c.dom().contains(u) { c.dom().contains(it.2) && t[it.2] == u && c[it.2].0 != it.0 && g.adj(it.2, it.1) } else { it == (true, u, u) }
}
/// the edge xy is either coloured properly or waiting in q
pub open spec fn edge_done<G: Graph>(g: G, c: Cols, q: Seq<(bool, Vertex, Vertex)>, x: Vertex, y: Vertex) -> bool {
    c.dom().contains(x) && g.adj(x, y) ==> (c.dom().contains(y) && c[y].0 != c[x].0) || q.contains((!c[x].0, y, x))
}
/// all edges are done, those from v only if they lead to s
#[verifier::opaque]
pub open spec fn done_but<G: Graph>(g: G, c: Cols, q: Seq<(bool, Vertex, Vertex)>, v: Vertex, s: Set<Vertex>) -> bool { forall|x: Vertex, y: Vertex| (x == v && !s.contains(y)) || #[trigger] edge_done(g, c, q, x, y) }
#[verifier::opaque]
pub open spec fn all_done<G: Graph>(g: G, c: Cols, q: Seq<(bool, Vertex, Vertex)>) -> bool { forall|x: Vertex, y: Vertex| #[trigger] edge_done(g, c, q, x, y) }
#[verifier::opaque]
pub open spec fn queue_ok<G: Graph>(g: G, c: Cols, t: Map<Vertex, Vertex>, u: Vertex, q: Seq<(bool, Vertex, Vertex)>) -> bool { forall|i: int| 0 <= i < q.len() ==> item_ok(g, c, t, u, #[trigger] q[i]) }
/// the vertices coloured before the tree rooted at u
#[verifier::opaque]
pub open spec fn earlier<G: Graph>(g: G, c: Cols, t: Map<Vertex, Vertex>, u: Vertex, s: Set<Vertex>) -> bool {
    (forall|x: Vertex| #[trigger] s.contains(x) <==> c.dom().contains(x) && t[x] != u) && forall|x: Vertex, y: Vertex| s.contains(x) && #[trigger] g.adj(x, y) ==> s.contains(y)
}
/// every edge with a coloured end point is coloured properly
#[verifier::opaque]
pub open spec fn proper2<G: Graph>(g: G, c: Cols) -> bool { forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) && c.dom().contains(x) ==> c.dom().contains(y) && c[y].0 != c[x].0 }
pub open spec fn clash<G: Graph>(g: G, c: Cols, t: Map<Vertex, Vertex>, p: Vertex, v: Vertex) -> bool {
    c.dom().contains(p) && c.dom().contains(v) && c[p].0 == c[v].0 && g.adj(p, v) && t[p] == t[v]
}
pub proof fn lemma_round_start<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, u: Vertex)
    requires g.wf(), forest(g, c, d, t), proper2(g, c), !c.dom().contains(u)
    ensures earlier(g, c, t, u, c.dom()), queue_ok(g, c, t, u, seq![(true, u, u)]), all_done(g, c, seq![(true, u, u)])
{
    reveal(forest); reveal(proper2); reveal(earlier); reveal(queue_ok); reveal(all_done); g.lemma_wf();
    assert forall|x: Vertex| c.dom().contains(x) implies #[trigger] t[x] != u by { assert(node_ok(g, c, d, t, x)); }
}
/// no item is left: the round is over
pub proof fn lemma_round_end<G: Graph>(g: G, c: Cols, q: Seq<(bool, Vertex, Vertex)>)
    requires all_done(g, c, q), q.len() == 0
    ensures proper2(g, c)
{ reveal(all_done); reveal(proper2); assert forall|x: Vertex, y: Vertex| #[trigger] g.adj(x, y) && c.dom().contains(x) implies c.dom().contains(y) && c[y].0 != c[x].0 by { assert(edge_done(g, c, q, x, y)); } }
pub proof fn lemma_item<G: Graph>(g: G, c: Cols, t: Map<Vertex, Vertex>, u: Vertex, q: Seq<(bool, Vertex, Vertex)>)
    requires queue_ok(g, c, t, u, q), q.len() > 0
    ensures item_ok(g, c, t, u, q.last()), queue_ok(g, c, t, u, q.drop_last())
{ reveal(queue_ok); assert(item_ok(g, c, t, u, q[q.len() - 1])); }
/// the popped vertex has a colour already: either the expected one, or there is an odd cycle
pub proof fn lemma_occupied<G: Graph>(g: G, c: Cols, t: Map<Vertex, Vertex>, u: Vertex, q: Seq<(bool, Vertex, Vertex)>, s: Set<Vertex>)
    requires g.wf(), queue_ok(g, c, t, u, q), q.len() > 0, all_done(g, c, q), earlier(g, c, t, u, s), c.dom().contains(q.last().1)
    ensures c[q.last().1].0 == q.last().0 ==> all_done(g, c, q.drop_last()), c[q.last().1].0 != q.last().0 ==> clash(g, c, t, q.last().2, q.last().1), c.dom().contains(u)
{
    lemma_item(g, c, t, u, q); g.lemma_wf(); let (b, v, p) = q.last(); let r = q.drop_last();
    if c[v].0 == b { reveal(all_done); assert forall|x: Vertex, y: Vertex| #[trigger] edge_done(g, c, r, x, y) by { assert(edge_done(g, c, q, x, y)); if q.contains((!c[x].0, y, x)) { lemma_drop(q, (!c[x].0, y, x)); } } }
    else { reveal(earlier); assert(g.adj(p, v) && g.adj(v, p)); }
}
pub proof fn lemma_drop<T>(q: Seq<T>, x: T)
    requires q.len() > 0, q.contains(x)
    ensures x == q.last() || q.drop_last().contains(x)
{ let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < q.len() - 1 { assert(q.drop_last()[i] == x); } }
pub open spec fn depth_of(d: Map<Vertex, nat>, v: Vertex, p: Vertex) -> nat { if p == v { 0 } else { d[p] + 1 } }
/// the popped vertex gets its colour
pub proof fn lemma_vacant<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, u: Vertex, q: Seq<(bool, Vertex, Vertex)>, s: Set<Vertex>)
    requires g.wf(), g.vs().contains(u), forest(g, c, d, t), queue_ok(g, c, t, u, q), q.len() > 0, all_done(g, c, q), earlier(g, c, t, u, s), !c.dom().contains(q.last().1), !c.dom().contains(u) ==> q.len() == 1
    ensures ({ let (b, v, p) = q.last(); let c2 = c.insert(v, (b, p)); let d2 = d.insert(v, depth_of(d, v, p)); let t2 = t.insert(v, u);
        forest(g, c2, d2, t2) && queue_ok(g, c2, t2, u, q.drop_last()) && done_but(g, c2, q.drop_last(), v, Set::empty()) && earlier(g, c2, t2, u, s) && c2.dom().contains(u) && g.vs().contains(v) })
{
    g.lemma_wf(); lemma_item(g, c, t, u, q); let (b, v, p) = q.last(); let c2 = c.insert(v, (b, p)); let d2 = d.insert(v, depth_of(d, v, p)); let t2 = t.insert(v, u); let r = q.drop_last();
    reveal(forest);
    if c.dom().contains(u) { assert(node_ok(g, c, d, t, p)); }
    assert forall|x: Vertex| c2.dom().contains(x) implies #[trigger] node_ok(g, c2, d2, t2, x) by { if x != v { assert(node_ok(g, c, d, t, x)); } }
    reveal(queue_ok); assert forall|i: int| 0 <= i < r.len() implies item_ok(g, c2, t2, u, #[trigger] r[i]) by { assert(item_ok(g, c, t, u, q[i])); }
    reveal(earlier);
    reveal(all_done); reveal(done_but);
    assert forall|x: Vertex, y: Vertex| x == v || #[trigger] edge_done(g, c2, r, x, y) by { if x != v { assert(edge_done(g, c, q, x, y)); if q.contains((!c[x].0, y, x)) { lemma_drop(q, (!c[x].0, y, x)); } } }
}
pub proof fn lemma_queue_push<G: Graph>(g: G, c: Cols, t: Map<Vertex, Vertex>, u: Vertex, q: Seq<(bool, Vertex, Vertex)>, v: Vertex, y: Vertex, s: Set<Vertex>)
    requires queue_ok(g, c, t, u, q), done_but(g, c, q, v, s), c.dom().contains(v), c.dom().contains(u), t[v] == u, g.adj(v, y)
    ensures ({ let r = q.push((!c[v].0, y, v)); queue_ok(g, c, t, u, r) && done_but(g, c, r, v, s.insert(y)) })
{
    let e = (!c[v].0, y, v); let r = q.push(e); reveal(queue_ok); reveal(done_but);
    assert forall|i: int| 0 <= i < r.len() implies item_ok(g, c, t, u, #[trigger] r[i]) by { if i < q.len() { assert(item_ok(g, c, t, u, q[i])); } }
    assert(r.contains(e)) by { assert(r[q.len() as int] == e); }
    assert forall|x: Vertex, z: Vertex| (x == v && !s.insert(y).contains(z)) || #[trigger] edge_done(g, c, r, x, z) by {
        if !(x == v && !s.contains(z)) { assert(edge_done(g, c, q, x, z)); let f = (!c[x].0, z, x); if q.contains(f) { let k = choose|k: int| 0 <= k < q.len() && q[k] == f; assert(r[k] == f); } } }
}
pub proof fn lemma_all_done<G: Graph>(g: G, c: Cols, q: Seq<(bool, Vertex, Vertex)>, v: Vertex, s: Set<Vertex>)
    requires done_but(g, c, q, v, s), forall|y: Vertex| #[trigger] g.adj(v, y) ==> s.contains(y)
    ensures all_done(g, c, q)
{ reveal(done_but); reveal(all_done); }
// ---------------------------------------------------------------- the odd cycle
/// p follows the parents
#[verifier::opaque]
pub open spec fn chain(c: Cols, p: Seq<Vertex>) -> bool {
    p.len() > 0 && (forall|i: int| 0 <= i < p.len() ==> c.dom().contains(#[trigger] p[i])) && forall|i: int| 0 <= i < p.len() - 1 ==> c[#[trigger] p[i]].1 == p[i + 1] && p[i + 1] != p[i]
}
pub proof fn lemma_chain1(c: Cols, x: Vertex)
    requires c.dom().contains(x)
    ensures chain(c, seq![x])
{ reveal(chain); }
pub proof fn lemma_chain_step<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, p: Seq<Vertex>)
    requires chain(c, p), forest(g, c, d, t)
    ensures p.len() > 0, c.dom().contains(p.last()), c[p.last()].1 != p.last() ==> chain(c, p.push(c[p.last()].1)) && d[c[p.last()].1] < d[p.last()]
{ reveal(chain); reveal(forest); assert(c.dom().contains(p[p.len() - 1])); assert(node_ok(g, c, d, t, p.last())); }
/// depths along a chain
pub proof fn lemma_chain_at<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, p: Seq<Vertex>, i: int)
    requires chain(c, p), forest(g, c, d, t), 0 <= i < p.len()
    ensures d[p[i]] + i == d[p[0]], t[p[i]] == t[p[0]], g.vs().contains(p[i]), i + 1 < p.len() ==> g.adj(p[i + 1], p[i])
    decreases i
{
    reveal(chain); reveal(forest); assert(node_ok(g, c, d, t, p[i]));
    if i > 0 { lemma_chain_at(g, c, d, t, p, i - 1); assert(node_ok(g, c, d, t, p[i - 1])); assert(c[p[i - 1]].1 == p[(i - 1) + 1]); }
}
/// a chain that ends in a root
pub proof fn lemma_chain_root<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, p: Seq<Vertex>)
    requires chain(c, p), forest(g, c, d, t), c[p.last()].1 == p.last()
    ensures p.last() == t[p[0]], d[p[0]] + 1 == p.len(), c[p[0]].0 == (d[p[0]] % 2 == 0)
{ reveal(chain); lemma_chain_at(g, c, d, t, p, p.len() - 1); reveal(forest); assert(c.dom().contains(p[p.len() - 1])); assert(node_ok(g, c, d, t, p.last())); assert(c.dom().contains(p[0])); assert(node_ok(g, c, d, t, p[0])); }
/// chains that meet stay together
pub proof fn lemma_chain_meet<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, p: Seq<Vertex>, q: Seq<Vertex>, i: int, j: int, n: int)
    requires chain(c, p), chain(c, q), 0 <= i, 0 <= j, 0 <= n, i + n < p.len(), j + n < q.len(), p[i] == q[j]
    ensures p[i + n] == q[j + n]
    decreases n
{ reveal(chain); if n > 0 { lemma_chain_meet(g, c, d, t, p, q, i, j, n - 1); assert(c[p[i + n - 1]].1 == p[(i + n - 1) + 1]); assert(c[q[j + n - 1]].1 == q[(j + n - 1) + 1]); } }
/// the two paths to the root, cut off at their first common vertex, close to an odd cycle
pub proof fn lemma_odd_cycle<G: Graph>(g: G, c: Cols, d: Map<Vertex, nat>, t: Map<Vertex, Vertex>, p: Seq<Vertex>, q: Seq<Vertex>, a: int, b: int)
    requires g.wf(), forest(g, c, d, t), chain(c, p), chain(c, q), clash(g, c, t, p[0], q[0]), c[p.last()].1 == p.last(), c[q.last()].1 == q.last(),
        1 <= a <= p.len(), 1 <= b <= q.len(), p.len() - a == q.len() - b, p[a - 1] == q[b - 1], a == 1 || b == 1 || p[a - 2] != q[b - 2]
    ensures is_odd_cycle(g, p.take(a) + q.take(b).drop_last().reverse())
{
    g.lemma_wf(); lemma_chain_root(g, c, d, t, p); lemma_chain_root(g, c, d, t, q);
    let x = p.take(a); let y = q.take(b).drop_last().reverse(); let z = x + y;
    assert(z.len() == a + b - 1);
    assert forall|i: int| 0 <= i < z.len() implies z[i] == (if i < a { p[i] } else { q[b - 2 - (i - a)] }) by {}
    assert forall|i: int| 0 <= i < z.len() implies g.vs().contains(#[trigger] z[i]) by { if i < a { lemma_chain_at(g, c, d, t, p, i); } else { lemma_chain_at(g, c, d, t, q, b - 2 - (i - a)); } }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies z[i] != z[j] by {
        if j < a { lemma_chain_at(g, c, d, t, p, i); lemma_chain_at(g, c, d, t, p, j); }
        else if i >= a { lemma_chain_at(g, c, d, t, q, b - 2 - (i - a)); lemma_chain_at(g, c, d, t, q, b - 2 - (j - a)); }
        else { let k = b - 2 - (j - a); lemma_chain_at(g, c, d, t, p, i); lemma_chain_at(g, c, d, t, q, k);
            if p[i] == q[k] { assert(a - i == b - k); lemma_chain_meet(g, c, d, t, p, q, i, k, a - 2 - i); } }
    }
    assert(z.no_duplicates());
    assert forall|i: int| 0 <= i < z.len() implies g.adj(#[trigger] z[i], cyc_next(z, i)) by {
        if i + 1 < a { lemma_chain_at(g, c, d, t, p, i); assert(z[i + 1] == p[i + 1]); }
        else if i + 1 < z.len() { let k = b - 2 - (i + 1 - a); lemma_chain_at(g, c, d, t, q, k); assert(z[i + 1] == q[k]); assert(z[i] == q[k + 1]); }
        else { assert(z[0] == p[0]); assert(z[i] == q[0]); }
    }
    assert(z.len() % 2 == 1) by { lemma_parity(d[p[0]], d[q[0]], a + b - 1, p.len() - a); }
}
pub proof fn lemma_parity(m: nat, n: nat, l: int, k: int)
    requires m % 2 == n % 2, l == m + n + 1 - 2 * k, l >= 1
    ensures l % 2 == 1
{ }
pub open spec fn witness_ok<G: Graph>(g: G, w: BipartiteWitness) -> bool { match w { BipartiteWitness::Bipartition(l, r) => is_bipartition(g, l@, r@), BipartiteWitness::OddCycle(c) => is_odd_cycle(g, c@) } }
pub trait GraphBipartite : Graph + Sized {
//@ fn algorithms/graph.rs impl:GraphAlgorithms:G is_bipartite
//@ attr #[verifier::allow_complex_invariants]
//@ requires self.wf()
//@ ensures witness_ok(*self, r)
//@ hint start
    let ghost mut dep = Map::<Vertex, nat>::empty(); let ghost mut tree = Map::<Vertex, Vertex>::empty();
    proof { self.lemma_wf(); }
//@ hint loop1.before
    proof { reveal(forest); reveal(proper2); assert(colours@.dom() =~= Set::<Vertex>::empty()); assert(forest(*self, colours@, dep, tree)); assert(proper2(*self, colours@)); }
//@ rawloop 1
    invariant self.wf(), forest(*self, colours@, dep, tree), conflict.is_none() ==> proper2(*self, colours@) && (forall|x: Vertex| #[trigger] self.vs().contains(x) ==> unprocessed@.contains(x) || colours@.dom().contains(x)) && (forall|x: Vertex| #[trigger] unprocessed@.contains(x) ==> self.vs().contains(x) && !colours@.dom().contains(x)),
        conflict.is_some() ==> clash(*self, colours@, tree, (conflict->0).0, (conflict->0).1),
    decreases unprocessed@.len()
//@ hint loop2.before
    let ghost old_dom = colours@.dom(); let ghost root = u; let ghost left0 = unprocessed@;
    proof { lemma_round_start(*self, colours@, dep, tree, u); assert(self.vs().contains(u)); assert(col_queue@ =~= seq![(true, u, u)]); }
//@ rawloop 2
    invariant_except_break all_done(*self, colours@, col_queue@), !colours@.dom().contains(root) ==> col_queue@.len() == 1, conflict.is_none(),
    invariant self.wf(), self.vs().contains(root), forest(*self, colours@, dep, tree), queue_ok(*self, colours@, tree, root, col_queue@), earlier(*self, colours@, tree, root, old_dom),
        forall|x: Vertex| #[trigger] self.vs().contains(x) ==> unprocessed@.contains(x) || colours@.dom().contains(x) || x == root, forall|x: Vertex| #[trigger] unprocessed@.contains(x) ==> left0.contains(x), forall|x: Vertex| #[trigger] unprocessed@.contains(x) ==> self.vs().contains(x) && !colours@.dom().contains(x), 
    ensures conflict.is_none() ==> proper2(*self, colours@) && colours@.dom().contains(root), conflict.is_some() ==> clash(*self, colours@, tree, (conflict->0).0, (conflict->0).1),
    decreases self.vs().len() - colours@.dom().len(), col_queue@.len()
//@ hint loop2.top
    let ghost q0 = col_queue@; let ghost c0 = colours@;
    proof { self.lemma_wf(); if q0.len() == 0 { lemma_round_end(*self, c0, q0); } else if c0.dom().contains(q0.last().1) { lemma_occupied(*self, c0, tree, root, q0, old_dom); lemma_item(*self, c0, tree, root, q0); } else { lemma_vacant(*self, c0, dep, tree, root, q0, old_dom); } }
//@ hint after call insert 1
    proof { dep = dep.insert(v, depth_of(dep, v, parent)); tree = tree.insert(v, root); assert(col_queue@ == q0.drop_last()); assert(colours@.dom() =~= c0.dom().insert(v)); assert forall|x: Vertex| #[trigger] colours@.dom().contains(x) implies self.vs().contains(x) by { reveal(forest); assert(node_ok(*self, colours@, dep, tree, x)); } vstd::set_lib::lemma_len_subset(colours@.dom(), self.vs()); }
//@ loop 3
    queue_ok(*self, colours@, tree, root, col_queue@), done_but(*self, colours@, col_queue@, v, pre(it3_s, it3.pos())), colours@.dom().contains(v), colours@.dom().contains(root), tree[v] == root, forall|y: Vertex| #[trigger] it3_s.contains(y) <==> self.adj(v, y),
//@ hint loop3.start
    let ghost q1 = col_queue@;
//@ hint loop3.end
    proof { lemma_queue_push(*self, colours@, tree, root, q1, v, *u, pre(it3_s, (it3.pos() - 1) as nat)); }
//@ hint loop3.after
    proof { assert forall|y: Vertex| #[trigger] self.adj(v, y) implies it3_s.to_set().contains(y) by { assert(it3_s.contains(y)); } lemma_all_done(*self, colours@, col_queue@, v, it3_s.to_set()); }
//@ hint loop1.end
    proof { vstd::set_lib::lemma_len_subset(unprocessed@, left0); }
//@ hint loop4.before
    proof { lemma_chain1(colours@, parent1); assert(path1@ =~= seq![parent1]); }
//@ rawloop 4
    invariant chain(colours@, path1@), path1@[0] == parent1,
    ensures colours@[path1@.last()].1 == path1@.last(),
    decreases dep[path1@.last()]
//@ hint loop4.start
    proof { lemma_chain_step(*self, colours@, dep, tree, path1@); }
//@ hint loop5.before
    proof { lemma_chain1(colours@, v); assert(path2@ =~= seq![v]); }
//@ rawloop 5
    invariant chain(colours@, path2@), path2@[0] == v,
    ensures colours@[path2@.last()].1 == path2@.last(),
    decreases dep[path2@.last()]
//@ hint loop5.start
    proof { lemma_chain_step(*self, colours@, dep, tree, path2@); }
//@ hint loop5.after
    let ghost p = path1@; let ghost q = path2@;
    proof { lemma_chain_step(*self, colours@, dep, tree, p); lemma_chain_step(*self, colours@, dep, tree, q); lemma_chain_root(*self, colours@, dep, tree, p); lemma_chain_root(*self, colours@, dep, tree, q); }
//@ loop 6
    1 <= path1@.len() <= p.len(), 1 <= path2@.len() <= q.len(), path1@ == p.take(path1@.len() as int), path2@ == q.take(path2@.len() as int), p.len() - path1@.len() == q.len() - path2@.len(), path1@.last() == path2@.last(),
//@ loopdec 6 path1@.len()
//@ hint loop6.end
    proof { assert(path1@ =~= p.take(path1@.len() as int)); assert(path2@ =~= q.take(path2@.len() as int)); }
//@ hint loop6.after
    let ghost a = path1@.len(); let ghost b = path2@.len();
//@ hint after call append 1
    proof { assert(q.take(b as int).drop_last() =~= q.take(b - 1)); lemma_odd_cycle(*self, colours@, dep, tree, p, q, a as int, b as int); assert(path1@ =~= p.take(a as int) + q.take(b as int).drop_last().reverse()); }
//@ loop 7
    forall|j: int| 0 <= j < it7_s.len() ==> #[trigger] it7_s[j] == (&cord[j], &colours@[cord[j]]), it7_s.len() == cord.len(), lists(cord, colours@.dom()),
    forall|x: Vertex| #[trigger] left@.contains(x) <==> pre(cord, it7.pos()).contains(x) && colours@[x].0, forall|x: Vertex| #[trigger] right@.contains(x) <==> pre(cord, it7.pos()).contains(x) && !colours@[x].0,
//@ hint loop7.before
    let ghost cord = colours.order();
    proof { lemma_pre_ends(cord); assert(proper2(*self, colours@)); assert forall|x: Vertex| #[trigger] self.vs().contains(x) <==> colours@.dom().contains(x) by { if self.vs().contains(x) { assert(unprocessed@.contains(x) || colours@.dom().contains(x)); } if colours@.dom().contains(x) { reveal(forest); assert(node_ok(*self, colours@, dep, tree, x)); } } }
//@ hint loop7.start
    proof { lemma_pre(cord, (it7.pos() - 1) as nat); assert(it7_s[it7.pos() - 1] == (&cord[it7.pos() - 1], &colours@[cord[it7.pos() - 1]])); }
//@ hint end
    proof { lemma_pre_ends(cord); self.lemma_wf(); reveal(proper2); assert forall|x: Vertex| pre(cord, cord.len()).contains(x) <==> #[trigger] self.vs().contains(x) by { assert(cord.to_set().contains(x) == cord.contains(x)); assert(cord.contains(x) <==> colours@.dom().contains(x)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) implies left@.contains(x) == right@.contains(y) by { assert(self.vs().contains(x) && self.vs().contains(y)); }
    }
//@ end
}
impl<G: Graph> GraphBipartite for G { }
} // verus!
