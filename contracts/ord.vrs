verus! {
//@ props C14
// ===================================================================== sorted listings
/// the elements of s among o[0..n], in order
pub open spec fn pick(o: Seq<Vertex>, s: Set<Vertex>, n: nat) -> Seq<Vertex> decreases n {
    if n == 0 { Seq::empty() } else if s.contains(o[n - 1]) { pick(o, s, (n - 1) as nat).push(o[n - 1]) } else { pick(o, s, (n - 1) as nat) }
}
/// the elements of s, in the order o
#[verifier::opaque]
pub open spec fn in_order(o: Seq<Vertex>, s: Set<Vertex>) -> Seq<Vertex> { pick(o, s, o.len()) }
pub proof fn lemma_pick(o: Seq<Vertex>, s: Set<Vertex>, n: nat)
    requires o.no_duplicates(), n <= o.len()
    ensures pick(o, s, n).no_duplicates(), sorted_in(o, pick(o, s, n)), forall|x: Vertex| #[trigger] pick(o, s, n).contains(x) <==> s.contains(x) && o.contains(x) && ix(o, x) < n
    decreases n
{
    reveal(sorted_in); lemma_ix(o);
    if n > 0 {
        let p = pick(o, s, (n - 1) as nat); let q = pick(o, s, n); let y = o[n - 1];
        lemma_pick(o, s, (n - 1) as nat);
        assert(o.contains(y) && ix(o, y) == n - 1);
        if s.contains(y) {
            assert forall|i: int, j: int| 0 <= i < j < q.len() implies ix(o, q[i]) < ix(o, q[j]) by { assert(p.contains(p[i])); if j < p.len() { assert(q[i] == p[i] && q[j] == p[j]); } }
            assert forall|x: Vertex| #[trigger] q.contains(x) <==> s.contains(x) && o.contains(x) && ix(o, x) < n by {
                if q.contains(x) { let i = choose|i: int| 0 <= i < q.len() && q[i] == x; if i < p.len() { assert(p[i] == x); assert(p.contains(x)); } }
                if s.contains(x) && o.contains(x) && ix(o, x) < n { if x == y { assert(q[p.len() as int] == x); } else { assert(p.contains(x)); let i = choose|i: int| 0 <= i < p.len() && p[i] == x; assert(q[i] == x); } }
            }
            assert forall|i: int, j: int| 0 <= i < q.len() && 0 <= j < q.len() && i != j implies q[i] != q[j] by { if i < j { assert(ix(o, q[i]) < ix(o, q[j])); } else { assert(ix(o, q[j]) < ix(o, q[i])); } }
        }
    }
}
pub proof fn lemma_in_order(o: Seq<Vertex>, s: Set<Vertex>)
    requires o.no_duplicates(), forall|x: Vertex| #[trigger] s.contains(x) ==> o.contains(x)
    ensures in_order(o, s).no_duplicates(), sorted_in(o, in_order(o, s)), forall|x: Vertex| #[trigger] in_order(o, s).contains(x) <==> s.contains(x), in_order(o, s).len() == s.len()
{
    reveal(in_order); lemma_pick(o, s, o.len()); lemma_ix(o); let q = in_order(o, s);
    assert forall|x: Vertex| #[trigger] q.contains(x) <==> s.contains(x) by { if s.contains(x) { assert(o.contains(x)); } }
    q.unique_seq_to_set(); assert(q.to_set() =~= s);
}
/// a sorted listing is determined by its elements
pub proof fn lemma_sorted_unique(o: Seq<Vertex>, a: Seq<Vertex>, b: Seq<Vertex>)
    requires sorted_in(o, a), sorted_in(o, b), a.no_duplicates(), b.no_duplicates(), forall|x: Vertex| #[trigger] a.contains(x) <==> b.contains(x)
    ensures a == b
    decreases a.len()
{
    a.unique_seq_to_set(); b.unique_seq_to_set(); assert(a.to_set() =~= b.to_set());
    if a.len() == 0 { assert(a =~= b); } else {
        reveal(sorted_in);
        let n = a.len() - 1; let x = a[n]; let y = b[n];
        assert(b.contains(x)); assert(a.contains(y));
        let i = choose|i: int| 0 <= i < b.len() && b[i] == x; let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
        assert(i == n && j == n) by { if i < n { assert(ix(o, b[i]) < ix(o, b[n])); if j < n { assert(ix(o, a[j]) < ix(o, a[n])); } } if j < n { assert(ix(o, a[j]) < ix(o, a[n])); } }
        let a1 = a.drop_last(); let b1 = b.drop_last();
        assert forall|z: Vertex| #[trigger] a1.contains(z) <==> b1.contains(z) by {
            if a1.contains(z) { let k = choose|k: int| 0 <= k < a1.len() && a1[k] == z; assert(a[k] == z && a.contains(z)); assert(b.contains(z)); assert(a[k] != a[n]); let l = choose|l: int| 0 <= l < b.len() && b[l] == z; assert(b1[l] == z); }
            if b1.contains(z) { let k = choose|k: int| 0 <= k < b1.len() && b1[k] == z; assert(b[k] == z && b.contains(z)); assert(a.contains(z)); assert(b[k] != b[n]); let l = choose|l: int| 0 <= l < a.len() && a[l] == z; assert(a1[l] == z); }
        }
        lemma_sorted_unique(o, a1, b1);
        assert(a =~= a1.push(x)); assert(b =~= b1.push(y));
    }
}
// ===================================================================== OrdGraph
//@ struct ordgraph.rs OrdGraph
//@ struct ordgraph.rs OrdNode
/// left / right neighbours stored for x
pub open spec fn ol(g: OrdGraph, x: Vertex) -> Set<Vertex> { g.nodes@[g.indices@[x] as int].left@ }
pub open spec fn or(g: OrdGraph, x: Vertex) -> Set<Vertex> { g.nodes@[g.indices@[x] as int].right@ }
pub open spec fn oadj(g: OrdGraph, x: Vertex, y: Vertex) -> bool { g.indices@.dom().contains(x) && (ol(g, x).contains(y) || or(g, x).contains(y)) }
pub open spec fn orel(g: OrdGraph) -> spec_fn(Vertex, Vertex) -> bool { |x: Vertex, y: Vertex| oadj(g, x, y) }
/// indices and nodes agree
pub open spec fn index_ok(ind: Map<Vertex, usize>, nodes: Seq<OrdNode>) -> bool {
    &&& forall|i: int| 0 <= i < nodes.len() ==> ind.dom().contains((#[trigger] nodes[i]).v) && ind[nodes[i].v] == i
    &&& forall|x: Vertex| #[trigger] ind.dom().contains(x) ==> ind[x] < nodes.len() && nodes[ind[x] as int].v == x
}
pub open spec fn node_seq(nodes: Seq<OrdNode>) -> Seq<Vertex> { Seq::new(nodes.len(), |i: int| nodes[i].v) }
impl OrdGraph {
    pub open spec fn rep(&self) -> bool {
        &&& index_ok(self.indices@, self.nodes@)
        &&& forall|x: Vertex, y: Vertex| #[trigger] oadj(*self, x, y) ==> oadj(*self, y, x)
        &&& forall|x: Vertex, y: Vertex| self.indices@.dom().contains(x) && #[trigger] ol(*self, x).contains(y) ==> self.indices@[y] < self.indices@[x]
        &&& forall|x: Vertex, y: Vertex| self.indices@.dom().contains(x) && #[trigger] or(*self, x).contains(y) ==> self.indices@[y] > self.indices@[x]
    }
    pub open spec fn inv(&self) -> bool {
        &&& self.rep()
        &&& exists|e: Set<Edge>| is_eset(e, orel(*self)) && #[trigger] e.len() == self.m
    }
}
pub proof fn lemma_index_ok(ind: Map<Vertex, usize>, nodes: Seq<OrdNode>)
    requires index_ok(ind, nodes)
    ensures lists(node_seq(nodes), ind.dom()), forall|x: Vertex| #[trigger] ind.dom().contains(x) ==> ix(node_seq(nodes), x) == ind[x]
{
    let o = node_seq(nodes);
    assert forall|i: int, j: int| 0 <= i < o.len() && 0 <= j < o.len() && i != j implies o[i] != o[j] by { assert(ind[nodes[i].v] == i); assert(ind[nodes[j].v] == j); }
    assert forall|x: Vertex| #[trigger] o.contains(x) <==> ind.dom().contains(x) by {
        if ind.dom().contains(x) { assert(o[ind[x] as int] == x); }
        if o.contains(x) { let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(nodes[i].v == x); }
    }
    assert forall|x: Vertex| #[trigger] ind.dom().contains(x) implies ix(o, x) == ind[x] by { lemma_ix_at(o, ind[x] as int); }
    o.unique_seq_to_set(); assert(o.to_set() =~= ind.dom());
}
impl OrdNode {
//@ fn ordgraph.rs impl:OrdNode new
//@ ensures r.v == *v, r.left@ == Set::<Vertex>::empty(), r.right@ == Set::<Vertex>::empty()
//@ end
//@ fn ordgraph.rs impl:OrdNode neighbours
//@ ensures r.seq() == self.left.order() + self.right.order(), r.pos() == 0
//@ end
}
impl Graph for OrdGraph {
    open spec fn wf(&self) -> bool { self.inv() }
    open spec fn vs(&self) -> Set<Vertex> { self.indices@.dom() }
    open spec fn adj(&self, u: Vertex, v: Vertex) -> bool { oadj(*self, u, v) }
    open spec fn vseq(&self) -> Seq<Vertex> { node_seq(self.nodes@) }
    open spec fn nseq(&self, u: Vertex) -> Seq<Vertex> { self.nodes@[self.indices@[u] as int].left.order() + self.nodes@[self.indices@[u] as int].right.order() }
    open spec fn deg(&self, u: Vertex) -> nat { if self.indices@.dom().contains(u) { ol(*self, u).len() + or(*self, u).len() } else { 0 } }
    open spec fn esize(&self) -> nat { self.m as nat }
    open spec fn eset(&self) -> Set<Edge> { choose|e: Set<Edge>| is_eset(e, orel(*self)) && #[trigger] e.len() == self.m }
    open spec fn simple(&self) -> bool { true }
    proof fn lemma_wf(&self) {
        lemma_index_ok(self.indices@, self.nodes@);
        assert(is_eset(self.eset(), orel(*self)));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.eset().contains((x, y)) <==> x <= y && (|u: Vertex, v: Vertex| self.adj(u, v))(x, y) by { assert(orel(*self)(x, y) == oadj(*self, x, y)); }
        assert forall|u: Vertex, v: Vertex| #[trigger] self.adj(u, v) implies self.vs().contains(u) && self.vs().contains(v) && self.adj(v, u) by { assert(oadj(*self, v, u)); }
        assert forall|u: Vertex| self.vs().contains(u) implies (#[trigger] self.nseq(u)).no_duplicates() && self.nseq(u).len() == self.deg(u) && !self.adj(u, u) && (forall|v: Vertex| #[trigger] self.nseq(u).contains(v) <==> self.adj(u, v)) by { self.lemma_nseq(u); }
    }
//@ fn ordgraph.rs impl:Graph:OrdGraph num_vertices
//@ hint start
    proof { self.lemma_wf(); self.vseq().unique_seq_to_set(); }
//@ end
//@ fn ordgraph.rs impl:Graph:OrdGraph num_edges
//@ end
//@ fn ordgraph.rs impl:Graph:OrdGraph contains
//@ end
//@ fn ordgraph.rs impl:Graph:OrdGraph adjacent
//@ end
//@ fn ordgraph.rs impl:Graph:OrdGraph degree
//@ end
//@ fn ordgraph.rs impl:Graph:OrdGraph vertices
//@ closure 1 |n: &OrdNode| -> (v: &Vertex) ensures *v == n.v
//@ hint end
    proof { self.lemma_wf(); assert(vx_res.seq() =~= self.vseq()); lemma_pre_ends(vx_res.seq()); }
//@ end
//@ fn ordgraph.rs impl:Graph:OrdGraph neighbours
//@ hint start
    proof { self.lemma_wf(); lemma_pre_ends(self.nseq(*u)); }
//@ end
}
impl OrdGraph {
    pub proof fn lemma_nseq(&self, u: Vertex)
        requires self.rep(), self.indices@.dom().contains(u)
        ensures self.nseq(u).no_duplicates(), self.nseq(u).len() == self.deg(u), !self.adj(u, u), forall|v: Vertex| #[trigger] self.nseq(u).contains(v) <==> self.adj(u, v)
    {
        let n = self.nodes@[self.indices@[u] as int]; let a = n.left.order(); let b = n.right.order();
        lemma_concat_mem(a, b);
        assert forall|x: Vertex| !(#[trigger] a.contains(x) && b.contains(x)) by { assert(a.contains(x) <==> ol(*self, u).contains(x)); assert(b.contains(x) <==> or(*self, u).contains(x)); }
        assert forall|v: Vertex| #[trigger] self.nseq(u).contains(v) <==> self.adj(u, v) by { assert(a.contains(v) <==> ol(*self, u).contains(v)); assert(b.contains(v) <==> or(*self, u).contains(v)); }
        assert(!ol(*self, u).contains(u)); assert(!or(*self, u).contains(u));
        a.unique_seq_to_set(); b.unique_seq_to_set();
    }
}
impl LinearGraph for OrdGraph {
    open spec fn lseq(&self, v: Vertex) -> Seq<Vertex> { in_order(self.vseq(), ol(*self, v)) }
    open spec fn iof(&self, v: Vertex) -> int { ix(self.vseq(), v) }
    open spec fn rdeg(&self, v: Vertex) -> nat { if self.indices@.dom().contains(v) { or(*self, v).len() } else { 0 } }
    proof fn lemma_lin(&self) {
        self.lemma_wf(); lemma_index_ok(self.indices@, self.nodes@);
        assert forall|u: Vertex| !#[trigger] self.adj(u, u) by { if self.adj(u, u) { self.lemma_nseq(u); } }
        assert forall|v: Vertex| self.vs().contains(v) implies (#[trigger] self.lseq(v)).no_duplicates() && sorted_in(self.vseq(), self.lseq(v)) && self.lseq(v).len() == ol(*self, v).len() && (forall|x: Vertex| #[trigger] self.lseq(v).contains(x) <==> ol(*self, v).contains(x)) by { self.lemma_left(v); }
        assert forall|v: Vertex, x: Vertex| self.vs().contains(v) implies (#[trigger] self.lseq(v).contains(x) <==> self.adj(v, x) && ix(self.vseq(), x) < ix(self.vseq(), v)) by {
            if oadj(*self, v, x) { assert(oadj(*self, x, v)); assert(self.indices@.dom().contains(x)); }
            assert(self.lseq(v).contains(x) <==> ol(*self, v).contains(x));
            if or(*self, v).contains(x) { assert(self.indices@[x] > self.indices@[v]); }
        }
    }
//@ fn ordgraph.rs impl:LinearGraph:OrdGraph index_of
//@ hint start
    proof { lemma_index_ok(self.indices@, self.nodes@); }
//@ end
//@ fn ordgraph.rs impl:LinearGraph:OrdGraph left_neighbours
//@ closure 1 |v: &Vertex| -> (k: &usize) requires self.indices@.dom().contains(*v) ensures *k == self.indices@[*v]
//@ hint start
    proof { lemma_index_ok(self.indices@, self.nodes@); self.lemma_left(*u); self.lemma_lin(); }
//@ hint after let res 1
    let ghost res0 = res@;
    proof { assert forall|i: int| 0 <= i < res0.len() implies self.indices@.dom().contains(#[trigger] res0[i]) by { assert(res0.contains(res0[i])); assert(ol(*self, *u).contains(res0[i])); assert(oadj(*self, *u, res0[i])); assert(oadj(*self, res0[i], *u)); } }
//@ hint end
    proof {
        let o = self.vseq(); let r = vx_res@;
        assert forall|i: int| 0 <= i < r.len() implies self.indices@.dom().contains(#[trigger] r[i]) by { assert(res0.contains(r[i])); assert(ol(*self, *u).contains(r[i])); assert(oadj(*self, *u, r[i])); assert(oadj(*self, r[i], *u)); }
        assert(sorted_in(o, r)) by { reveal(sorted_in); assert forall|i: int, j: int| 0 <= i < j < r.len() implies ix(o, r[i]) < ix(o, r[j]) by { assert(self.indices@.dom().contains(r[i]) && self.indices@.dom().contains(r[j])); assert(self.indices@[r[i]] <= self.indices@[r[j]]); assert(self.indices@[r[i]] != self.indices@[r[j]]); } }
        lemma_sorted_unique(o, r, self.lseq(*u)); }
//@ end
//@ fn ordgraph.rs impl:LinearGraph:OrdGraph right_degree
//@ end
}
impl OrdGraph {
    pub proof fn lemma_left(&self, v: Vertex)
        requires self.rep(), self.indices@.dom().contains(v)
        ensures self.lseq(v).no_duplicates(), sorted_in(self.vseq(), self.lseq(v)), self.lseq(v).len() == ol(*self, v).len(), forall|x: Vertex| #[trigger] self.lseq(v).contains(x) <==> ol(*self, v).contains(x)
    {
        lemma_index_ok(self.indices@, self.nodes@);
        assert forall|x: Vertex| #[trigger] ol(*self, v).contains(x) implies self.vseq().contains(x) by { assert(oadj(*self, v, x)); assert(oadj(*self, x, v)); assert(self.indices@.dom().contains(x)); }
        lemma_in_order(self.vseq(), ol(*self, v));
    }
    /// right neighbours of v, in order
    pub open spec fn rseq(&self, v: Vertex) -> Seq<Vertex> { in_order(self.vseq(), or(*self, v)) }
//@ fn ordgraph.rs impl:OrdGraph right_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r@.no_duplicates(), sorted_in(self.vseq(), r@), forall|x: Vertex| #[trigger] r@.contains(x) <==> self.adj(*u, x) && ix(self.vseq(), x) > ix(self.vseq(), *u)
//@ closure 1 |v: &Vertex| -> (k: &usize) requires self.indices@.dom().contains(*v) ensures *k == self.indices@[*v]
//@ hint start
    proof { self.lemma_wf(); lemma_index_ok(self.indices@, self.nodes@); }
//@ hint after let res 1
    let ghost res0 = res@;
    proof { assert forall|i: int| 0 <= i < res0.len() implies self.indices@.dom().contains(#[trigger] res0[i]) by { assert(res0.contains(res0[i])); assert(or(*self, *u).contains(res0[i])); assert(oadj(*self, *u, res0[i])); assert(oadj(*self, res0[i], *u)); } }
//@ hint end
    proof {
        let o = self.vseq(); let r = vx_res@;
        assert forall|i: int| 0 <= i < r.len() implies self.indices@.dom().contains(#[trigger] r[i]) by { assert(res0.contains(r[i])); assert(or(*self, *u).contains(r[i])); assert(oadj(*self, *u, r[i])); assert(oadj(*self, r[i], *u)); }
        assert(sorted_in(o, r)) by { reveal(sorted_in); assert forall|i: int, j: int| 0 <= i < j < r.len() implies ix(o, r[i]) < ix(o, r[j]) by { assert(self.indices@.dom().contains(r[i]) && self.indices@.dom().contains(r[j])); assert(self.indices@[r[i]] <= self.indices@[r[j]]); assert(self.indices@[r[i]] != self.indices@[r[j]]); } }
        assert forall|x: Vertex| #[trigger] r.contains(x) <==> self.adj(*u, x) && ix(o, x) > ix(o, *u) by {
            assert(r.contains(x) <==> or(*self, *u).contains(x));
            if self.adj(*u, x) { assert(oadj(*self, x, *u)); assert(self.indices@.dom().contains(x)); if ol(*self, *u).contains(x) { assert(self.indices@[x] < self.indices@[*u]); } }
            if or(*self, *u).contains(x) { assert(self.indices@[x] > self.indices@[*u]); }
        } }
//@ end
//@ fn ordgraph.rs impl:OrdGraph swap
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).vs() == old(self).vs(), forall|x: Vertex, y: Vertex| #[trigger] final(self).adj(x, y) == old(self).adj(x, y), final(self).esize() == old(self).esize(),
    forall|x: Vertex| #[trigger] final(self).deg(x) == old(self).deg(x),
    final(self).vseq() == (if old(self).vs().contains(*u) && old(self).vs().contains(*v) { swapped(old(self).vseq(), ix(old(self).vseq(), *u), ix(old(self).vseq(), *v)) } else { old(self).vseq() })
//@ hint start
    proof { self.lemma_wf(); lemma_index_ok(self.indices@, self.nodes@); if u == v { assert(swapped(self.vseq(), ix(self.vseq(), *u), ix(self.vseq(), *v)) =~= self.vseq()); } }
    let ghost g0 = *self;
//@ hint loop1.before
    proof { lemma_stage0(g0, *u, *v); }
//@ loop 1
    it1_s == seq![(u, iu, iv), (v, iv, iu)], g0.rep(), *u != *v, iu != iv, g0.indices@.dom().contains(*u), g0.indices@.dom().contains(*v), iu == g0.indices@[*u], iv == g0.indices@[*v],
    self.indices == g0.indices, self.m == g0.m, stage(g0, *u, *v, it1.pos(), self.nodes@),
//@ hint loop1.start
    let ghost k = (it1.pos() - 1) as nat; let ghost nodes0 = self.nodes@;
    proof { assert(it1_s[0] == (u, iu, iv)); assert(it1_s[1] == (v, iv, iu)); lemma_stage_node(g0, *u, *v, k, nodes0, *s); }
//@ loop 2
    *n == nodes0[old_i as int], needs_update@.len() == it2.pos(), forall|j: int| 0 <= j < needs_update@.len() ==> #[trigger] needs_update@[j] == g0.indices@[it2_s[j]],
    forall|y: Vertex| #[trigger] it2_s.contains(y) <==> oadj(g0, *s, y),
    forall|y: Vertex| #[trigger] new_left@.contains(y) <==> pre(it2_s, it2.pos()).contains(y) && goes_left(g0, y, old_i, new_i),
    forall|y: Vertex| #[trigger] new_right@.contains(y) <==> pre(it2_s, it2.pos()).contains(y) && !goes_left(g0, y, old_i, new_i),
//@ hint loop2.start
    proof { assert(oadj(g0, *s, *x)); assert(oadj(g0, *x, *s)); }
//@ hint loop2.before
    proof { lemma_concat_mem(n.left.order(), n.right.order()); }
//@ hint loop2.after
    proof { assert forall|y: Vertex| pre(it2_s, it2.pos()).contains(y) == oadj(g0, *s, y) by { assert(it2_s.to_set().contains(y) == it2_s.contains(y)); }
        assert forall|y: Vertex| oadj(g0, *s, y) implies needs_update@.contains(#[trigger] g0.indices@[y]) by { assert(it2_s.contains(y)); let j = choose|j: int| 0 <= j < it2_s.len() && it2_s[j] == y; assert(needs_update@[j] == g0.indices@[it2_s[j]]); } }
//@ hint loop3.before
    let ghost nseq = needs_update@;
    proof {
        lemma_mid0(g0, *u, *v, k, nodes0, self.nodes@, *s);
    }
//@ loop 3
    it3_s == nseq, self.indices == g0.indices, self.m == g0.m, mid(g0, *u, *v, k, pre(it3_s, it3.pos()), self.nodes@),
    forall|j: int| 0 <= j < nseq.len() ==> is_nbr_ix(g0, *s, #[trigger] nseq[j]),
//@ hint loop3.start
    let ghost nodes1 = self.nodes@; let ghost done = pre(it3_s, (it3.pos() - 1) as nat);
    proof { assert(is_nbr_ix(g0, *s, ix)); lemma_mid_node(g0, *u, *v, k, done, nodes1, *s, ix); }
//@ hint loop3.end
    proof { lemma_mid_step(g0, *u, *v, k, done, nodes1, self.nodes@, *s, ix, new_i); }
//@ hint loop3.after
    proof { lemma_mid_end(g0, *u, *v, k, it3_s.to_set(), self.nodes@, *s); }
//@ hint loop1.after
    proof { reveal(stage); assert(g0.nodes@[iu as int].v == *u && g0.nodes@[iv as int].v == *v); }
//@ hint end
    proof { lemma_swap_end(g0, *self, *u, *v); }
//@ end
//@ fn ordgraph.rs impl:OrdGraph with_ordering
//@ requires graph.wf(), graph.simple(), order.src_ok(), lists(order.src(), graph.vs()), forall|u: Vertex| !#[trigger] graph.adj(u, u)
//@ ensures r.wf(), r.vseq() == order.src(), r.vs() == graph.vs(), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == graph.adj(x, y), r.esize() == graph.esize(), forall|x: Vertex| #[trigger] r.deg(x) == graph.deg(x)
//@ unchain indices
//@ hint start
    proof { graph.lemma_wf(); lemma_edges_of(*graph); }
//@ closure 1 |vxp1: (usize, &Vertex)| -> (p: (Vertex, usize)) ensures p == (*vxp1.1, vxp1.0)
//@ hint after let indices 1
    proof { lemma_index_map(order@, indices_3.seq(), indices@); assert(indices@.dom() =~= graph.vs()); }
//@ loop 1
    it1_s == order@, nodes@.len() == it1.pos(), fresh_nodes(nodes@, order@),
//@ hint loop1.after
    proof { assert(node_seq(nodes@) =~= order@); lemma_built0(indices@, nodes@); }
//@ loop 2
    lists_edges(*graph, it2_s), index_ok(indices@, nodes@), node_seq(nodes@) == order@, built(indices@, nodes@, pre(it2_s, it2.pos())),
//@ hint loop2.start
    let ghost nodes0 = nodes@; let ghost done = pre(it2_s, (it2.pos() - 1) as nat);
    proof { assert(it2_s.contains((u, v))); assert(graph.adj(u, v)); }
//@ hint loop2.end
    proof { lemma_built_step(indices@, nodes0, nodes@, done, u, v); assert(node_seq(nodes@) =~= order@); }
//@ hint end
    proof { lemma_built_end(*graph, it2_s, vx_res); }
//@ end
}
pub open spec fn fresh_nodes(nodes: Seq<OrdNode>, o: Seq<Vertex>) -> bool { forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).v == o[i] && nodes[i].left@ == Set::<Vertex>::empty() && nodes[i].right@ == Set::<Vertex>::empty() }
pub open spec fn eadj(done: Set<Edge>, x: Vertex, y: Vertex) -> bool { done.contains((x, y)) || done.contains((y, x)) }
/// left and right neighbours according to the edges in done
#[verifier::opaque]
pub open spec fn built(ind: Map<Vertex, usize>, nodes: Seq<OrdNode>, done: Set<Edge>) -> bool {
    (forall|i: int, y: Vertex| 0 <= i < nodes.len() ==> (#[trigger] nodes[i].left@.contains(y) <==> eadj(done, nodes[i].v, y) && ind[y] < i))
    && forall|i: int, y: Vertex| 0 <= i < nodes.len() ==> (#[trigger] nodes[i].right@.contains(y) <==> eadj(done, nodes[i].v, y) && ind[y] > i)
}
pub proof fn lemma_built0(ind: Map<Vertex, usize>, nodes: Seq<OrdNode>)
    requires forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).left@ == Set::<Vertex>::empty() && nodes[i].right@ == Set::<Vertex>::empty()
    ensures built(ind, nodes, Set::empty())
{ reveal(built); }
pub proof fn lemma_built_step(ind: Map<Vertex, usize>, a: Seq<OrdNode>, b: Seq<OrdNode>, done: Set<Edge>, u: Vertex, v: Vertex)
    requires index_ok(ind, a), built(ind, a, done), ind.dom().contains(u), ind.dom().contains(v), u != v, a.len() == b.len(),
        forall|i: int| 0 <= i < a.len() ==> (#[trigger] b[i]).v == a[i].v
            && b[i].left@ == (if i == ind[v] && ind[u] < ind[v] { a[i].left@.insert(u) } else if i == ind[u] && ind[v] < ind[u] { a[i].left@.insert(v) } else { a[i].left@ })
            && b[i].right@ == (if i == ind[u] && ind[u] < ind[v] { a[i].right@.insert(v) } else if i == ind[v] && ind[v] < ind[u] { a[i].right@.insert(u) } else { a[i].right@ })
    ensures index_ok(ind, b), built(ind, b, done.insert((u, v)))
{
    reveal(built);
    let d2 = done.insert((u, v));
    assert(ind[u] != ind[v]);
    assert forall|i: int, y: Vertex| #![trigger b[i].left@.contains(y)] #![trigger b[i].right@.contains(y)] 0 <= i < b.len() implies (b[i].left@.contains(y) <==> eadj(d2, b[i].v, y) && ind[y] < i) && (b[i].right@.contains(y) <==> eadj(d2, b[i].v, y) && ind[y] > i) by {
        assert(a[i].left@.contains(y) <==> eadj(done, a[i].v, y) && ind[y] < i);
        assert(a[i].right@.contains(y) <==> eadj(done, a[i].v, y) && ind[y] > i);
        let x = a[i].v;
        assert(eadj(d2, x, y) == (eadj(done, x, y) || (x == u && y == v) || (x == v && y == u)));
        assert(ind[x] == i);
        assert((x == u) == (i == ind[u])) by { assert(a[ind[u] as int].v == u); }
        assert((x == v) == (i == ind[v])) by { assert(a[ind[v] as int].v == v); }
    }
    assert forall|i: int| 0 <= i < b.len() implies ind.dom().contains((#[trigger] b[i]).v) && ind[b[i].v] == i by { assert(ind[a[i].v] == i); }
}
pub proof fn lemma_built_end<G: Graph>(graph: G, s: Seq<Edge>, r: OrdGraph)
    requires graph.wf(), graph.simple(), lists_edges(graph, s), built(r.indices@, r.nodes@, s.to_set()), index_ok(r.indices@, r.nodes@), r.indices@.dom() == graph.vs(), r.m == graph.esize(), forall|u: Vertex| !#[trigger] graph.adj(u, u)
    ensures r.inv(), forall|x: Vertex, y: Vertex| #[trigger] oadj(r, x, y) == graph.adj(x, y), forall|x: Vertex| #[trigger] r.deg(x) == graph.deg(x)
{
    reveal(built); graph.lemma_wf();
    let ind = r.indices@; let d = s.to_set();
    assert forall|x: Vertex, y: Vertex| #[trigger] eadj(d, x, y) == graph.adj(x, y) by { assert(s.contains((x, y)) <==> x <= y && graph.adj(x, y)); assert(s.contains((y, x)) <==> y <= x && graph.adj(y, x)); assert(graph.adj(x, y) ==> graph.adj(y, x)); assert(graph.adj(y, x) ==> graph.adj(x, y)); }
    assert forall|x: Vertex, y: Vertex| #![trigger ol(r, x).contains(y)] #![trigger or(r, x).contains(y)] ind.dom().contains(x) implies (ol(r, x).contains(y) <==> graph.adj(x, y) && ind[y] < ind[x]) && (or(r, x).contains(y) <==> graph.adj(x, y) && ind[y] > ind[x]) by {
        let i = ind[x] as int; assert(r.nodes@[i].v == x);
        assert(r.nodes@[i].left@.contains(y) <==> eadj(d, x, y) && ind[y] < i); assert(r.nodes@[i].right@.contains(y) <==> eadj(d, x, y) && ind[y] > i);
    }
    assert forall|x: Vertex, y: Vertex| #[trigger] oadj(r, x, y) == graph.adj(x, y) by { if graph.adj(x, y) { assert(ind.dom().contains(x) && ind.dom().contains(y)); assert(r.nodes@[ind[x] as int].v == x && r.nodes@[ind[y] as int].v == y); assert(x != y); assert(ind[x] != ind[y]); assert(ol(r, x).contains(y) || or(r, x).contains(y)); } }
    let e = graph.eset();
    assert(is_eset(e, orel(r))) by { assert forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) <==> x <= y && orel(r)(x, y) by { assert(e.contains((x, y)) <==> x <= y && graph.adj(x, y)); assert(orel(r)(x, y) == oadj(r, x, y)); } }
    assert forall|x: Vertex, y: Vertex| #[trigger] oadj(r, x, y) implies oadj(r, y, x) by { assert(graph.adj(x, y)); assert(graph.adj(y, x)); }
    assert(r.rep());
    assert forall|x: Vertex| #[trigger] r.deg(x) == graph.deg(x) by {
        if graph.vs().contains(x) { r.lemma_nseq(x); let a = r.nseq(x); let b = graph.nseq(x); assert forall|y: Vertex| a.contains(y) == b.contains(y) by { assert(oadj(r, x, y) == graph.adj(x, y)); } a.unique_seq_to_set(); b.unique_seq_to_set(); assert(a.to_set() =~= b.to_set()) by { assert forall|y: Vertex| a.to_set().contains(y) == b.to_set().contains(y) by { assert(a.contains(y) == b.contains(y)); } } } }
}
// ---------------------------------------------------------------- swapping two vertices
pub open spec fn swapped(o: Seq<Vertex>, i: int, j: int) -> Seq<Vertex> { o.update(i, o[j]).update(j, o[i]) }
/// position of x after swapping u and v
pub open spec fn npos(g: OrdGraph, u: Vertex, v: Vertex, x: Vertex) -> int { if x == u { g.indices@[v] as int } else if x == v { g.indices@[u] as int } else { g.indices@[x] as int } }
/// y counts as left of x after k of the two vertices have been treated
pub open spec fn sleft(g: OrdGraph, u: Vertex, v: Vertex, k: nat, x: Vertex, y: Vertex) -> bool {
    if (k >= 1 && (x == u || (y == u && x != v))) || (k >= 2 && (x == v || (y == v && x != u))) { npos(g, u, v, y) < npos(g, u, v, x) } else { g.indices@[y] < g.indices@[x] }
}
pub open spec fn goes_left(g: OrdGraph, y: Vertex, old_i: usize, new_i: usize) -> bool { g.indices@[y] < new_i || (g.indices@[y] == new_i && old_i < new_i) }
pub open spec fn nd(nodes: Seq<OrdNode>, i: int) -> (Vertex, Set<Vertex>, Set<Vertex>) { (nodes[i].v, nodes[i].left@, nodes[i].right@) }
#[verifier::opaque]
pub open spec fn stage(g: OrdGraph, u: Vertex, v: Vertex, k: nat, nodes: Seq<OrdNode>) -> bool {
    nodes.len() == g.nodes@.len() && (forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).v == g.nodes@[i].v)
    && (forall|i: int, y: Vertex| 0 <= i < nodes.len() ==> (#[trigger] nodes[i].left@.contains(y) <==> oadj(g, nodes[i].v, y) && sleft(g, u, v, k, nodes[i].v, y)))
    && forall|i: int, y: Vertex| 0 <= i < nodes.len() ==> (#[trigger] nodes[i].right@.contains(y) <==> oadj(g, nodes[i].v, y) && !sleft(g, u, v, k, nodes[i].v, y))
}
/// while the k-th vertex is treated: its own node is done, and the nodes at the indices in done
pub open spec fn mleft(g: OrdGraph, u: Vertex, v: Vertex, k: nat, done: Set<usize>, i: int, x: Vertex, y: Vertex) -> bool {
    let s = if k == 0 { u } else { v };
    sleft(g, u, v, if x == s || (y == s && i <= usize::MAX && done.contains(i as usize)) { k + 1 } else { k }, x, y)
}
#[verifier::opaque]
pub open spec fn mid(g: OrdGraph, u: Vertex, v: Vertex, k: nat, done: Set<usize>, nodes: Seq<OrdNode>) -> bool {
    nodes.len() == g.nodes@.len() && (forall|i: int| 0 <= i < nodes.len() ==> (#[trigger] nodes[i]).v == g.nodes@[i].v)
    && (forall|i: int, y: Vertex| 0 <= i < nodes.len() ==> (#[trigger] nodes[i].left@.contains(y) <==> oadj(g, nodes[i].v, y) && mleft(g, u, v, k, done, i, nodes[i].v, y)))
    && forall|i: int, y: Vertex| 0 <= i < nodes.len() ==> (#[trigger] nodes[i].right@.contains(y) <==> oadj(g, nodes[i].v, y) && !mleft(g, u, v, k, done, i, nodes[i].v, y))
}
/// i is the position of a neighbour of s
pub open spec fn is_nbr_ix(g: OrdGraph, s: Vertex, i: usize) -> bool { i < g.nodes@.len() && oadj(g, s, g.nodes@[i as int].v) }
pub proof fn lemma_stage0(g: OrdGraph, u: Vertex, v: Vertex)
    requires g.rep()
    ensures stage(g, u, v, 0, g.nodes@)
{
    reveal(stage);
    assert forall|i: int, y: Vertex| 0 <= i < g.nodes@.len() implies (#[trigger] g.nodes@[i].left@.contains(y) <==> oadj(g, g.nodes@[i].v, y) && sleft(g, u, v, 0, g.nodes@[i].v, y)) by { g.lemma_sides(i, y); }
    assert forall|i: int, y: Vertex| 0 <= i < g.nodes@.len() implies (#[trigger] g.nodes@[i].right@.contains(y) <==> oadj(g, g.nodes@[i].v, y) && !sleft(g, u, v, 0, g.nodes@[i].v, y)) by { g.lemma_sides(i, y); }
}
pub proof fn lemma_stage_node(g: OrdGraph, u: Vertex, v: Vertex, k: nat, nodes: Seq<OrdNode>, s: Vertex)
    requires g.rep(), stage(g, u, v, k, nodes), g.indices@.dom().contains(s)
    ensures g.indices@[s] < nodes.len(), nodes.len() == g.nodes@.len(), nodes[g.indices@[s] as int].v == s, forall|y: Vertex| nodes[g.indices@[s] as int].left.order().contains(y) || nodes[g.indices@[s] as int].right.order().contains(y) <==> #[trigger] oadj(g, s, y)
{
    reveal(stage); let i = g.indices@[s] as int; assert(g.nodes@[i].v == s); let n = nodes[i];
    assert forall|y: Vertex| n.left.order().contains(y) || n.right.order().contains(y) <==> #[trigger] oadj(g, s, y) by { assert(n.left.order().contains(y) == n.left@.contains(y)); assert(n.right.order().contains(y) == n.right@.contains(y)); }
}
pub proof fn lemma_mid0(g: OrdGraph, u: Vertex, v: Vertex, k: nat, a: Seq<OrdNode>, b: Seq<OrdNode>, s: Vertex)
    requires g.rep(), k < 2, stage(g, u, v, k, a), u != v, g.indices@.dom().contains(u), g.indices@.dom().contains(v), s == (if k == 0 { u } else { v }), b.len() == a.len(),
        forall|i: int| 0 <= i < a.len() && i != g.indices@[s] ==> #[trigger] b[i] == a[i],
        b[g.indices@[s] as int].v == s,
        forall|y: Vertex| #[trigger] b[g.indices@[s] as int].left@.contains(y) <==> oadj(g, s, y) && goes_left(g, y, g.indices@[s], npos(g, u, v, s) as usize),
        forall|y: Vertex| #[trigger] b[g.indices@[s] as int].right@.contains(y) <==> oadj(g, s, y) && !goes_left(g, y, g.indices@[s], npos(g, u, v, s) as usize),
    ensures mid(g, u, v, k, Set::empty(), b)
{
    reveal(stage); reveal(mid);
    let si = g.indices@[s] as int; assert(g.nodes@[si].v == s);
    assert forall|i: int, y: Vertex| 0 <= i < b.len() && oadj(g, b[i].v, y) implies #[trigger] mleft(g, u, v, k, Set::empty(), i, b[i].v, y) == (if i == si { goes_left(g, y, g.indices@[s], npos(g, u, v, s) as usize) } else { sleft(g, u, v, k, b[i].v, y) }) by {
        let x = b[i].v; assert(g.nodes@[i].v == x); assert(g.indices@[x] == i); g.lemma_ends(x, y);
        if i == si { assert(x == s); assert(g.nodes@[g.indices@[y] as int].v == y); assert(y != s); assert(g.nodes@[g.indices@[u] as int].v == u); assert(g.nodes@[g.indices@[v] as int].v == v); } else { assert(x != s); }
    }
    assert forall|i: int, y: Vertex| 0 <= i < b.len() implies (#[trigger] b[i].left@.contains(y) <==> oadj(g, b[i].v, y) && mleft(g, u, v, k, Set::empty(), i, b[i].v, y)) by { if i != si { assert(b[i] == a[i]); assert(a[i].left@.contains(y) <==> oadj(g, a[i].v, y) && sleft(g, u, v, k, a[i].v, y)); } }
    assert forall|i: int, y: Vertex| 0 <= i < b.len() implies (#[trigger] b[i].right@.contains(y) <==> oadj(g, b[i].v, y) && !mleft(g, u, v, k, Set::empty(), i, b[i].v, y)) by { if i != si { assert(b[i] == a[i]); assert(a[i].right@.contains(y) <==> oadj(g, a[i].v, y) && !sleft(g, u, v, k, a[i].v, y)); } }
}
pub proof fn lemma_mid_node(g: OrdGraph, u: Vertex, v: Vertex, k: nat, done: Set<usize>, nodes: Seq<OrdNode>, s: Vertex, j: usize)
    requires g.rep(), mid(g, u, v, k, done, nodes), is_nbr_ix(g, s, j)
    ensures j < nodes.len()
{ reveal(mid); }
pub proof fn lemma_mid_step(g: OrdGraph, u: Vertex, v: Vertex, k: nat, done: Set<usize>, a: Seq<OrdNode>, b: Seq<OrdNode>, s: Vertex, j: usize, new_i: usize)
    requires g.rep(), k < 2, mid(g, u, v, k, done, a), u != v, g.indices@.dom().contains(u), g.indices@.dom().contains(v), s == (if k == 0 { u } else { v }), is_nbr_ix(g, s, j), new_i == npos(g, u, v, s), b.len() == a.len(),
        forall|i: int| 0 <= i < a.len() && i != j ==> #[trigger] b[i] == a[i],
        b[j as int].v == a[j as int].v,
        b[j as int].left@ == (if new_i > j && a[j as int].left@.contains(s) { a[j as int].left@.remove(s) } else if new_i < j && a[j as int].right@.contains(s) { a[j as int].left@.insert(s) } else { a[j as int].left@ }),
        b[j as int].right@ == (if new_i > j && a[j as int].left@.contains(s) { a[j as int].right@.insert(s) } else if new_i < j && a[j as int].right@.contains(s) { a[j as int].right@.remove(s) } else { a[j as int].right@ }),
    ensures mid(g, u, v, k, done.insert(j), b)
{
    reveal(mid);
    let d2 = done.insert(j); let w = g.nodes@[j as int].v; assert(g.indices@[w] == j); g.lemma_ends(s, w); assert(oadj(g, w, s));
    assert(g.nodes@[g.indices@[u] as int].v == u); assert(g.nodes@[g.indices@[v] as int].v == v);
    assert(w != s);
    assert forall|i: int, y: Vertex| 0 <= i < b.len() && !(i == j && y == s) implies #[trigger] mleft(g, u, v, k, d2, i, b[i].v, y) == mleft(g, u, v, k, done, i, b[i].v, y) by { if i != j && i <= usize::MAX { assert(i as usize as int == i); assert(d2.contains(i as usize) == done.contains(i as usize)); } }
    assert(a[j as int].left@.contains(s) <==> oadj(g, w, s) && mleft(g, u, v, k, done, j as int, w, s));
    assert(a[j as int].right@.contains(s) <==> oadj(g, w, s) && !mleft(g, u, v, k, done, j as int, w, s));
    assert(mleft(g, u, v, k, d2, j as int, w, s) == (if new_i == j { mleft(g, u, v, k, done, j as int, w, s) } else { new_i < j }));
    assert forall|i: int, y: Vertex| 0 <= i < b.len() implies (#[trigger] b[i].left@.contains(y) <==> oadj(g, b[i].v, y) && mleft(g, u, v, k, d2, i, b[i].v, y)) by {
        assert(a[i].left@.contains(y) <==> oadj(g, a[i].v, y) && mleft(g, u, v, k, done, i, a[i].v, y)); if i != j { assert(b[i] == a[i]); } }
    assert forall|i: int, y: Vertex| 0 <= i < b.len() implies (#[trigger] b[i].right@.contains(y) <==> oadj(g, b[i].v, y) && !mleft(g, u, v, k, d2, i, b[i].v, y)) by {
        assert(a[i].right@.contains(y) <==> oadj(g, a[i].v, y) && !mleft(g, u, v, k, done, i, a[i].v, y)); if i != j { assert(b[i] == a[i]); } }
}
pub proof fn lemma_mid_end(g: OrdGraph, u: Vertex, v: Vertex, k: nat, done: Set<usize>, nodes: Seq<OrdNode>, s: Vertex)
    requires g.rep(), k < 2, mid(g, u, v, k, done, nodes), u != v, s == (if k == 0 { u } else { v }), forall|y: Vertex| oadj(g, s, y) ==> done.contains(#[trigger] g.indices@[y])
    ensures stage(g, u, v, k + 1, nodes)
{
    reveal(mid); reveal(stage);
    assert forall|i: int, y: Vertex| 0 <= i < nodes.len() && oadj(g, nodes[i].v, y) implies #[trigger] mleft(g, u, v, k, done, i, nodes[i].v, y) == sleft(g, u, v, k + 1, nodes[i].v, y) by {
        let x = nodes[i].v; assert(g.nodes@[i].v == x); assert(g.indices@[x] == i);
        if y == s { assert(oadj(g, s, x)); assert(done.contains(g.indices@[x])); }
    }
    assert forall|i: int, y: Vertex| 0 <= i < nodes.len() implies (#[trigger] nodes[i].left@.contains(y) <==> oadj(g, nodes[i].v, y) && sleft(g, u, v, k + 1, nodes[i].v, y)) by { if oadj(g, nodes[i].v, y) { assert(mleft(g, u, v, k, done, i, nodes[i].v, y) == sleft(g, u, v, k + 1, nodes[i].v, y)); } }
    assert forall|i: int, y: Vertex| 0 <= i < nodes.len() implies (#[trigger] nodes[i].right@.contains(y) <==> oadj(g, nodes[i].v, y) && !sleft(g, u, v, k + 1, nodes[i].v, y)) by { if oadj(g, nodes[i].v, y) { assert(mleft(g, u, v, k, done, i, nodes[i].v, y) == sleft(g, u, v, k + 1, nodes[i].v, y)); } }
}
pub proof fn lemma_swap_end(g: OrdGraph, r: OrdGraph, u: Vertex, v: Vertex)
    requires g.inv(), u != v, g.indices@.dom().contains(u), g.indices@.dom().contains(v), r.m == g.m,
        r.indices@ == g.indices@.insert(u, g.indices@[v]).insert(v, g.indices@[u]),
        exists|n: Seq<OrdNode>| #[trigger] stage(g, u, v, 2, n) && r.nodes@ == n.update(g.indices@[u] as int, n[g.indices@[v] as int]).update(g.indices@[v] as int, n[g.indices@[u] as int])
    ensures r.inv(), r.indices@.dom() == g.indices@.dom(), r.vseq() == swapped(g.vseq(), g.indices@[u] as int, g.indices@[v] as int), forall|x: Vertex, y: Vertex| #[trigger] oadj(r, x, y) == oadj(g, x, y), forall|x: Vertex| #[trigger] r.deg(x) == g.deg(x)
{
    let n = choose|n: Seq<OrdNode>| #[trigger] stage(g, u, v, 2, n) && r.nodes@ == n.update(g.indices@[u] as int, n[g.indices@[v] as int]).update(g.indices@[v] as int, n[g.indices@[u] as int]);
    reveal(stage);
    let a = g.indices@; let b = r.indices@; let iu = a[u] as int; let iv = a[v] as int;
    assert(g.nodes@[iu].v == u && g.nodes@[iv].v == v); assert(iu != iv);
    assert(b.dom() =~= a.dom());
    assert(r.vseq() =~= swapped(g.vseq(), iu, iv));
    assert forall|x: Vertex| a.dom().contains(x) implies #[trigger] b[x] == npos(g, u, v, x) && b[x] < n.len() && r.nodes@[b[x] as int] == n[a[x] as int] && n[a[x] as int].v == x by { assert(g.nodes@[a[x] as int].v == x); }
    assert forall|x: Vertex, y: Vertex| a.dom().contains(x) && oadj(g, x, y) implies #[trigger] sleft(g, u, v, 2, x, y) == (b[y] < b[x]) && b[y] != b[x] by { g.lemma_ends(x, y); assert(b[x] == npos(g, u, v, x)); assert(b[y] == npos(g, u, v, y)); assert(g.nodes@[a[x] as int].v == x); assert(g.nodes@[a[y] as int].v == y); }
    assert forall|x: Vertex, y: Vertex| #![trigger ol(r, x).contains(y)] #![trigger or(r, x).contains(y)] a.dom().contains(x) implies (ol(r, x).contains(y) <==> oadj(g, x, y) && b[y] < b[x]) && (or(r, x).contains(y) <==> oadj(g, x, y) && b[y] > b[x]) by {
        assert(b[x] == npos(g, u, v, x)); let i = a[x] as int;
        assert(n[i].left@.contains(y) <==> oadj(g, n[i].v, y) && sleft(g, u, v, 2, n[i].v, y)); assert(n[i].right@.contains(y) <==> oadj(g, n[i].v, y) && !sleft(g, u, v, 2, n[i].v, y));
        if oadj(g, x, y) { assert(sleft(g, u, v, 2, x, y) == (b[y] < b[x])); }
    }
    assert forall|x: Vertex, y: Vertex| #[trigger] oadj(r, x, y) == oadj(g, x, y) by { if a.dom().contains(x) { assert(ol(r, x).contains(y) <==> oadj(g, x, y) && b[y] < b[x]); if oadj(g, x, y) { assert(sleft(g, u, v, 2, x, y) == (b[y] < b[x])); } } }
    assert forall|x: Vertex, y: Vertex| #[trigger] oadj(r, x, y) implies oadj(r, y, x) by { assert(oadj(g, x, y)); assert(oadj(g, y, x)); }
    assert(index_ok(b, r.nodes@)) by {
        assert forall|i: int| 0 <= i < r.nodes@.len() implies b.dom().contains((#[trigger] r.nodes@[i]).v) && b[r.nodes@[i].v] == i by { let j = if i == iu { iv } else if i == iv { iu } else { i }; assert(g.nodes@[j].v == n[j].v); assert(a[g.nodes@[j].v] == j); assert(r.nodes@[i] == n[j]); }
        assert forall|x: Vertex| #[trigger] b.dom().contains(x) implies b[x] < r.nodes@.len() && r.nodes@[b[x] as int].v == x by { assert(b[x] == npos(g, u, v, x)); }
    }
    assert(r.rep());
    let e = g.eset(); g.lemma_wf(); assert(is_eset(e, orel(g)));
    assert(is_eset(e, orel(r))) by { assert forall|x: Vertex, y: Vertex| #[trigger] e.contains((x, y)) <==> x <= y && orel(r)(x, y) by { assert(e.contains((x, y)) <==> x <= y && orel(g)(x, y)); assert(oadj(r, x, y) == oadj(g, x, y)); } }
    assert forall|x: Vertex| #[trigger] r.deg(x) == g.deg(x) by {
        if a.dom().contains(x) { r.lemma_nseq(x); g.lemma_nseq(x); let p = r.nseq(x); let q = g.nseq(x); p.unique_seq_to_set(); q.unique_seq_to_set(); assert(p.to_set() =~= q.to_set()) by { assert forall|y: Vertex| p.to_set().contains(y) == q.to_set().contains(y) by { assert(p.contains(y) == r.adj(x, y)); assert(q.contains(y) == g.adj(x, y)); assert(oadj(r, x, y) == oadj(g, x, y)); } } } }
}
impl OrdGraph {
    pub proof fn lemma_ends(&self, x: Vertex, y: Vertex)
        requires self.rep(), oadj(*self, x, y)
        ensures self.indices@.dom().contains(x), self.indices@.dom().contains(y), oadj(*self, y, x), x != y
    { assert(oadj(*self, y, x)); if ol(*self, x).contains(y) { assert(self.indices@[y] < self.indices@[x]); } else { assert(self.indices@[y] > self.indices@[x]); } }
    pub proof fn lemma_sides(&self, i: int, y: Vertex)
        requires self.rep(), 0 <= i < self.nodes@.len()
        ensures self.nodes@[i].left@.contains(y) <==> oadj(*self, self.nodes@[i].v, y) && self.indices@[y] < self.indices@[self.nodes@[i].v], self.nodes@[i].right@.contains(y) <==> oadj(*self, self.nodes@[i].v, y) && !(self.indices@[y] < self.indices@[self.nodes@[i].v])
    {
        let x = self.nodes@[i].v; assert(self.indices@[x] == i); assert(ol(*self, x).contains(y) == self.nodes@[i].left@.contains(y)); assert(or(*self, x).contains(y) == self.nodes@[i].right@.contains(y));
        if ol(*self, x).contains(y) { assert(self.indices@[y] < self.indices@[x]); } if or(*self, x).contains(y) { assert(self.indices@[y] > self.indices@[x]); }
    }
}
} // verus!
