verus! {
//@ props C23
// ===================================================================== augmentations
//@ struct dtfgraph.rs DTFGraph
//@ struct dtfgraph.rs DTFLayer
//@ struct dtfgraph.rs DTFNode
/// there is an arc u -> v of weight i + 1
pub open spec fn darc(m: Map<Vertex, DTFNode>, i: int, u: Vertex, v: Vertex) -> bool {
    m.dom().contains(v) && 0 <= i < m[v].in_arcs@.len() && m[v].in_arcs@[i]@.contains(u)
}
/// there is an arc u -> v of some weight
pub open spec fn anyarc(m: Map<Vertex, DTFNode>, u: Vertex, v: Vertex) -> bool { exists|i: int| #[trigger] darc(m, i, u, v) }
/// ends of the arcs of weight i + 1 leaving u
pub open spec fn outset(m: Map<Vertex, DTFNode>, i: int, u: Vertex) -> Set<Vertex> { m.dom().filter(|v: Vertex| darc(m, i, u, v)) }
/// a is the set of arcs of weight i + 1
pub open spec fn dok(a: Set<Arc>, m: Map<Vertex, DTFNode>, i: int) -> bool { forall|x: Vertex, y: Vertex| #[trigger] a.contains((x, y)) <==> darc(m, i, x, y) }
/// k is the number of arcs of weight i + 1
pub open spec fn ms_ok(m: Map<Vertex, DTFNode>, i: int, k: int) -> bool { exists|a: Set<Arc>| dok(a, m, i) && #[trigger] a.len() == k }
/// the in-neighbours listed by the first sets, in order
pub open spec fn inall(a: Seq<VertexSet>) -> Seq<Vertex> decreases a.len() { if a.len() == 0 { Seq::empty() } else { inall(a.drop_last()) + a.last().order() } }
/// number of arcs leaving u of weight at most d
pub open spec fn outsum(m: Map<Vertex, DTFNode>, d: nat, u: Vertex) -> nat decreases d { if d == 0 { 0 } else { outsum(m, (d - 1) as nat, u) + outset(m, d - 1, u).len() } }
pub open spec fn insum(a: Seq<VertexSet>) -> nat decreases a.len() { if a.len() == 0 { 0 } else { insum(a.drop_last()) + a.last()@.len() } }
impl DTFNode {
    /// every per-weight list has length d and the in-degrees match the in-arc sets
    pub open spec fn nd(&self, d: int) -> bool {
        self.in_arcs@.len() == d && self.in_degs@.len() == d && self.out_degs@.len() == d && forall|i: int| 0 <= i < d ==> (#[trigger] self.in_degs@[i]) as nat == self.in_arcs@[i]@.len()
    }
}
pub proof fn lemma_usum_in(a: Seq<VertexSet>, s: Seq<u32>)
    requires a.len() == s.len(), forall|i: int| 0 <= i < a.len() ==> (#[trigger] s[i]) as nat == a[i]@.len()
    ensures usum(s) == insum(a)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last(); let t = s.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies (#[trigger] t[i]) as nat == b[i]@.len() by { assert(t[i] == s[i]); }
        lemma_usum_in(b, t); assert(s.last() as nat == a.last()@.len());
    }
}
pub proof fn lemma_usum_out(m: Map<Vertex, DTFNode>, u: Vertex, s: Seq<u32>)
    requires forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]) as nat == outset(m, i, u).len()
    ensures usum(s) == outsum(m, s.len(), u)
    decreases s.len()
{
    if s.len() > 0 {
        let t = s.drop_last();
        assert forall|i: int| 0 <= i < t.len() implies (#[trigger] t[i]) as nat == outset(m, i, u).len() by { assert(t[i] == s[i]); }
        lemma_usum_out(m, u, t); assert(s[s.len() - 1] as nat == outset(m, s.len() - 1, u).len());
    }
}
pub proof fn lemma_inall(a: Seq<VertexSet>)
    ensures forall|x: Vertex| #[trigger] inall(a).contains(x) <==> exists|i: int| 0 <= i < a.len() && #[trigger] a[i]@.contains(x), inall(a).len() == insum(a)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last(); lemma_inall(b); lemma_concat_mem(inall(b), a.last().order());
        let l = a.last();
        assert(lists(l.order(), l@));
        assert(inall(a) =~= inall(b) + l.order());
        lemma_count(l.order(), l@);
        assert forall|x: Vertex| #[trigger] inall(a).contains(x) <==> exists|i: int| 0 <= i < a.len() && #[trigger] a[i]@.contains(x) by {
            assert((inall(b) + l.order()).contains(x) <==> inall(b).contains(x) || l.order().contains(x));
            if inall(b).contains(x) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i]@.contains(x); assert(a[i]@.contains(x)); }
            if l.order().contains(x) { assert(a[a.len() - 1]@.contains(x)); }
            if exists|i: int| 0 <= i < a.len() && #[trigger] a[i]@.contains(x) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i]@.contains(x); if i < a.len() - 1 { assert(b[i]@.contains(x)); } }
        }
    }
}
pub proof fn lemma_flat_inall<'a>(a: Seq<VertexSet>, p: Seq<Seq<Vertex>>)
    requires p.len() == a.len(), forall|i: int| 0 <= i < a.len() ==> #[trigger] p[i] == a[i].order()
    ensures flat(p) == inall(a)
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last(); let q = p.drop_last();
        assert forall|i: int| 0 <= i < b.len() implies #[trigger] q[i] == b[i].order() by { assert(q[i] == p[i]); }
        lemma_flat_inall(b, q); assert(p.last() == a.last().order());
    }
}
impl DTFNode {
//@ fn dtfgraph.rs impl:DTFNode new
//@ ensures r.nd(depth as int), forall|i: int| 0 <= i < depth ==> (#[trigger] r.in_arcs@[i])@ == Set::<Vertex>::empty(), forall|i: int| 0 <= i < depth ==> #[trigger] r.out_degs@[i] == 0
//@ loop 1
    vsets(in_arcs).len() == it1.pos(), it1_s.len() == depth, forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] vsets(in_arcs)[i])@ == Set::<Vertex>::empty(),
//@ hint end
    proof { assert forall|i: int| 0 <= i < depth implies (#[trigger] vx_res.in_degs@[i]) as nat == vx_res.in_arcs@[i]@.len() by { assert(vx_res.in_arcs@[i]@ == Set::<Vertex>::empty()); } }
//@ end
//@ fn dtfgraph.rs impl:DTFNode reserve_depth
//@ requires old(self).nd(old(self).in_arcs@.len() as int)
//@ ensures
    final(self).nd(if depth > old(self).in_arcs@.len() { depth as int } else { old(self).in_arcs@.len() as int }),
    grown(*old(self), *final(self))
//@ loop 1
    self.nd(self.in_arcs@.len() as int), self.in_arcs@.len() <= depth || self.in_arcs@.len() == old(self).in_arcs@.len(), self.in_arcs@.len() >= old(self).in_arcs@.len(),
    grown(*old(self), *self),
//@ loopdec 1 depth - self.in_arcs@.len()
//@ hint loop1.start
    let ghost n0 = *self;
//@ hint loop1.end
    proof {
        let l = n0.in_arcs@.len() as int;
        assert forall|i: int| 0 <= i < self.in_arcs@.len() implies (#[trigger] self.in_degs@[i]) as nat == self.in_arcs@[i]@.len() by { if i < l { assert(self.in_degs@[i] == n0.in_degs@[i]); assert(self.in_arcs@[i] == n0.in_arcs@[i]); } else { assert(self.in_arcs@[i]@ == Set::<Vertex>::empty()); } }
        assert forall|i: int| 0 <= i < old(self).in_arcs@.len() implies (#[trigger] self.in_arcs@[i]) == old(self).in_arcs@[i] by { assert(n0.in_arcs@[i] == old(self).in_arcs@[i]); }
        assert forall|i: int| old(self).in_arcs@.len() <= i < self.in_arcs@.len() implies (#[trigger] self.in_arcs@[i])@ == Set::<Vertex>::empty() by { if i < l { assert(n0.in_arcs@[i]@ == Set::<Vertex>::empty()); } }
        assert forall|i: int| 0 <= i < old(self).in_arcs@.len() implies (#[trigger] self.out_degs@[i]) == old(self).out_degs@[i] by { assert(n0.out_degs@[i] == old(self).out_degs@[i]); }
        assert forall|i: int| old(self).in_arcs@.len() <= i < self.in_arcs@.len() implies (#[trigger] self.out_degs@[i]) == 0 by { if i < l { assert(n0.out_degs@[i] == 0); } }
    }
//@ end
//@ fn dtfgraph.rs impl:DTFNode has_in_neighbour
//@ ensures r == exists|i: int| 0 <= i < self.in_arcs@.len() && #[trigger] self.in_arcs@[i]@.contains(*v)
//@ loop 1
    it1_s == self.in_arcs@, forall|i: int| 0 <= i < it1.pos() ==> !#[trigger] self.in_arcs@[i]@.contains(*v),
//@ end
//@ fn dtfgraph.rs impl:DTFNode has_in_neighbour_at
//@ requires depth >= 1
//@ ensures r == (depth <= self.in_arcs@.len() && self.in_arcs@[depth - 1]@.contains(*v))
//@ end
//@ fn dtfgraph.rs impl:DTFNode get_arc_depth_from
//@ requires self.in_arcs@.len() <= u32::MAX
//@ ensures
    r.is_some() == exists|i: int| 0 <= i < self.in_arcs@.len() && #[trigger] self.in_arcs@[i]@.contains(*v),
    r.is_some() ==> 1 <= r->0 <= self.in_arcs@.len() && self.in_arcs@[r->0 - 1]@.contains(*v) && forall|i: int| 0 <= i < r->0 - 1 ==> !#[trigger] self.in_arcs@[i]@.contains(*v)
//@ loop 1
    it1_s.len() == self.in_arcs@.len(), forall|i: int| 0 <= i < it1_s.len() ==> *(#[trigger] it1_s[i]).1 == self.in_arcs@[i] && it1_s[i].0 == i,
    forall|i: int| 0 <= i < it1.pos() ==> !#[trigger] self.in_arcs@[i]@.contains(*v),
//@ end
//@ fn dtfgraph.rs impl:DTFNode in_neighbours
//@ ensures r.pos() == 0, r.seq() == inall(self.in_arcs@)
//@ closure 1 |N: &VertexSet| -> (y: RIt<Vertex>) ensures y.pos() == 0 && y.seq() == N.order()
//@ hint end
    proof {
        let a = self.in_arcs@;
        assert(exists|p: Seq<Seq<Vertex>>| p.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] p[i] == a[i].order()) && vx_res.seq() == #[trigger] flat(p));
        let p = choose|p: Seq<Seq<Vertex>>| p.len() == a.len() && (forall|i: int| 0 <= i < a.len() ==> #[trigger] p[i] == a[i].order()) && vx_res.seq() == #[trigger] flat(p);
        lemma_flat_inall(a, p);
    }
//@ end
//@ fn dtfgraph.rs impl:DTFNode in_neighbours_at
//@ requires 1 <= depth <= self.in_arcs@.len()
//@ ensures r.pos() == 0, r.seq() == self.in_arcs@[depth - 1].order(), lists(r.seq(), self.in_arcs@[depth - 1]@)
//@ end
//@ fn dtfgraph.rs impl:DTFNode in_degree
//@ requires self.in_degs@.len() > 0, usum(self.in_degs@) <= u32::MAX
//@ ensures r == usum(self.in_degs@)
//@ end
//@ fn dtfgraph.rs impl:DTFNode out_degree
//@ requires self.out_degs@.len() > 0, usum(self.out_degs@) <= u32::MAX
//@ ensures r == usum(self.out_degs@)
//@ end
//@ fn dtfgraph.rs impl:DTFNode degree
//@ requires self.out_degs@.len() > 0, self.in_degs@.len() > 0, usum(self.out_degs@) + usum(self.in_degs@) <= u32::MAX
//@ ensures r == usum(self.out_degs@) + usum(self.in_degs@)
//@ end
}
pub open spec fn vsets(v: Vec<VertexSet>) -> Seq<VertexSet> { v@ }
/// b is a with empty sets appended
pub open spec fn grown(a: DTFNode, b: DTFNode) -> bool {
    &&& b.in_arcs@.len() >= a.in_arcs@.len()
    &&& forall|i: int| 0 <= i < a.in_arcs@.len() ==> #[trigger] b.in_arcs@[i] == a.in_arcs@[i]
    &&& forall|i: int| a.in_arcs@.len() <= i < b.in_arcs@.len() ==> (#[trigger] b.in_arcs@[i])@ == Set::<Vertex>::empty()
    &&& forall|i: int| 0 <= i < a.in_arcs@.len() ==> #[trigger] b.out_degs@[i] == a.out_degs@[i]
    &&& forall|i: int| a.in_arcs@.len() <= i < b.in_arcs@.len() ==> #[trigger] b.out_degs@[i] == 0
}
impl DTFGraph {
    pub open spec fn vs(&self) -> Set<Vertex> { self.nodes@.dom() }
    pub open spec fn m(&self) -> Map<Vertex, DTFNode> { self.nodes@ }
    pub open spec fn arc_at(&self, d: int, u: Vertex, v: Vertex) -> bool { darc(self.nodes@, d - 1, u, v) }
    pub open spec fn arc(&self, u: Vertex, v: Vertex) -> bool { anyarc(self.nodes@, u, v) }
    pub open spec fn wf(&self) -> bool {
        &&& self.depth >= 1
        &&& self.ms@.len() == self.depth
        &&& forall|v: Vertex| #[trigger] self.nodes@.dom().contains(v) ==> self.nodes@[v].nd(self.depth as int)
        &&& forall|i: int, u: Vertex, v: Vertex| #[trigger] darc(self.nodes@, i, u, v) ==> self.nodes@.dom().contains(u)
        &&& forall|i: int, u: Vertex| 0 <= i < self.depth && self.nodes@.dom().contains(u) ==> (#[trigger] self.nodes@[u].out_degs@[i]) as nat == outset(self.nodes@, i, u).len()
        &&& forall|i: int| 0 <= i < self.depth ==> ms_ok(self.nodes@, i, #[trigger] self.ms@[i] as int)
    }
}
impl DTFGraph {
    pub proof fn lemma_in(&self, v: Vertex, i: int)
        requires self.wf(), self.vs().contains(v), 0 <= i < self.depth
        ensures lists(self.nodes@[v].in_arcs@[i].order(), self.nodes@[v].in_arcs@[i]@), forall|x: Vertex| #[trigger] self.nodes@[v].in_arcs@[i]@.contains(x) <==> darc(self.nodes@, i, x, v),
            self.nodes@[v].in_degs@[i] as nat == self.nodes@[v].in_arcs@[i]@.len(), self.nodes@[v].in_arcs@[i]@.len() < 0x8000_0000, self.vs().len() < 0x8000_0000
    { assert(self.nodes@[v].nd(self.depth as int)); assert(lists(self.nodes.order(), self.nodes@.dom())); }
    pub proof fn lemma_out(&self, u: Vertex, i: int)
        requires self.wf(), self.vs().contains(u), 0 <= i < self.depth
        ensures self.nodes@[u].out_degs@[i] as nat == outset(self.nodes@, i, u).len(), outset(self.nodes@, i, u).len() <= self.vs().len(), self.vs().len() < 0x8000_0000
    { assert(lists(self.nodes.order(), self.nodes@.dom())); vstd::set_lib::lemma_len_subset(outset(self.nodes@, i, u), self.vs()); }
    pub proof fn lemma_ms(&self, i: int)
        requires self.wf(), 0 <= i < self.depth
        ensures self.ms@[i] < 0xffff_ffff_ffff_ffff, ms_ok(self.nodes@, i, self.ms@[i] as int)
    {
        assert(ms_ok(self.nodes@, i, self.ms@[i] as int));
        let a = choose|a: Set<Arc>| dok(a, self.nodes@, i) && #[trigger] a.len() == self.ms@[i];
        assert(lists(self.nodes.order(), self.nodes@.dom()));
        assert forall|x: Vertex, y: Vertex| #[trigger] a.contains((x, y)) implies self.vs().contains(x) by { assert(darc(self.nodes@, i, x, y)); }
        lemma_arc_count(a, self.vs());
    }
    pub proof fn lemma_ends(&self)
        requires self.wf()
        ensures forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(self.nodes@, i, x, y) ==> self.vs().contains(x) && self.vs().contains(y) && 0 <= i < self.depth,
            forall|x: Vertex, y: Vertex| #[trigger] anyarc(self.nodes@, x, y) ==> self.vs().contains(x) && self.vs().contains(y)
    {
        assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(self.nodes@, i, x, y) implies self.vs().contains(x) && self.vs().contains(y) && 0 <= i < self.depth by { assert(self.nodes@[y].nd(self.depth as int)); }
        assert forall|x: Vertex, y: Vertex| #[trigger] anyarc(self.nodes@, x, y) implies self.vs().contains(x) && self.vs().contains(y) by { let i = choose|i: int| #[trigger] darc(self.nodes@, i, x, y); }
    }
}
/// one arc u -> v of weight i0 + 1 more (or already present)
pub proof fn lemma_added(g0: DTFGraph, g: DTFGraph, i0: int, u: Vertex, v: Vertex)
    requires g0.wf(), 0 <= i0 < g.depth, g.depth == g0.depth, g.ms@.len() == g0.ms@.len(), g.vs() == g0.vs().insert(u).insert(v),
        forall|y: Vertex| #[trigger] g.vs().contains(y) ==> g.nodes@[y].nd(g.depth as int),
        forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(g.nodes@, i, x, y) == (darc(g0.nodes@, i, x, y) || (i == i0 && x == u && y == v)),
        forall|i: int, x: Vertex| 0 <= i < g.depth && g.vs().contains(x) ==> (#[trigger] g.nodes@[x].out_degs@[i]) as nat == (if g0.vs().contains(x) { g0.nodes@[x].out_degs@[i] as nat } else { 0 }) + (if i == i0 && x == u && !darc(g0.nodes@, i0, u, v) { 1nat } else { 0nat }),
        forall|i: int| 0 <= i < g.depth ==> #[trigger] g.ms@[i] == g0.ms@[i] + (if i == i0 && !darc(g0.nodes@, i0, u, v) { 1int } else { 0 }),
    ensures g.wf()
{
    g0.lemma_ends();
    let new = !darc(g0.nodes@, i0, u, v);
    assert forall|i: int, x: Vertex| 0 <= i < g.depth && g.vs().contains(x) implies (#[trigger] g.nodes@[x].out_degs@[i]) as nat == outset(g.nodes@, i, x).len() by {
        let a = outset(g0.nodes@, i, x); let b = outset(g.nodes@, i, x);
        if i == i0 && x == u { assert(b =~= a.insert(v)); } else {
            assert forall|y: Vertex| a.contains(y) <==> #[trigger] b.contains(y) by { assert(darc(g.nodes@, i, x, y) == darc(g0.nodes@, i, x, y)); }
            assert(b =~= a); }
        if g0.vs().contains(x) { assert(g0.nodes@[x].out_degs@[i] as nat == a.len()); } else { assert(a =~= Set::<Vertex>::empty()) by { assert forall|y: Vertex| !#[trigger] a.contains(y) by { if a.contains(y) { assert(darc(g0.nodes@, i, x, y)); } } } }
        if i == i0 && x == u { assert(a.contains(v) == !new); }
    }
    assert forall|i: int| 0 <= i < g.depth implies ms_ok(g.nodes@, i, #[trigger] g.ms@[i] as int) by {
        assert(ms_ok(g0.nodes@, i, g0.ms@[i] as int));
        let a = choose|a: Set<Arc>| dok(a, g0.nodes@, i) && #[trigger] a.len() == g0.ms@[i];
        if i == i0 { assert(a.contains((u, v)) == !new); let b = a.insert((u, v)); assert(dok(b, g.nodes@, i) && b.len() == g.ms@[i]); }
        else { assert(dok(a, g.nodes@, i) && a.len() == g.ms@[i]); }
    }
}
/// every node padded with empty sets to depth d
pub proof fn lemma_padded(g0: DTFGraph, g: DTFGraph)
    requires g0.wf(), g.depth >= g0.depth, g.ms@.len() == g.depth, g.vs() == g0.vs(),
        forall|y: Vertex| #[trigger] g.vs().contains(y) ==> g.nodes@[y].nd(g.depth as int) && grown(g0.nodes@[y], g.nodes@[y]),
        forall|i: int| 0 <= i < g.depth ==> #[trigger] g.ms@[i] == (if i < g0.depth { g0.ms@[i] } else { 0 }),
    ensures g.wf(), forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(g.nodes@, i, x, y) == darc(g0.nodes@, i, x, y)
{
    g0.lemma_ends();
    assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(g.nodes@, i, x, y) == darc(g0.nodes@, i, x, y) by {
        if g.vs().contains(y) { assert(g0.nodes@[y].nd(g0.depth as int)); let a = g0.nodes@[y].in_arcs@; let b = g.nodes@[y].in_arcs@; assert(g.nodes@[y].nd(g.depth as int) && grown(g0.nodes@[y], g.nodes@[y]));
            if 0 <= i < a.len() { assert(b[i] == a[i]); } else if 0 <= i < b.len() { assert(b[i]@ == Set::<Vertex>::empty()); } }
    }
    assert forall|i: int, x: Vertex| 0 <= i < g.depth && g.vs().contains(x) implies (#[trigger] g.nodes@[x].out_degs@[i]) as nat == outset(g.nodes@, i, x).len() by {
        let a = outset(g0.nodes@, i, x); let b = outset(g.nodes@, i, x);
        assert forall|y: Vertex| a.contains(y) <==> #[trigger] b.contains(y) by { assert(darc(g.nodes@, i, x, y) == darc(g0.nodes@, i, x, y)); }
        assert(b =~= a); assert(g0.nodes@[x].nd(g0.depth as int)); assert(grown(g0.nodes@[x], g.nodes@[x]));
        if i < g0.depth { assert(g0.nodes@[x].out_degs@[i] as nat == a.len()); assert(g.nodes@[x].out_degs@[i] == g0.nodes@[x].out_degs@[i]); }
        else { assert(g.nodes@[x].out_degs@[i] == 0); assert forall|y: Vertex| !#[trigger] a.contains(y) by { if a.contains(y) { assert(darc(g0.nodes@, i, x, y)); } } assert(a =~= Set::<Vertex>::empty()); }
    }
    assert forall|i: int| 0 <= i < g.depth implies ms_ok(g.nodes@, i, #[trigger] g.ms@[i] as int) by {
        if i < g0.depth {
            assert(ms_ok(g0.nodes@, i, g0.ms@[i] as int));
            let a = choose|a: Set<Arc>| dok(a, g0.nodes@, i) && #[trigger] a.len() == g0.ms@[i]; assert(dok(a, g.nodes@, i) && a.len() == g.ms@[i]);
        } else {
            let a = Set::<Arc>::empty();
            assert forall|x: Vertex, y: Vertex| #[trigger] a.contains((x, y)) <==> darc(g.nodes@, i, x, y) by { }
            assert(dok(a, g.nodes@, i) && a.len() == g.ms@[i]);
        }
    }
}
impl DTFGraph {
//@ fn dtfgraph.rs impl:DTFGraph new
//@ ensures r.wf(), r.depth == 1, r.vs() == Set::<Vertex>::empty(), forall|i: int, x: Vertex, y: Vertex| !#[trigger] darc(r.nodes@, i, x, y)
//@ hint end
    proof { let a = Set::<Arc>::empty(); assert(dok(a, vx_res.nodes@, 0) && a.len() == 0); }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph with_capacity
//@ ensures r.wf(), r.depth == 1, r.vs() == Set::<Vertex>::empty(), forall|i: int, x: Vertex, y: Vertex| !#[trigger] darc(r.nodes@, i, x, y)
//@ hint end
    proof { let a = Set::<Arc>::empty(); assert(dok(a, vx_res.nodes@, 0) && a.len() == 0); }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph get_depth
//@ ensures r == self.depth
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFGraph num_vertices
//@ requires self.wf()
//@ ensures r == self.vs().len()
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFGraph num_edges
//@ requires self.wf()
//@ ensures ms_ok(self.nodes@, 0, r as int)
//@ hint start
    proof { self.lemma_ms(0); }
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFGraph contains
//@ requires self.wf()
//@ ensures r == self.vs().contains(*u)
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFGraph vertices
//@ requires self.wf()
//@ ensures r.seq() == self.nodes.order(), r.pos() == 0, pre(r.seq(), 0) == Set::<Vertex>::empty(), lists(r.seq(), self.vs())
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFGraph adjacent
//@ requires self.wf()
//@ ensures r == (self.arc(*u, *v) || self.arc(*v, *u))
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFGraph degree
//@ requires self.wf(), self.vs().contains(*u), outsum(self.nodes@, self.depth as nat, *u) + insum(self.nodes@[*u].in_arcs@) <= u32::MAX
//@ ensures r == outsum(self.nodes@, self.depth as nat, *u) + insum(self.nodes@[*u].in_arcs@)
//@ hint start
    proof { self.lemma_sums(*u); }
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFGraph has_arc
//@ requires self.wf()
//@ ensures r == self.arc(*u, *v)
//@ hint end
    proof { assert(vx_res == self.arc(*u, *v)) by { if vx_res { let i = choose|i: int| 0 <= i < self.nodes@[*v].in_arcs@.len() && #[trigger] self.nodes@[*v].in_arcs@[i]@.contains(*u); assert(darc(self.nodes@, i, *u, *v)); } if self.arc(*u, *v) { let i = choose|i: int| #[trigger] darc(self.nodes@, i, *u, *v); assert(self.nodes@[*v].in_arcs@[i]@.contains(*u)); } } }
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFGraph in_degree
//@ requires self.wf(), self.vs().contains(*u), insum(self.nodes@[*u].in_arcs@) <= u32::MAX
//@ ensures r == insum(self.nodes@[*u].in_arcs@)
//@ hint start
    proof { self.lemma_sums(*u); }
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFGraph out_degree
//@ requires self.wf(), self.vs().contains(*u), outsum(self.nodes@, self.depth as nat, *u) <= u32::MAX
//@ ensures r == outsum(self.nodes@, self.depth as nat, *u)
//@ hint start
    proof { self.lemma_sums(*u); }
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFGraph in_neighbours
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures r.pos() == 0, r.seq() == inall(self.nodes@[*u].in_arcs@), pre(r.seq(), 0) == Set::<Vertex>::empty(), forall|x: Vertex| #[trigger] r.seq().contains(x) <==> self.arc(x, *u)
//@ hint end
    proof { self.lemma_inall(*u); lemma_pre_ends(vx_res.seq()); }
//@ end
    pub proof fn lemma_sums(&self, u: Vertex)
        requires self.wf(), self.vs().contains(u)
        ensures usum(self.nodes@[u].in_degs@) == insum(self.nodes@[u].in_arcs@), usum(self.nodes@[u].out_degs@) == outsum(self.nodes@, self.depth as nat, u), self.nodes@[u].in_degs@.len() == self.depth, self.nodes@[u].out_degs@.len() == self.depth
    {
        let n = self.nodes@[u]; assert(n.nd(self.depth as int)); lemma_usum_in(n.in_arcs@, n.in_degs@);
        assert forall|i: int| 0 <= i < n.out_degs@.len() implies (#[trigger] n.out_degs@[i]) as nat == outset(self.nodes@, i, u).len() by { assert(self.nodes@[u].out_degs@[i] as nat == outset(self.nodes@, i, u).len()); }
        lemma_usum_out(self.nodes@, u, n.out_degs@);
    }
    pub proof fn lemma_inall(&self, u: Vertex)
        requires self.wf(), self.vs().contains(u)
        ensures forall|x: Vertex| #[trigger] inall(self.nodes@[u].in_arcs@).contains(x) <==> self.arc(x, u), inall(self.nodes@[u].in_arcs@).len() == insum(self.nodes@[u].in_arcs@)
    {
        let a = self.nodes@[u].in_arcs@; lemma_inall(a);
        assert forall|x: Vertex| #[trigger] inall(a).contains(x) <==> self.arc(x, u) by {
            if inall(a).contains(x) { let i = choose|i: int| 0 <= i < a.len() && #[trigger] a[i]@.contains(x); assert(darc(self.nodes@, i, x, u)); }
            if self.arc(x, u) { let i = choose|i: int| #[trigger] darc(self.nodes@, i, x, u); assert(a[i]@.contains(x)); }
        }
    }
//@ fn dtfgraph.rs impl:DTFGraph num_arcs_at_depth
//@ requires self.wf(), depth >= 1
//@ ensures ms_ok(self.nodes@, depth - 1, r as int)
//@ hint start
    proof { if depth <= self.depth { self.lemma_ms(depth - 1); } else { self.lemma_ends(); let a = Set::<Arc>::empty(); assert(dok(a, self.nodes@, depth - 1) && a.len() == 0); } }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph add_vertex
//@ requires old(self).wf()
//@ ensures final(self).wf(), final(self).depth == old(self).depth, final(self).vs() == old(self).vs().insert(u), forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(final(self).nodes@, i, x, y) == darc(old(self).nodes@, i, x, y)
//@ hint end
    proof { lemma_isolated(*old(self), *self, u); }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph reserve_depth
//@ requires old(self).wf()
//@ ensures final(self).wf(), final(self).depth == (if depth > old(self).depth { depth } else { old(self).depth }), final(self).vs() == old(self).vs(), forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(final(self).nodes@, i, x, y) == darc(old(self).nodes@, i, x, y)
//@ loop 1
    self.depth == old(self).depth, self.ms == old(self).ms, self.depth < depth, old(self).wf(), self.vs() == old(self).vs(), lists(it1_s, old(self).vs()),
    forall|y: Vertex| #[trigger] old(self).vs().contains(y) ==> if pre(it1_s, it1.pos()).contains(y) { self.nodes@[y].nd(depth as int) && grown(old(self).nodes@[y], self.nodes@[y]) } else { self.nodes@[y] == old(self).nodes@[y] },
//@ hint loop1.start
    let ghost k = it1_s[it1.pos() - 1];
    proof { assert(it1_s.contains(k)); assert(old(self).nodes@[k].nd(old(self).depth as int)); }
//@ hint loop1.end
    proof { assert(self.vs() =~= old(self).vs()); }
//@ hint end
    proof { if old(self).depth < depth { lemma_padded(*old(self), *self); } }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph add_arc
//@ requires old(self).wf(), depth >= 1
//@ ensures
    final(self).wf(), final(self).depth == (if depth > old(self).depth { depth } else { old(self).depth }), final(self).vs() == old(self).vs().insert(*u).insert(*v),
    forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(final(self).nodes@, i, x, y) == (darc(old(self).nodes@, i, x, y) || (i == depth - 1 && x == *u && y == *v))
//@ hint after call reserve_depth 1
    let ghost g0 = *self;
    proof {
        if g0.vs().contains(*v) { g0.lemma_in(*v, depth - 1); assert(g0.nodes@[*v].nd(g0.depth as int)); }
        if g0.vs().contains(*u) { g0.lemma_out(*u, depth - 1); assert(g0.nodes@[*u].nd(g0.depth as int)); }
        g0.lemma_ms(depth - 1);
    }
//@ hint end
    proof {
        g0.lemma_ends();
        assert(self.vs() =~= g0.vs().insert(*u).insert(*v));
        assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(self.nodes@, i, x, y) == (darc(g0.nodes@, i, x, y) || (i == depth - 1 && x == *u && y == *v)) by { }
        assert forall|y: Vertex| #[trigger] self.vs().contains(y) implies self.nodes@[y].nd(self.depth as int) by { if g0.vs().contains(y) { assert(g0.nodes@[y].nd(g0.depth as int)); } }
        lemma_added(g0, *self, depth - 1, *u, *v);
    }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph has_arc_at
//@ requires self.wf(), depth >= 1
//@ ensures r == self.arc_at(depth as int, *u, *v)
//@ hint start
    proof { if self.vs().contains(*v) { assert(self.nodes@[*v].nd(self.depth as int)); } }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph in_degree_at
//@ requires self.wf(), self.vs().contains(*u), 1 <= depth <= self.depth
//@ ensures r == self.nodes@[*u].in_arcs@[depth - 1]@.len(), forall|x: Vertex| #[trigger] self.nodes@[*u].in_arcs@[depth - 1]@.contains(x) <==> self.arc_at(depth as int, x, *u)
//@ hint start
    proof { self.lemma_in(*u, depth - 1); assert(self.nodes@[*u].nd(self.depth as int)); }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph out_degree_at
//@ requires self.wf(), self.vs().contains(*u), 1 <= depth <= self.depth
//@ ensures r == outset(self.nodes@, depth - 1, *u).len()
//@ hint start
    proof { self.lemma_out(*u, depth - 1); assert(self.nodes@[*u].nd(self.depth as int)); }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph get_arc_depth
//@ requires self.wf(), self.vs().contains(*v), self.depth <= u32::MAX
//@ ensures
    r.is_some() == self.arc(*u, *v),
    r.is_some() ==> self.arc_at(r->0 as int, *u, *v) && 1 <= r->0 <= self.depth && forall|i: int| 0 <= i < r->0 - 1 ==> !#[trigger] darc(self.nodes@, i, *u, *v)
//@ hint start
    proof { assert(self.nodes@[*v].nd(self.depth as int)); }
//@ hint end
    proof { let a = self.nodes@[*v].in_arcs@;
        if vx_res.is_some() { assert(darc(self.nodes@, vx_res->0 - 1, *u, *v)); } 
        if self.arc(*u, *v) { let i = choose|i: int| #[trigger] darc(self.nodes@, i, *u, *v); assert(a[i]@.contains(*u)); } }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph in_neighbours_at
//@ requires self.wf(), self.vs().contains(*u), 1 <= depth <= self.depth
//@ ensures r.pos() == 0, r.seq() == self.nodes@[*u].in_arcs@[depth - 1].order(), pre(r.seq(), 0) == Set::<Vertex>::empty(), r.seq().no_duplicates(), forall|x: Vertex| #[trigger] r.seq().contains(x) <==> self.arc_at(depth as int, x, *u)
//@ hint start
    proof { self.lemma_in(*u, depth - 1); assert(self.nodes@[*u].nd(self.depth as int)); lemma_pre_ends(self.nodes@[*u].in_arcs@[depth - 1].order()); }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph in_neighbours_with_weights
//@ requires self.wf(), self.vs().contains(*u), self.depth < u32::MAX
//@ ensures
    forall|x: Vertex| #[trigger] r@.dom().contains(x) <==> self.arc(x, *u),
    forall|x: Vertex| #[trigger] r@.dom().contains(x) ==> self.arc_at(r@[x] as int, x, *u) && forall|i: int| #[trigger] darc(self.nodes@, i, x, *u) ==> i < r@[x]
//@ loop 1
    self.wf(), it1_s.len() == self.depth, forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == i + 1, wts(self.nodes@, mmd(res), it1.pos() as int, *u, Set::empty()),
//@ loop 2
    d == it1.pos(), 1 <= d <= self.depth, wts(self.nodes@, mmd(res), d - 1, *u, pre(it2_s, it2.pos())), forall|x: Vertex| #[trigger] it2_s.contains(x) <==> self.arc_at(d as int, x, *u),
//@ hint loop2.after
    proof { assert forall|x: Vertex| #[trigger] mmd(res).dom().contains(x) == (exists|i: int| 0 <= i < d && #[trigger] darc(self.nodes@, i, x, *u)) by { assert(it2_s.contains(x) <==> self.arc_at(d as int, x, *u)); } }
//@ hint end
    proof { self.lemma_ends(); }
//@ end
}
pub open spec fn wts(m: Map<Vertex, DTFNode>, r: Map<Vertex, u32>, d: int, u: Vertex, s: Set<Vertex>) -> bool {
    &&& forall|x: Vertex| #[trigger] r.dom().contains(x) <==> s.contains(x) || exists|i: int| 0 <= i < d && #[trigger] darc(m, i, x, u)
    &&& forall|x: Vertex| #[trigger] r.dom().contains(x) ==> if s.contains(x) { r[x] == d + 1 } else { 1 <= r[x] <= d && darc(m, r[x] - 1, x, u) && forall|i: int| r[x] <= i < d ==> !#[trigger] darc(m, i, x, u) }
}
pub open spec fn mmd(r: FxHashMap<Vertex, u32>) -> Map<Vertex, u32> { r@ }
pub proof fn lemma_isolated(g0: DTFGraph, g: DTFGraph, u: Vertex)
    requires g0.wf(), g.depth == g0.depth, g.ms == g0.ms, g.vs() == g0.vs().insert(u),
        forall|y: Vertex| #[trigger] g0.vs().contains(y) ==> g.nodes@[y] == g0.nodes@[y],
        !g0.vs().contains(u) ==> g.nodes@[u].nd(g.depth as int) && (forall|i: int| 0 <= i < g.depth ==> (#[trigger] g.nodes@[u].in_arcs@[i])@ == Set::<Vertex>::empty()) && (forall|i: int| 0 <= i < g.depth ==> #[trigger] g.nodes@[u].out_degs@[i] == 0)
    ensures g.wf(), forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(g.nodes@, i, x, y) == darc(g0.nodes@, i, x, y)
{
    g0.lemma_ends();
    assert forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(g.nodes@, i, x, y) == darc(g0.nodes@, i, x, y) by { if y == u && !g0.vs().contains(u) && 0 <= i < g.depth { assert(g.nodes@[u].in_arcs@[i]@ == Set::<Vertex>::empty()); } }
    assert forall|i: int, x: Vertex| 0 <= i < g.depth && g.vs().contains(x) implies (#[trigger] g.nodes@[x].out_degs@[i]) as nat == outset(g.nodes@, i, x).len() by {
        let a = outset(g0.nodes@, i, x); let b = outset(g.nodes@, i, x);
        assert forall|y: Vertex| a.contains(y) <==> #[trigger] b.contains(y) by { assert(darc(g.nodes@, i, x, y) == darc(g0.nodes@, i, x, y)); }
        assert(b =~= a);
        if g0.vs().contains(x) { assert(g0.nodes@[x].out_degs@[i] as nat == a.len()); } else { assert forall|y: Vertex| !#[trigger] a.contains(y) by { if a.contains(y) { assert(darc(g0.nodes@, i, x, y)); } } assert(a =~= Set::<Vertex>::empty()); }
    }
    assert forall|i: int| 0 <= i < g.depth implies ms_ok(g.nodes@, i, #[trigger] g.ms@[i] as int) by {
        assert(ms_ok(g0.nodes@, i, g0.ms@[i] as int));
        let a = choose|a: Set<Arc>| dok(a, g0.nodes@, i) && #[trigger] a.len() == g0.ms@[i]; assert(dok(a, g.nodes@, i) && a.len() == g.ms@[i]);
    }
}
// ---------------------------------------------------------------- iterators over augmentations
/// arcs (u, v) for u in s
pub open spec fn dsel(v: Vertex, s: Seq<Vertex>) -> Seq<Arc> { s.map_values(|u: Vertex| (u, v)) }
/// in-neighbours of v: all of them, or those of one weight
pub open spec fn dnb(m: Map<Vertex, DTFNode>, d: Option<usize>, v: Vertex) -> Seq<Vertex> { match d { Some(k) => m[v].in_arcs@[k - 1].order(), None => inall(m[v].in_arcs@) } }
pub open spec fn darcs_from(m: Map<Vertex, DTFNode>, d: Option<usize>, vs: Seq<Vertex>) -> Seq<Arc> decreases vs.len() {
    if vs.len() == 0 { Seq::empty() } else { dsel(vs[0], dnb(m, d, vs[0])) + darcs_from(m, d, vs.drop_first()) }
}
/// what the arc iterator lists, in order
pub open spec fn darc_seq(g: DTFGraph, d: Option<usize>) -> Seq<Arc> { darcs_from(g.nodes@, d, g.nodes.order()) }
/// no ordered pair carries arcs of two weights
pub open spec fn uniq(m: Map<Vertex, DTFNode>) -> bool { forall|i: int, j: int, x: Vertex, y: Vertex| #[trigger] darc(m, i, x, y) && #[trigger] darc(m, j, x, y) ==> i == j }
/// s lists the arcs of weight d (every arc, if d is None), each exactly once
pub open spec fn lists_darcs(g: DTFGraph, d: Option<usize>, s: Seq<Arc>) -> bool {
    match d {
        Some(k) => (forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> g.arc_at(k as int, x, y)) && s.no_duplicates() && s.len() == g.ms@[k - 1],
        None => (forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> g.arc(x, y)) && (uniq(g.nodes@) ==> s.no_duplicates()) && s.len() == insums(g.nodes@, g.nodes.order()),
    }
}
/// number of arcs entering the vertices vs
pub open spec fn insums(m: Map<Vertex, DTFNode>, vs: Seq<Vertex>) -> nat decreases vs.len() { if vs.len() == 0 { 0 } else { insum(m[vs[0]].in_arcs@) + insums(m, vs.drop_first()) } }
pub proof fn lemma_dsel(v: Vertex, s: Seq<Vertex>)
    ensures forall|x: Vertex, y: Vertex| #[trigger] dsel(v, s).contains((x, y)) <==> y == v && s.contains(x),
        s.no_duplicates() ==> dsel(v, s).no_duplicates(), dsel(v, s).len() == s.len()
{
    let m = dsel(v, s);
    assert forall|x: Vertex, y: Vertex| #[trigger] m.contains((x, y)) <==> y == v && s.contains(x) by {
        if y == v && s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(m[i] == (x, y)); }
        if m.contains((x, y)) { let i = choose|i: int| 0 <= i < m.len() && m[i] == (x, y); assert(s[i] == x); }
    }
}
pub proof fn lemma_inall_dup(a: Seq<VertexSet>)
    requires forall|i: int, j: int, x: Vertex| 0 <= i < a.len() && 0 <= j < a.len() && #[trigger] a[i]@.contains(x) && #[trigger] a[j]@.contains(x) ==> i == j
    ensures inall(a).no_duplicates()
    decreases a.len()
{
    if a.len() > 0 {
        let b = a.drop_last(); let l = a.last();
        assert forall|i: int, j: int, x: Vertex| 0 <= i < b.len() && 0 <= j < b.len() && #[trigger] b[i]@.contains(x) && #[trigger] b[j]@.contains(x) implies i == j by { assert(a[i]@.contains(x) && a[j]@.contains(x)); }
        lemma_inall_dup(b); lemma_inall(b); lemma_concat_mem(inall(b), l.order()); assert(lists(l.order(), l@));
        assert forall|x: Vertex| !(#[trigger] inall(b).contains(x) && l.order().contains(x)) by { if inall(b).contains(x) && l.order().contains(x) { let i = choose|i: int| 0 <= i < b.len() && #[trigger] b[i]@.contains(x); assert(a[i]@.contains(x)); assert(a[a.len() - 1]@.contains(x)); } }
    }
}
pub proof fn lemma_darcs_from(g: DTFGraph, d: Option<usize>, vs: Seq<Vertex>)
    requires g.wf(), d.is_some() ==> 1 <= d->0 <= g.depth, forall|x: Vertex| #[trigger] vs.contains(x) ==> g.vs().contains(x), vs.no_duplicates()
    ensures forall|x: Vertex, y: Vertex| #[trigger] darcs_from(g.nodes@, d, vs).contains((x, y)) <==> vs.contains(y) && (if d.is_some() { g.arc_at(d->0 as int, x, y) } else { g.arc(x, y) }),
        d.is_some() || uniq(g.nodes@) ==> darcs_from(g.nodes@, d, vs).no_duplicates(),
        d.is_none() ==> darcs_from(g.nodes@, d, vs).len() == insums(g.nodes@, vs)
    decreases vs.len()
{
    if vs.len() > 0 {
        let v = vs[0]; let r = vs.drop_first(); let m = g.nodes@;
        lemma_drop_first_mem(vs); lemma_darcs_from(g, d, r);
        assert(vs.contains(v));
        let nb = dnb(m, d, v); lemma_dsel(v, nb); g.lemma_inall(v);
        if d.is_some() { g.lemma_in(v, d->0 - 1); }
        let a = dsel(v, nb); let b = darcs_from(m, d, r);
        lemma_concat_mem(a, b);
        assert forall|x: Vertex, y: Vertex| #[trigger] darcs_from(m, d, vs).contains((x, y)) <==> vs.contains(y) && (if d.is_some() { g.arc_at(d->0 as int, x, y) } else { g.arc(x, y) }) by {
            assert((a + b).contains((x, y)) <==> a.contains((x, y)) || b.contains((x, y)));
            assert(a.contains((x, y)) <==> y == v && nb.contains(x));
        }
        if d.is_some() || uniq(m) {
            if d.is_none() {
                let ia = m[v].in_arcs@;
                assert forall|i: int, j: int, x: Vertex| 0 <= i < ia.len() && 0 <= j < ia.len() && #[trigger] ia[i]@.contains(x) && #[trigger] ia[j]@.contains(x) implies i == j by { assert(darc(m, i, x, v) && darc(m, j, x, v)); }
                lemma_inall_dup(ia);
            }
            assert forall|e: Arc| !(#[trigger] a.contains(e) && b.contains(e)) by { let (x, y) = e; assert(a.contains((x, y)) ==> y == v); assert(b.contains((x, y)) ==> r.contains(y)); }
        }
    }
}
pub proof fn lemma_darc_seq(g: DTFGraph, d: Option<usize>)
    requires g.wf(), d.is_some() ==> 1 <= d->0 <= g.depth
    ensures lists_darcs(g, d, darc_seq(g, d))
{
    let s = darc_seq(g, d);
    assert(lists(g.nodes.order(), g.nodes@.dom()));
    lemma_darcs_from(g, d, g.nodes.order()); g.lemma_ends();
    if d.is_some() {
        let i = d->0 - 1; g.lemma_ms(i);
        assert forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> g.arc_at(d->0 as int, x, y) by { if g.arc_at(d->0 as int, x, y) { assert(darc(g.nodes@, i, x, y)); assert(g.nodes.order().contains(y)); } }
        let a = choose|a: Set<Arc>| dok(a, g.nodes@, i) && #[trigger] a.len() == g.ms@[i];
        assert forall|e: Arc| #[trigger] s.contains(e) <==> a.contains(e) by { let (x, y) = e; assert(s.contains((x, y)) <==> g.arc_at(d->0 as int, x, y)); assert(a.contains((x, y)) <==> darc(g.nodes@, i, x, y)); }
        lemma_count(s, a);
    } else {
        assert forall|x: Vertex, y: Vertex| #[trigger] s.contains((x, y)) <==> g.arc(x, y) by { if g.arc(x, y) { assert(anyarc(g.nodes@, x, y)); assert(g.nodes.order().contains(y)); } }
    }
}
//@ struct iterators.rs DTFNIterator
impl<'a> DTFNIterator<'a> {
    pub open spec fn wf(&self) -> bool {
        self.G.wf() && self.v_it.pos() <= self.v_it.seq().len() && self.v_it.seq().no_duplicates() && (forall|x: Vertex| #[trigger] self.v_it.seq().contains(x) ==> self.G.vs().contains(x))
        && (self.depth.is_some() ==> 1 <= self.depth->0 <= self.G.depth)
    }
    pub open spec fn todo(&self) -> Seq<Vertex> { rest(self.v_it.seq(), self.v_it.pos()) }
//@ fn iterators.rs impl:DTFNIterator all_depths
//@ requires G.wf()
//@ ensures r.wf(), r.todo() == G.nodes.order(), r.G == G, r.depth == None::<usize>
//@ hint end
    proof { assert(vx_res.todo() =~= G.nodes.order()); }
//@ end
//@ fn iterators.rs impl:DTFNIterator fixed_depth
//@ requires G.wf(), 1 <= depth <= G.depth
//@ ensures r.wf(), r.todo() == G.nodes.order(), r.G == G, r.depth == Some(depth)
//@ hint end
    proof { assert(vx_res.todo() =~= G.nodes.order()); }
//@ end
//@ fn iterators.rs impl:Iterator:DTFNIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, RIt<'a, Vertex>)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).G == old(self).G, final(self).depth == old(self).depth,
    r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> final(self).todo() == old(self).todo().drop_first() && (r->0).0 == old(self).todo()[0] && (r->0).1.pos() == 0 && (r->0).1.seq() == dnb(old(self).G.nodes@, old(self).depth, (r->0).0) && old(self).G.vs().contains((r->0).0),
    r.is_none() ==> final(self).todo().len() == 0
//@ hint start
    proof { if self.todo().len() > 0 { assert(self.todo()[0] == self.v_it.seq()[self.v_it.pos() as int]); } }
//@ hint after let v 1
    proof { assert(self.todo() =~= old(self).todo().drop_first()); }
//@ hint after let v 2
    proof { assert(self.todo() =~= old(self).todo().drop_first()); }
//@ end
}
//@ struct iterators.rs DTFArcIterator
impl<'a> DTFArcIterator<'a> {
    pub open spec fn wf(&self) -> bool {
        self.N_it.wf() && (self.curr_it.is_some() ==> self.curr_it->0.pos() <= self.curr_it->0.seq().len()) && (self.curr_it.is_none() ==> self.N_it.todo().len() == 0)
    }
    pub open spec fn todo(&self) -> Seq<Arc> {
        if self.curr_it.is_some() { dsel(self.curr_v, rest(self.curr_it->0.seq(), self.curr_it->0.pos())) + darcs_from(self.N_it.G.nodes@, self.N_it.depth, self.N_it.todo()) } else { Seq::empty() }
    }
//@ fn iterators.rs impl:DTFArcIterator all_depths
//@ requires G.wf()
//@ ensures r.wf(), r.todo() == darc_seq(*G, None::<usize>), lists_darcs(*G, None::<usize>, r.todo())
//@ hint end
    proof { lemma_darc_seq(*G, None::<usize>); }
//@ end
//@ fn iterators.rs impl:DTFArcIterator fixed_depth
//@ requires G.wf(), 1 <= depth <= G.depth
//@ ensures r.wf(), r.todo() == darc_seq(*G, Some(depth)), lists_darcs(*G, Some(depth), r.todo())
//@ hint end
    proof { lemma_darc_seq(*G, Some(depth)); }
//@ end
//@ fn iterators.rs impl:DTFArcIterator advance
//@ requires old(self).N_it.wf()
//@ ensures
    final(self).wf(), final(self).N_it.G == old(self).N_it.G, final(self).N_it.depth == old(self).N_it.depth,
    final(self).todo() == darcs_from(old(self).N_it.G.nodes@, old(self).N_it.depth, old(self).N_it.todo()),
    final(self).curr_it.is_some() == (old(self).N_it.todo().len() > 0),
    final(self).curr_it.is_some() ==> final(self).N_it.todo().len() + 1 == old(self).N_it.todo().len() && final(self).curr_it->0.pos() == 0
//@ hint end
    proof { if self.curr_it.is_some() { assert(rest(self.curr_it->0.seq(), 0) =~= self.curr_it->0.seq()); } }
//@ end
//@ fn iterators.rs impl:Iterator:DTFArcIterator next
//@ sig fn next(&mut self) -> (r: Option<(Vertex, Vertex)>)
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), r.is_some() == (old(self).todo().len() > 0),
    r.is_some() ==> r->0 == old(self).todo()[0] && final(self).todo() == old(self).todo().drop_first(),
    r.is_none() ==> final(self).todo().len() == 0
//@ loop 1
    self.wf(), self.todo() == old(self).todo(),
//@ loopdec 1 (if self.curr_it.is_some() { self.N_it.todo().len() + 1 } else { 0 }), (if self.curr_it.is_some() { self.curr_it->0.seq().len() - self.curr_it->0.pos() } else { 0 })
//@ hint loop1.start
    let ghost s0 = *self;
    proof { assert(s0.curr_it->0.pos() == s0.curr_it->0.seq().len() ==> s0.todo() =~= darcs_from(s0.N_it.G.nodes@, s0.N_it.depth, s0.N_it.todo())); }
//@ hint after let u 1
    proof {
        let cv = s0.curr_v; let r0 = rest(s0.curr_it->0.seq(), s0.curr_it->0.pos()); let r1 = rest(self.curr_it->0.seq(), self.curr_it->0.pos());
        assert(r0[0] == u); assert(r1 =~= r0.drop_first()); assert(dsel(cv, r1) =~= dsel(cv, r0).drop_first());
        assert(s0.todo().drop_first() =~= self.todo()); assert(s0.todo()[0] == (u, cv));
    }
//@ end
}
impl<'a> VxSrc<Arc> for DTFArcIterator<'a> {
    open spec fn src(&self) -> Seq<Arc> { self.todo() }
    open spec fn src_ok(&self) -> bool { self.wf() }
    fn vx_src(self) -> (r: It<Arc>) {
        proof { assert(self.src_ok()); assert(self.src() == self.todo()); }
        let mut s = self; let mut v: Vec<Arc> = Vec::new();
        loop invariant s.wf(), v@ + s.todo() =~= self.todo(), ensures v@ =~= self.todo(), decreases s.todo().len() {
            match s.next() { Some(e) => { v.push(e); } None => { break; } }
        }
        proof { lemma_pre_ends(v@); }
        It::from_vec(v)
    }
}
impl DTFGraph {
//@ fn dtfgraph.rs impl:DTFGraph arcs
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == darc_seq(*self, None::<usize>), lists_darcs(*self, None::<usize>, r.todo())
//@ end
//@ fn dtfgraph.rs impl:DTFGraph arcs_at
//@ requires self.wf(), 1 <= depth <= self.depth
//@ ensures r.wf(), r.todo() == darc_seq(*self, Some(depth)), lists_darcs(*self, Some(depth), r.todo())
//@ end
//@ fn dtfgraph.rs impl:DTFGraph in_neighbourhoods_iter
//@ requires self.wf()
//@ ensures r.wf(), r.todo() == self.nodes.order(), r.G == self, r.depth == None::<usize>
//@ end
//@ fn dtfgraph.rs impl:DTFGraph in_neighbourhoods_iter_at
//@ requires self.wf(), 1 <= depth <= self.depth
//@ ensures r.wf(), r.todo() == self.nodes.order(), r.G == self, r.depth == Some(depth)
//@ end
//@ fn dtfgraph.rs impl:DTFGraph to_undirected
//@ requires self.wf()
//@ ensures r.wf(), r.vs() == self.vs(), forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (self.arc(x, y) || self.arc(y, x))
//@ loop 1
    res.wf(), res.vs() == pre(it1_s, it1.pos()), lists(it1_s, self.vs()), forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y),
//@ hint loop1.after
    proof { assert(res.vs() =~= self.vs()); }
//@ loop 2
    res.wf(), res.vs() == self.vs(), forall|x: Vertex, y: Vertex| #[trigger] it2_s.contains((x, y)) <==> self.arc(x, y),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (pre(it2_s, it2.pos()).contains((x, y)) || pre(it2_s, it2.pos()).contains((y, x))),
//@ hint loop2.start
    let ghost r0 = res;
    proof { self.lemma_ends(); assert(it2_s.contains((u, v))); }
//@ hint loop2.end
    proof { assert(res.vs() =~= self.vs()); assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (pre(it2_s, it2.pos()).contains((x, y)) || pre(it2_s, it2.pos()).contains((y, x))) by { assert(res.adj(x, y) == (r0.adj(x, y) || (x == u && y == v) || (x == v && y == u))); } }
//@ hint loop2.after
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (self.arc(x, y) || self.arc(y, x)) by { assert(it2_s.contains((x, y)) <==> self.arc(x, y)); assert(it2_s.contains((y, x)) <==> self.arc(y, x)); } }
//@ end
//@ fn dtfgraph.rs impl:DTFGraph edge_subgraph
//@ sig fn edge_subgraph<I: VxSrc<Edge>>(&self, it: I) -> (r: DTFGraph)
//@ requires self.wf(), it.src_ok()
//@ ensures
    r.wf(), r.depth == 1, r.vs() == self.vs(),
    forall|x: Vertex, y: Vertex| #[trigger] darc(r.nodes@, 0, x, y) == (self.arc(x, y) && in_edges(it.src(), x, y))
//@ loop 1
    res.wf(), res.depth == 1, res.vs() == pre(it1_s, it1.pos()), lists(it1_s, self.vs()), forall|i: int, x: Vertex, y: Vertex| !#[trigger] darc(res.nodes@, i, x, y),
//@ hint loop1.after
    proof { assert(res.vs() =~= self.vs()); }
//@ loop 2
    res.wf(), res.depth == 1, res.vs() == self.vs(),
    forall|x: Vertex, y: Vertex| #[trigger] darc(res.nodes@, 0, x, y) == (self.arc(x, y) && in_edges(it2_s.take(it2.pos() as int), x, y)),
//@ hint loop2.start
    let ghost r0 = res;
    proof { self.lemma_ends(); }
//@ hint loop2.end
    proof {
        let k = it2.pos() - 1; let s1 = it2_s.take(k); let s2 = it2_s.take(it2.pos() as int); assert(s2 =~= s1.push((u, v))); lemma_push_contains(s1, (u, v));
        assert(res.vs() =~= self.vs());
        assert forall|x: Vertex, y: Vertex| #[trigger] darc(res.nodes@, 0, x, y) == (self.arc(x, y) && in_edges(s2, x, y)) by { assert(darc(r0.nodes@, 0, x, y) == (self.arc(x, y) && in_edges(s1, x, y))); }
    }
//@ hint loop2.after
    proof { assert(it2_s.take(it2_s.len() as int) =~= it2_s); }
//@ end
}
impl<'a> DTFLayer<'a> {
    pub open spec fn ok(&self) -> bool { self.graph.wf() && 1 <= self.depth <= self.graph.depth }
    pub open spec fn arc(&self, u: Vertex, v: Vertex) -> bool { self.graph.arc_at(self.depth as int, u, v) }
//@ fn dtfgraph.rs impl:DTFLayer new
//@ ensures r.graph == graph, r.depth == depth
//@ end
}
impl DTFLayer<'_> {
//@ fn dtfgraph.rs impl:Graph:DTFLayer num_vertices
//@ requires self.ok()
//@ ensures r == self.graph.vs().len()
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFLayer num_edges
//@ requires self.ok()
//@ ensures ms_ok(self.graph.nodes@, self.depth - 1, r as int)
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFLayer contains
//@ requires self.ok()
//@ ensures r == self.graph.vs().contains(*u)
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFLayer adjacent
//@ requires self.ok()
//@ ensures r == (self.arc(*u, *v) || self.arc(*v, *u))
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFLayer degree
//@ requires self.ok(), self.graph.vs().contains(*u)
//@ ensures r == self.graph.nodes@[*u].in_arcs@[self.depth - 1]@.len() + outset(self.graph.nodes@, self.depth - 1, *u).len()
//@ hint start
    proof { self.graph.lemma_in(*u, self.depth - 1); self.graph.lemma_out(*u, self.depth - 1); }
//@ end
//@ fn dtfgraph.rs impl:Graph:DTFLayer vertices
//@ requires self.ok()
//@ ensures r.pos() == 0, lists(r.seq(), self.graph.vs())
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFLayer has_arc
//@ requires self.ok()
//@ ensures r == self.arc(*u, *v)
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFLayer in_degree
//@ requires self.ok(), self.graph.vs().contains(*u)
//@ ensures r == self.graph.nodes@[*u].in_arcs@[self.depth - 1]@.len(), forall|x: Vertex| #[trigger] self.graph.nodes@[*u].in_arcs@[self.depth - 1]@.contains(x) <==> self.arc(x, *u)
//@ hint start
    proof { self.graph.lemma_in(*u, self.depth - 1); }
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFLayer out_degree
//@ requires self.ok(), self.graph.vs().contains(*u)
//@ ensures r == outset(self.graph.nodes@, self.depth - 1, *u).len()
//@ end
//@ fn dtfgraph.rs impl:Digraph:DTFLayer in_neighbours
//@ requires self.ok(), self.graph.vs().contains(*u)
//@ ensures r.pos() == 0, r.seq().no_duplicates(), forall|x: Vertex| #[trigger] r.seq().contains(x) <==> self.arc(x, *u)
//@ end
}
impl DTFGraph {
//@ fn dtfgraph.rs impl:DTFGraph layer
//@ requires old(self).wf(), depth >= 1
//@ ensures r.ok(), r.depth == depth, r.graph.vs() == old(self).vs(), forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(r.graph.nodes@, i, x, y) == darc(old(self).nodes@, i, x, y),
    final(self).wf(), final(self).vs() == old(self).vs(), final(self).depth == (if depth > old(self).depth { depth } else { old(self).depth }), forall|i: int, x: Vertex, y: Vertex| #[trigger] darc(final(self).nodes@, i, x, y) == darc(old(self).nodes@, i, x, y)
//@ end
}
/// arcs from smaller to larger index between adjacent vertices, one of them in s
pub open spec fn orarc<G: Graph>(g: G, ind: Map<Vertex, usize>, s: Set<Vertex>, x: Vertex, y: Vertex) -> bool { g.adj(x, y) && ind[x] < ind[y] && (s.contains(x) || s.contains(y)) }
pub open spec fn mu(r: FxHashMap<Vertex, usize>) -> Map<Vertex, usize> { r@ }
impl DTFGraph {
//@ fn dtfgraph.rs impl:DTFGraph orient
//@ requires graph.wf(), graph.simple(), forall|w: Vertex| !#[trigger] graph.adj(w, w)
//@ ensures
    r.wf(), r.depth == 1, r.vs() == graph.vs(),
    forall|x: Vertex, y: Vertex| #[trigger] darc(r.nodes@, 0, x, y) ==> graph.adj(x, y) && !darc(r.nodes@, 0, y, x),
    forall|x: Vertex, y: Vertex| #[trigger] graph.adj(x, y) ==> darc(r.nodes@, 0, x, y) || darc(r.nodes@, 0, y, x)
//@ unchain indices
//@ closure 1 |vxp1: (usize, &Vertex)| -> (p: (Vertex, usize)) ensures p == (*vxp1.1, vxp1.0)
//@ hint start
    proof { graph.lemma_wf(); }
//@ hint after let indices 1
    proof { lemma_index_map(ord@, indices_3.seq(), indices@); assert(indices@.dom() =~= graph.vs()); }
//@ loop 1
    H.wf(), H.depth == 1, nlisted(*graph, graph.vseq(), it1_s), lists(graph.vseq(), graph.vs()), mu(indices).dom() == graph.vs(), idx_inj(graph.vs(), mu(indices)),
    forall|x: Vertex| #[trigger] H.vs().contains(x) ==> graph.vs().contains(x), forall|x: Vertex| #[trigger] pre(graph.vseq(), it1.pos()).contains(x) ==> H.vs().contains(x),
    forall|x: Vertex, y: Vertex| #[trigger] darc(H.nodes@, 0, x, y) == orarc(*graph, mu(indices), pre(graph.vseq(), it1.pos()), x, y),
//@ hint loop1.start
    let ghost done = pre(graph.vseq(), (it1.pos() - 1) as nat);
    proof { lemma_pre(graph.vseq(), (it1.pos() - 1) as nat); graph.lemma_wf(); assert(it1_s[it1.pos() - 1].0 == v); assert(graph.vs().contains(v)); }
//@ loop 2
    H.wf(), H.depth == 1, graph.vs().contains(v), H.vs().contains(v), iv == mu(indices)[v], it2_s == graph.nseq(v),
    forall|x: Vertex| #[trigger] H.vs().contains(x) ==> graph.vs().contains(x), forall|x: Vertex| #[trigger] done.contains(x) ==> H.vs().contains(x),
    forall|x: Vertex, y: Vertex| #[trigger] darc(H.nodes@, 0, x, y) == (orarc(*graph, mu(indices), done, x, y) || (graph.adj(x, y) && mu(indices)[x] < mu(indices)[y] && ((x == v && pre(it2_s, it2.pos()).contains(y)) || (y == v && pre(it2_s, it2.pos()).contains(x))))),
//@ hint loop2.start
    proof { graph.lemma_wf(); assert(it2_s.contains(*u)); assert(graph.nseq(v).contains(*u) <==> graph.adj(v, *u)); assert(graph.adj(v, *u) && graph.adj(*u, v)); assert(*u != v); }
//@ hint loop2.after
    proof { graph.lemma_wf(); assert forall|x: Vertex, y: Vertex| #[trigger] darc(H.nodes@, 0, x, y) == orarc(*graph, mu(indices), done.insert(v), x, y) by { assert(graph.nseq(v).contains(x) <==> graph.adj(v, x)); assert(graph.nseq(v).contains(y) <==> graph.adj(v, y)); assert(graph.adj(x, y) == graph.adj(y, x)); } }
//@ hint loop1.after
    proof { graph.lemma_wf(); lemma_pre_ends(graph.vseq()); assert(H.vs() =~= graph.vs()); 
        assert forall|x: Vertex, y: Vertex| #[trigger] graph.adj(x, y) implies darc(H.nodes@, 0, x, y) || darc(H.nodes@, 0, y, x) by { assert(x != y); assert(orarc(*graph, mu(indices), pre(graph.vseq(), graph.vseq().len()), x, y) || orarc(*graph, mu(indices), pre(graph.vseq(), graph.vseq().len()), y, x)); } }
//@ end
}
pub open spec fn idx_inj(s: Set<Vertex>, m: Map<Vertex, usize>) -> bool { forall|x: Vertex, y: Vertex| s.contains(x) && s.contains(y) && #[trigger] m[x] == #[trigger] m[y] ==> x == y }
} // verus!
