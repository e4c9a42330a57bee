verus! {
//@ props C17
// ===================================================================== right-restricted search
/// x is reachable from root in at most d steps through vertices right of root
pub open spec fn rball<L: LinearGraph>(g: L, root: Vertex, d: nat, x: Vertex) -> bool
    decreases d
{
    if d == 0 { x == root } else { rball(g, root, (d - 1) as nat, x) || (ix(g.vseq(), x) > ix(g.vseq(), root) && exists|y: Vertex| rball(g, root, (d - 1) as nat, y) && #[trigger] g.adj(y, x)) }
}
/// x is at distance exactly d from root through vertices right of root
pub open spec fn rlayer<L: LinearGraph>(g: L, root: Vertex, d: nat, x: Vertex) -> bool { rball(g, root, d, x) && (d > 0 ==> !rball(g, root, (d - 1) as nat, x)) }
/// s is the layer at distance d
#[verifier::opaque]
pub open spec fn is_layer<L: LinearGraph>(g: L, root: Vertex, d: nat, s: Set<Vertex>) -> bool { forall|x: Vertex| #[trigger] s.contains(x) <==> rlayer(g, root, d, x) }
pub open spec fn lset(v: Vec<VertexSet>, i: int) -> Set<Vertex> { v@[i]@ }
/// res lists the layers 0, 1, ...
#[verifier::opaque]
pub open spec fn layers<L: LinearGraph>(g: L, root: Vertex, res: Vec<VertexSet>) -> bool { forall|i: int| 0 <= i < res@.len() ==> is_layer(g, root, i as nat, #[trigger] lset(res, i)) }
/// x is new: outside b, right of root, next to done or in extra
pub open spec fn newc<L: LinearGraph>(g: L, root: Vertex, b: Set<Vertex>, done: Set<Vertex>, extra: Set<Vertex>, x: Vertex) -> bool {
    !b.contains(x) && ix(g.vseq(), x) > ix(g.vseq(), root) && (extra.contains(x) || exists|y: Vertex| done.contains(y) && #[trigger] g.adj(y, x))
}
#[verifier::opaque]
pub open spec fn is_rball<L: LinearGraph>(g: L, root: Vertex, d: nat, b: Set<Vertex>) -> bool { forall|x: Vertex| #[trigger] b.contains(x) <==> rball(g, root, d, x) }
#[verifier::opaque]
pub open spec fn is_newc<L: LinearGraph>(g: L, root: Vertex, b: Set<Vertex>, done: Set<Vertex>, extra: Set<Vertex>, s: Set<Vertex>) -> bool { forall|x: Vertex| #[trigger] s.contains(x) <==> newc(g, root, b, done, extra, x) }
pub proof fn lemma_rball_vs<L: LinearGraph>(g: L, root: Vertex, d: nat, x: Vertex)
    requires g.wf(), g.vs().contains(root), rball(g, root, d, x)
    ensures g.vs().contains(x)
    decreases d
{ g.lemma_wf(); if d > 0 { if rball(g, root, (d - 1) as nat, x) { lemma_rball_vs(g, root, (d - 1) as nat, x); } } }
pub proof fn lemma_rlayer0<L: LinearGraph>(g: L, root: Vertex, s: Set<Vertex>)
    requires s == set![root]
    ensures is_rball(g, root, 0, s), is_layer(g, root, 0, s)
{ reveal(is_rball); reveal(is_layer); }
/// the vertices next to layer d-1 which are new form layer d
pub proof fn lemma_rstep<L: LinearGraph>(g: L, root: Vertex, d: nat, b: Set<Vertex>, lay: Set<Vertex>, s: Set<Vertex>)
    requires g.wf(), g.vs().contains(root), d > 0, is_rball(g, root, (d - 1) as nat, b), is_layer(g, root, (d - 1) as nat, lay), is_newc(g, root, b, lay, Set::empty(), s)
    ensures is_layer(g, root, d, s), is_rball(g, root, d, b.union(s))
{
    reveal(is_rball); reveal(is_layer); reveal(is_newc);
    assert forall|x: Vertex| newc(g, root, b, lay, Set::empty(), x) == rlayer(g, root, d, x) by {
        if rlayer(g, root, d, x) {
            let y = choose|y: Vertex| rball(g, root, (d - 1) as nat, y) && #[trigger] g.adj(y, x);
            if d > 1 && rball(g, root, (d - 2) as nat, y) { assert(rball(g, root, (d - 1) as nat, x)); }
            assert(lay.contains(y));
        }
        if newc(g, root, b, lay, Set::empty(), x) { let y = choose|y: Vertex| lay.contains(y) && #[trigger] g.adj(y, x); assert(rball(g, root, (d - 1) as nat, y)); }
    }
    assert forall|x: Vertex| #[trigger] b.union(s).contains(x) <==> rball(g, root, d, x) by { assert(s.contains(x) <==> rlayer(g, root, d, x)); }
}
pub proof fn lemma_newc0<L: LinearGraph>(g: L, root: Vertex, b: Set<Vertex>)
    ensures is_newc(g, root, b, Set::empty(), Set::empty(), Set::empty())
{ reveal(is_newc); }
/// one more neighbour looked at
pub proof fn lemma_newc_step<L: LinearGraph>(g: L, root: Vertex, b: Set<Vertex>, done: Set<Vertex>, extra: Set<Vertex>, s: Set<Vertex>, v: Vertex)
    requires is_newc(g, root, b, done, extra, s)
    ensures ix(g.vseq(), v) > ix(g.vseq(), root) && !b.contains(v) ==> is_newc(g, root, b, done, extra.insert(v), s.insert(v)),
        s.contains(v) || b.contains(v) || !(ix(g.vseq(), v) > ix(g.vseq(), root)) ==> is_newc(g, root, b, done, extra.insert(v), s),
{
    reveal(is_newc);
    if s.contains(v) { assert(newc(g, root, b, done, extra, v)); }
    assert forall|x: Vertex| x != v implies newc(g, root, b, done, extra.insert(v), x) == newc(g, root, b, done, extra, x) by { assert(extra.insert(v).contains(x) == extra.contains(x)); }
    if s.contains(v) || b.contains(v) || !(ix(g.vseq(), v) > ix(g.vseq(), root)) { assert forall|x: Vertex| #[trigger] s.contains(x) <==> newc(g, root, b, done, extra.insert(v), x) by { if x != v { } } }
}
/// all neighbours of u looked at
pub proof fn lemma_newc_done<L: LinearGraph>(g: L, root: Vertex, b: Set<Vertex>, done: Set<Vertex>, u: Vertex, extra: Set<Vertex>, s: Set<Vertex>)
    requires is_newc(g, root, b, done, extra, s), forall|x: Vertex| #[trigger] extra.contains(x) <==> g.adj(u, x)
    ensures is_newc(g, root, b, done.insert(u), Set::empty(), s)
{
    reveal(is_newc);
    assert forall|x: Vertex| newc(g, root, b, done.insert(u), Set::empty(), x) == newc(g, root, b, done, extra, x) by {
        if extra.contains(x) { assert(done.insert(u).contains(u) && g.adj(u, x)); }
        if exists|y: Vertex| done.contains(y) && #[trigger] g.adj(y, x) { let y = choose|y: Vertex| done.contains(y) && #[trigger] g.adj(y, x); assert(done.insert(u).contains(y)); }
    }
}
pub open spec fn sset(v: Vec<VertexSet>, i: int) -> Set<Vertex> { v@[i]@ }
// ---------------------------------------------------------------- strongly reachable vertices
/// x lies before u and is reached in at most d steps through vertices right of u
pub open spec fn sball<L: LinearGraph>(g: L, u: Vertex, d: nat, x: Vertex) -> bool { d > 0 && ix(g.vseq(), x) < ix(g.vseq(), u) && exists|y: Vertex| rball(g, u, (d - 1) as nat, y) && #[trigger] g.adj(y, x) }
/// m holds exactly the vertices strongly reachable from u in at most r steps, with their distances
#[verifier::opaque]
pub open spec fn is_sreach<L: LinearGraph>(g: L, u: Vertex, r: nat, m: Map<Vertex, u32>) -> bool {
    (forall|x: Vertex| #[trigger] m.dom().contains(x) <==> sball(g, u, r, x))
    && forall|x: Vertex| #[trigger] m.dom().contains(x) ==> sball(g, u, m[x] as nat, x) && m[x] > 0 && !sball(g, u, (m[x] - 1) as nat, x)
}
/// like is_sreach at distance d, plus (at distance d+1) the earlier neighbours of `done` and `extra`
#[verifier::opaque]
pub open spec fn part_sreach<L: LinearGraph>(g: L, u: Vertex, d: nat, done: Set<Vertex>, extra: Set<Vertex>, m: Map<Vertex, u32>) -> bool {
    (forall|x: Vertex| #[trigger] m.dom().contains(x) <==> sball(g, u, d, x) || (ix(g.vseq(), x) < ix(g.vseq(), u) && (extra.contains(x) || exists|y: Vertex| done.contains(y) && #[trigger] g.adj(y, x))))
    && forall|x: Vertex| #[trigger] m.dom().contains(x) ==> if sball(g, u, d, x) { sball(g, u, m[x] as nat, x) && m[x] > 0 && !sball(g, u, (m[x] - 1) as nat, x) } else { m[x] == d + 1 }
}
pub proof fn lemma_sreach0<L: LinearGraph>(g: L, u: Vertex)
    ensures is_sreach(g, u, 0, Map::empty())
{ reveal(is_sreach); }
pub proof fn lemma_part0<L: LinearGraph>(g: L, u: Vertex, d: nat, m: Map<Vertex, u32>)
    requires is_sreach(g, u, d, m)
    ensures part_sreach(g, u, d, Set::empty(), Set::empty(), m)
{ reveal(is_sreach); reveal(part_sreach); }
pub proof fn lemma_part_step<L: LinearGraph>(g: L, u: Vertex, d: nat, done: Set<Vertex>, extra: Set<Vertex>, m: Map<Vertex, u32>, x: Vertex)
    requires part_sreach(g, u, d, done, extra, m), d + 1 <= u32::MAX
    ensures ix(g.vseq(), x) < ix(g.vseq(), u) && !m.dom().contains(x) ==> part_sreach(g, u, d, done, extra.insert(x), m.insert(x, (d + 1) as u32)),
        m.dom().contains(x) || !(ix(g.vseq(), x) < ix(g.vseq(), u)) ==> part_sreach(g, u, d, done, extra.insert(x), m)
{
    reveal(part_sreach);
    assert forall|z: Vertex| z != x implies extra.insert(x).contains(z) == extra.contains(z) by {}
    if ix(g.vseq(), x) < ix(g.vseq(), u) && !m.dom().contains(x) {
        let m2 = m.insert(x, (d + 1) as u32);
        assert forall|z: Vertex| #[trigger] m2.dom().contains(z) implies (if sball(g, u, d, z) { sball(g, u, m2[z] as nat, z) && m2[z] > 0 && !sball(g, u, (m2[z] - 1) as nat, z) } else { m2[z] == d + 1 }) by { if z != x { assert(m.dom().contains(z)); } }
    }
}
pub proof fn lemma_part_done<L: LinearGraph>(g: L, u: Vertex, d: nat, done: Set<Vertex>, v: Vertex, extra: Set<Vertex>, m: Map<Vertex, u32>)
    requires part_sreach(g, u, d, done, extra, m), forall|x: Vertex| #[trigger] extra.contains(x) <==> g.adj(v, x) && ix(g.vseq(), x) < ix(g.vseq(), v), ix(g.vseq(), u) <= ix(g.vseq(), v)
    ensures part_sreach(g, u, d, done.insert(v), Set::empty(), m)
{
    reveal(part_sreach);
    assert forall|x: Vertex| ix(g.vseq(), x) < ix(g.vseq(), u) implies (extra.contains(x) || exists|y: Vertex| done.contains(y) && #[trigger] g.adj(y, x)) == (exists|y: Vertex| done.insert(v).contains(y) && #[trigger] g.adj(y, x)) by {
        if extra.contains(x) { assert(done.insert(v).contains(v) && g.adj(v, x)); }
        if exists|y: Vertex| done.contains(y) && #[trigger] g.adj(y, x) { let y = choose|y: Vertex| done.contains(y) && #[trigger] g.adj(y, x); assert(done.insert(v).contains(y)); }
    }
}
pub proof fn lemma_rball_right<L: LinearGraph>(g: L, u: Vertex, d: nat, x: Vertex)
    requires rball(g, u, d, x)
    ensures ix(g.vseq(), u) <= ix(g.vseq(), x)
    decreases d
{ if d > 0 { if rball(g, u, (d - 1) as nat, x) { lemma_rball_right(g, u, (d - 1) as nat, x); } } }
pub proof fn lemma_part_end<L: LinearGraph>(g: L, u: Vertex, d: nat, lay: Set<Vertex>, m: Map<Vertex, u32>)
    requires part_sreach(g, u, d, lay, Set::empty(), m), is_layer(g, u, d, lay)
    ensures is_sreach(g, u, d + 1, m)
{
    reveal(part_sreach); reveal(is_sreach); reveal(is_layer);
    assert forall|x: Vertex| ix(g.vseq(), x) < ix(g.vseq(), u) implies sball(g, u, d + 1, x) == (sball(g, u, d, x) || exists|y: Vertex| lay.contains(y) && #[trigger] g.adj(y, x)) by {
        if sball(g, u, d + 1, x) { let y = choose|y: Vertex| rball(g, u, d, y) && #[trigger] g.adj(y, x); if !lay.contains(y) { assert(d > 0 && rball(g, u, (d - 1) as nat, y)); assert(sball(g, u, d, x)); } }
        if sball(g, u, d, x) { let y = choose|y: Vertex| rball(g, u, (d - 1) as nat, y) && #[trigger] g.adj(y, x); assert(rball(g, u, d, y)); }
        if exists|y: Vertex| lay.contains(y) && #[trigger] g.adj(y, x) { let y = choose|y: Vertex| lay.contains(y) && #[trigger] g.adj(y, x); assert(rball(g, u, d, y)); }
    }
}
// ---------------------------------------------------------------- weakly reachable vertices
/// m holds exactly the vertices other than v which reach v in at most r steps through vertices to the right of themselves, with their distances
#[verifier::opaque]
pub open spec fn is_wreach<L: LinearGraph>(g: L, v: Vertex, r: nat, m: Map<Vertex, u32>) -> bool {
    forall|u: Vertex| (#[trigger] m.dom().contains(u) <==> g.vs().contains(u) && u != v && rball(g, u, r, v)) && (m.dom().contains(u) ==> rlayer(g, u, m[u] as nat, v))
}
/// the starting vertices in done have been treated
#[verifier::opaque]
pub open spec fn part_w<L: LinearGraph>(g: L, r: nat, done: Set<Vertex>, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>) -> bool {
    forall|v: Vertex, u: Vertex| #![trigger mm(res, v).dom().contains(u)] mmd(res).contains(v) ==> (mm(res, v).dom().contains(u) <==> done.contains(u) && u != v && rball(g, u, r, v)) && (mm(res, v).dom().contains(u) ==> rlayer(g, u, mm(res, v)[u] as nat, v))
}
/// ... and for u0 the layers up to d and in layer d+1 the vertices in extra
#[verifier::opaque]
pub open spec fn wone<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, d: nat, extra: Set<Vertex>, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>) -> bool {
    forall|v: Vertex, u: Vertex| #![trigger mm(res, v).dom().contains(u)] mmd(res).contains(v) ==> (mm(res, v).dom().contains(u) <==> u != v && (done.contains(u) && rball(g, u, r, v) || u == u0 && (rball(g, u0, d, v) || extra.contains(v)))) && (mm(res, v).dom().contains(u) ==> rlayer(g, u, mm(res, v)[u] as nat, v))
}
pub proof fn lemma_rball0<L: LinearGraph>(g: L, u: Vertex, d: nat)
    ensures rball(g, u, d, u)
    decreases d
{ if d > 0 { lemma_rball0(g, u, (d - 1) as nat); } }
pub proof fn lemma_part_w0<L: LinearGraph>(g: L, r: nat, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>)
    requires forall|v: Vertex| mmd(res).contains(v) ==> #[trigger] mm(res, v) == Map::<Vertex, u32>::empty()
    ensures part_w(g, r, Set::empty(), res)
{ reveal(part_w); }
pub proof fn lemma_wone0<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>)
    requires part_w(g, r, done, res), !done.contains(u0)
    ensures wone(g, u0, r, done, 0, Set::empty(), res)
{ reveal(part_w); reveal(wone); }
pub proof fn lemma_wone_step<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, d: nat, extra: Set<Vertex>, res0: FxHashMap<Vertex, FxHashMap<Vertex, u32>>, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>, w: Vertex)
    requires wone(g, u0, r, done, d, extra, res0), mmd(res) == mmd(res0), mmd(res).contains(w), rlayer(g, u0, d + 1, w), w != u0, d + 1 <= u32::MAX,
        forall|x: Vertex| mmd(res0).contains(x) && x != w ==> #[trigger] mm(res, x) == mm(res0, x), mm(res, w) == mm(res0, w).insert(u0, (d + 1) as u32)
    ensures wone(g, u0, r, done, d, extra.insert(w), res)
{
    reveal(wone);
    assert forall|v: Vertex, u: Vertex| #![trigger mm(res, v).dom().contains(u)] mmd(res).contains(v) implies (mm(res, v).dom().contains(u) <==> u != v && (done.contains(u) && rball(g, u, r, v) || u == u0 && (rball(g, u0, d, v) || extra.insert(w).contains(v)))) && (mm(res, v).dom().contains(u) ==> rlayer(g, u, mm(res, v)[u] as nat, v)) by {
        if v == w { if u == u0 { } else { assert(mm(res, v).dom().contains(u) == mm(res0, v).dom().contains(u)); } } else { assert(mm(res0, v).dom().contains(u) == mm(res, v).dom().contains(u)); }
    }
}
pub proof fn lemma_wone_layer<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, d: nat, lay: Set<Vertex>, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>)
    requires wone(g, u0, r, done, d, lay, res), is_layer(g, u0, d + 1, lay)
    ensures wone(g, u0, r, done, d + 1, Set::empty(), res)
{ reveal(wone); reveal(is_layer); assert forall|v: Vertex| rball(g, u0, d + 1, v) == (rball(g, u0, d, v) || lay.contains(v)) by { assert(lay.contains(v) == rlayer(g, u0, d + 1, v)); } }
pub proof fn lemma_wone_end<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>)
    requires wone(g, u0, r, done, r, Set::empty(), res)
    ensures part_w(g, r, done.insert(u0), res)
{ reveal(wone); reveal(part_w); }
pub proof fn lemma_part_w_end<L: LinearGraph>(g: L, r: nat, res: FxHashMap<Vertex, FxHashMap<Vertex, u32>>)
    requires part_w(g, r, g.vs(), res), mmd(res) == g.vs()
    ensures forall|v: Vertex| g.vs().contains(v) ==> is_wreach(g, v, r, #[trigger] mm(res, v))
{ reveal(part_w); reveal(is_wreach); }
/// number of vertices of s which are in the weakly r-reachable set of v
pub open spec fn wcs<L: LinearGraph>(g: L, v: Vertex, r: nat, s: Set<Vertex>) -> Set<Vertex> { s.filter(|u: Vertex| u != v && rball(g, u, r, v)) }
pub open spec fn wcnt<L: LinearGraph>(g: L, v: Vertex, r: nat, s: Set<Vertex>) -> nat { wcs(g, v, r, s).len() }
#[verifier::opaque]
pub open spec fn cpart<L: LinearGraph>(g: L, r: nat, done: Set<Vertex>, res: FxHashMap<Vertex, u32>) -> bool { forall|v: Vertex| mud(res).contains(v) ==> #[trigger] mu(res, v) == wcnt(g, v, r, done) }
#[verifier::opaque]
pub open spec fn cone<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, d: nat, extra: Set<Vertex>, res: FxHashMap<Vertex, u32>) -> bool {
    forall|v: Vertex| mud(res).contains(v) ==> #[trigger] mu(res, v) == wcnt(g, v, r, done) + if v != u0 && (rball(g, u0, d, v) || extra.contains(v)) { 1int } else { 0int }
}
pub proof fn lemma_wcnt_bound<L: LinearGraph>(g: L, v: Vertex, r: nat, s: Set<Vertex>)
    requires g.wf(), s.subset_of(g.vs())
    ensures wcnt(g, v, r, s) < 0x8000_0000
{ g.lemma_wf(); let f = wcs(g, v, r, s); assert(f.subset_of(g.vs())); vstd::set_lib::lemma_len_subset(f, g.vs()); }
pub proof fn lemma_cpart0<L: LinearGraph>(g: L, r: nat, res: FxHashMap<Vertex, u32>)
    requires forall|v: Vertex| mud(res).contains(v) ==> #[trigger] mu(res, v) == 0
    ensures cpart(g, r, Set::empty(), res)
{ reveal(cpart); assert forall|v: Vertex| mud(res).contains(v) implies #[trigger] mu(res, v) == wcnt(g, v, r, Set::empty()) by { assert(wcs(g, v, r, Set::<Vertex>::empty()) =~= Set::<Vertex>::empty()); } }
pub proof fn lemma_cone0<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, res: FxHashMap<Vertex, u32>)
    requires cpart(g, r, done, res)
    ensures cone(g, u0, r, done, 0, Set::empty(), res)
{ reveal(cpart); reveal(cone); }
pub proof fn lemma_cone_step<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, d: nat, extra: Set<Vertex>, res0: FxHashMap<Vertex, u32>, res: FxHashMap<Vertex, u32>, w: Vertex)
    requires cone(g, u0, r, done, d, extra, res0), mud(res) == mud(res0), mud(res).contains(w), rlayer(g, u0, d + 1, w), w != u0, !extra.contains(w),
        forall|x: Vertex| mud(res0).contains(x) && x != w ==> #[trigger] mu(res, x) == mu(res0, x), mu(res, w) == mu(res0, w) + 1
    ensures cone(g, u0, r, done, d, extra.insert(w), res)
{
    reveal(cone);
    assert forall|v: Vertex| mud(res).contains(v) implies #[trigger] mu(res, v) == wcnt(g, v, r, done) + if v != u0 && (rball(g, u0, d, v) || extra.insert(w).contains(v)) { 1int } else { 0int } by {
        if v != w { assert(mu(res, v) == mu(res0, v)); } else { assert(mu(res0, v) == wcnt(g, v, r, done)); }
    }
}
pub proof fn lemma_cone_layer<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, d: nat, lay: Set<Vertex>, res: FxHashMap<Vertex, u32>)
    requires cone(g, u0, r, done, d, lay, res), is_layer(g, u0, d + 1, lay)
    ensures cone(g, u0, r, done, d + 1, Set::empty(), res)
{ reveal(cone); reveal(is_layer); assert forall|v: Vertex| rball(g, u0, d + 1, v) == (rball(g, u0, d, v) || lay.contains(v)) by { assert(lay.contains(v) == rlayer(g, u0, d + 1, v)); } }
pub proof fn lemma_cone_end<L: LinearGraph>(g: L, u0: Vertex, r: nat, done: Set<Vertex>, res: FxHashMap<Vertex, u32>)
    requires cone(g, u0, r, done, r, Set::empty(), res), !done.contains(u0)
    ensures cpart(g, r, done.insert(u0), res)
{
    reveal(cone); reveal(cpart);
    assert forall|v: Vertex| mud(res).contains(v) implies #[trigger] mu(res, v) == wcnt(g, v, r, done.insert(u0)) by {
        let f = wcs(g, v, r, done);
        let f2 = wcs(g, v, r, done.insert(u0));
        if u0 != v && rball(g, u0, r, v) { assert(f2 =~= f.insert(u0)); } else { assert(f2 =~= f); }
    }
}
pub open spec fn mm(m: FxHashMap<Vertex, FxHashMap<Vertex, u32>>, u: Vertex) -> Map<Vertex, u32> { m@[u]@ }
pub open spec fn mmd(m: FxHashMap<Vertex, FxHashMap<Vertex, u32>>) -> Set<Vertex> { m@.dom() }
pub open spec fn mu(m: FxHashMap<Vertex, u32>, u: Vertex) -> u32 { m@[u] }
pub open spec fn mud(m: FxHashMap<Vertex, u32>) -> Set<Vertex> { m@.dom() }
pub trait Reach : LinearGraph {
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L right_bfs
//@ requires self.wf(), self.vs().contains(*root), dist < u32::MAX
//@ ensures r@.len() == dist + 1, layers(*self, *root, r)
//@ hint start
    proof { self.lemma_wf(); }
//@ hint loop1.before
    proof { assert(lset(res, 0) =~= set![root]); assert(seen@ =~= set![root]); lemma_rlayer0(*self, root, seen@); }
//@ loop 1
    self.wf(), self.vs().contains(root), iroot == self.iof(root), res@.len() == dist + 1, it1_s == <usize as VxIncl>::iseq(1, dist as usize),
    forall|i: int| 0 <= i <= it1.pos() ==> is_layer(*self, root, i as nat, #[trigger] lset(res, i)),
    forall|i: int| it1.pos() < i < res@.len() ==> #[trigger] lset(res, i) == Set::<Vertex>::empty(),
    is_rball(*self, root, it1.pos(), seen@),
//@ hint loop1.start
    let ghost res0 = res; let ghost b0 = seen@;
    proof { assert(d == it1.pos()); lemma_newc0(*self, root, b0); assert(lset(res0, d - 1) == lset(res, d - 1)); }
//@ hint after let part1 1
    let ghost p1 = *part1; let ghost p2 = *part2;
    proof { assert(p1@[d - 1]@ == lset(res0, d - 1)); assert(p2@[0]@ == lset(res0, d as int)); }
//@ loop 2
    *part1 == p1, part2@.len() == p2@.len(), p2@.len() > 0, lists(it2_s, lset(res0, d - 1)), is_layer(*self, root, (d - 1) as nat, lset(res0, d - 1)), is_rball(*self, root, (d - 1) as nat, b0),
    forall|j: int| 1 <= j < p2@.len() ==> #[trigger] sset(*part2, j) == sset(p2, j),
    is_newc(*self, root, b0, pre(it2_s, it2.pos()), Set::empty(), sset(*part2, 0)), seen@ == b0.union(sset(*part2, 0)),
//@ hint loop2.start
    proof { reveal(is_layer); assert(lset(res0, d - 1).contains(*u)); lemma_rball_vs(*self, root, (d - 1) as nat, *u); }
    let ghost done = pre(it2_s, (it2.pos() - 1) as nat);
//@ loop 3
    part2@.len() == p2@.len(), it3_s == self.nseq(*u), forall|x: Vertex| #[trigger] it3_s.contains(x) <==> self.adj(*u, x),
    forall|j: int| 1 <= j < p2@.len() ==> #[trigger] sset(*part2, j) == sset(p2, j),
    is_newc(*self, root, b0, done, pre(it3_s, it3.pos()), sset(*part2, 0)), seen@ == b0.union(sset(*part2, 0)),
//@ hint loop3.start
    proof { self.lemma_wf(); assert(self.adj(*u, *v)); lemma_iof(*self, root, *v); lemma_iof(*self, *v, root); lemma_newc_step(*self, root, b0, done, pre(it3_s, (it3.pos() - 1) as nat), sset(*part2, 0), *v); }
    let ghost q2 = *part2; let ghost seen0 = seen@;
//@ hint loop3.end
    proof {
        assert forall|j: int| 1 <= j < p2@.len() implies #[trigger] sset(*part2, j) == sset(p2, j) by { assert(sset(q2, j) == sset(p2, j)); }
        if seen@ != seen0 { assert(sset(*part2, 0) =~= sset(q2, 0).insert(*v)); assert(seen@ =~= b0.union(sset(*part2, 0))); } }
//@ hint loop3.after
    proof { assert forall|x: Vertex| #[trigger] it3_s.to_set().contains(x) <==> self.adj(*u, x) by { assert(it3_s.contains(x) <==> self.adj(*u, x)); } lemma_newc_done(*self, root, b0, done, *u, it3_s.to_set(), sset(*part2, 0)); }
//@ hint loop2.after
    proof { lemma_rstep(*self, root, d as nat, b0, lset(res0, d - 1), sset(*part2, 0)); }
    let ghost q = *part2;
//@ hint loop1.end
    proof {
        assert forall|i: int| 0 <= i < res@.len() && i != d implies #[trigger] lset(res, i) == lset(res0, i) by { if i < d { assert(res@[i] == p1@[i]); } else { assert(res@[i] == q@[i - d]); assert(sset(q, i - d) == sset(p2, i - d)); } }
        assert(lset(res, d as int) == sset(q, 0));
        assert forall|i: int| 0 <= i <= it1.pos() implies is_layer(*self, root, i as nat, #[trigger] lset(res, i)) by { if i < d { assert(lset(res, i) == lset(res0, i)); } }
    }
//@ hint end
    proof { reveal(layers); }
//@ end
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L sreach_set
//@ ret res
//@ requires self.wf(), self.vs().contains(*u)
//@ ensures is_sreach(*self, *u, r as nat, res@)
//@ hint start
    proof { self.lemma_wf(); lemma_sreach0(*self, *u); }
//@ hint loop1.before
    proof { reveal(layers); }
//@ loop 1
    self.wf(), bfs@.len() == r, layers(*self, *u, bfs), iu == self.iof(*u), it1_s.len() == r, forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == (i as usize, &bfs@[i]),
    is_sreach(*self, *u, it1.pos(), res@),
//@ hint loop1.start
    let ghost dd = d as nat;
    proof { assert(lset(bfs, d as int) == layer@); lemma_part0(*self, *u, dd, res@); }
//@ loop 2
    lists(it2_s, layer@), is_layer(*self, *u, dd, layer@), dd == d, dd + 1 == it1.pos(),
    part_sreach(*self, *u, dd, pre(it2_s, it2.pos()), Set::empty(), res@),
//@ hint loop2.start
    let ghost done = pre(it2_s, (it2.pos() - 1) as nat);
    proof { assert(rball(*self, *u, dd, *v)) by { reveal(is_layer); } lemma_rball_vs(*self, *u, dd, *v); lemma_rball_right(*self, *u, dd, *v); }
//@ loop 3
    forall|x: Vertex| #[trigger] it3_s.contains(x) <==> self.adj(*v, x) && ix(self.vseq(), x) < ix(self.vseq(), *v),
    part_sreach(*self, *u, dd, done, pre(it3_s, it3.pos()), res@),
//@ hint loop3.start
    let ghost m0 = res@;
    proof { self.lemma_wf(); assert(it3_s.contains(x)); lemma_iof(*self, x, *u); lemma_iof(*self, *u, x); lemma_part_step(*self, *u, dd, done, pre(it3_s, (it3.pos() - 1) as nat), m0, x); }
//@ hint loop3.end
    proof { if m0.dom().contains(x) { assert(res@ =~= m0); } }
//@ hint loop3.after
    proof { assert forall|x: Vertex| #[trigger] it3_s.to_set().contains(x) <==> self.adj(*v, x) && ix(self.vseq(), x) < ix(self.vseq(), *v) by { assert(it3_s.contains(x) <==> self.adj(*v, x) && ix(self.vseq(), x) < ix(self.vseq(), *v)); } lemma_part_done(*self, *u, dd, done, *v, it3_s.to_set(), res@); }
//@ hint loop2.after
    proof { lemma_part_end(*self, *u, dd, layer@, res@); }
//@ end
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L wreach_sets
//@ ret res
//@ requires self.wf(), r < u32::MAX
//@ ensures mmd(res) == self.vs(), forall|v: Vertex| self.vs().contains(v) ==> is_wreach(*self, v, r as nat, #[trigger] mm(res, v))
//@ hint start
    proof { self.lemma_wf(); }
//@ loop 1
    lists(it1_s, self.vs()), mmd(res) == pre(it1_s, it1.pos()), forall|v: Vertex| mmd(res).contains(v) ==> #[trigger] mm(res, v) == Map::<Vertex, u32>::empty(),
//@ hint loop1.start
    let ghost res0 = res;
//@ hint loop1.end
    proof { assert forall|v: Vertex| mmd(res).contains(v) implies #[trigger] mm(res, v) == Map::<Vertex, u32>::empty() by { if v != *u { assert(mm(res, v) == mm(res0, v)); } else { assert(mm(res, v) =~= Map::<Vertex, u32>::empty()); } } }
//@ hint loop1.after
    proof { assert(it1_s.to_set() =~= self.vs()); lemma_part_w0(*self, r as nat, res); }
//@ loop 2
    self.wf(), lists(it2_s, self.vs()), mmd(res) == self.vs(), part_w(*self, r as nat, pre(it2_s, it2.pos()), res),
//@ hint loop2.start
    let ghost done = pre(it2_s, (it2.pos() - 1) as nat);
    proof { self.lemma_wf(); lemma_wone0(*self, *u, r as nat, done, res); }
//@ hint loop3.before
    proof { reveal(layers); }
//@ loop 3
    it3_s.len() == r, layers(*self, *u, vxs3), vxs3@.len() == r + 1, forall|i: int| 0 <= i < it3_s.len() ==> #[trigger] it3_s[i] == (i as usize, &vxs3@[i + 1]),
    mmd(res) == self.vs(), wone(*self, *u, r as nat, done, it3.pos(), Set::empty(), res),
//@ hint loop3.start
    proof { assert(lset(vxs3, d + 1) == layer@); assert(is_layer(*self, *u, (d + 1) as nat, layer@)); }
//@ loop 4
    d + 1 == it3.pos(), d < r, lists(it4_s, layer@), is_layer(*self, *u, (d + 1) as nat, layer@), mmd(res) == self.vs(), wone(*self, *u, r as nat, done, d as nat, pre(it4_s, it4.pos()), res),
//@ hint loop4.start
    let ghost res0 = res;
    proof { self.lemma_wf(); assert(rlayer(*self, *u, (d + 1) as nat, *v)) by { reveal(is_layer); } lemma_rball_vs(*self, *u, (d + 1) as nat, *v); lemma_rball0(*self, *u, d as nat); }
//@ hint loop4.end
    proof {
        assert forall|x: Vertex| mmd(res0).contains(x) && x != *v implies #[trigger] mm(res, x) == mm(res0, x) by {}
        assert(mmd(res) =~= mmd(res0));
        lemma_wone_step(*self, *u, r as nat, done, d as nat, pre(it4_s, (it4.pos() - 1) as nat), res0, res, *v); }
//@ hint loop4.after
    proof { assert(it4_s.to_set() =~= layer@); lemma_wone_layer(*self, *u, r as nat, done, d as nat, layer@, res); }
//@ hint loop3.after
    proof { lemma_wone_end(*self, *u, r as nat, done, res); }
//@ hint loop2.after
    proof { assert(it2_s.to_set() =~= self.vs()); lemma_part_w_end(*self, r as nat, res); }
//@ end
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L wreach_sizes
//@ ret res
//@ requires self.wf(), r < u32::MAX
//@ ensures mud(res) == self.vs(), forall|v: Vertex| self.vs().contains(v) ==> #[trigger] mu(res, v) == wcnt(*self, v, r as nat, self.vs())
//@ hint start
    proof { self.lemma_wf(); }
//@ loop 1
    lists(it1_s, self.vs()), mud(res) == pre(it1_s, it1.pos()), forall|v: Vertex| mud(res).contains(v) ==> #[trigger] mu(res, v) == 0,
//@ hint loop1.start
    let ghost res0 = res;
//@ hint loop1.end
    proof { assert forall|v: Vertex| mud(res).contains(v) implies #[trigger] mu(res, v) == 0 by { if v != *u { assert(mu(res, v) == mu(res0, v)); } } }
//@ hint loop1.after
    proof { assert(it1_s.to_set() =~= self.vs()); lemma_cpart0(*self, r as nat, res); }
//@ loop 2
    self.wf(), lists(it2_s, self.vs()), mud(res) == self.vs(), cpart(*self, r as nat, pre(it2_s, it2.pos()), res),
//@ hint loop2.start
    let ghost done = pre(it2_s, (it2.pos() - 1) as nat);
    proof { self.lemma_wf(); assert(done.subset_of(self.vs())); lemma_cone0(*self, *u, r as nat, done, res); }
//@ hint loop3.before
    proof { reveal(layers); }
//@ loop 3
    it3_s.len() == r, layers(*self, *u, vxs3), vxs3@.len() == r + 1, forall|i: int| 0 <= i < it3_s.len() ==> #[trigger] it3_s[i] == &vxs3@[i + 1], done.subset_of(self.vs()), !done.contains(*u),
    mud(res) == self.vs(), cone(*self, *u, r as nat, done, it3.pos(), Set::empty(), res),
//@ hint loop3.start
    let ghost d = (it3.pos() - 1) as nat;
    proof { assert(lset(vxs3, d as int + 1) == layer@); assert(is_layer(*self, *u, (d + 1) as nat, layer@)); }
//@ loop 4
    d + 1 == it3.pos(), d < r, lists(it4_s, layer@), is_layer(*self, *u, (d + 1) as nat, layer@), mud(res) == self.vs(), cone(*self, *u, r as nat, done, d as nat, pre(it4_s, it4.pos()), res),
//@ hint loop4.start
    let ghost res0 = res;
    proof { self.lemma_wf(); assert(rlayer(*self, *u, (d + 1) as nat, *v)) by { reveal(is_layer); } lemma_rball_vs(*self, *u, (d + 1) as nat, *v); lemma_rball0(*self, *u, d as nat); lemma_wcnt_bound(*self, *v, r as nat, done); assert(mu(res0, *v) == wcnt(*self, *v, r as nat, done)) by { reveal(cone); } }
//@ hint loop4.end
    proof {
        assert forall|x: Vertex| mud(res0).contains(x) && x != *v implies #[trigger] mu(res, x) == mu(res0, x) by {}
        assert(mud(res) =~= mud(res0));
        lemma_cone_step(*self, *u, r as nat, done, d as nat, pre(it4_s, (it4.pos() - 1) as nat), res0, res, *v); }
//@ hint loop4.after
    proof { assert(it4_s.to_set() =~= layer@); lemma_cone_layer(*self, *u, r as nat, done, d as nat, layer@, res); }
//@ hint loop3.after
    proof { lemma_cone_end(*self, *u, r as nat, done, res); }
//@ hint loop2.after
    proof { assert(it2_s.to_set() =~= self.vs()); reveal(cpart); }
//@ end
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L sreach_sets
//@ ret res
//@ requires self.wf()
//@ ensures res@.dom() == self.vs(), forall|u: Vertex| self.vs().contains(u) ==> is_sreach(*self, u, r as nat, #[trigger] mm(res, u))
//@ hint start
    proof { self.lemma_wf(); }
//@ loop 1
    self.wf(), lists(it1_s, self.vs()), mmd(res) == pre(it1_s, it1.pos()), forall|u: Vertex| mmd(res).contains(u) ==> is_sreach(*self, u, r as nat, #[trigger] mm(res, u)),
//@ hint loop1.start
    let ghost res0 = res;
//@ hint loop1.end
    proof { assert forall|x: Vertex| mmd(res).contains(x) implies is_sreach(*self, x, r as nat, #[trigger] mm(res, x)) by { if x != *u { assert(mm(res, x) == mm(res0, x)); } } }
//@ hint loop1.after
    proof { assert(it1_s.to_set() =~= self.vs()); }
//@ end
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L sreach_sizes
//@ ret res
//@ requires self.wf()
//@ ensures res@.dom() == self.vs(), forall|u: Vertex| self.vs().contains(u) ==> sreach_size(*self, u, r as nat, #[trigger] mu(res, u))
//@ hint start
    proof { self.lemma_wf(); }
//@ loop 1
    self.wf(), lists(it1_s, self.vs()), mud(res) == pre(it1_s, it1.pos()), forall|u: Vertex| mud(res).contains(u) ==> sreach_size(*self, u, r as nat, #[trigger] mu(res, u)),
//@ hint loop1.start
    let ghost res0 = res;
//@ hint loop1.end
    proof { assert forall|x: Vertex| mud(res).contains(x) implies sreach_size(*self, x, r as nat, #[trigger] mu(res, x)) by { if x != *u { assert(mu(res, x) == mu(res0, x)); } else { assert(is_sreach(*self, x, r as nat, sreach@)); } } }
//@ hint loop1.after
    proof { assert(it1_s.to_set() =~= self.vs()); }
//@ end
}
/// k is the number of vertices strongly reachable from u
pub open spec fn sreach_size<L: LinearGraph>(g: L, u: Vertex, r: nat, k: u32) -> bool { exists|m: Map<Vertex, u32>| #[trigger] is_sreach(g, u, r, m) && k == m.dom().len() }
impl<G: LinearGraph> Reach for G { }
} // verus!
