verus! {
//@ props C15
// ===================================================================== normalisation of DegenGraph
/// the positions of the entries of s
pub open spec fn rks(o: Seq<Vertex>, s: Seq<Vertex>) -> Seq<Vertex> { s.map_values(|x: Vertex| ix(o, x) as u32) }
/// the j-th record of c is the one of c0, its vertices replaced by their positions if j < k
pub open spec fn rec_relab(c0: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, k: int, c: Seq<u32>, j: int) -> bool {
    let p = ind[o[j]] as int;
    c[p + 1] == c0[p + 1] && c[p + 2] == c0[p + 2] && c[p] == (if j < k { j as u32 } else { o[j] }) && rec_row(c, p) == (if j < k { rks(o, rec_row(c0, p)) } else { rec_row(c0, p) })
}
#[verifier::opaque]
pub open spec fn relabelled(c0: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, k: int, c: Seq<u32>) -> bool {
    c.len() == c0.len() && forall|j: int| 0 <= j < o.len() ==> #[trigger] rec_relab(c0, ind, o, k, c, j)
}
pub proof fn lemma_relab0(c0: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>)
    requires layout(c0, ind, o)
    ensures relabelled(c0, ind, o, 0, c0)
{ reveal(relabelled); assert forall|j: int| 0 <= j < o.len() implies #[trigger] rec_relab(c0, ind, o, 0, c0, j) by { reveal(layout); assert(fits(c0, ind[o[j]] as int)); } }
pub proof fn lemma_relab_step(c0: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, k: int, c: Seq<u32>, d: Seq<u32>)
    requires layout(c0, ind, o), relabelled(c0, ind, o, k, c), 0 <= k < o.len(), d.len() == c.len(),
        ({ let p = ind[o[k]] as int; let e = rec_end(c0, p);
           d[p] == k as u32 && d.subrange(p + 3, e) == rks(o, rec_row(c0, p)) && (forall|q: int| 0 <= q < d.len() && q != p && !(p + 3 <= q < e) ==> #[trigger] d[q] == c[q]) })
    ensures relabelled(c0, ind, o, k + 1, d)
{
    assert forall|j: int| 0 <= j < o.len() implies #[trigger] rec_relab(c0, ind, o, k + 1, d, j) by { lemma_relab_one(c0, ind, o, k, c, d, j); }
    reveal(relabelled);
}
pub proof fn lemma_relab_one(c0: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, k: int, c: Seq<u32>, d: Seq<u32>, j: int)
    requires layout(c0, ind, o), relabelled(c0, ind, o, k, c), 0 <= k < o.len(), 0 <= j < o.len(), d.len() == c.len(),
        ({ let p = ind[o[k]] as int; let e = rec_end(c0, p);
           d[p] == k as u32 && d.subrange(p + 3, e) == rks(o, rec_row(c0, p)) && (forall|q: int| 0 <= q < d.len() && q != p && !(p + 3 <= q < e) ==> #[trigger] d[q] == c[q]) })
    ensures rec_relab(c0, ind, o, k + 1, d, j)
{
    lemma_relab_at(c0, ind, o, k, c, k); lemma_relab_at(c0, ind, o, k, c, j);
    let p = ind[o[k]] as int; let z = ind[o[j]] as int;
    if j < k { lemma_layout_mono(c0, ind, o, j, k); } else if j > k { lemma_layout_mono(c0, ind, o, k, j); }
    assert(d[z + 1] == c[z + 1] && d[z + 2] == c[z + 2]);
    if j != k { assert(d[z] == c[z]); assert(rec_end(c, z) == rec_end(c0, z)); assert(rec_row(d, z) =~= rec_row(c, z)); }
}
pub proof fn lemma_relab_at(c0: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, k: int, c: Seq<u32>, j: int)
    requires layout(c0, ind, o), relabelled(c0, ind, o, k, c), 0 <= j < o.len()
    ensures c.len() == c0.len(), rec_relab(c0, ind, o, k, c, j), fits(c0, ind[o[j]] as int), fits(c, ind[o[j]] as int), c0[ind[o[j]] as int] == o[j],
        c0[ind[o[j]] + 1] == (if j + 1 < o.len() { ind[o[j + 1]] } else { ind[o[j]] }), ind[o[j]] <= 0xffff_ffff, rec_end(c0, ind[o[j]] as int) <= 0xffff_ffff, j + 1 < o.len() ==> ind[o[j + 1]] > ind[o[j]]
{ reveal(relabelled); reveal(layout); assert(rec_relab(c0, ind, o, k, c, j)); assert(fits(c0, ind[o[j]] as int)); if j + 1 < o.len() { lemma_layout_mono(c0, ind, o, j, j + 1); } }
/// the first k vertices of o and their positions
#[verifier::opaque]
pub open spec fn numbered(o: Seq<Vertex>, k: int, a: Map<Vertex, Vertex>, b: Map<Vertex, Vertex>) -> bool {
    &&& forall|x: Vertex| #[trigger] a.dom().contains(x) <==> o.contains(x) && ix(o, x) < k
    &&& forall|x: Vertex| a.dom().contains(x) ==> #[trigger] a[x] == ix(o, x)
    &&& forall|j: Vertex| #[trigger] b.dom().contains(j) <==> j < k
    &&& forall|j: Vertex| b.dom().contains(j) ==> #[trigger] b[j] == o[j as int]
}
pub proof fn lemma_numbered0(o: Seq<Vertex>, a: Map<Vertex, Vertex>, b: Map<Vertex, Vertex>)
    requires a.dom() == Set::<Vertex>::empty(), b.dom() == Set::<Vertex>::empty(), o.no_duplicates()
    ensures numbered(o, 0, a, b)
{ reveal(numbered); lemma_ix(o); }
pub proof fn lemma_numbered_step(o: Seq<Vertex>, k: int, a: Map<Vertex, Vertex>, b: Map<Vertex, Vertex>)
    requires numbered(o, k, a, b), o.no_duplicates(), 0 <= k < o.len(), o.len() < 0x8000_0000
    ensures numbered(o, k + 1, a.insert(o[k], k as u32), b.insert(k as u32, o[k]))
{ reveal(numbered); lemma_ix(o); }
/// sorting the positions of a row that is sorted along o changes nothing
pub proof fn lemma_sorted_rks(o: Seq<Vertex>, row: Seq<Vertex>, r: Seq<u32>)
    requires sorted_in(o, row), o.no_duplicates(), row.no_duplicates(), forall|x: Vertex| #[trigger] row.contains(x) ==> o.contains(x), perm(r, rks(o, row)), ascending(r), o.len() <= 0xffff_ffff
    ensures r == rks(o, row)
{
    let s = rks(o, row); lemma_ix(o); reveal(sorted_in);
    assert forall|i: int, j: int| 0 <= i < j < s.len() implies s[i] < s[j] by { assert(row.contains(row[i]) && row.contains(row[j])); }
    assert(s.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(s[i] < s[j]); } else { assert(s[j] < s[i]); } } }
    assert forall|i: int, j: int| 0 <= i < j < r.len() implies r[i] < r[j] by { reveal(ascending); assert(r[i] != r[j]); assert(r[i] <= r[j]); }
    lemma_asc_unique(r, s);
}
pub proof fn lemma_asc_unique(a: Seq<u32>, b: Seq<u32>)
    requires a.len() == b.len(), forall|x: u32| #[trigger] a.contains(x) <==> b.contains(x), forall|i: int, j: int| 0 <= i < j < a.len() ==> a[i] < a[j], forall|i: int, j: int| 0 <= i < j < b.len() ==> b[i] < b[j]
    ensures a == b
    decreases a.len()
{
    if a.len() == 0 { assert(a =~= b); } else {
        let n = a.len() - 1; let x = a[n]; let y = b[n];
        assert(a.contains(x) && b.contains(y)); assert(b.contains(x) && a.contains(y));
        let i = choose|i: int| 0 <= i < a.len() && a[i] == y; let j = choose|j: int| 0 <= j < b.len() && b[j] == x;
        if i < n { assert(a[i] < a[n]); } if j < n { assert(b[j] < b[n]); }
        assert(x == y);
        let a1 = a.drop_last(); let b1 = b.drop_last();
        assert forall|z: u32| #[trigger] a1.contains(z) <==> b1.contains(z) by {
            if a1.contains(z) { let k = choose|k: int| 0 <= k < a1.len() && a1[k] == z; assert(a[k] == z && a[k] < a[n]); assert(a.contains(z)); let l = choose|l: int| 0 <= l < b.len() && b[l] == z; assert(l < n); assert(b1[l] == z); }
            if b1.contains(z) { let k = choose|k: int| 0 <= k < b1.len() && b1[k] == z; assert(b[k] == z && b[k] < b[n]); assert(b.contains(z)); assert(a.contains(z)); let l = choose|l: int| 0 <= l < a.len() && a[l] == z; assert(l < n); assert(a1[l] == z); }
        }
        lemma_asc_unique(a1, b1); assert(a =~= a1.push(x)); assert(b =~= b1.push(y));
    }
}
/// 0, 1, .., n-1
pub open spec fn upto_seq(n: nat) -> Seq<Vertex> { Seq::new(n, |j: int| j as u32) }
pub proof fn lemma_upto(n: nat)
    requires n <= 0x8000_0000
    ensures upto_seq(n).no_duplicates(), upto_seq(n).len() == n, forall|j: int| 0 <= j < n ==> #[trigger] upto_seq(n)[j] == j, forall|j: Vertex| #[trigger] upto_seq(n).contains(j) <==> j < n, forall|j: Vertex| j < n ==> #[trigger] ix(upto_seq(n), j) == j
{
    let q = upto_seq(n);
    assert forall|j: Vertex| #[trigger] q.contains(j) <==> j < n by { if j < n { assert(q[j as int] == j); } }
    assert forall|j: Vertex| j < n implies #[trigger] ix(q, j) == j by { lemma_ix_at(q, j as int); }
}
pub proof fn lemma_img_len(e: Set<Edge>, f: spec_fn(Edge) -> Edge)
    requires forall|a: Edge, b: Edge| e.contains(a) && e.contains(b) && #[trigger] f(a) == #[trigger] f(b) ==> a == b
    ensures e.map(f).len() == e.len()
    decreases e.len()
{
    if e.len() == 0 { assert(e.map(f) =~= Set::<Edge>::empty()); } else {
        let a = e.choose(); let d = e.remove(a); lemma_img_len(d, f);
        assert(!d.map(f).contains(f(a)));
        assert(e.map(f) =~= d.map(f).insert(f(a))) by {
            assert forall|z: Edge| #[trigger] e.map(f).contains(z) <==> d.map(f).insert(f(a)).contains(z) by {
                if e.map(f).contains(z) { let b = choose|b: Edge| e.contains(b) && f(b) == z; if b != a { assert(d.contains(b)); } }
                if d.map(f).contains(z) { let b = choose|b: Edge| d.contains(b) && f(b) == z; assert(e.contains(b)); }
            }
        }
    }
}
/// h is g with every vertex replaced by its position
pub open spec fn relab_of(g: DegenGraph, h: DegenGraph) -> bool {
    let o = g.vseq();
    &&& relabelled(g.contents@, g.indices@, o, o.len() as int, h.contents@)
    &&& h.m == g.m
    &&& forall|j: Vertex| #[trigger] h.indices@.dom().contains(j) <==> j < o.len()
    &&& forall|j: Vertex| #[trigger] h.right_neighbours@.dom().contains(j) <==> j < o.len()
    &&& forall|x: Vertex| o.contains(x) ==> h.indices@[ix(o, x) as u32] == #[trigger] g.indices@[x]
    &&& forall|x: Vertex| o.contains(x) ==> img_of(o, #[trigger] rset(g.right_neighbours, x), rset(h.right_neighbours, posv(o, x)))
}
/// t holds the positions of the elements of s
pub open spec fn img_of(o: Seq<Vertex>, s: Set<Vertex>, t: Set<Vertex>) -> bool { forall|z: Vertex| #[trigger] t.contains(z) <==> z < o.len() && s.contains(o[z as int]) }
pub proof fn lemma_img_of(o: Seq<Vertex>, s: Seq<Vertex>, m: Seq<Vertex>)
    requires o.no_duplicates(), o.len() <= 0x8000_0000, forall|x: Vertex| #[trigger] s.contains(x) ==> o.contains(x), m.len() == s.len(), forall|i: int| 0 <= i < m.len() ==> #[trigger] m[i] == ix(o, s[i])
    ensures img_of(o, s.to_set(), m.to_set())
{
    lemma_ix(o); let t = m.to_set();
    assert forall|z: Vertex| #[trigger] t.contains(z) <==> z < o.len() && s.to_set().contains(o[z as int]) by {
        if t.contains(z) { let i = choose|i: int| 0 <= i < m.len() && m[i] == z; assert(s.contains(s[i])); }
        if z < o.len() && s.to_set().contains(o[z as int]) { let x = o[z as int]; let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(m[i] == ix(o, s[i])); assert(m.contains(z)); }
    }
}
pub open spec fn posv(o: Seq<Vertex>, x: Vertex) -> Vertex { ix(o, x) as u32 }
pub proof fn lemma_relab_layout(g: DegenGraph, h: DegenGraph)
    requires g.inv(), relab_of(g, h)
    ensures h.vseq() == upto_seq(g.vseq().len()), layout(h.contents@, h.indices@, dseq(h)), h.contents@.len() == g.contents@.len()
{
    let o = g.vseq(); let n = o.len(); let q = upto_seq(n); let c = h.contents@;
    g.lemma_wf(); lemma_layout(g.contents@, g.indices@, o); lemma_ix(o); o.unique_seq_to_set(); lemma_upto(n);
    assert forall|j: int| 0 <= j < n implies h.indices@[#[trigger] q[j]] == g.indices@[o[j]] by { assert(o.contains(o[j])); let x = o[j]; assert(h.indices@[ix(o, x) as u32] == g.indices@[x]); }
    assert(c.len() == g.contents@.len()) by { reveal(relabelled); }
    assert forall|i: int| 0 <= i < n implies #[trigger] rec_ok(c, h.indices@, q, i) by {
        assert(h.indices@[q[i]] == g.indices@[o[i]]); lemma_relab_at(g.contents@, g.indices@, o, n as int, c, i); lemma_layout_next(g.contents@, g.indices@, o, i); if i + 1 < n { assert(h.indices@[q[i + 1]] == g.indices@[o[i + 1]]); }
    }
    if n > 0 { let l = (n - 1) as int; lemma_relab_at(g.contents@, g.indices@, o, n as int, c, l); lemma_layout_next(g.contents@, g.indices@, o, l); assert(o[l] == o.last() && q[l] == q.last()); assert(h.indices@[q[l]] == g.indices@[o[l]]); assert(h.indices@[q[0]] == g.indices@[o[0]]); lemma_layout_make(c, h.indices@, q); }
    else { assert(c.len() == 0); assert(layout(c, h.indices@, q)) by { reveal(layout); } }
    lemma_layout_unique(c, h.indices@, q, dseq(h));
}
pub proof fn lemma_layout_next(c: Seq<u32>, ind: Map<Vertex, usize>, o: Seq<Vertex>, i: int)
    requires layout(c, ind, o), 0 <= i < o.len()
    ensures i + 1 < o.len() ==> ind[o[i + 1]] == rec_end(c, ind[o[i]] as int), i + 1 == o.len() ==> rec_end(c, ind[o[i]] as int) == c.len()
{ reveal(layout); assert(fits(c, ind[o[i]] as int)); }
pub proof fn lemma_relab(g: DegenGraph, h: DegenGraph)
    requires g.inv(), relab_of(g, h)
    ensures h.inv(), h.vseq() == upto_seq(g.vseq().len()), forall|x: Vertex, y: Vertex| g.vs().contains(x) && g.vs().contains(y) ==> (h.adj(posv(g.vseq(), x), posv(g.vseq(), y)) <==> #[trigger] g.adj(x, y)),
        forall|x: Vertex| g.vs().contains(x) ==> #[trigger] h.lseq(posv(g.vseq(), x)) == rks(g.vseq(), g.lseq(x)), h.vs() == upto_seq(g.vseq().len()).to_set(), h.esize() == g.esize()
{
    let o = g.vseq(); let n = o.len(); let q = upto_seq(n); let c = h.contents@;
    g.lemma_wf(); lemma_layout(g.contents@, g.indices@, o); lemma_ix(o); o.unique_seq_to_set(); lemma_upto(n); lemma_relab_layout(g, h);
    // rows
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] h.lseq(posv(o, x)) == rks(o, g.lseq(x)) by {
        assert(o.contains(x)); let j = ix(o, x); lemma_relab_at(g.contents@, g.indices@, o, n as int, c, j); assert(o[j] == x); assert(h.indices@[posv(o, x)] == g.indices@[x]);
    }
    assert(h.vs() =~= q.to_set()); assert(h.right_neighbours@.dom() =~= h.indices@.dom());
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] row_ok(h, posv(o, x)) by { lemma_relab_row(g, h, x); }
    lemma_relab_rep(g, h);
    lemma_relab_edges(g, h);
}
pub proof fn lemma_relab_rep(g: DegenGraph, h: DegenGraph)
    requires g.inv(), relab_of(g, h), layout(h.contents@, h.indices@, dseq(h)), h.right_neighbours@.dom() == h.indices@.dom(), forall|x: Vertex| g.vs().contains(x) ==> #[trigger] row_ok(h, posv(g.vseq(), x)),
        forall|x: Vertex| g.vs().contains(x) ==> #[trigger] h.lseq(posv(g.vseq(), x)) == rks(g.vseq(), g.lseq(x))
    ensures h.rep(), forall|x: Vertex, y: Vertex| g.vs().contains(x) && g.vs().contains(y) ==> (h.adj(posv(g.vseq(), x), posv(g.vseq(), y)) <==> #[trigger] g.adj(x, y))
{
    let o = g.vseq(); let n = o.len();
    g.lemma_wf(); lemma_layout(g.contents@, g.indices@, o); lemma_ix(o); o.unique_seq_to_set();
    assert forall|x: Vertex| o.contains(x) implies #[trigger] posv(o, x) == ix(o, x) && posv(o, x) < n && h.vs().contains(posv(o, x)) by {}
    assert forall|j: Vertex| h.vs().contains(j) implies o.contains(o[j as int]) && #[trigger] posv(o, o[j as int]) == j && j < n by { let x = o[j as int]; assert(o.contains(x)); }
    assert forall|j: Vertex| h.vs().contains(j) implies #[trigger] row_ok(h, j) by { let x = o[j as int]; assert(posv(o, o[j as int]) == j); assert(row_ok(h, posv(o, x))); }
    assert forall|x: Vertex, y: Vertex| g.vs().contains(x) && g.vs().contains(y) implies (#[trigger] drow(h, posv(o, x)).contains(posv(o, y)) <==> drow(g, x).contains(y)) by { lemma_relab_mem(g, h, x, y); }
    assert forall|x: Vertex, y: Vertex| g.vs().contains(x) && g.vs().contains(y) implies (#[trigger] h.right_neighbours@[posv(o, x)]@.contains(posv(o, y)) <==> drow(g, y).contains(x)) by {
        assert(o.contains(x) && o.contains(y)); assert(img_of(o, rset(g.right_neighbours, x), rset(h.right_neighbours, posv(o, x)))); assert(rset(h.right_neighbours, posv(o, x)).contains(posv(o, y)) <==> rset(g.right_neighbours, x).contains(y)); assert(g.right_neighbours@[x]@.contains(y) <==> drow(g, y).contains(x)); }
    assert forall|a: Vertex, b: Vertex| h.indices@.dom().contains(a) implies (#[trigger] h.right_neighbours@[a]@.contains(b) <==> h.indices@.dom().contains(b) && drow(h, b).contains(a)) by {
        let x = o[a as int]; assert(posv(o, o[a as int]) == a);
        if h.vs().contains(b) { let y = o[b as int]; assert(posv(o, o[b as int]) == b); assert(h.right_neighbours@[posv(o, x)]@.contains(posv(o, y)) <==> drow(g, y).contains(x)); assert(drow(h, posv(o, y)).contains(posv(o, x)) <==> drow(g, y).contains(x)); }
        else { assert(img_of(o, rset(g.right_neighbours, x), rset(h.right_neighbours, posv(o, x)))); if rset(h.right_neighbours, posv(o, x)).contains(b) { assert(b < n); } }
    }
    assert forall|x: Vertex, y: Vertex| g.vs().contains(x) && g.vs().contains(y) implies (h.adj(posv(o, x), posv(o, y)) <==> #[trigger] g.adj(x, y)) by {
        assert(o.contains(x) && o.contains(y)); assert(drow(h, posv(o, x)).contains(posv(o, y)) <==> drow(g, x).contains(y));
        assert(h.right_neighbours@[posv(o, x)]@.contains(posv(o, y)) <==> drow(g, y).contains(x));
        assert(g.right_neighbours@[x]@.contains(y) <==> g.vs().contains(y) && drow(g, y).contains(x));
    }
}
pub proof fn lemma_relab_row(g: DegenGraph, h: DegenGraph, x: Vertex)
    requires g.inv(), g.vs().contains(x), h.lseq(posv(g.vseq(), x)) == rks(g.vseq(), g.lseq(x)), dseq(h) == upto_seq(g.vseq().len()),
        forall|j: Vertex| #[trigger] h.indices@.dom().contains(j) <==> j < g.vseq().len(), forall|x: Vertex| g.vseq().contains(x) ==> h.indices@[ix(g.vseq(), x) as u32] == #[trigger] g.indices@[x]
    ensures row_ok(h, posv(g.vseq(), x))
{
    let o = g.vseq(); g.lemma_wf(); g.lemma_row(x); lemma_ix(o); o.unique_seq_to_set(); lemma_upto(o.len()); lemma_layout(g.contents@, g.indices@, o);
    let a = drow(g, x); let b = drow(h, posv(o, x)); reveal(sorted_in);
    assert forall|i: int| 0 <= i < a.len() implies b[i] == ix(o, #[trigger] a[i]) && o.contains(a[i]) && g.indices@[a[i]] < g.indices@[x] && h.indices@[b[i]] == g.indices@[a[i]] by { assert(a.contains(a[i])); assert(o.contains(a[i])); assert(h.indices@[ix(o, a[i]) as u32] == g.indices@[a[i]]); }
    assert(o.contains(x));
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies ix(dseq(h), b[i]) < ix(dseq(h), b[j]) && b[i] != b[j] by { assert(ix(o, a[i]) < ix(o, a[j])); }
    assert(b.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < b.len() && 0 <= j < b.len() && i != j implies b[i] != b[j] by { if i < j { assert(ix(dseq(h), b[i]) < ix(dseq(h), b[j])); } else { assert(ix(dseq(h), b[j]) < ix(dseq(h), b[i])); } } }
    assert(h.indices@[ix(o, x) as u32] == g.indices@[x]);
    assert forall|y: Vertex| #[trigger] b.contains(y) implies h.indices@.dom().contains(y) && h.indices@[y] < h.indices@[posv(o, x)] by { let i = choose|i: int| 0 <= i < b.len() && b[i] == y; assert(o.contains(a[i])); }
}
pub proof fn lemma_relab_mem(g: DegenGraph, h: DegenGraph, x: Vertex, y: Vertex)
    requires g.inv(), g.vs().contains(x), g.vs().contains(y), h.lseq(posv(g.vseq(), x)) == rks(g.vseq(), g.lseq(x))
    ensures drow(h, posv(g.vseq(), x)).contains(posv(g.vseq(), y)) <==> drow(g, x).contains(y)
{
    let o = g.vseq(); g.lemma_wf(); g.lemma_row(x); lemma_ix(o); o.unique_seq_to_set(); lemma_layout(g.contents@, g.indices@, o);
    let a = drow(g, x); let b = drow(h, posv(o, x)); assert(o.contains(y));
    assert forall|i: int| 0 <= i < a.len() implies b[i] == ix(o, #[trigger] a[i]) && o.contains(a[i]) by { assert(a.contains(a[i])); }
    if a.contains(y) { let i = choose|i: int| 0 <= i < a.len() && a[i] == y; assert(b[i] == posv(o, y)); }
    if b.contains(posv(o, y)) { let i = choose|i: int| 0 <= i < b.len() && b[i] == posv(o, y); assert(ix(o, a[i]) == ix(o, y)); assert(a[i] == y); }
}
pub open spec fn emap(o: Seq<Vertex>, z: Edge) -> Edge { let a = posv(o, z.0); let b = posv(o, z.1); if a <= b { (a, b) } else { (b, a) } }
pub proof fn lemma_relab_edges(g: DegenGraph, h: DegenGraph)
    requires g.inv(), h.rep(), h.m == g.m, h.contents@.len() == g.contents@.len(), forall|x: Vertex, y: Vertex| g.vs().contains(x) && g.vs().contains(y) ==> (h.adj(posv(g.vseq(), x), posv(g.vseq(), y)) <==> #[trigger] g.adj(x, y)), forall|j: Vertex| #[trigger] h.vs().contains(j) <==> j < g.vseq().len()
    ensures h.inv()
{
    let o = g.vseq(); g.lemma_wf(); lemma_ix(o); o.unique_seq_to_set(); lemma_layout(g.contents@, g.indices@, o);
    let e = g.eset(); let f = |z: Edge| emap(o, z); let im = e.map(f);
    assert forall|a: Edge| #[trigger] e.contains(a) implies a.0 <= a.1 && g.adj(a.0, a.1) && o.contains(a.0) && o.contains(a.1) by { let (x, y) = a; assert(e.contains((x, y))); }
    assert forall|a: Edge, b: Edge| e.contains(a) && e.contains(b) && #[trigger] f(a) == #[trigger] f(b) implies a == b by { assert(o.contains(a.0) && o.contains(b.0)); assert(posv(o, a.0) == ix(o, a.0) && posv(o, a.1) == ix(o, a.1) && posv(o, b.0) == ix(o, b.0) && posv(o, b.1) == ix(o, b.1)); }
    lemma_img_len(e, f);
    assert(is_eset(im, drel(h))) by {
        assert forall|x: Vertex, y: Vertex| #[trigger] im.contains((x, y)) <==> x <= y && drel(h)(x, y) by {
            if im.contains((x, y)) { let a = choose|a: Edge| e.contains(a) && f(a) == (x, y); assert(h.adj(posv(o, a.0), posv(o, a.1)) <==> g.adj(a.0, a.1)); assert(g.adj(a.1, a.0)); assert(h.adj(posv(o, a.1), posv(o, a.0)) <==> g.adj(a.1, a.0)); }
            if x <= y && dadj(h, x, y) { h.lemma_ends(x, y); assert(h.vs().contains(x) && h.vs().contains(y)); let u = o[x as int]; let v = o[y as int]; assert(o.contains(u) && o.contains(v)); assert(posv(o, u) == x && posv(o, v) == y); assert(h.adj(posv(o, u), posv(o, v)) <==> g.adj(u, v)); assert(g.adj(v, u));
                let a = if u <= v { (u, v) } else { (v, u) }; assert(e.contains(a)) by { let (p, q) = a; assert(e.contains((p, q)) <==> p <= q && g.adj(p, q)); } assert(f(a) == (x, y)); }
        }
    }
    assert(im.len() == h.m);
}
/// g after the loop of `normalize` has handled the first k records
impl DegenGraph {
//@ fn degengraph.rs impl:DegenGraph normalize
//@ local ix ixv
//@ attr #[verifier::allow_complex_invariants] #[verifier::rlimit(60)]
//@ requires old(self).wf()
//@ ensures
    final(self).wf(), final(self).vseq() == upto_seq(old(self).vseq().len()), final(self).vs() == upto_seq(old(self).vseq().len()).to_set(), final(self).esize() == old(self).esize(),
    forall|x: Vertex, y: Vertex| old(self).vs().contains(x) && old(self).vs().contains(y) ==> (final(self).adj(posv(old(self).vseq(), x), posv(old(self).vseq(), y)) <==> #[trigger] old(self).adj(x, y)),
    forall|x: Vertex| old(self).vs().contains(x) ==> #[trigger] final(self).lseq(posv(old(self).vseq(), x)) == rks(old(self).vseq(), old(self).lseq(x)),
    forall|j: Vertex| #[trigger] r@.dom().contains(j) <==> j < old(self).vseq().len(), forall|j: Vertex| r@.dom().contains(j) ==> #[trigger] r@[j] == old(self).vseq()[j as int],
//@ hint start
    let ghost g0 = *self; let ghost o = self.vseq(); let ghost c0 = self.contents@; let ghost ind = self.indices@;
    proof { self.lemma_wf(); lemma_layout(c0, ind, o); lemma_ix(o); o.unique_seq_to_set(); assert(o.len() < 0x8000_0000);
        if o.len() == 0 { lemma_relab0(c0, ind, o); reveal(relabelled); assert(ind.dom() =~= Set::<Vertex>::empty()); assert(relabelled(c0, ind, o, 0, c0)); assert(relab_of(g0, g0)) by { assert forall|j: Vertex| !#[trigger] g0.indices@.dom().contains(j) by {} assert forall|j: Vertex| !#[trigger] g0.right_neighbours@.dom().contains(j) by {} } lemma_relab(g0, g0); } }
//@ hint loop1.before
    proof { lemma_relab0(c0, ind, o); lemma_numbered0(o, old_to_new@, new_to_old@); }
//@ rawloop 1
    invariant_except_break
        0 <= ixv < o.len(), i == ind[o[ixv as int]], relabelled(c0, ind, o, ixv as int, self.contents@), numbered(o, ixv as int, old_to_new@, new_to_old@),
    invariant g0.inv(), layout(c0, ind, o), self.indices == g0.indices, self.right_neighbours == g0.right_neighbours, self.m == g0.m, o.len() < 0x8000_0000, o.no_duplicates(),
    ensures relabelled(c0, ind, o, o.len() as int, self.contents@), numbered(o, o.len() as int, old_to_new@, new_to_old@),
    decreases o.len() - ixv
//@ hint loop1.start
    let ghost k = ixv as int; let ghost c = self.contents@; let ghost x = o[k]; let ghost row = drow(g0, x);
    proof { lemma_relab_at(c0, ind, o, k, c, k); lemma_layout_next(c0, ind, o, k); assert(o.contains(x)); lemma_layout_dom(c0, ind, o, x); g0.lemma_row(x); lemma_numbered_step(o, k, old_to_new@, new_to_old@); lemma_ix(o); }
//@ closure 1 |u: &Vertex| -> (y: Vertex) requires old_to_new@.dom().contains(*u) ensures y == old_to_new@[*u]
//@ hint after call insert 2
    proof { assert(u == x); assert(numbered(o, k + 1, old_to_new@, new_to_old@)); assert(self.contents@.subrange(left as int, right as int) =~= row);
        assert forall|j: int| 0 <= j < row.len() implies old_to_new@.dom().contains(#[trigger] row[j]) && old_to_new@[row[j]] == ix(o, row[j]) && o.contains(row[j]) by { lemma_numbered_row(g0, k, old_to_new@, new_to_old@, j); } }
//@ hint before call sort_unstable 1
    let ghost n0 = rowv(N);
    proof { assert(n0 =~= rks(o, row)); }
//@ hint after call sort_unstable 1
    proof { g0.lemma_row(x); lemma_layout(c0, ind, o); assert forall|y: Vertex| #[trigger] row.contains(y) implies o.contains(y) by { assert(g0.vs().contains(y)); } lemma_sorted_rks(o, row, rowv(N)); }
//@ hint after call clone_from_slice 1
    proof { let d = self.contents@; assert(d.subrange(left as int, right as int) =~= rks(o, row)); lemma_relab_step(c0, ind, o, k, c, d); }
//@ loop 2
    forall|j: int| 0 <= j < it2_s.len() ==> #[trigger] it2_s[j] == (&rord[j], &g0.right_neighbours@[rord[j]]), it2_s.len() == rord.len(), lists(rord, ind.dom()), numbered(o, o.len() as int, old_to_new@, new_to_old@),
    forall|j: Vertex| #[trigger] right_Ns@.dom().contains(j) <==> j < o.len() && pre(rord, it2.pos()).contains(o[j as int]),
    forall|z: Vertex| pre(rord, it2.pos()).contains(z) ==> img_of(o, #[trigger] rset(g0.right_neighbours, z), rset(right_Ns, posv(o, z))),
//@ hint loop2.before
    let ghost rord = self.right_neighbours.order();
    proof { lemma_layout(c0, ind, o); lemma_pre_ends(rord); }
//@ hint loop2.start
    let ghost rn0 = right_Ns; let ghost kk = (it2.pos() - 1) as nat;
    proof { lemma_pre(rord, kk); lemma_layout(c0, ind, o); lemma_ix(o); assert(rord.contains(rord[kk as int])); assert(it2_s[kk as int] == (&rord[kk as int], &g0.right_neighbours@[rord[kk as int]])); assert(ind.dom().contains(*u)); assert(o.contains(*u)); lemma_numbered_at(o, old_to_new@, new_to_old@, *u);
        assert forall|j: int| 0 <= j < N.order().len() implies old_to_new@.dom().contains(#[trigger] N.order()[j]) && old_to_new@[N.order()[j]] == ix(o, N.order()[j]) && o.contains(N.order()[j]) by { let y = N.order()[j]; assert(N.order().contains(y)); assert(g0.right_neighbours@[*u]@.contains(y)); assert(ind.dom().contains(y)); assert(o.contains(y)); lemma_numbered_at(o, old_to_new@, new_to_old@, y); } }
//@ closure 2 |x: &Vertex| -> (y: Vertex) requires old_to_new@.dom().contains(*x) ensures y == old_to_new@[*x]
//@ hint after let new_u 1
    proof { let s = N.order(); let m = new_N_2.seq(); assert(m.len() == s.len()); assert forall|i: int| 0 <= i < m.len() implies #[trigger] m[i] == ix(o, s[i]) by { assert(old_to_new@[s[i]] == ix(o, s[i])); } lemma_img_of(o, s, m); assert(s.to_set() =~= N@); assert(img_of(o, rset(g0.right_neighbours, *u), new_N@)); assert(new_u == posv(o, *u)); }
//@ unchain new_N
//@ hint loop2.end
    proof { lemma_ix(o); assert forall|z: Vertex| pre(rord, it2.pos()).contains(z) implies img_of(o, #[trigger] rset(g0.right_neighbours, z), rset(right_Ns, posv(o, z))) by { lemma_layout(c0, ind, o); assert(pre(rord, kk).contains(z) || z == *u); assert(rord.contains(z)); assert(ind.dom().contains(z)); assert(o.contains(z)); if z != *u { assert(pre(rord, kk).contains(z)); assert(posv(o, z) != posv(o, *u)) by { assert(ix(o, z) != ix(o, *u)); } assert(rset(right_Ns, posv(o, z)) == rset(rn0, posv(o, z))); } } }
//@ loop 3
    forall|j: int| 0 <= j < it3_s.len() ==> #[trigger] it3_s[j] == (&iord[j], &ind[iord[j]]), it3_s.len() == iord.len(), lists(iord, ind.dom()),
    forall|j: Vertex| #[trigger] new_indices@.dom().contains(j) <==> j < o.len() && pre(iord, it3.pos()).contains(o[j as int]),
    forall|j: Vertex| new_indices@.dom().contains(j) ==> #[trigger] new_indices@[j] == ind[o[j as int]],
//@ hint loop3.before
    let ghost iord = self.indices.order(); let ghost rn = right_Ns;
    proof { lemma_pre_ends(rord); lemma_pre_ends(iord); }
//@ hint loop3.start
    let ghost kk = (it3.pos() - 1) as nat;
    proof { lemma_pre(iord, kk); lemma_layout(c0, ind, o); lemma_ix(o); assert(iord.contains(iord[kk as int])); assert(it3_s[kk as int] == (&iord[kk as int], &ind[iord[kk as int]])); assert(ind.dom().contains(*u)); assert(o.contains(*u)); lemma_numbered_at(o, old_to_new@, new_to_old@, *u); }
//@ hint end
    proof { lemma_pre_ends(iord); lemma_ix(o); reveal(numbered);
        assert forall|j: Vertex| j < o.len() implies #[trigger] self.indices@.dom().contains(j) && self.right_neighbours@.dom().contains(j) by { assert(o.contains(o[j as int])); }
        assert forall|z: Vertex| o.contains(z) implies self.indices@[ix(o, z) as u32] == #[trigger] g0.indices@[z] by { let j = posv(o, z); assert(o[j as int] == z); assert(self.indices@.dom().contains(j)); }
        assert forall|z: Vertex| o.contains(z) implies img_of(o, #[trigger] rset(g0.right_neighbours, z), rset(self.right_neighbours, posv(o, z))) by { assert(ind.dom().contains(z)); assert(rord.contains(z)); assert(pre(rord, rord.len()).contains(z)); }
        assert(relab_of(g0, *self)); lemma_relab(g0, *self); }
//@ end
}
pub proof fn lemma_numbered_at(o: Seq<Vertex>, a: Map<Vertex, Vertex>, b: Map<Vertex, Vertex>, x: Vertex)
    requires numbered(o, o.len() as int, a, b), o.contains(x), o.no_duplicates()
    ensures a.dom().contains(x), a[x] == ix(o, x)
{ reveal(numbered); lemma_ix(o); }
pub proof fn lemma_numbered_row(g: DegenGraph, k: int, a: Map<Vertex, Vertex>, b: Map<Vertex, Vertex>, j: int)
    requires g.inv(), 0 <= k < g.vseq().len(), numbered(g.vseq(), k + 1, a, b), 0 <= j < drow(g, g.vseq()[k]).len()
    ensures ({ let y = drow(g, g.vseq()[k])[j]; a.dom().contains(y) && a[y] == ix(g.vseq(), y) && g.vseq().contains(y) })
{
    let o = g.vseq(); let x = o[k]; reveal(numbered); g.lemma_wf(); lemma_layout(g.contents@, g.indices@, o); lemma_ix(o); o.unique_seq_to_set(); assert(o.contains(x)); assert(g.vs().contains(x)); g.lemma_row(x);
    let y = drow(g, x)[j]; assert(drow(g, x).contains(y)); assert(g.indices@[y] < g.indices@[x]); assert(ix(o, y) < ix(o, x) <==> g.indices@[y] < g.indices@[x]); assert(o.contains(y));
}
} // verus!
