verus! {
//@ props C03
// ===================================================================== generators (undirected)
pub open spec fn succ(x: int, y: int) -> bool { x + 1 == y }
pub open spec fn row_edge(t: int, x: int, y: int) -> bool { y == x + 1 && y % t != 0 }
pub open spec fn grid_fwd(s: int, t: int, x: int, y: int) -> bool { 0 <= x && y < s * t && (y == x + t || row_edge(t, x, y)) }
/// x is the k-th vertex of row p
pub proof fn lemma_row(t: int, p: int, k: int)
    requires 0 <= p, 0 <= k < t
    ensures (p * t + k) % t == k, (p + 1) * t == p * t + t, (k < t - 1) == ((p * t + k + 1) % t != 0), 0 <= p * t
{
    vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p * t + k, t, p, k);
    assert((p + 1) * t == p * t + t) by(nonlinear_arith);
    assert(0 <= p * t) by(nonlinear_arith) requires 0 <= p, 0 < t;
    if k < t - 1 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p * t + k + 1, t, p, k + 1); }
    else { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(p * t + k + 1, t, p + 1, 0); }
}
pub proof fn lemma_rows_below(s: int, t: int, p: int)
    requires 0 <= p < s, 0 < t
    ensures p * t + t <= s * t, p * t + t == (p + 1) * t
{
    assert((p + 1) * t == p * t + t) by(nonlinear_arith);
    assert((p + 1) * t <= s * t) by(nonlinear_arith) requires p + 1 <= s, 0 < t;
}
/// first vertex of part k
pub open spec fn off(s: Seq<u32>, k: int) -> int decreases k { if k <= 0 { 0 } else { off(s, k - 1) + s[k - 1] } }
pub open spec fn in_part(s: Seq<u32>, k: int, x: int) -> bool { off(s, k) <= x && x < off(s, k + 1) }
/// x lies in an earlier part (below a) than y
pub open spec fn parts_fwd(s: Seq<u32>, a: int, b: int, x: int, y: int) -> bool {
    exists|i: int, j: int| 0 <= i < j < s.len() && (i < a || (i == a && j < b)) && #[trigger] in_part(s, i, x) && #[trigger] in_part(s, j, y)
}
pub proof fn lemma_off_mono(s: Seq<u32>, i: int, j: int)
    requires 0 <= i <= j <= s.len()
    ensures 0 <= off(s, i) <= off(s, j)
    decreases j
{ if i < j { lemma_off_mono(s, i, j - 1); } else if j > 0 { lemma_off_mono(s, j - 1, j - 1); } }
pub proof fn lemma_parts_step(s: Seq<u32>, a: int, b: int)
    requires 0 <= a < b < s.len()
    ensures forall|x: int, y: int| #[trigger] parts_fwd(s, a, b + 1, x, y) <==> parts_fwd(s, a, b, x, y) || (in_part(s, a, x) && in_part(s, b, y))
{ 
    assert forall|x: int, y: int| #[trigger] parts_fwd(s, a, b + 1, x, y) <==> parts_fwd(s, a, b, x, y) || (in_part(s, a, x) && in_part(s, b, y)) by {
        if parts_fwd(s, a, b + 1, x, y) { let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && (i < a || (i == a && j < b + 1)) && #[trigger] in_part(s, i, x) && #[trigger] in_part(s, j, y); assert(i == a && j == b || i < a || j < b); }
    }
}
pub proof fn lemma_parts_row(s: Seq<u32>, a: int)
    requires 0 <= a < s.len()
    ensures forall|x: int, y: int| #[trigger] parts_fwd(s, a, s.len() as int, x, y) <==> parts_fwd(s, a + 1, a + 2, x, y),
{ 
    assert forall|x: int, y: int| #[trigger] parts_fwd(s, a, s.len() as int, x, y) <==> parts_fwd(s, a + 1, a + 2, x, y) by {
        if parts_fwd(s, a + 1, a + 2, x, y) { let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && (i < a + 1 || (i == a + 1 && j < a + 2)) && #[trigger] in_part(s, i, x) && #[trigger] in_part(s, j, y); }
        if parts_fwd(s, a, s.len() as int, x, y) { let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && (i < a || (i == a && j < s.len())) && #[trigger] in_part(s, i, x) && #[trigger] in_part(s, j, y); }
    }
}
/// x and y lie in different parts
pub open spec fn parts_apart(s: Seq<u32>, x: int, y: int) -> bool {
    exists|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && #[trigger] in_part(s, i, x) && #[trigger] in_part(s, j, y)
}
impl EditGraph {
//@ fn editgraph.rs impl:EditGraph complete_kpartite
//@ requires sizes.src_ok(), off(sizes.src(), sizes.src().len() as int) <= u32::MAX
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < off(sizes.src(), sizes.src().len() as int),
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == parts_apart(sizes.src(), x as int, y as int)
//@ hint after let sizes 1
    let ghost s = sizes@; let ghost k = s.len() as int;
//@ loop 1
    it1_s == s, left == off(s, it1.pos() as int), ranges@.len() == it1.pos(), off(s, k) <= u32::MAX, k == s.len(),
    forall|i: int| 0 <= i < it1.pos() ==> (#[trigger] ranges@[i]).0 == off(s, i) && ranges@[i].1 == off(s, i + 1),
//@ hint loop1.start
    proof { lemma_off_mono(s, it1.pos() as int, k); }
//@ hint loop2.before
    proof { assert(n == off(s, k)); }
//@ loop 2
    it2_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < it2.pos(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y),
//@ loop 3
    it3_s == zrange(0, k as usize), res.wf(), k == s.len(), k <= usize::MAX,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (parts_fwd(s, it3.pos() as int, it3.pos() as int + 1, x as int, y as int) || parts_fwd(s, it3.pos() as int, it3.pos() as int + 1, y as int, x as int)),
//@ loop 4
    it4_s == zrange((i + 1) as usize, k as usize), res.wf(), i < k, i + 1 == it3.pos(), leftA == off(s, i as int), rightA == off(s, i + 1),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (parts_fwd(s, i as int, i + 1 + it4.pos(), x as int, y as int) || parts_fwd(s, i as int, i + 1 + it4.pos(), y as int, x as int)),
//@ hint loop4.start
    let ghost g4 = res;
    proof { lemma_off_mono(s, i + 1, k); lemma_off_mono(s, j + 1, k); lemma_off_mono(s, i as int, i + 1); lemma_off_mono(s, j as int, j + 1); }
//@ loop 5
    it5_s == urange(leftA, rightA), res.wf(), leftB == off(s, j as int), rightB == off(s, j + 1), i < j, j < k,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (g4.adj(x, y) || (leftA <= x && x < leftA + it5.pos() && leftB <= y && y < rightB) || (leftA <= y && y < leftA + it5.pos() && leftB <= x && x < rightB)),
//@ loop 6
    it6_s == urange(leftB, rightB), res.wf(), u + 1 == leftA + it5.pos(), u < rightA, rightB <= n, rightA <= n,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (g4.adj(x, y) || (leftA <= x && x < u && leftB <= y && y < rightB) || (leftA <= y && y < u && leftB <= x && x < rightB)
        || (x == u && leftB <= y && y < leftB + it6.pos()) || (y == u && leftB <= x && x < leftB + it6.pos())),
//@ hint loop4.end
    proof { lemma_parts_step(s, i as int, j as int);
        assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (parts_fwd(s, i as int, j + 1, x as int, y as int) || parts_fwd(s, i as int, j + 1, y as int, x as int)) by {
            assert(g4.adj(x, y) == (parts_fwd(s, i as int, j as int, x as int, y as int) || parts_fwd(s, i as int, j as int, y as int, x as int)));
            assert(in_part(s, i as int, x as int) == (leftA <= x < rightA)); assert(in_part(s, j as int, x as int) == (leftB <= x < rightB));
            assert(in_part(s, i as int, y as int) == (leftA <= y < rightA)); assert(in_part(s, j as int, y as int) == (leftB <= y < rightB));
        } }
//@ hint loop3.end
    proof { lemma_parts_row(s, i as int);
        assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (parts_fwd(s, i + 1, i + 2, x as int, y as int) || parts_fwd(s, i + 1, i + 2, y as int, x as int)) by {
            assert(parts_fwd(s, i as int, k, x as int, y as int) <==> parts_fwd(s, i + 1, i + 2, x as int, y as int));
            assert(parts_fwd(s, i as int, k, y as int, x as int) <==> parts_fwd(s, i + 1, i + 2, y as int, x as int));
        } }
//@ hint end
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == parts_apart(s, x as int, y as int) by {
        if parts_apart(s, x as int, y as int) { let (i, j) = choose|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j && #[trigger] in_part(s, i, x as int) && #[trigger] in_part(s, j, y as int);
            if i < j { assert(parts_fwd(s, k, k + 1, x as int, y as int)); } else { assert(parts_fwd(s, k, k + 1, y as int, x as int)); } }
    } }
//@ end
//@ fn editgraph.rs impl:EditGraph path
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (x < n && y < n && (x + 1 == y || y + 1 == x))
//@ loop 1
    n >= 2, it1_s == urange(0, (n - 1) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> it1.pos() > 0 && x <= it1.pos(),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == ((x + 1 == y && y <= it1.pos()) || (y + 1 == x && x <= it1.pos())),
//@ end
//@ fn editgraph.rs impl:EditGraph cycle
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (x < n && y < n && (x + 1 == y || y + 1 == x || (x == 0 && y == n - 1) || (y == 0 && x == n - 1)))
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> it1.pos() > 0 && x <= it1.pos() && x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (x < n && y < n && ((x + 1 == y && y <= it1.pos()) || (y + 1 == x && x <= it1.pos())
        || (it1.pos() == n && ((x == 0 && y == n - 1) || (y == 0 && x == n - 1))))),
//@ hint after let v 1
    proof { if u + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((u + 1) as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(n as int); } }
//@ end
//@ fn editgraph.rs impl:EditGraph matching
//@ requires 2 * n <= 0x1_0000_0000
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < 2 * n,
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == ((x < n && y == x + n) || (y < n && x == y + n))
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < it1.pos() || (n <= x && x < n + it1.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == ((x < it1.pos() && y == x + n) || (y < it1.pos() && x == y + n)),
//@ end
//@ fn editgraph.rs impl:EditGraph star
//@ requires n < u32::MAX
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x <= n,
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == ((x == 0 && 0 < y && y <= n) || (y == 0 && 0 < x && x <= n))
//@ end
//@ fn editgraph.rs impl:EditGraph clique
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (x < n && y < n && x != y)
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> it1.pos() > 0 && x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (x < n && y < n && x != y && (x < it1.pos() || y < it1.pos())),
//@ loop 2
    it2_s == urange((u + 1) as u32, n), res.wf(), u + 1 == it1.pos(), u < n,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> (u > 0 && x < n) || x == u || (u < x && x <= u + it2.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (x < n && y < n && x != y && (x < u || y < u || (x == u && y <= u + it2.pos()) || (y == u && x <= u + it2.pos()))),
//@ end
//@ fn editgraph.rs impl:EditGraph independent
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| !#[trigger] r.adj(x, y)
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < it1.pos(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y),
//@ end
//@ fn editgraph.rs impl:EditGraph biclique
//@ requires s + t <= u32::MAX
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < s + t,
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == ((x < s && s <= y && y < s + t) || (y < s && s <= x && x < s + t))
//@ loop 1
    it1_s == urange(0, (s + t) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < it1.pos(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.adj(x, y),
//@ loop 2
    it2_s == urange(0, s), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < s + t,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == ((x < it2.pos() && s <= y && y < s + t) || (y < it2.pos() && s <= x && x < s + t)),
//@ loop 3
    it3_s == urange(s, (s + t) as u32), res.wf(), u + 1 == it2.pos(), u < s,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < s + t,
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == ((x < u && s <= y && y < s + t) || (y < u && s <= x && x < s + t)
        || (x == u && s <= y && y < s + it3.pos()) || (y == u && s <= x && x < s + it3.pos())),
//@ end
//@ fn editgraph.rs impl:EditGraph grid
//@ requires s * t <= u32::MAX
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < s * t,
    forall|x: Vertex, y: Vertex| #[trigger] r.adj(x, y) == (grid_fwd(s as int, t as int, x as int, y as int) || grid_fwd(s as int, t as int, y as int, x as int))
//@ loop 1
    s > 0, t > 0, it1_s == urange(0, (s - 1) as u32), res.wf(), s * t <= u32::MAX,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x == 0 || (it1.pos() > 0 && x < it1.pos() * t + t),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == ((x < it1.pos() * t && (y == x + t || row_edge(t as int, x as int, y as int)))
        || (y < it1.pos() * t && (x == y + t || row_edge(t as int, y as int, x as int)))),
//@ hint loop1.start
    let ghost g1 = res; let ghost p = y as int;
    proof { lemma_rows_below(s as int, t as int, p); lemma_rows_below(s as int, t as int, p + 1); assert(0 <= p * t) by(nonlinear_arith) requires 0 <= p, 0 < t; }
//@ loop 2
    it2_s == urange(0, (t - 1) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> g1.vs().contains(x) || (it2.pos() > 0 && p * t <= x && x <= p * t + it2.pos()) || (p * t + t <= x && x < p * t + t + it2.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (g1.adj(x, y) || (p * t <= x && x < p * t + it2.pos() && (y == x + t || y == x + 1)) || (p * t <= y && y < p * t + it2.pos() && (x == y + t || x == y + 1))),
//@ hint loop1.end
    proof {
        assert forall|x: int, y: int| p * t <= x && x < p * t + t && y == x + 1 implies (#[trigger] row_edge(t as int, x, y) <==> x < p * t + t - 1) by { lemma_row(t as int, p, x - p * t); }
        assert forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == ((x < p * t + t && (y == x + t || row_edge(t as int, x as int, y as int)))
            || (y < p * t + t && (x == y + t || row_edge(t as int, y as int, x as int)))) by {
            assert(g1.adj(x, y) == ((x < p * t && (y == x + t || row_edge(t as int, x as int, y as int))) || (y < p * t && (x == y + t || row_edge(t as int, y as int, x as int)))));
        }
    }
//@ hint loop1.after
    let ghost g2 = res; let ghost q = (s - 1) as int;
    proof { lemma_rows_below(s as int, t as int, q); assert(0 <= q * t) by(nonlinear_arith) requires 0 <= q, 0 < t; }
//@ loop 3
    it3_s == urange(0, (t - 1) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> g2.vs().contains(x) || (it3.pos() > 0 && q * t <= x && x <= q * t + it3.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.adj(x, y) == (g2.adj(x, y) || (q * t <= x && x < q * t + it3.pos() && y == x + 1) || (q * t <= y && y < q * t + it3.pos() && x == y + 1)),
//@ hint end
    proof {
        if s > 0 && t > 0 {
        assert forall|x: int, y: int| q * t <= x && x < q * t + t && y == x + 1 implies (#[trigger] row_edge(t as int, x, y) <==> x < q * t + t - 1) by { lemma_row(t as int, q, x - q * t); }
        }
    }
//@ end
}
} // verus!
