verus! {
//@ props C03
// ===================================================================== generators (directed)
impl EditDigraph {
//@ fn editdigraph.rs impl:EditDigraph path
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (y < n && x + 1 == y)
//@ loop 1
    n >= 1, it1_s == urange(0, (n - 1) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x <= it1.pos(),
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x + 1 == y && y <= it1.pos()),
//@ end
//@ fn editdigraph.rs impl:EditDigraph cycle
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (x < n && y < n && (x + 1 == y || (y == 0 && x == n - 1)))
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> it1.pos() > 0 && x <= it1.pos() && x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x < n && y < n && ((x + 1 == y && y <= it1.pos())
        || (it1.pos() == n && (y == 0 && x == n - 1)))),
//@ hint after let v 1
    proof { if u + 1 < n { vstd::arithmetic::div_mod::lemma_small_mod((u + 1) as nat, n as nat); } else { vstd::arithmetic::div_mod::lemma_mod_self_0(n as int); } }
//@ end
//@ fn editdigraph.rs impl:EditDigraph matching
//@ requires 2 * n <= 0x1_0000_0000
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < 2 * n,
    forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (x < n && y == x + n)
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < it1.pos() || (n <= x && x < n + it1.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x < it1.pos() && y == x + n),
//@ end
//@ fn editdigraph.rs impl:EditDigraph star
//@ requires n < u32::MAX
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x <= n,
    forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (x == 0 && 0 < y && y <= n)
//@ end
//@ fn editdigraph.rs impl:EditDigraph clique
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (x < y && y < n)
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> it1.pos() > 0 && x < n,
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x < y && y < n && x < it1.pos()),
//@ loop 2
    it2_s == urange((u + 1) as u32, n), res.wf(), u + 1 == it1.pos(), u < n,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> (u > 0 && x < n) || x == u || (u < x && x <= u + it2.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x < y && y < n && (x < u || (x == u && y <= u + it2.pos()))),
//@ end
//@ fn editdigraph.rs impl:EditDigraph independent
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < n,
    forall|x: Vertex, y: Vertex| !#[trigger] r.arc(x, y)
//@ loop 1
    it1_s == urange(0, n), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < it1.pos(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.arc(x, y),
//@ end
//@ fn editdigraph.rs impl:EditDigraph biclique
//@ requires s + t <= u32::MAX
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < s + t,
    forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == (x < s && s <= y && y < s + t)
//@ loop 1
    it1_s == urange(0, (s + t) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < it1.pos(),
    forall|x: Vertex, y: Vertex| !#[trigger] res.arc(x, y),
//@ loop 2
    it2_s == urange(0, s), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < s + t,
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x < it2.pos() && s <= y && y < s + t),
//@ loop 3
    it3_s == urange(s, (s + t) as u32), res.wf(), u + 1 == it2.pos(), u < s,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x < s + t,
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == ((x < u && s <= y && y < s + t)
        || (x == u && s <= y && y < s + it3.pos())),
//@ end
//@ fn editdigraph.rs impl:EditDigraph grid
//@ requires s * t <= u32::MAX
//@ ensures
    r.wf(), forall|x: Vertex| #[trigger] r.vs().contains(x) <==> x < s * t,
    forall|x: Vertex, y: Vertex| #[trigger] r.arc(x, y) == grid_fwd(s as int, t as int, x as int, y as int)
//@ loop 1
    s > 0, t > 0, it1_s == urange(0, (s - 1) as u32), res.wf(), s * t <= u32::MAX,
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> x == 0 || (it1.pos() > 0 && x < it1.pos() * t + t),
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x < it1.pos() * t && (y == x + t || row_edge(t as int, x as int, y as int))),
//@ hint loop1.start
    let ghost g1 = res; let ghost p = y as int;
    proof { lemma_rows_below(s as int, t as int, p); lemma_rows_below(s as int, t as int, p + 1); assert(0 <= p * t) by(nonlinear_arith) requires 0 <= p, 0 < t; }
//@ loop 2
    it2_s == urange(0, (t - 1) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> g1.vs().contains(x) || (it2.pos() > 0 && p * t <= x && x <= p * t + it2.pos()) || (p * t + t <= x && x < p * t + t + it2.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (g1.arc(x, y) || (p * t <= x && x < p * t + it2.pos() && (y == x + t || y == x + 1))),
//@ hint loop1.end
    proof {
        assert forall|x: int, y: int| p * t <= x && x < p * t + t && y == x + 1 implies (#[trigger] row_edge(t as int, x, y) <==> x < p * t + t - 1) by { lemma_row(t as int, p, x - p * t); }
        assert forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (x < p * t + t && (y == x + t || row_edge(t as int, x as int, y as int))) by {
            assert(g1.arc(x, y) == (x < p * t && (y == x + t || row_edge(t as int, x as int, y as int))));
        }
    }
//@ hint loop1.after
    let ghost g2 = res; let ghost q = (s - 1) as int;
    proof { lemma_rows_below(s as int, t as int, q); assert(0 <= q * t) by(nonlinear_arith) requires 0 <= q, 0 < t; }
//@ loop 3
    it3_s == urange(0, (t - 1) as u32), res.wf(),
    forall|x: Vertex| #[trigger] res.vs().contains(x) <==> g2.vs().contains(x) || (it3.pos() > 0 && q * t <= x && x <= q * t + it3.pos()),
    forall|x: Vertex, y: Vertex| #[trigger] res.arc(x, y) == (g2.arc(x, y) || (q * t <= x && x < q * t + it3.pos() && y == x + 1)),
//@ hint end
    proof {
        if s > 0 && t > 0 {
        assert forall|x: int, y: int| q * t <= x && x < q * t + t && y == x + 1 implies (#[trigger] row_edge(t as int, x, y) <==> x < q * t + t - 1) by { lemma_row(t as int, q, x - q * t); }
        }
    }
//@ end
}
} // verus!
