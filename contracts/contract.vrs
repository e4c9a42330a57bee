verus! {
//@ props C08
// ===================================================================== contraction
/// n is g with the vertices of s (other than c) merged into c
pub open spec fn is_quotient<G: Graph>(g: G, c: Vertex, s: Set<Vertex>, n: G) -> bool {
    &&& n.vs() == g.vs().difference(s.remove(c))
    &&& forall|x: Vertex, y: Vertex| #[trigger] n.adj(x, y) == (n.vs().contains(x) && n.vs().contains(y)
        && (g.adj(x, y) || (x == c && y != c && anbr(g, s, y)) || (y == c && x != c && anbr(g, s, x))))
}
/// x is adjacent to an element of s
pub open spec fn anbr<G: Graph>(g: G, s: Set<Vertex>, x: Vertex) -> bool { exists|y: Vertex| s.contains(y) && #[trigger] g.adj(y, x) }
impl EditGraph {
//@ fn editgraph.rs impl:EditGraph contract_pair
//@ requires old(self).wf(), old(self).vs().contains(*u), old(self).vs().contains(*v)
//@ ensures final(self).wf(), is_quotient(*old(self), *u, set![*u, *v], *final(self))
//@ hint start
    let ghost g0 = *self;
    proof { g0.lemma_wf(); if u == v { assert(is_quotient(g0, *u, set![*u, *v], g0)) by { assert(g0.vs().difference(set![*u, *v].remove(*u)) =~= g0.vs()); 
        assert forall|x: Vertex, y: Vertex| #[trigger] g0.adj(x, y) == (g0.vs().contains(x) && g0.vs().contains(y)
        && (g0.adj(x, y) || (x == *u && y != *u && anbr(g0, set![*u, *v], y)) || (y == *u && x != *u && anbr(g0, set![*u, *v], x)))) by { assert(g0.adj(x, y) ==> g0.adj(y, x)); assert(g0.adj(y, x) ==> g0.adj(x, y)); } } } }
//@ loop 1
    self.wf(), self.vs() == g0.vs(), g0.wf(), g0.vs().contains(*u), forall|x: Vertex| #[trigger] it1_s.contains(x) <==> g0.adj(*v, x) && x != *u,
    forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (g0.adj(x, y) || (x == *u && pre(it1_s, it1.pos()).contains(y)) || (y == *u && pre(it1_s, it1.pos()).contains(x))),
//@ hint loop1.start
    let ghost g1 = *self;
    proof { g0.lemma_wf(); }
//@ hint loop1.end
    proof { assert(self.vs() =~= g0.vs()); }
//@ hint loop1.after
    let ghost g2 = *self;
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] g2.adj(x, y) == (g0.adj(x, y) || (x == *u && y != *u && g0.adj(*v, y)) || (y == *u && x != *u && g0.adj(*v, x))) by { assert(it1_s.to_set().contains(x) == it1_s.contains(x)); assert(it1_s.to_set().contains(y) == it1_s.contains(y)); } }
//@ hint end
    proof {
        let s = set![*u, *v];
        assert(self.vs() =~= g0.vs().difference(s.remove(*u)));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (self.vs().contains(x) && self.vs().contains(y)
            && (g0.adj(x, y) || (x == *u && y != *u && anbr(g0, s, y)) || (y == *u && x != *u && anbr(g0, s, x)))) by {
            assert(self.adj(x, y) == (g2.adj(x, y) && x != *v && y != *v));
            assert(g0.adj(x, y) == g0.adj(y, x)) by { assert(g0.adj(x, y) ==> g0.adj(y, x)); assert(g0.adj(y, x) ==> g0.adj(x, y)); }
            assert(anbr(g0, s, y) == (g0.adj(*u, y) || g0.adj(*v, y))) by { assert(s.contains(*u) && s.contains(*v)); }
            assert(anbr(g0, s, x) == (g0.adj(*u, x) || g0.adj(*v, x))) by { assert(s.contains(*u) && s.contains(*v)); }
        }
    }
//@ end
//@ fn editgraph.rs impl:EditGraph contract_into
//@ requires old(self).wf(), old(self).vs().contains(*center), vertices.src_ok(), forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> old(self).vs().contains(x)
//@ ensures final(self).wf(), is_quotient(*old(self), *center, vertices.src().to_set(), *final(self))
//@ hint start
    let ghost g0 = *self; let ghost c = *center; let ghost s = vertices.src().to_set();
    proof { g0.lemma_wf(); }
//@ hint after call remove 1
    let ghost d = contract@;
    proof { assert forall|x: Vertex| #[trigger] vertices.src().contains(x) <==> s.contains(x) by {} assert(d =~= s.remove(c)); }
//@ hint loop1.before
    let ghost nn = N@;
    proof { assert forall|x: Vertex| #[trigger] nn.contains(x) <==> !d.contains(x) && x != c && anbr(g0, d, x) by {
        assert(nbr(g0, contract.order(), x) == anbr(g0, d, x)) by { if anbr(g0, d, x) { let y = choose|y: Vertex| d.contains(y) && #[trigger] g0.adj(y, x); assert(contract.order().contains(y)); } if nbr(g0, contract.order(), x) { let y = choose|y: Vertex| contract.order().contains(y) && #[trigger] g0.adj(y, x); assert(d.contains(y)); } } } }
//@ loop 1
    self.wf(), self.vs() == g0.vs(), g0.wf(), g0.vs().contains(c), c == *center, forall|x: Vertex| #[trigger] nn.contains(x) ==> g0.vs().contains(x), forall|x: Vertex| #[trigger] it1_s.contains(x) <==> nn.contains(x),
    forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (g0.adj(x, y) || (x == c && pre(it1_s, it1.pos()).contains(y)) || (y == c && pre(it1_s, it1.pos()).contains(x))),
//@ hint loop1.end
    proof { assert(nn.contains(u)); assert(self.vs() =~= g0.vs()); }
//@ hint loop1.after
    let ghost g2 = *self;
    proof { assert forall|x: Vertex, y: Vertex| #[trigger] g2.adj(x, y) == (g0.adj(x, y) || (x == c && nn.contains(y)) || (y == c && nn.contains(x))) by { assert(it1_s.to_set().contains(x) == it1_s.contains(x)); assert(it1_s.to_set().contains(y) == it1_s.contains(y)); }
        lemma_pre_ends(contract.order()); assert(g2.vs() =~= g2.vs().difference(Set::<Vertex>::empty())); }
//@ loop 2
    self.wf(), self.vs() == g2.vs().difference(pre(it2_s, it2.pos())),
    forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (g2.adj(x, y) && !pre(it2_s, it2.pos()).contains(x) && !pre(it2_s, it2.pos()).contains(y)),
//@ hint loop2.end
    proof { assert(self.vs() =~= g2.vs().difference(pre(it2_s, it2.pos()))); }
//@ hint loop2.after
    proof {
        assert(it2_s.to_set() == d); g0.lemma_wf(); self.lemma_wf();
        assert(self.vs() =~= g0.vs().difference(s.remove(c)));
        assert forall|x: Vertex, y: Vertex| #[trigger] self.adj(x, y) == (self.vs().contains(x) && self.vs().contains(y)
            && (g0.adj(x, y) || (x == c && y != c && anbr(g0, s, y)) || (y == c && x != c && anbr(g0, s, x)))) by {
            assert(self.adj(x, y) == (g2.adj(x, y) && !d.contains(x) && !d.contains(y)));
            assert(g2.adj(x, y) == (g0.adj(x, y) || (x == c && nn.contains(y)) || (y == c && nn.contains(x))));
            lemma_anbr(g0, s, c, x); lemma_anbr(g0, s, c, y);
            if self.adj(x, y) { assert(self.vs().contains(x) && self.vs().contains(y)); }
        }
    }
//@ end
//@ fn editgraph.rs impl:EditGraph contract
//@ requires old(self).wf(), vertices.src_ok(), vertices.src().len() > 0, forall|x: Vertex| #[trigger] vertices.src().contains(x) ==> old(self).vs().contains(x)
//@ ensures final(self).wf(), r == vertices.src()[0], is_quotient(*old(self), r, vertices.src().to_set(), *final(self))
//@ subst contract_into(&u, it) => contract_into(&u, it.vx_rest())
//@ hint start
    let ghost g0 = *self; let ghost s = vertices.src();
    proof { assert(s.contains(s[0])); assert forall|x: Vertex| #[trigger] s.skip(1).contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == x; assert(s[i + 1] == x); } }
//@ hint end
    proof { lemma_quotient_center(g0, *self, s); }
//@ end
}
pub proof fn lemma_anbr<G: Graph>(g: G, s: Set<Vertex>, c: Vertex, x: Vertex)
    requires g.wf()
    ensures anbr(g, s, x) ==> anbr(g, s.remove(c), x) || g.adj(c, x), anbr(g, s.remove(c), x) ==> anbr(g, s, x), g.adj(c, x) ==> g.adj(x, c), g.adj(x, c) ==> g.adj(c, x),
{
    g.lemma_wf();
    if anbr(g, s, x) { let y = choose|y: Vertex| s.contains(y) && #[trigger] g.adj(y, x); if y != c { assert(s.remove(c).contains(y)); } }
    if anbr(g, s.remove(c), x) { let y = choose|y: Vertex| s.remove(c).contains(y) && #[trigger] g.adj(y, x); assert(s.contains(y)); }
    assert(g.adj(c, x) ==> g.adj(x, c)); assert(g.adj(x, c) ==> g.adj(c, x));
}
/// the centre may or may not be listed among the contracted vertices
pub proof fn lemma_quotient_center<G: Graph>(g: G, n: G, s: Seq<Vertex>)
    requires g.wf(), s.len() > 0, is_quotient(g, s[0], s.skip(1).to_set(), n)
    ensures is_quotient(g, s[0], s.to_set(), n)
{
    let c = s[0]; let t = s.skip(1).to_set(); let a = s.to_set();
    assert forall|x: Vertex| #[trigger] a.contains(x) <==> x == c || t.contains(x) by {
        if a.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; if i > 0 { assert(s.skip(1)[i - 1] == x); } }
        if t.contains(x) { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == x; assert(s[i + 1] == x); }
        assert(s.contains(s[0]));
    }
    assert(a.remove(c) =~= t.remove(c));
    assert forall|x: Vertex, y: Vertex| #[trigger] n.adj(x, y) == (n.vs().contains(x) && n.vs().contains(y)
        && (g.adj(x, y) || (x == c && y != c && anbr(g, a, y)) || (y == c && x != c && anbr(g, a, x)))) by {
        lemma_anbr(g, a, c, x); lemma_anbr(g, a, c, y); lemma_anbr(g, t, c, x); lemma_anbr(g, t, c, y);
    }
}
} // verus!
