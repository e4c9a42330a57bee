verus! {
//@ props C19
pub trait DomSet : LinearGraph {
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L domset_with_target
//@ attr #[verifier::rlimit(60)]
//@ requires self.wf(), radius < 0x4000_0000, target.src_ok(), target.src().to_set().subset_of(self.vs())
//@ ensures
    r.0@.subset_of(self.vs()), dominates(*self, target.src().to_set(), radius as nat, r.0@, r.1@),
    r.2.is_some() == witness,
    r.2.is_some() ==> r.2->0.colouring@.dom().subset_of(target.src().to_set()) && scat(*self, 2 * radius as nat, r.2->0.colouring@)
//@ closure 1 |u: &Vertex| -> (k: i64) requires self.wf(), self.vs().contains(*u), n == self.vs().len(), forall|a: int| -0xffff_ffff <= a <= 0 ==> -0x7fff_ffff_0000_0000 <= #[trigger] (a * n) <= 0 ensures true
//@ hint before call left_degree 1
    proof { assert forall|a: int| -0xffff_ffff <= a <= 0 implies -0x7fff_ffff_0000_0000 <= #[trigger] (a * n) <= 0 by { assert(-0x7fff_ffff_0000_0000 <= a * n <= 0) by(nonlinear_arith) requires -0xffff_ffff <= a <= 0, 0 <= n < 0x8000_0000; } }
//@ hint start
    let ghost vs = self.vs(); let ghost rr = radius as nat; let ghost src = target.src().to_set();
    proof { self.lemma_wf(); self.lemma_lin(); }
//@ hint after let target 1
    let ghost t = target@;
    proof { assert(t =~= src); }
//@ deref dist dx dy
//@ hint loop1.before
    proof { assert(order@.to_set() =~= vs); }
//@ loop 1
    lists(it1_s, vs), dom_distance@.dom() == pre(it1_s, it1.pos()), dom_counter@.dom() == pre(it1_s, it1.pos()),
    forall|x: Vertex| #[trigger] dom_distance@.dom().contains(x) ==> dom_distance@[x] == und(t, rr, x),
    forall|x: Vertex| #[trigger] dom_counter@.dom().contains(x) ==> dom_counter@[x] == 0,
//@ hint loop1.after
    proof {
        assert(it1_s.to_set() =~= vs); reveal(dd_ok); reveal(counters); reveal(dominated); assert(pre(it1_s, it1_s.len()) =~= vs);
        assert(dd_ok(*self, t, rr, domset@, dom_distance@)); assert(counters(vs, dom_counter@, 0, Set::empty())); assert(dominated(Set::empty(), rr, dom_distance@));
    }
//@ loop 2
    self.wf(), lists(it2_s, vs), dd_ok(*self, t, rr, domset@, dom_distance@), counters(vs, dom_counter@, it2.pos(), Set::empty()), dominated(pre(it2_s, it2.pos()), rr, dom_distance@),
    scattered@.subset_of(t), domset@.subset_of(vs),
//@ hint loop2.start
    let ghost n2 = (it2.pos() - 1) as nat; let ghost p2 = pre(it2_s, n2); let ghost c2 = dom_counter@;
    proof { assert(it2_s.contains(v)); assert(vs.contains(v)); assert(pre(it2_s, it2.pos()) =~= p2.insert(v)); lemma_dd_get(*self, t, rr, domset@, dom_distance@, v); assert(is_wreach(*self, v, rr, mm(wreach, v))); lemma_counters_end(vs, c2, n2, Set::empty());  }
//@ loop 3
    dd_ok(*self, t, rr, domset@, dom_distance@), dominated(p2, rr, dom_distance@),
//@ hint loop3.start
    proof { lemma_dom_in(*self, t, rr, rr, domset@, dom_distance@, vxs3@, v, *u, p2); }
//@ hint loop3.after
    proof { lemma_dd_get(*self, t, rr, domset@, dom_distance@, v); if dom_distance@[v] <= radius { lemma_dom_step(p2, v, rr, dom_distance@); } else { lemma_dd_new(*self, t, rr, domset@, dom_distance@, v, p2); } }
//@ hint loop4.before
    let ghost q2 = p2.insert(v);
//@ loop 4
    dd_ok(*self, t, rr, domset@, dom_distance@), dominated(q2, rr, dom_distance@), domset@.subset_of(vs), domset@.contains(v), counters(vs, dom_counter@, n2, pre(vxs4.order(), it4.pos())),
//@ hint loop4.start
    proof {
        assert(vxs4.order()[it4.pos() - 1] == *u);
        lemma_dom_out(*self, t, rr, rr, domset@, dom_distance@, vxs4@, v, *u, q2);
        lemma_dom_count(vs, dom_counter@, n2, vxs4.order(), (it4.pos() - 1) as nat);
        assert(is_wreach(*self, *u, rr, mm(wreach, *u)));
    }
//@ loop 5
    dd_ok(*self, t, rr, domset@, dom_distance@), dominated(q2, rr, dom_distance@),
//@ hint loop5.start
    proof { lemma_dom_out(*self, t, rr, rr, domset@, dom_distance@, vxs5@, *u, *x, q2); }
//@ hint loop2.end
    proof { lemma_counters_end(vs, dom_counter@, n2, pre(vxs4.order(), vxs4.order().len())); }
//@ hint loop2.after
    proof { assert(pre(it2_s, it2_s.len()) =~= vs); lemma_dominates(*self, t, rr, domset@, dom_distance@); }
//@ hint loop6.before
    let ghost wr = wreach; let ghost sc = scattered@; let ghost k2: nat = (2 * radius) as nat;
    proof { reveal(is_out); reveal(out_vals); assert(is_out(out_neigbhours, wr, Set::empty(), 0u32, Set::empty())); assert(out_vals(out_neigbhours, wr)); assert(pre(Seq::<Vertex>::empty(), 0) =~= Set::<Vertex>::empty()); }
//@ loop 6
    lists(it6_s, sc), is_out(out_neigbhours, wr, pre(it6_s, it6.pos()), 0u32, Set::empty()), out_vals(out_neigbhours, wr),
//@ hint loop6.start
    let ghost p6 = pre(it6_s, (it6.pos() - 1) as nat);
    proof { assert(it6_s.contains(*x)); assert(sc.contains(*x)); assert(vs.contains(*x)); lemma_out_start(out_neigbhours, wr, p6, 0u32, *x); assert(pre(it6_s, it6.pos()) =~= p6.insert(*x)); }
//@ hint loop7.before
    proof { assert(pre(wr@[*x].order(), 0) =~= Set::<Vertex>::empty()); }
//@ loop 7
    is_out(out_neigbhours, wr, p6, *x, pre(vxs7.order(), it7.pos())), out_vals(out_neigbhours, wr),
//@ hint loop7.start
    let ghost o7 = out_neigbhours; let ghost e7 = pre(vxs7.order(), (it7.pos() - 1) as nat);
    proof { assert(vxs7.order()[it7.pos() - 1] == *w); lemma_pre(vxs7.order(), (it7.pos() - 1) as nat); }
//@ hint loop7.end
    proof { assert(mm(wr, *x)[*w] == *dist); assert(mmd(out_neigbhours) =~= mmd(o7).insert(*w)); lemma_out_step(o7, wr, p6, *x, e7, *w, out_neigbhours); }
//@ hint loop7.after
    proof { assert(vxs7.order().take(vxs7.order().len() as int) =~= vxs7.order()); lemma_out_next(out_neigbhours, wr, p6, *x, mm(wr, *x).dom(), 0u32); }
//@ hint loop6.after
    let ghost on = out_neigbhours;
    proof { assert(pre(it6_s, it6_s.len()) =~= sc); }
//@ hint loop8.before
    proof { assert(H.vs() =~= sc); }
//@ loop 8
    it8_s.len() == on.order().len(), forall|i: int| 0 <= i < it8_s.len() ==> (#[trigger] it8_s[i]).0 == on.order()[i] && it8_s[i].1 == on@[on.order()[i]],
    H.wf(), H.vs() == sc, forall|x: Vertex| !#[trigger] H.adj(x, x), hall(H, sc, k2, on, pre(on.order(), it8.pos())),
//@ hint loop8.start
    let ghost n8 = (it8.pos() - 1) as nat; let ghost h8 = H; let ghost e8 = pre(on.order(), n8);
    proof { assert(lists(on.order(), on@.dom())); assert(on.order()[n8 as int] == w); lemma_pre(on.order(), n8); assert(mmd(on).contains(w)); assert(O@ == mm(on, w));
      assert forall|x: Vertex| #[trigger] O@.dom().contains(x) implies sc.contains(x) && w != x && 1 <= O@[x] <= k2 by { assert(oin(on, w, x)); lemma_o_entry(*self, k2, wr, on, sc, w, x); } }
//@ loop 9
    H.wf(), H.vs() == sc, forall|x: Vertex| !#[trigger] H.adj(x, x), forall|x: Vertex, y: Vertex| #[trigger] h8.adj(x, y) ==> H.adj(x, y),
    forall|j: int| 0 <= j < it9.pos() ==> pair_ok(H, k2, #[trigger] it9_s[j]@),
//@ hint loop9.start
    let ghost h9 = H;
    proof { assert(it9_s[it9.pos() - 1] == pair); }
//@ hint loop9.end
    proof { assert forall|j: int| 0 <= j < it9.pos() implies pair_ok(H, k2, #[trigger] it9_s[j]@) by { if j < it9.pos() - 1 { assert(pair_ok(h9, k2, it9_s[j]@)); } } }
//@ hint loop9.after
    let ghost ps = choose|ps: Seq<(&Vertex, &u32)>| okeys(O, ps) && #[trigger] all_pairs_of(ps, it9_s);
    proof { if !sc.contains(w) { lemma_hdone(H, sc, k2, w, O, ps, it9_s); lemma_hall_mono(h8, H, sc, k2, on, e8); } }
//@ hint loop10.before
    let ghost h10 = H;
//@ loop 10
    H.wf(), H.vs() == sc, forall|x: Vertex| !#[trigger] H.adj(x, x), forall|x: Vertex, y: Vertex| #[trigger] h10.adj(x, y) ==> H.adj(x, y),
    forall|j: int| 0 <= j < it10.pos() ==> H.adj(w, #[trigger] O.order()[j]),
//@ hint loop10.start
    proof { assert(O.order()[it10.pos() - 1] == *x); assert(O@.dom().contains(*x)); }
//@ hint loop8.end
    proof {
        assert forall|j: int| 0 <= j < it9_s.len() implies pair_ok(H, k2, #[trigger] it9_s[j]@) by { assert(pair_ok(h10, k2, it9_s[j]@)); }
        lemma_hdone(H, sc, k2, w, O, ps, it9_s); lemma_hall_mono(h8, H, sc, k2, on, e8);
    }
//@ hint loop8.after
    proof { assert(lists(on.order(), on@.dom())); assert(on.order().take(on.order().len() as int) =~= on.order()); assert(hall(H, sc, k2, on, mmd(on))); H.lemma_simple(); }
//@ hint end
    proof { lemma_scat(*self, H, OH, k2, k2, wr, on, 0u32, colours.colouring@); }
//@ end
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L domset
//@ requires self.wf(), radius < 0x4000_0000
//@ ensures
    r.0@.subset_of(self.vs()), dominates(*self, self.vs(), radius as nat, r.0@, r.1@),
    r.2.is_some() == witness,
    r.2.is_some() ==> scat(*self, 2 * radius as nat, r.2->0.colouring@)
//@ hint start
    proof { self.lemma_wf(); assert(self.vseq().to_set() =~= self.vs()); }
//@ end
}
impl<G: LinearGraph> DomSet for G { }
} // verus!
