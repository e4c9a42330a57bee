verus! {
//@ props C20
pub trait ScatCol : LinearGraph {
//@ fn algorithms/lineargraph.rs trait:LinearGraphAlgorithms scattered_colouring
//@ requires self.wf(), distance < 0x4000_0000, target.src_ok(), target.src().to_set().subset_of(self.vs())
//@ ensures classes_ok(*self, distance as nat, target.src().to_set(), r@), all_ne(r@)
//@ end
}
impl<G: LinearGraph> ScatCol for G {
//@ fn algorithms/lineargraph.rs impl:LinearGraphAlgorithms:L scattered_colouring
//@ attr #[verifier::rlimit(60)]
//@ closure 1 |u: &Vertex| -> (k: i64) requires self.wf(), self.vs().contains(*u), n == self.vs().len(), forall|a: int| -0xffff_ffff <= a <= 0 ==> -0x7fff_ffff_0000_0000 <= #[trigger] (a * n) <= 0 ensures true
//@ closure 2 |u: &Vertex| -> (b: bool) ensures b == !colouring.colouring@.dom().contains(*u)
//@ closure 3 |S: &VertexSet| -> (b: bool) ensures b == (S@.len() > 0)
//@ closure 4 |S: &VertexSet| -> (k: usize)
//@ closure 5 |S: &VertexSet| -> (b: bool) ensures b == (S@.len() > 0)
//@ hint before call left_degree 1
    proof { assert forall|a: int| -0xffff_ffff <= a <= 0 implies -0x7fff_ffff_0000_0000 <= #[trigger] (a * n) <= 0 by { assert(-0x7fff_ffff_0000_0000 <= a * n <= 0) by(nonlinear_arith) requires -0xffff_ffff <= a <= 0, 0 <= n < 0x8000_0000; } }
//@ hint start
    let ghost vs = self.vs(); let ghost t0 = target.src().to_set(); let ghost dd = distance as nat;
    proof { self.lemma_wf(); self.lemma_lin(); }
//@ hint after let target 1
    proof { assert(target@ =~= t0); }
//@ hint then 1
    proof { reveal(classes_ok); lemma_nonempty(t0); if self.vs().len() == 0 { assert(self.vs() =~= Set::<Vertex>::empty()); } assert forall|x: Vertex| !t0.contains(x) by { } }
//@ deref dist dx dy
//@ hint loop1.before
    let ghost rr = radius as nat; let ghost k2: nat = (2 * radius) as nat; let ghost wr = wreach;
    proof { assert(order@.to_set() =~= vs); assert(scat(*self, k2, colouring.colouring@)); assert(low(colouring.colouring@)); assert(colouring.colouring@.dom().union(target@) =~= t0); assert(colouring.colouring@.dom().disjoint(target@)); }
    #[verifier::loop_isolation(true)]
//@ loop 1
    self.wf(), vs == self.vs(), dd == distance, rr == radius, k2 == 2 * radius, k2 <= dd, distance < 0x4000_0000, undominated == radius + 1, lists(order@, vs), wr_ok(*self, dd, wreach), wr == wreach, t0.subset_of(vs), vs.len() < 0x8000_0000, scat(*self, k2, colouring.colouring@), low(colouring.colouring@), colouring.colouring@.dom().union(target@) == t0, colouring.colouring@.dom().disjoint(target@),
//@ loopdec 1 target@.len()
//@ hint loop1.start
    let ghost t = target@; let ghost m0 = colouring.colouring@;
    proof { assert(t.subset_of(vs)); lemma_nonempty(t); }
//@ hint loop2.before
    proof { assert(order@.to_set() =~= vs); }
//@ loop 2
    lists(it2_s, vs), dom_distance@.dom() == pre(it2_s, it2.pos()), dom_counter@.dom() == pre(it2_s, it2.pos()),
    forall|x: Vertex| #[trigger] dom_distance@.dom().contains(x) ==> dom_distance@[x] == und(t, rr, x),
    forall|x: Vertex| #[trigger] dom_counter@.dom().contains(x) ==> dom_counter@[x] == 0,
//@ hint loop2.after
    proof {
        assert(it2_s.to_set() =~= vs); reveal(dd_ok); reveal(counters); reveal(dominated); assert(pre(it2_s, it2_s.len()) =~= vs);
        assert(dd_ok(*self, t, rr, domset@, dom_distance@)); assert(counters(vs, dom_counter@, 0, Set::empty())); assert(dominated(Set::empty(), rr, dom_distance@));
    }
//@ isolate 3
//@ loop 3
    self.wf(), vs == self.vs(), dd == distance, rr == radius, k2 == 2 * radius, k2 <= dd, distance < 0x4000_0000, undominated == radius + 1, lists(order@, vs), wr_ok(*self, dd, wreach), t == target@, t.subset_of(vs), vs.len() < 0x8000_0000,
    lists(it3_s, vs), dd_ok(*self, t, rr, domset@, dom_distance@), counters(vs, dom_counter@, it3.pos(), Set::empty()), dominated(pre(it3_s, it3.pos()), rr, dom_distance@),
    scattered@.subset_of(t), domset@.subset_of(vs), scattered@.len() == 0 ==> domset@.len() == 0,
//@ hint loop3.start
    let ghost n2 = (it3.pos() - 1) as nat; let ghost p2 = pre(it3_s, n2); let ghost c2 = dom_counter@;
    proof { assert(it3_s.contains(v)); assert(vs.contains(v)); assert(pre(it3_s, it3.pos()) =~= p2.insert(v)); lemma_dd_get(*self, t, rr, domset@, dom_distance@, v); assert(is_wreach(*self, v, dd, mm(wreach, v))); lemma_counters_end(vs, c2, n2, Set::empty());  }
//@ loop 4
    dd_ok(*self, t, rr, domset@, dom_distance@), dominated(p2, rr, dom_distance@),
//@ hint loop4.start
    proof { lemma_dom_in(*self, t, rr, dd, domset@, dom_distance@, vxs4@, v, *u, p2); }
//@ hint loop4.after
    proof { lemma_dd_get(*self, t, rr, domset@, dom_distance@, v); if dom_distance@[v] <= radius { lemma_dom_step(p2, v, rr, dom_distance@); } else { lemma_dd_new(*self, t, rr, domset@, dom_distance@, v, p2); } }
//@ hint loop5.before
    let ghost q2 = p2.insert(v);
//@ loop 5
    dd_ok(*self, t, rr, domset@, dom_distance@), dominated(q2, rr, dom_distance@), domset@.subset_of(vs), domset@.contains(v), scattered@.contains(v), counters(vs, dom_counter@, n2, pre(vxs5.order(), it5.pos())),
//@ hint loop5.start
    proof {
        assert(vxs5.order()[it5.pos() - 1] == *u);
        lemma_dom_out(*self, t, rr, dd, domset@, dom_distance@, vxs5@, v, *u, q2);
        lemma_dom_count(vs, dom_counter@, n2, vxs5.order(), (it5.pos() - 1) as nat);
        assert(is_wreach(*self, *u, dd, mm(wreach, *u)));
    }
//@ loop 6
    dd_ok(*self, t, rr, domset@, dom_distance@), dominated(q2, rr, dom_distance@),
//@ hint loop6.start
    proof { lemma_dom_out(*self, t, rr, dd, domset@, dom_distance@, vxs6@, *u, *x, q2); }
//@ hint loop3.end
    proof { lemma_counters_end(vs, dom_counter@, n2, pre(vxs5.order(), vxs5.order().len())); }
//@ hint loop3.after
    proof { assert(pre(it3_s, it3_s.len()) =~= vs); lemma_dominates(*self, t, rr, domset@, dom_distance@); }
//@ hint loop7.before
    let ghost wr = wreach; let ghost sc = scattered@; 
    proof { reveal(is_out); reveal(out_vals); assert(is_out(out_neigbhours, wr, Set::empty(), 0u32, Set::empty())); assert(out_vals(out_neigbhours, wr)); assert(pre(Seq::<Vertex>::empty(), 0) =~= Set::<Vertex>::empty()); }
//@ isolate 7
//@ loop 7
    self.wf(), wr_ok(*self, dd, wreach), wr == wreach, sc == scattered@, sc.subset_of(vs), vs == self.vs(),
    lists(it7_s, sc), is_out(out_neigbhours, wr, pre(it7_s, it7.pos()), 0u32, Set::empty()), out_vals(out_neigbhours, wr),
//@ hint loop7.start
    let ghost p6 = pre(it7_s, (it7.pos() - 1) as nat);
    proof { assert(it7_s.contains(*x)); assert(sc.contains(*x)); assert(vs.contains(*x)); lemma_out_start(out_neigbhours, wr, p6, 0u32, *x); assert(pre(it7_s, it7.pos()) =~= p6.insert(*x)); }
//@ hint loop8.before
    proof { assert(pre(wr@[*x].order(), 0) =~= Set::<Vertex>::empty()); }
//@ loop 8
    is_out(out_neigbhours, wr, p6, *x, pre(vxs8.order(), it8.pos())), out_vals(out_neigbhours, wr),
//@ hint loop8.start
    let ghost o7 = out_neigbhours; let ghost e7 = pre(vxs8.order(), (it8.pos() - 1) as nat);
    proof { assert(vxs8.order()[it8.pos() - 1] == *w); lemma_pre(vxs8.order(), (it8.pos() - 1) as nat); }
//@ hint loop8.end
    proof { assert(mm(wr, *x)[*w] == *dist); assert(mmd(out_neigbhours) =~= mmd(o7).insert(*w)); lemma_out_step(o7, wr, p6, *x, e7, *w, out_neigbhours); }
//@ hint loop8.after
    proof { assert(vxs8.order().take(vxs8.order().len() as int) =~= vxs8.order()); lemma_out_next(out_neigbhours, wr, p6, *x, mm(wr, *x).dom(), 0u32); }
//@ hint loop7.after
    let ghost on = out_neigbhours;
    proof { assert(pre(it7_s, it7_s.len()) =~= sc); }
//@ hint loop9.before
    proof { assert(H.vs() =~= sc); }
//@ isolate 9
//@ loop 9
    self.wf(), wr_ok(*self, dd, wreach), wr == wreach, sc == scattered@, sc.subset_of(vs), vs == self.vs(), dd == distance, k2 == 2 * radius, k2 <= dd, distance < 0x4000_0000, is_out(on, wr, sc, 0u32, Set::empty()), out_vals(on, wr),
    it9_s.len() == on.order().len(), forall|i: int| 0 <= i < it9_s.len() ==> (#[trigger] it9_s[i]).0 == on.order()[i] && it9_s[i].1 == on@[on.order()[i]],
    H.wf(), H.vs() == sc, forall|x: Vertex| !#[trigger] H.adj(x, x), hall(H, sc, k2, on, pre(on.order(), it9.pos())),
//@ hint loop9.start
    let ghost n8 = (it9.pos() - 1) as nat; let ghost h8 = H; let ghost e8 = pre(on.order(), n8);
    proof { assert(lists(on.order(), on@.dom())); assert(on.order()[n8 as int] == w); lemma_pre(on.order(), n8); assert(mmd(on).contains(w)); assert(O@ == mm(on, w));
      assert forall|x: Vertex| #[trigger] O@.dom().contains(x) implies sc.contains(x) && w != x && 1 <= O@[x] <= dd by { assert(oin(on, w, x)); lemma_o_entry(*self, dd, wr, on, sc, w, x); } }
//@ loop 10
    H.wf(), H.vs() == sc, forall|x: Vertex| !#[trigger] H.adj(x, x), forall|x: Vertex, y: Vertex| #[trigger] h8.adj(x, y) ==> H.adj(x, y),
    forall|j: int| 0 <= j < it10.pos() ==> pair_ok(H, k2, #[trigger] it10_s[j]@),
//@ hint loop10.start
    let ghost h9 = H;
    proof { assert(it10_s[it10.pos() - 1] == pair); }
//@ hint loop10.end
    proof { assert forall|j: int| 0 <= j < it10.pos() implies pair_ok(H, k2, #[trigger] it10_s[j]@) by { if j < it10.pos() - 1 { assert(pair_ok(h9, k2, it10_s[j]@)); } } }
//@ hint loop10.after
    let ghost ps = choose|ps: Seq<(&Vertex, &u32)>| okeys(O, ps) && #[trigger] all_pairs_of(ps, it10_s);
    proof { if !sc.contains(w) { lemma_hdone(H, sc, k2, w, O, ps, it10_s); lemma_hall_mono(h8, H, sc, k2, on, e8); } }
//@ hint loop11.before
    let ghost h10 = H;
//@ loop 11
    H.wf(), H.vs() == sc, forall|x: Vertex| !#[trigger] H.adj(x, x), forall|x: Vertex, y: Vertex| #[trigger] h10.adj(x, y) ==> H.adj(x, y),
    forall|j: int| 0 <= j < it11.pos() && O@[O.order()[j]] <= k2 ==> H.adj(w, #[trigger] O.order()[j]),
//@ hint loop11.start
    proof { assert(O.order()[it11.pos() - 1] == *x); assert(O@.dom().contains(*x)); }
//@ hint loop9.end
    proof {
        assert forall|j: int| 0 <= j < it10_s.len() implies pair_ok(H, k2, #[trigger] it10_s[j]@) by { assert(pair_ok(h10, k2, it10_s[j]@)); }
        lemma_hdone(H, sc, k2, w, O, ps, it10_s); lemma_hall_mono(h8, H, sc, k2, on, e8);
    }
//@ hint loop9.after
    proof { assert(lists(on.order(), on@.dom())); assert(on.order().take(on.order().len() as int) =~= on.order()); assert(hall(H, sc, k2, on, mmd(on))); H.lemma_simple(); }
//@ hint after let colours 1
    let ghost cm = colours.colouring@;
    proof {
        lemma_scat(*self, H, OH, k2, dd, wr, on, 0u32, cm);
        let kk = choose|k: nat| #[trigger] few(OH, k) && forall|x: Vertex| OH.vs().contains(x) ==> #[trigger] cm[x] < k; lemma_low(OH, cm, kk);
        OH.lemma_wf(); assert(cm.dom().len() < 0x8000_0000 && m0.dom().len() < 0x8000_0000);
        assert(cm.dom() == sc); assert(m0.dom().disjoint(cm.dom()));
    }
//@ hint before call retain 1
    let ghost m1 = colouring.colouring@;
    proof { let off = choose|off: int| #[trigger] fresh_off(m0, off) && forall|x: Vertex| cm.dom().contains(x) && !m0.dom().contains(x) ==> #[trigger] m1[x] == cm[x] + off; lemma_extend(*self, k2, m0, cm, m1, off); }
//@ hint loop1.end
    proof {
        assert(target@ =~= t.difference(m1.dom())); assert(m1.dom().union(target@) =~= t0); assert(m1.dom().disjoint(target@));
        let x = choose|x: Vertex| t.contains(x); assert(near(*self, domset@, dom_distance@[x] as nat, x)); let c = choose|c: Vertex| domset@.contains(c) && #[trigger] within(*self, c, dom_distance@[x] as nat, x);
        lemma_nonempty(domset@); lemma_nonempty(sc); let y = choose|y: Vertex| sc.contains(y); assert(t.contains(y) && !target@.contains(y));
        assert(target@.subset_of(t.remove(y))); vstd::set_lib::lemma_len_subset(target@, t.remove(y));
    }
//@ hint loop1.after
    let ghost mc = colouring.colouring@;
    proof { assert(mc.dom() =~= t0); lemma_wr_small(*self, dd, wreach); }
//@ unchain classes
//@ hint loop12.before
    proof { lemma_invert_ok(*self, k2, dd, mc, classes_1@, classes_1.order()); assert(classes@ + unimprovable@ =~= classes@); }
    #[verifier::loop_isolation(true)]
//@ rawloop 12
    invariant wr_ok(*self, dd, wreach), wr_small(wreach), self.wf(), classes_ok(*self, dd, t0, classes@ + unimprovable@), all_ne(unimprovable@), t0.subset_of(self.vs()), distance < 0x4000_0000, dd == distance,
    decreases ne(classes@).len(), if improved { 1int } else { 0 }
//@ hint loop12.start
    let ghost c0 = classes@; let ghost z0 = ne(classes@).len(); let ghost un0 = unimprovable@;
//@ hint before call sort_by_key 1
    let ghost c1 = classes@;
    proof {
        let f = choose|ix: Seq<int>| #[trigger] picks(c1, c0, ix) && (forall|k: int| 0 <= k < c1.len() ==> (#[trigger] c1[k])@.len() > 0) && (forall|i: int| 0 <= i < c0.len() && !ix.contains(i) ==> (#[trigger] c0[i])@.len() == 0);
        lemma_reorder(*self, dd, t0, c1, c0, un0, f);
    }
//@ hint after call sort_by_key 1
    proof { lemma_sorted(*self, dd, t0, classes@, c1, un0); }
//@ loop 13
    classes_ok(*self, dd, t0, classes@ + unimprovable@), all_ne(unimprovable@), ne(classes@).len() <= z0, improved ==> ne(classes@).len() < z0, it13_s.len() == classes@.len(),
//@ hint loop13.start
    let ghost cs = classes@; let ghost u13 = unimprovable@; let ghost im0 = improved; let ghost z1 = ne(cs).len();
//@ hint after let set1 1
    let ghost l0 = cs.take(i as int + 1); let ghost s0 = *set1;
    proof { assert(cur(l0, i as int, *set1, classes_right@) =~= cs); }
//@ loop 14
    classes_ok(*self, dd, t0, cur(l0, i as int, *set1, classes_right@) + u13), (*set1)@.len() > 0, l0.len() == i + 1, it14_s.len() == classes_right@.len(), classes_right@.len() == cs.len() - i - 1,
    ne(cur(l0, i as int, *set1, classes_right@)).len() <= z1, improved ==> im0 || ne(cur(l0, i as int, *set1, classes_right@)).len() < z1,
    forall|k: int| 0 <= k < it14_s.len() ==> #[trigger] it14_s[k] == k,
//@ hint loop14.start
    let ghost r14 = classes_right@; let ghost s14 = *set1;
//@ hint after let set2 1
    proof { lemma_cur_sub(*self, dd, t0, l0, i as int, s14, r14, j as int, u13); lists_set(*set1); lists_set(*set2); assert(r14.update(j as int, r14[j as int]) =~= r14); }
//@ hint loop14.end
    proof { let k = if dist.is_none() { dd + 1 } else { dist->0 as nat }; lemma_merge(*self, dd, t0, wreach, k, l0, i as int, s14, *set1, r14, j as int, classes_right@[j as int], u13); }
//@ hint loop14.after
    let ghost sE = *set1; let ghost rE = classes_right@;
//@ hint before call push 1
    let ghost sz = *set1; let ghost rz = classes_right@;
    proof { assert forall|n1: VertexSet| n1@ == Set::<Vertex>::empty() implies classes_ok(*self, dd, t0, #[trigger] cur(l0, i as int, n1, rz) + u13.push(sz)) && ne(cur(l0, i as int, n1, rz)).len() < z1 by { lemma_move(*self, dd, t0, l0, i as int, sz, n1, rz, u13); } }
//@ hint loop13.end
    proof { assert(classes@.len() == cs.len()); assert(classes@.skip(i as int + 1) =~= rE); assert(classes@.take(i as int + 1) =~= l0.update(i as int, classes@[i as int])); assert(classes@ =~= cur(l0, i as int, classes@[i as int], rE)); if improved_current_set { assert(classes@[i as int] == sE); } else { assert(classes@[i as int]@ =~= Set::<Vertex>::empty()); } }
//@ hint before call retain 3
    let ghost cz = classes@; let ghost uz = unimprovable@;
//@ hint before call extend 2
    let ghost cy = classes@;
    proof {
        let f = choose|ix: Seq<int>| #[trigger] picks(cy, cz, ix) && (forall|k: int| 0 <= k < cy.len() ==> (#[trigger] cy[k])@.len() > 0) && (forall|i: int| 0 <= i < cz.len() && !ix.contains(i) ==> (#[trigger] cz[i])@.len() == 0);
        lemma_reorder(*self, dd, t0, cy, cz, uz, f); lemma_swap(*self, dd, t0, cy, uz);
    }
//@ end
}
} // verus!
