verus! {
//@ props C27
// ===================================================================== vertex maps and colourings
/// the class of c: keys with value c
pub open spec fn class_of<T>(m: Map<Vertex, T>, c: T) -> Set<Vertex> { m.dom().filter(|x: Vertex| m[x] == c) }
/// r groups the keys of m by value
pub open spec fn inverted<T>(m: Map<Vertex, T>, r: Map<T, VertexSet>) -> bool {
    &&& forall|x: Vertex| #[trigger] m.dom().contains(x) ==> r.dom().contains(m[x]) && r[m[x]]@.contains(x)
    &&& forall|c: T, x: Vertex| r.dom().contains(c) && #[trigger] r[c]@.contains(x) ==> m.dom().contains(x) && m[x] == c
    &&& forall|c: T| #[trigger] r.dom().contains(c) ==> r[c]@.len() > 0
}
pub trait VertexMapOperations<T: Copy + Hash + Eq> {
    spec fn vm_map(&self) -> Map<Vertex, T>;
//@ fn graph.rs trait:VertexMapOperations invert
//@ ensures inverted(self.vm_map(), r@)
//@ end
//@ fn graph.rs trait:VertexMapOperations majority_set
//@ ensures
    r.is_none() == (self.vm_map().dom().len() == 0),
    r.is_some() ==> (r->0).0@ == class_of(self.vm_map(), (r->0).1) && (r->0).0@.len() > 0 && forall|c: T| (#[trigger] class_of(self.vm_map(), c)).len() <= (r->0).0@.len()
//@ end
}
impl<T: Copy + Hash + Eq> VertexMapOperations<T> for VertexMap<T> {
    open spec fn vm_map(&self) -> Map<Vertex, T> { self@ }
//@ fn graph.rs impl:VertexMapOperations:VertexMap invert
//@ loop 1
    forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == (&self.order()[i], &self@[self.order()[i]]), it1_s.len() == self.order().len(), lists(self.order(), self@.dom()),
    forall|x: Vertex| #[trigger] pre(self.order(), it1.pos()).contains(x) ==> res@.dom().contains(self@[x]) && res@[self@[x]]@.contains(x),
    forall|c: T, x: Vertex| res@.dom().contains(c) && #[trigger] res@[c]@.contains(x) ==> self@.dom().contains(x) && self@[x] == c,
    forall|c: T| #[trigger] res@.dom().contains(c) ==> res@[c]@.len() > 0,
//@ hint loop1.start
    proof { lemma_pre(self.order(), (it1.pos() - 1) as nat); }
    let ghost r0 = res@;
//@ hint loop1.end
    proof { assert(res@.dom().contains(value)); assert(res@[value]@.contains(u)); 
        assert forall|c: T| #[trigger] res@.dom().contains(c) implies res@[c]@.len() > 0 by { if c == value { if res@[c]@.len() == 0 { assert(!res@[c]@.contains(u)); } } } }
//@ hint end
    proof { lemma_pre_ends(self.order()); }
//@ end
//@ fn graph.rs impl:VertexMapOperations:VertexMap majority_set
//@ closure 1 |vxp1: (T, VertexSet)| -> (k: (usize, T, VertexSet)) ensures k == (vxp1.1@.len() as usize, vxp1.0, vxp1.1), vxp1.1@.len() <= usize::MAX
//@ closure 2 |vxp2: &(usize, T, VertexSet)| -> (k: usize) ensures k == usize::MAX - vxp2.0
//@ unchain value
//@ hint after let inverted 1
    let ghost inv = inverted@; let ghost io = inverted.order();
    proof { assert(self@.dom().len() > 0); let x = choose|x: Vertex| self@.dom().contains(x); assert(self@.dom().contains(x)) by { if self@.dom() =~= Set::<Vertex>::empty() {} } assert(inv.dom().contains(self@[x])); assert(io.contains(self@[x])); }
//@ hint after let value 1
    proof {
        let m = value_2.seq(); let ss = value_3.seq();
        assert(value_1.seq() =~= pairs(inv, io));
        assert(ss[0].1 == value && ss[0].2 == set);
        assert(ss.contains(ss[0])); assert(m.contains(ss[0]));
        let k = choose|k: int| 0 <= k < m.len() && m[k] == ss[0];
        assert(m[k].1 == io[k] && m[k].2 == inv[io[k]]); assert(inv.dom().contains(io[k]));
        assert forall|c: T| inv.dom().contains(c) implies (#[trigger] inv[c])@ == class_of(self@, c) by {
            assert forall|x: Vertex| #[trigger] inv[c]@.contains(x) <==> class_of(self@, c).contains(x) by { } 
            assert(inv[c]@ =~= class_of(self@, c));
        }
        assert forall|c: T| (#[trigger] class_of(self@, c)).len() <= set@.len() by {
            if inv.dom().contains(c) {
                assert(io.contains(c)); let j = choose|j: int| 0 <= j < io.len() && io[j] == c;
                assert(m[j].2 == inv[c]); assert(ss.contains(m[j])); let q = choose|q: int| 0 <= q < ss.len() && ss[q] == m[j];
                assert(inv[c]@ == class_of(self@, c));
                if q > 0 { assert(ss[0] == ss[0] && ss[q] == ss[q]); }
            } else { assert(class_of(self@, c) =~= Set::empty()) by { assert forall|x: Vertex| !class_of(self@, c).contains(x) by { if self@.dom().contains(x) && self@[x] == c { assert(inv.dom().contains(self@[x])); } } } }
        }
    }
//@ end
}
//@ struct graph.rs VertexColouring
/// r collects the pairs of s; a later pair overrides an earlier one with the same vertex
impl<T: Copy + Hash + Eq> VxDefault for VertexColouring<T> {
    open spec fn dflt(r: Self) -> bool { r.colouring@ == Map::<Vertex, T>::empty() }
//@ fn graph.rs impl:Default:VertexColouring default
//@ as vx_default
//@ hint end
    proof { assert(<FxHashMap<Vertex, T> as VxDefault>::dflt(vx_res.colouring)); assert(vx_res.colouring@ == Map::<Vertex, T>::empty()); assert(<Self as VxDefault>::dflt(vx_res)); }
//@ end
}
impl<T: Copy + Hash + Eq> VertexColouring<T> {
//@ fn graph.rs impl:VertexColouring from_iter
//@ sig fn from_iter<I: VxSrc<(Vertex, T)>>(iter: I) -> (r: Self)
//@ requires iter.src_ok()
//@ ensures map_of(iter.src(), r.colouring@)
//@ end
//@ fn graph.rs impl:VertexColouring as_map
//@ ensures r@ == self.colouring@
//@ end
//@ fn graph.rs impl:VertexColouring insert
//@ ensures final(self).colouring@ == old(self).colouring@.insert(v, c), r.is_some() == old(self).colouring@.dom().contains(v), r.is_some() ==> r->0 == old(self).colouring@[v]
//@ end
//@ fn graph.rs impl:VertexColouring iter
//@ as vx_iter
//@ sig fn vx_iter(&self) -> (r: It<(&Vertex, &T)>)
//@ ensures r.pos() == 0, r.seq().len() == self.colouring.order().len(), forall|i: int| 0 <= i < r.seq().len() ==> #[trigger] r.seq()[i] == (&self.colouring.order()[i], &self.colouring@[self.colouring.order()[i]]), lists(self.colouring.order(), self.colouring@.dom()), pre(r.seq(), 0) == Set::<(&Vertex, &T)>::empty(), pre(self.colouring.order(), 0) == Set::<Vertex>::empty()
//@ end
//@ fn graph.rs impl:VertexColouring len
//@ ensures r == self.colouring@.dom().len()
//@ end
//@ fn graph.rs impl:VertexColouring vertices
//@ sig fn vertices(&self) -> (r: RIt<'_, Vertex>)
//@ ensures r.pos() == 0, lists(r.seq(), self.colouring@.dom())
//@ end
//@ fn graph.rs impl:VertexColouring colours
//@ sig fn colours(&self) -> (r: RIt<'_, T>)
//@ ensures r.pos() == 0, r.seq().no_duplicates(), forall|c: T| #[trigger] r.seq().contains(c) <==> exists|x: Vertex| self.colouring@.dom().contains(x) && #[trigger] self.colouring@[x] == c
//@ hint end
    proof { lemma_values(self.colouring@, self.colouring.order()); }
//@ end
//@ fn graph.rs impl:VertexColouring get
//@ ensures r.is_some() == self.colouring@.dom().contains(*u), r.is_some() ==> *r->0 == self.colouring@[*u]
//@ end
//@ fn graph.rs impl:VertexColouring contains
//@ ensures r == self.colouring@.dom().contains(*u)
//@ end
//@ fn graph.rs impl:VertexColouring subset
//@ requires vertices.src_ok()
//@ ensures
    forall|x: Vertex| #[trigger] r.colouring@.dom().contains(x) <==> vertices.src().contains(x) && self.colouring@.dom().contains(x),
    forall|x: Vertex| r.colouring@.dom().contains(x) ==> #[trigger] r.colouring@[x] == self.colouring@[x]
//@ loop 1
    forall|x: Vertex| #[trigger] res.colouring@.dom().contains(x) <==> pre(it1_s, it1.pos()).contains(x) && self.colouring@.dom().contains(x),
    forall|x: Vertex| res.colouring@.dom().contains(x) ==> #[trigger] res.colouring@[x] == self.colouring@[x],
//@ end
}
pub proof fn lemma_values<K, T>(m: Map<K, T>, o: Seq<K>)
    requires lists(o, m.dom())
    ensures forall|c: T| #[trigger] vals(m, o).contains(c) <==> exists|x: K| m.dom().contains(x) && #[trigger] m[x] == c
{
    let v = vals(m, o);
    assert forall|c: T| #[trigger] v.contains(c) <==> exists|x: K| m.dom().contains(x) && #[trigger] m[x] == c by {
        if v.contains(c) { let i = choose|i: int| 0 <= i < v.len() && v[i] == c; assert(o.contains(o[i])); assert(m[o[i]] == c); }
        if exists|x: K| m.dom().contains(x) && #[trigger] m[x] == c { let x = choose|x: K| m.dom().contains(x) && #[trigger] m[x] == c; assert(o.contains(x)); let i = choose|i: int| 0 <= i < o.len() && o[i] == x; assert(v[i] == c); }
    }
}
/// off is 0 for no colours, else one more than the largest colour of m
pub open spec fn fresh_off(m: Map<Vertex, u32>, off: int) -> bool {
    if m.dom().len() == 0 { off == 0 } else { (forall|x: Vertex| m.dom().contains(x) ==> #[trigger] m[x] < off) && exists|x: Vertex| m.dom().contains(x) && #[trigger] m[x] + 1 == off }
}
impl VertexColouring<u32> {
//@ fn graph.rs impl:VertexColouring disjoint_extend
//@ rename T u32
//@ sig fn disjoint_extend(&mut self, other: &VertexColouring<u32>)
//@ requires
    forall|x: Vertex, y: Vertex| #![trigger old(self).colouring@[x], other.colouring@[y]] old(self).colouring@.dom().contains(x) && other.colouring@.dom().contains(y) ==> old(self).colouring@[x] + 1 + other.colouring@[y] <= u32::MAX,
    forall|x: Vertex| old(self).colouring@.dom().contains(x) ==> #[trigger] old(self).colouring@[x] < u32::MAX
//@ ensures
    final(self).colouring@.dom() == old(self).colouring@.dom().union(other.colouring@.dom()),
    forall|x: Vertex| old(self).colouring@.dom().contains(x) ==> #[trigger] final(self).colouring@[x] == old(self).colouring@[x],
    exists|off: int| #[trigger] fresh_off(old(self).colouring@, off) && forall|x: Vertex| other.colouring@.dom().contains(x) && !old(self).colouring@.dom().contains(x) ==> #[trigger] final(self).colouring@[x] == other.colouring@[x] + off
//@ hint start
    let ghost m0 = self.colouring@; let ghost mo = self.colouring.order(); let ghost oo = other.colouring.order(); let ghost m1 = other.colouring@;
    proof { lemma_values(m0, mo); }
//@ hint after let colours 1
    proof {
        assert(forall|c: u32| #[trigger] colours@.contains(c) <==> exists|x: Vertex| m0.dom().contains(x) && #[trigger] m0[x] == c);
        if m0.dom().len() == 0 { assert(m0.dom() =~= Set::<Vertex>::empty()); assert(colours@ =~= Set::<u32>::empty()) by { assert forall|c: u32| !colours@.contains(c) by { } } }
        else { let x = choose|x: Vertex| m0.dom().contains(x); assert(m0.dom().contains(x)) by { if m0.dom() =~= Set::<Vertex>::empty() {} } assert(colours@.contains(m0[x])); if colours@.len() == 0 { assert(colours@ =~= Set::<u32>::empty()); } }
    }
//@ hint loop1.before
    proof { assert(fresh_off(m0, offset as int)) by {
        assert forall|x: Vertex| m0.dom().contains(x) implies #[trigger] m0[x] < offset by { assert(colours@.contains(m0[x])); assert(colours.order().contains(m0[x])); let i = choose|i: int| 0 <= i < colours.order().len() && colours.order()[i] == m0[x]; assert(colours.order()[i] == m0[x]); } } }
//@ loop 1
    oo == other.colouring.order(), m1 == other.colouring@, lists(oo, m1.dom()),
    it1_s.len() == oo.len(), forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == (&oo[i], &m1[oo[i]]), fresh_off(m0, offset as int),
    forall|x: Vertex, y: Vertex| #![trigger m0[x], m1[y]] m0.dom().contains(x) && m1.dom().contains(y) ==> m0[x] + 1 + m1[y] <= u32::MAX,
    self.colouring@.dom() =~= m0.dom().union(pre(oo, it1.pos())),
    forall|x: Vertex| m0.dom().contains(x) ==> #[trigger] self.colouring@[x] == m0[x],
    forall|x: Vertex| pre(oo, it1.pos()).contains(x) && !m0.dom().contains(x) ==> #[trigger] self.colouring@[x] == m1[x] + offset,
//@ hint loop1.start
    proof { lemma_pre(oo, (it1.pos() - 1) as nat); assert(oo.contains(*u)); assert(m1.dom().contains(*u)); }
//@ hint end
    proof { lemma_pre_ends(oo); assert(oo.to_set() =~= m1.dom()); assert(fresh_off(m0, offset as int)); }
//@ end
//@ fn graph.rs impl:IntegerColouring:VertexColouring from_sets
//@ sig fn from_sets<I: VxSrc<VertexSet>>(iter: I) -> (r: Self)
//@ requires iter.src_ok(), iter.src().len() <= 0x1_0000_0000
//@ ensures
    forall|x: Vertex| #[trigger] r.colouring@.dom().contains(x) <==> exists|i: int| 0 <= i < iter.src().len() && (#[trigger] iter.src()[i])@.contains(x),
    forall|x: Vertex| r.colouring@.dom().contains(x) ==> 0 <= #[trigger] r.colouring@[x] < iter.src().len() && iter.src()[r.colouring@[x] as int]@.contains(x) && forall|j: int| r.colouring@[x] < j < iter.src().len() ==> !(#[trigger] iter.src()[j])@.contains(x)
//@ hint start
    let ghost ss = iter.src();
//@ loop 1
    ss.len() <= 0x1_0000_0000, it1_s.len() == ss.len(), forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == (i as usize, ss[i]),
    forall|x: Vertex| #[trigger] colouring@.dom().contains(x) <==> exists|i: int| 0 <= i < it1.pos() && (#[trigger] ss[i])@.contains(x),
    forall|x: Vertex| colouring@.dom().contains(x) ==> 0 <= #[trigger] colouring@[x] < it1.pos() && ss[colouring@[x] as int]@.contains(x) && forall|j: int| colouring@[x] < j < it1.pos() ==> !(#[trigger] ss[j])@.contains(x),
//@ hint loop1.start
    let ghost c0 = colouring@; let ghost k = it1.pos() - 1;
//@ loop 2
    k == it1.pos() - 1, 0 <= k < ss.len(), ss.len() <= 0x1_0000_0000, i == k, set == ss[k], lists(it2_s, set@),
    forall|x: Vertex| #[trigger] colouring@.dom().contains(x) <==> c0.dom().contains(x) || pre(it2_s, it2.pos()).contains(x),
    forall|x: Vertex| colouring@.dom().contains(x) ==> #[trigger] colouring@[x] == (if pre(it2_s, it2.pos()).contains(x) { k } else { c0[x] as int }),
//@ hint loop1.end
    proof {
        assert(it2_s.to_set() =~= ss[k]@);
        assert forall|x: Vertex| #[trigger] colouring@.dom().contains(x) <==> exists|i: int| 0 <= i < it1.pos() && (#[trigger] ss[i])@.contains(x) by {
            if colouring@.dom().contains(x) { if ss[k]@.contains(x) {} else { assert(c0.dom().contains(x)); } }
            if exists|i: int| 0 <= i < it1.pos() && (#[trigger] ss[i])@.contains(x) { let i = choose|i: int| 0 <= i < it1.pos() && (#[trigger] ss[i])@.contains(x); if i < k { assert(c0.dom().contains(x)); } }
        }
    }
//@ end
}
} // verus!
