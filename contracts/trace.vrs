verus! {
//@ props C25
// ===================================================================== dialect: bit vectors, prefixes of slices
/// bitvec::BitVec; two values with the same bits are the same value
#[verifier::external_body]
pub struct VertexBitVec { b: Vec<bool> }
pub type BitVec = VertexBitVec;
impl View for VertexBitVec { type V = Seq<bool>; uninterp spec fn view(&self) -> Seq<bool>; }
#[verifier::external] impl Hash for VertexBitVec { fn hash<H: std::hash::Hasher>(&self, h: &mut H) { self.b.hash(h) } }
#[verifier::external] impl Eq for VertexBitVec { }
impl vstd::std_specs::cmp::PartialEqSpecImpl for VertexBitVec {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VertexBitVec) -> bool { self@ == o@ }
}
impl PartialEq for VertexBitVec {
    #[verifier::external_body]
    fn eq(&self, o: &Self) -> bool { self.b == o.b }
}
pub uninterp spec fn bk(s: Seq<bool>) -> VertexBitVec;
#[verifier::external_body]
pub proof fn axiom_bk() ensures forall|b: VertexBitVec| bk(#[trigger] b@) == b, forall|s: Seq<bool>| s.len() <= usize::MAX ==> (#[trigger] bk(s))@ == s { }
/// vectors as keys: equal contents, equal keys
pub uninterp spec fn vk(s: Seq<Vertex>) -> Vec<Vertex>;
#[verifier::external_body]
pub proof fn axiom_vk() ensures forall|v: Vec<Vertex>| vk(#[trigger] v@) == v, forall|s: Seq<Vertex>| s.len() <= usize::MAX ==> (#[trigger] vk(s))@ == s { }
pub open spec fn and(a: Seq<bool>, b: Seq<bool>) -> Seq<bool> { Seq::new(a.len(), |i: int| a[i] && b[i]) }
impl VertexBitVec {
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<bool>::empty() { unimplemented!() }
    /// grows (the code only grows)
    #[verifier::external_body]
    pub fn vx_resize(&mut self, n: usize, x: bool) requires old(self)@.len() <= n ensures final(self)@.len() == n, forall|i: int| 0 <= i < n ==> #[trigger] final(self)@[i] == (if i < old(self)@.len() { old(self)@[i] } else { x }) { unimplemented!() }
    #[verifier::external_body]
    pub fn set(&mut self, i: usize, x: bool) requires i < old(self)@.len() ensures final(self)@ == old(self)@.update(i as int, x) { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    /// ascending positions of the set bits
    #[verifier::external_body]
    pub fn iter_ones(&self) -> (r: It<usize>) ensures r.pos() == 0, ones(self@, self@.len() as int, r.seq()) { unimplemented!() }
}
/// a & b for vectors of one length
#[verifier::external_body]
pub fn vx_bits_and(a: VertexBitVec, b: &VertexBitVec) -> (r: VertexBitVec) requires a@.len() == b@.len() ensures r@ == and(a@, b@) { unimplemented!() }
/// s lists the positions below n of set bits in order
pub open spec fn ones(b: Seq<bool>, n: int, s: Seq<usize>) -> bool
    decreases n
{ if n <= 0 { s.len() == 0 } else if b[n - 1] { s.len() > 0 && s.last() == n - 1 && ones(b, n - 1, s.drop_last()) } else { ones(b, n - 1, s) } }
impl<T> VxIndex<core::ops::RangeTo<usize>> for [T] {
    type Out = [T];
    open spec fn ix_req(&self, i: core::ops::RangeTo<usize>) -> bool { i.end <= self@.len() }
    open spec fn ix_val(&self, i: core::ops::RangeTo<usize>, r: &[T]) -> bool { r@ == self@.take(i.end as int) }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: core::ops::RangeTo<usize>) -> (r: &'a [T]) { unimplemented!() }
}
impl<T> VxIndex<core::ops::RangeTo<usize>> for Vec<T> {
    type Out = [T];
    open spec fn ix_req(&self, i: core::ops::RangeTo<usize>) -> bool { i.end <= self@.len() }
    open spec fn ix_val(&self, i: core::ops::RangeTo<usize>, r: &[T]) -> bool { r@ == self@.take(i.end as int) }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: core::ops::RangeTo<usize>) -> (r: &'a [T]) { unimplemented!() }
}
impl<T> VxIndex<usize> for [T] {
    type Out = T;
    open spec fn ix_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn ix_val(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    #[verifier::external_body]
    fn vx_index<'a>(&'a self, i: usize) -> (r: &'a T) { unimplemented!() }
}
impl VxDefault for usize { open spec fn dflt(r: Self) -> bool { r == 0 } fn vx_default() -> (r: Self) { 0 } }
pub trait VxSlSrc<T> { spec fn ssrc(&self) -> Seq<T>; fn vx_src<'a>(&'a self) -> (r: RIt<'a, T>) ensures r.pos() == 0, r.seq() == self.ssrc(), pre(r.seq(), 0) == Set::<T>::empty(); }
impl<T> VxSlSrc<T> for [T] {
    open spec fn ssrc(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_src<'a>(&'a self) -> (r: RIt<'a, T>) { unimplemented!() }
}
// ===================================================================== selections and labels
/// the elements of c at the set bits
pub open spec fn keepb(c: Seq<Vertex>, b: Seq<bool>) -> Seq<Vertex>
    decreases c.len()
{ if c.len() == 0 { Seq::empty() } else { let r = keepb(c.drop_last(), b); if b[c.len() - 1] { r.push(c.last()) } else { r } } }
/// the elements of c that lie in s
pub open spec fn keep(c: Seq<Vertex>, s: Set<Vertex>) -> Seq<Vertex>
    decreases c.len()
{ if c.len() == 0 { Seq::empty() } else { let r = keep(c.drop_last(), s); if s.contains(c.last()) { r.push(c.last()) } else { r } } }
pub open spec fn bitsof(c: Seq<Vertex>, s: Set<Vertex>) -> Seq<bool> { Seq::new(c.len(), |i: int| s.contains(c[i])) }
pub proof fn lemma_keepb_eq(c: Seq<Vertex>, b: Seq<bool>, s: Set<Vertex>)
    requires b.len() >= c.len(), forall|i: int| 0 <= i < c.len() ==> #[trigger] b[i] == s.contains(c[i])
    ensures keepb(c, b) == keep(c, s)
    decreases c.len()
{ if c.len() > 0 { let d = c.drop_last(); assert forall|i: int| 0 <= i < d.len() implies #[trigger] b[i] == s.contains(d[i]) by { assert(d[i] == c[i]); } lemma_keepb_eq(d, b, s); assert(b[c.len() - 1] == s.contains(c[c.len() - 1])); } }
pub proof fn lemma_keep(c: Seq<Vertex>, s: Set<Vertex>)
    ensures keep(c, s).len() <= c.len(), forall|x: Vertex| #[trigger] keep(c, s).contains(x) <==> c.contains(x) && s.contains(x)
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last(); lemma_keep(d, s); let r = keep(d, s); let k = keep(c, s);
        assert forall|x: Vertex| #[trigger] k.contains(x) <==> c.contains(x) && s.contains(x) by {
            assert(c == d.push(c.last())); lemma_push_has(d, c.last(), x); lemma_push_has(r, c.last(), x); assert(r.contains(x) <==> d.contains(x) && s.contains(x));
        }
    }
}
pub proof fn lemma_push_has(s: Seq<Vertex>, a: Vertex, x: Vertex)
    ensures s.push(a).contains(x) <==> s.contains(x) || x == a
{ let t = s.push(a); if s.contains(x) { let i = choose|i: int| 0 <= i < s.len() && s[i] == x; assert(t[i] == x); } if x == a { assert(t[s.len() as int] == x); } if t.contains(x) { let i = choose|i: int| 0 <= i < t.len() && t[i] == x; if i < s.len() { assert(s[i] == x); } } }
pub proof fn lemma_keep_sorted(o: Seq<Vertex>, c: Seq<Vertex>, s: Set<Vertex>)
    requires sorted_in(o, c)
    ensures sorted_in(o, keep(c, s))
    decreases c.len()
{
    reveal(sorted_in);
    if c.len() > 0 {
        let d = c.drop_last(); assert forall|i: int, j: int| 0 <= i < j < d.len() implies ix(o, d[i]) < ix(o, d[j]) by { assert(d[i] == c[i] && d[j] == c[j]); }
        lemma_keep_sorted(o, d, s); lemma_keep(d, s); let r = keep(d, s); let k = keep(c, s);
        assert forall|i: int, j: int| 0 <= i < j < k.len() implies ix(o, k[i]) < ix(o, k[j]) by {
            if j < r.len() { assert(k[i] == r[i] && k[j] == r[j]); } else { assert(k[i] == r[i] && k[j] == c.last()); assert(r.contains(r[i])); let a = choose|a: int| 0 <= a < d.len() && d[a] == r[i]; assert(c[a] == r[i]); }
        }
    }
}
pub proof fn lemma_sorted_take(o: Seq<Vertex>, q: Seq<Vertex>, n: int)
    requires sorted_in(o, q), 0 <= n <= q.len()
    ensures sorted_in(o, q.take(n))
{ reveal(sorted_in); assert forall|i: int, j: int| 0 <= i < j < n implies ix(o, q.take(n)[i]) < ix(o, q.take(n)[j]) by { assert(q.take(n)[i] == q[i] && q.take(n)[j] == q[j]); } }
pub proof fn lemma_keepb_mem(c: Seq<Vertex>, b: Seq<bool>)
    requires b.len() >= c.len()
    ensures keepb(c, b).len() <= c.len(), forall|x: Vertex| #[trigger] keepb(c, b).contains(x) <==> exists|i: int| 0 <= i < c.len() && b[i] && c[i] == x
    decreases c.len()
{
    if c.len() > 0 {
        let d = c.drop_last(); lemma_keepb_mem(d, b); let r = keepb(d, b); let k = keepb(c, b); let n = d.len() as int;
        assert forall|x: Vertex| #[trigger] k.contains(x) <==> exists|i: int| 0 <= i < c.len() && b[i] && c[i] == x by {
            lemma_push_has(r, c.last(), x);
            if k.contains(x) { if r.contains(x) { let i = choose|i: int| 0 <= i < d.len() && b[i] && d[i] == x; assert(c[i] == x && b[i]); } else { assert(c[n] == x && b[n]); } }
            if exists|i: int| 0 <= i < c.len() && b[i] && c[i] == x { let i = choose|i: int| 0 <= i < c.len() && b[i] && c[i] == x; if i < n { assert(d[i] == x && b[i]); assert(r.contains(x)); } }
        }
    }
}
/// different bits select different sequences
pub proof fn lemma_keepb_inj(c: Seq<Vertex>, a: Seq<bool>, b: Seq<bool>)
    requires a.len() == c.len(), b.len() == c.len(), c.no_duplicates(), keepb(c, a) == keepb(c, b)
    ensures a == b
{
    lemma_keepb_mem(c, a); lemma_keepb_mem(c, b);
    assert forall|i: int| 0 <= i < c.len() implies a[i] == b[i] by {
        let x = c[i]; let s = keepb(c, a);
        if a[i] { assert(s.contains(x)); let j = choose|j: int| 0 <= j < c.len() && b[j] && c[j] == x; assert(j == i); }
        if b[i] { assert(keepb(c, b).contains(x)); let j = choose|j: int| 0 <= j < c.len() && a[j] && c[j] == x; assert(j == i); }
    }
    assert(a =~= b);
}
/// the members of d with label s
pub open spec fn lab<S>(d: Set<Vertex>, f: spec_fn(Vertex) -> S, s: S) -> Set<Vertex> { d.filter(|x: Vertex| f(x) == s) }
pub proof fn lemma_lab_bound<S>(d: Set<Vertex>, f: spec_fn(Vertex) -> S, s: S)
    ensures lab(d, f, s).len() <= d.len(), lab(d, f, s).subset_of(d)
{ vstd::set_lib::lemma_len_subset(lab(d, f, s), d); }
pub proof fn lemma_lab_ext<S>(d: Set<Vertex>, f: spec_fn(Vertex) -> S, g: spec_fn(Vertex) -> S, s: S)
    requires forall|x: Vertex| d.contains(x) ==> #[trigger] f(x) == g(x)
    ensures lab(d, f, s) == lab(d, g, s)
{ assert(lab(d, f, s) =~= lab(d, g, s)); }
pub proof fn lemma_lab_move<S>(d: Set<Vertex>, f: spec_fn(Vertex) -> S, g: spec_fn(Vertex) -> S, m: Set<Vertex>, s0: S, s1: S, s: S)
    requires m.subset_of(lab(d, f, s0)), s0 != s1, forall|x: Vertex| d.contains(x) ==> #[trigger] g(x) == (if m.contains(x) { s1 } else { f(x) })
    ensures lab(d, g, s).len() == lab(d, f, s).len() + (if s == s1 { m.len() as int } else { 0 }) - (if s == s0 { m.len() as int } else { 0 })
{
    let a = lab(d, f, s); let b = lab(d, g, s);
    if s == s1 { assert(b =~= a.union(m)); assert(a.disjoint(m)); vstd::set_lib::lemma_set_disjoint_lens(a, m); }
    else if s == s0 { assert(a =~= b.union(m)); assert(b.disjoint(m)); vstd::set_lib::lemma_set_disjoint_lens(b, m); }
    else { assert(a =~= b); }
}
pub proof fn lemma_lab_drop<S>(d: Set<Vertex>, f: spec_fn(Vertex) -> S, y: Vertex, s: S)
    requires d.contains(y)
    ensures lab(d.remove(y), f, s).len() == lab(d, f, s).len() - (if f(y) == s { 1int } else { 0 })
{
    let a = lab(d, f, s); let b = lab(d.remove(y), f, s);
    if f(y) == s { assert(b =~= a.remove(y)); assert(a.contains(y)); } else { assert(a =~= b); }
}
/// the count stored under a key
pub open spec fn tb(m: Map<VertexBitVec, usize>, k: Seq<bool>) -> int { if m.dom().contains(bk(k)) { m[bk(k)] as int } else { 0 } }
pub open spec fn tv(m: Map<Vec<Vertex>, usize>, s: Seq<Vertex>) -> int { if m.dom().contains(vk(s)) { m[vk(s)] as int } else { 0 } }
/// m counts the labels of d, nothing is stored with count zero
#[verifier::opaque]
pub open spec fn bgood(m: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>) -> bool {
    (forall|k: VertexBitVec| m.dom().contains(k) ==> #[trigger] m[k] > 0) && forall|k: VertexBitVec| tb(m, #[trigger] k@) == lab(d, f, k@).len()
}
#[verifier::opaque]
pub open spec fn vgood(m: Map<Vec<Vertex>, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<Vertex>) -> bool { forall|k: Vec<Vertex>| tv(m, #[trigger] k@) == lab(d, f, k@).len() }
#[verifier::opaque]
pub open spec fn positive(m: Map<Vec<Vertex>, usize>) -> bool { forall|k: Vec<Vertex>| m.dom().contains(k) ==> #[trigger] m[k] > 0 }
pub proof fn lemma_vgood_ext(m: Map<Vec<Vertex>, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<Vertex>, g: spec_fn(Vertex) -> Seq<Vertex>)
    requires vgood(m, d, f), forall|x: Vertex| d.contains(x) ==> #[trigger] f(x) == g(x)
    ensures vgood(m, d, g)
{ reveal(vgood); assert forall|k: Vec<Vertex>| tv(m, #[trigger] k@) == lab(d, g, k@).len() by { lemma_lab_ext(d, f, g, k@); } }
/// one vertex more with label k
pub proof fn lemma_bgood_add(m: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, y: Vertex, g: spec_fn(Vertex) -> Seq<bool>, k: VertexBitVec)
    requires bgood(m, d, f), !d.contains(y), g(y) == k@, forall|x: Vertex| d.contains(x) ==> #[trigger] g(x) == f(x), d.len() < usize::MAX
    ensures tb(m, k@) < usize::MAX, bgood(m.insert(k, (tb(m, k@) + 1) as usize), d.insert(y), g)
{
    axiom_bk(); reveal(bgood); let m1 = m.insert(k, (tb(m, k@) + 1) as usize); let d1 = d.insert(y);
    lemma_lab_bound(d, f, k@);
    assert forall|q: VertexBitVec| tb(m1, #[trigger] q@) == lab(d1, g, q@).len() by {
        assert(bk(q@) == q); assert(bk(k@) == k); lemma_lab_drop(d1, g, y, q@); assert(d1.remove(y) =~= d); lemma_lab_ext(d, f, g, q@); assert(tb(m, q@) == lab(d, f, q@).len()); if q@ == k@ { assert(q == k); }
    }
    assert forall|q: VertexBitVec| m1.dom().contains(q) implies #[trigger] m1[q] > 0 by { if q != k { assert(m[q] > 0); } }
}
// ===================================================================== SReachContext
//@ struct datastructures/sreach_trace_oracle.rs SReachContext
pub open spec fn shape(c: Seq<Vertex>, ind: Map<Vertex, usize>, rn: Map<VertexBitVec, usize>) -> bool {
    &&& c.len() > 0 && c.no_duplicates()
    &&& (forall|x: Vertex| #[trigger] ind.dom().contains(x) <==> c.contains(x)) && forall|i: int| 0 <= i < c.len() ==> #[trigger] ind[c[i]] == i
    &&& forall|k: VertexBitVec| #[trigger] rn.dom().contains(k) ==> k@.len() == c.len()
}
/// the part of the labelling done so far, cut down to the mask
pub open spec fn part(d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, done: Set<VertexBitVec>) -> Set<Vertex> { d.filter(|x: Vertex| done.contains(bk(f(x)))) }
pub open spec fn masked(f: spec_fn(Vertex) -> Seq<bool>, mask: Seq<bool>) -> spec_fn(Vertex) -> Seq<bool> { |x: Vertex| and(mask, f(x)) }
pub open spec fn chosen(c: Seq<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, mask: Seq<bool>) -> spec_fn(Vertex) -> Seq<Vertex> { |x: Vertex| keepb(c, and(mask, f(x))) }
/// all labels have n bits
pub open spec fn nbits(d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, n: int) -> bool { n <= usize::MAX && forall|x: Vertex| d.contains(x) ==> (#[trigger] f(x)).len() == n }
/// the counts are those of some labelling of countably many vertices
pub open spec fn counted(rn: Map<VertexBitVec, usize>, n: int) -> bool { exists|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) && d.len() <= usize::MAX }
pub open spec fn cpart_of(counts: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, mask: Seq<bool>, done: Set<VertexBitVec>) -> bool { bgood(counts, part(d, f, done), masked(f, mask)) }
pub proof fn lemma_cn0(d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, mask: Seq<bool>)
    ensures cpart_of(Map::empty(), d, f, mask, Set::empty())
{ reveal(bgood); let e = part(d, f, Set::empty()); assert(e =~= Set::<Vertex>::empty()); assert forall|k: VertexBitVec| tb(Map::empty(), #[trigger] k@) == lab(e, masked(f, mask), k@).len() by { assert(lab(e, masked(f, mask), k@) =~= Set::<Vertex>::empty()); } }
pub proof fn lemma_cn_step(rn: Map<VertexBitVec, usize>, m0: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, mask: Seq<bool>, done: Set<VertexBitVec>, kb: VertexBitVec, bits: VertexBitVec)
    requires bgood(rn, d, f), nbits(d, f, mask.len() as int), cpart_of(m0, d, f, mask, done), !done.contains(kb), rn.dom().contains(kb), bits@ == and(mask, kb@)
    ensures rn[kb] > 0, tb(m0, bits@) + rn[kb] <= d.len(), tb(m0, bits@) + rn[kb] <= usize::MAX ==> cpart_of(m0.insert(bits, (tb(m0, bits@) + rn[kb]) as usize), d, f, mask, done.insert(kb))
{
    axiom_bk(); reveal(bgood); let g = masked(f, mask); let d0 = part(d, f, done); let d1 = part(d, f, done.insert(kb)); let l = lab(d, f, kb@);
    assert(bk(kb@) == kb); assert(bk(bits@) == bits); assert(tb(rn, kb@) == l.len()); assert(rn[kb] > 0);
    assert forall|q: VertexBitVec| lab(d1, g, #[trigger] q@).len() == lab(d0, g, q@).len() + (if q@ == bits@ { l.len() as int } else { 0 }) by {
        let a = lab(d0, g, q@); let b = lab(d1, g, q@);
        assert forall|x: Vertex| d.contains(x) && bk(f(x)) == kb implies f(x) == kb@ by { assert(bk(f(x))@ == f(x)); }
        if q@ == bits@ {
            assert(b =~= a.union(l)) by { assert forall|x: Vertex| b.contains(x) <==> a.contains(x) || l.contains(x) by { } }
            assert(a.disjoint(l)); vstd::set_lib::lemma_set_disjoint_lens(a, l);
        } else { assert(b =~= a); }
    }
    assert(bk(bits@) == bits); let q = bits; assert(tb(m0, q@) == lab(d0, g, q@).len()); assert(lab(d1, g, q@).len() <= d.len()) by { vstd::set_lib::lemma_len_subset(lab(d1, g, q@), d); }
    if tb(m0, bits@) + rn[kb] <= usize::MAX {
        let m1 = m0.insert(bits, (tb(m0, bits@) + rn[kb]) as usize);
        assert forall|q: VertexBitVec| tb(m1, #[trigger] q@) == lab(d1, g, q@).len() by { assert(bk(q@) == q); assert(tb(m0, q@) == lab(d0, g, q@).len()); }
        assert forall|q: VertexBitVec| m1.dom().contains(q) implies #[trigger] m1[q] > 0 by { if q != bits { assert(m0[q] > 0); } }
    }
}
#[verifier::opaque]
pub open spec fn cn_all(rn: Map<VertexBitVec, usize>, m0: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>, done: Set<VertexBitVec>) -> bool { forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) ==> cpart_of(m0, d, f, mask, done) }
pub proof fn lemma_cn0_all(rn: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>) ensures cn_all(rn, Map::empty(), n, mask, Set::empty())
{ reveal(cn_all); assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) implies cpart_of(Map::empty(), d, f, mask, Set::empty()) by { lemma_cn0(d, f, mask); } }
pub proof fn lemma_cn_use(rn: Map<VertexBitVec, usize>, m0: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>, done: Set<VertexBitVec>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>)
    requires cn_all(rn, m0, n, mask, done), bgood(rn, d, f), nbits(d, f, n) ensures cpart_of(m0, d, f, mask, done)
{ reveal(cn_all); }
pub proof fn lemma_cn_all(rn: Map<VertexBitVec, usize>, m0: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>, done: Set<VertexBitVec>, kb: VertexBitVec, bits: VertexBitVec)
    requires counted(rn, n), n == mask.len(), !done.contains(kb), rn.dom().contains(kb), bits@ == and(mask, kb@), cn_all(rn, m0, n, mask, done)
    ensures rn[kb] > 0, tb(m0, bits@) + rn[kb] <= usize::MAX, cn_all(rn, m0.insert(bits, (tb(m0, bits@) + rn[kb]) as usize), n, mask, done.insert(kb))
{
    reveal(cn_all);
    let (d, f) = choose|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) && d.len() <= usize::MAX;
    lemma_cn_step(rn, m0, d, f, mask, done, kb, bits);
    assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) implies cpart_of(m0.insert(bits, (tb(m0, bits@) + rn[kb]) as usize), d, f, mask, done.insert(kb)) by { lemma_cn_step(rn, m0, d, f, mask, done, kb, bits); }
}
/// the counts by bits, listed by the selected vertices
pub open spec fn listed(c: Seq<Vertex>, counts: Map<VertexBitVec, usize>, r: Map<Vec<Vertex>, usize>) -> bool {
    (forall|b: VertexBitVec| #[trigger] counts.dom().contains(b) ==> b@.len() == c.len() && r.dom().contains(vk(keepb(c, b@))) && r[vk(keepb(c, b@))] == counts[b])
    && forall|v: Vec<Vertex>| #[trigger] r.dom().contains(v) ==> exists|b: VertexBitVec| #[trigger] counts.dom().contains(b) && v@ == keepb(c, b@)
}
pub proof fn lemma_listed(c: Seq<Vertex>, counts: Map<VertexBitVec, usize>, ord: Seq<VertexBitVec>, s: Seq<(Vec<Vertex>, usize)>, rm: FxHashMap<Vec<Vertex>, usize>)
    requires c.no_duplicates(), c.len() <= usize::MAX, lists(ord, counts.dom()), s.len() == ord.len(), forall|b: VertexBitVec| #[trigger] counts.dom().contains(b) ==> b@.len() == c.len(), map_of(s, rm@),
        forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).0@ == keepb(c, ord[i]@) && s[i].1 == counts[ord[i]]
    ensures listed(c, counts, rm@)
{
    let r = rm@; reveal(map_of); axiom_vk(); axiom_bk();
    assert forall|i: int| 0 <= i < s.len() implies #[trigger] counts.dom().contains(ord[i]) && r.dom().contains(vk(keepb(c, ord[i]@))) && r[vk(keepb(c, ord[i]@))] == counts[ord[i]] by {
        assert(ord.contains(ord[i])); let k = s[i].0; assert(vk(k@) == k); assert(r.dom().contains(k));
        let j = choose|j: int| 0 <= j < s.len() && s[j] == (k, r[k]) && forall|h: int| j < h < s.len() ==> (#[trigger] s[h]).0 != k;
        assert(ord.contains(ord[j])); assert(s[j].0@ == keepb(c, ord[j]@)); lemma_keepb_inj(c, ord[i]@, ord[j]@); assert(bk(ord[i]@) == ord[i]); assert(bk(ord[j]@) == ord[j]); assert(i == j);
    }
    assert forall|b: VertexBitVec| #[trigger] counts.dom().contains(b) implies b@.len() == c.len() && r.dom().contains(vk(keepb(c, b@))) && r[vk(keepb(c, b@))] == counts[b] by { assert(ord.contains(b)); let i = choose|i: int| 0 <= i < ord.len() && ord[i] == b; assert(counts.dom().contains(ord[i])); }
    assert forall|v: Vec<Vertex>| #[trigger] r.dom().contains(v) implies exists|b: VertexBitVec| #[trigger] counts.dom().contains(b) && v@ == keepb(c, b@) by {
        let j = choose|j: int| 0 <= j < s.len() && s[j] == (v, r[v]) && forall|h: int| j < h < s.len() ==> (#[trigger] s[h]).0 != v;
        assert(s[j].0@ == keepb(c, ord[j]@)); assert(counts.dom().contains(ord[j]));
    }
}
pub proof fn lemma_cn_end(rn: Map<VertexBitVec, usize>, counts: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, mask: Seq<bool>, c: Seq<Vertex>, r: Map<Vec<Vertex>, usize>)
    requires bgood(rn, d, f), nbits(d, f, c.len() as int), mask.len() == c.len(), c.no_duplicates(), cpart_of(counts, d, f, mask, rn.dom()), listed(c, counts, r)
    ensures vgood(r, d, chosen(c, f, mask))
{
    reveal(bgood); reveal(vgood); axiom_bk(); axiom_vk(); let g = masked(f, mask); let h = chosen(c, f, mask); let e = part(d, f, rn.dom());
    assert(e =~= d) by { assert forall|x: Vertex| d.contains(x) implies rn.dom().contains(bk(f(x))) by { let q = bk(f(x)); assert(q@ == f(x)); assert(tb(rn, q@) == lab(d, f, q@).len()); assert(lab(d, f, q@).contains(x)); } }
    assert forall|v: Vec<Vertex>| tv(r, #[trigger] v@) == lab(d, h, v@).len() by {
        assert(vk(v@) == v);
        if r.dom().contains(v) {
            let b = choose|b: VertexBitVec| #[trigger] counts.dom().contains(b) && v@ == keepb(c, b@); assert(vk(keepb(c, b@)) == v); assert(bk(b@) == b); assert(tb(counts, b@) == lab(e, g, b@).len());
            assert(lab(d, h, v@) =~= lab(d, g, b@)) by { assert forall|x: Vertex| d.contains(x) && h(x) == v@ implies g(x) == b@ by { lemma_keepb_inj(c, g(x), b@); } }
        } else {
            assert forall|x: Vertex| d.contains(x) implies h(x) != v@ by { if h(x) == v@ { let b = bk(g(x)); assert(g(x).len() == c.len()); assert(b@ == g(x)); assert(tb(counts, b@) == lab(e, g, b@).len()); assert(lab(e, g, b@).contains(x)); assert(counts.dom().contains(b)); assert(vk(keepb(c, b@)) == v); } }
            assert(lab(d, h, v@) =~= Set::<Vertex>::empty());
        }
    }
}
pub proof fn lemma_positive(rn: Map<VertexBitVec, usize>, counts: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, c: Seq<Vertex>, r: Map<Vec<Vertex>, usize>)
    requires bgood(counts, d, f), listed(c, counts, r)
    ensures positive(r)
{ reveal(bgood); reveal(positive); axiom_vk(); assert forall|v: Vec<Vertex>| r.dom().contains(v) implies #[trigger] r[v] > 0 by { let b = choose|b: VertexBitVec| #[trigger] counts.dom().contains(b) && v@ == keepb(c, b@); assert(vk(v@) == v); assert(counts[b] > 0); } }
/// m numbers the first k elements of c
#[verifier::opaque]
pub open spec fn numof(c: Seq<Vertex>, k: int, m: Map<Vertex, usize>) -> bool {
    (forall|x: Vertex| #[trigger] m.dom().contains(x) ==> exists|i: int| 0 <= i < k && c[i] == x) && forall|i: int| 0 <= i < k ==> m.dom().contains(#[trigger] c[i]) && m[c[i]] == i
}
pub proof fn lemma_numof0(c: Seq<Vertex>) ensures numof(c, 0, Map::empty()) { reveal(numof); }
pub proof fn lemma_numof_step(c: Seq<Vertex>, k: int, m: Map<Vertex, usize>)
    requires numof(c, k, m), 0 <= k < c.len() <= usize::MAX, c.no_duplicates()
    ensures numof(c, k + 1, m.insert(c[k], k as usize))
{
    reveal(numof); let n = m.insert(c[k], k as usize);
    assert forall|x: Vertex| #[trigger] n.dom().contains(x) implies exists|i: int| 0 <= i < k + 1 && c[i] == x by { if x == c[k] { assert(c[k] == x); } else { let i = choose|i: int| 0 <= i < k && c[i] == x; assert(c[i] == x); } }
}
/// res holds the elements of c at the first p positions listed in s
pub open spec fn onesel(c: Seq<Vertex>, b: Seq<bool>, s: Seq<usize>, p: int, res: Seq<Vertex>) -> bool { res.len() == p && p <= s.len() && forall|j: int| 0 <= j < p ==> (#[trigger] s[j]) < c.len() && res[j] == c[s[j] as int] }
pub proof fn lemma_ones(b: Seq<bool>, n: int, s: Seq<usize>, j: int)
    requires ones(b, n, s), 0 <= j < s.len()
    ensures s[j] < n
    decreases n
{ if n > 0 { if b[n - 1] { if j < s.len() - 1 { lemma_ones(b, n - 1, s.drop_last(), j); assert(s.drop_last()[j] == s[j]); } } else { lemma_ones(b, n - 1, s, j); } } }
pub proof fn lemma_onesel_step(c: Seq<Vertex>, b: Seq<bool>, s: Seq<usize>, p: int, res: Seq<Vertex>)
    requires onesel(c, b, s, p, res), 0 <= p < s.len(), s[p] < c.len()
    ensures onesel(c, b, s, p + 1, res.push(c[s[p] as int]))
{ let r = res.push(c[s[p] as int]); assert forall|j: int| 0 <= j < p + 1 implies (#[trigger] s[j]) < c.len() && r[j] == c[s[j] as int] by { if j < p { assert(r[j] == res[j]); } } }
pub proof fn lemma_onesel_end(c: Seq<Vertex>, b: Seq<bool>, s: Seq<usize>, res: Seq<Vertex>)
    requires onesel(c, b, s, s.len() as int, res), ones(b, c.len() as int, s), b.len() >= c.len()
    ensures res == keepb(c, b)
    decreases c.len()
{
    if c.len() == 0 { assert(res =~= keepb(c, b)); } else {
        let d = c.drop_last(); let n = c.len() - 1;
        if b[n] {
            let t = s.drop_last(); let r = res.drop_last();
            assert forall|j: int| 0 <= j < t.len() implies (#[trigger] t[j]) < d.len() && r[j] == d[t[j] as int] by { lemma_ones(b, n, t, j); assert(res[j] == c[s[j] as int]); assert(t[j] == s[j]); }
            lemma_onesel_end(d, b, t, r); assert(res[s.len() - 1] == c[n]); assert(res =~= keepb(c, b));
        } else {
            assert forall|j: int| 0 <= j < s.len() implies (#[trigger] s[j]) < d.len() && res[j] == d[s[j] as int] by { lemma_ones(b, n, s, j); }
            lemma_onesel_end(d, b, s, res);
        }
    }
}
pub proof fn lemma_room(rn: Map<VertexBitVec, usize>, n: int, s: Seq<bool>)
    requires room(rn, n), s.len() == n
    ensures tb(rn, s) < usize::MAX, counted(rn.insert(bk(s), (tb(rn, s) + 1) as usize), n)
{
    axiom_bk(); let (d, f) = choose|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) && d.len() < usize::MAX && exists|y: Vertex| !d.contains(y);
    let y = choose|y: Vertex| !d.contains(y); let g = |x: Vertex| if x == y { s } else { f(x) }; let k = bk(s); assert(k@ == s);
    lemma_bgood_add(rn, d, f, y, g, k); assert(nbits(d.insert(y), g, n)); assert(bgood(rn.insert(k, (tb(rn, s) + 1) as usize), d.insert(y), g));
}
/// one more vertex can be counted
pub open spec fn room(rn: Map<VertexBitVec, usize>, n: int) -> bool { exists|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) && d.len() < usize::MAX && exists|y: Vertex| !d.contains(y) }
#[verifier::opaque]
pub open spec fn cf_all(rn: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>, am: Seq<bool>, done: Set<VertexBitVec>, res: int) -> bool { forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) ==> res == lab(part(d, f, done), masked(f, mask), am).len() }
pub proof fn lemma_cf0(rn: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>, am: Seq<bool>) ensures cf_all(rn, n, mask, am, Set::empty(), 0)
{ reveal(cf_all); assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) implies 0 == lab(part(d, f, Set::empty()), masked(f, mask), am).len() by { assert(lab(part(d, f, Set::empty()), masked(f, mask), am) =~= Set::<Vertex>::empty()); } }
pub proof fn lemma_cf_one(rn: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, n: int, mask: Seq<bool>, am: Seq<bool>, done: Set<VertexBitVec>, kb: VertexBitVec)
    requires bgood(rn, d, f), nbits(d, f, n), !done.contains(kb), rn.dom().contains(kb)
    ensures ({ let g = masked(f, mask); let a = lab(part(d, f, done), g, am); let b = lab(part(d, f, done.insert(kb)), g, am); b.len() == a.len() + (if and(mask, kb@) == am { rn[kb] as int } else { 0 }) && b.len() <= d.len() })
{
    axiom_bk(); reveal(bgood); let g = masked(f, mask); let a = lab(part(d, f, done), g, am); let b = lab(part(d, f, done.insert(kb)), g, am); let l = lab(d, f, kb@);
    assert(bk(kb@) == kb); assert(tb(rn, kb@) == l.len());
    assert forall|x: Vertex| d.contains(x) && bk(f(x)) == kb implies f(x) == kb@ by { assert(bk(f(x))@ == f(x)); }
    vstd::set_lib::lemma_len_subset(b, d);
    if and(mask, kb@) == am { assert(b =~= a.union(l)) by { assert forall|x: Vertex| b.contains(x) <==> a.contains(x) || l.contains(x) by { } } assert(a.disjoint(l)); vstd::set_lib::lemma_set_disjoint_lens(a, l); } else { assert(b =~= a); }
}
pub proof fn lemma_cf_step(rn: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>, am: Seq<bool>, done: Set<VertexBitVec>, res: int, kb: VertexBitVec)
    requires cf_all(rn, n, mask, am, done, res), counted(rn, n), !done.contains(kb), rn.dom().contains(kb)
    ensures ({ let r1 = res + (if and(mask, kb@) == am { rn[kb] as int } else { 0 }); cf_all(rn, n, mask, am, done.insert(kb), r1) && r1 <= usize::MAX })
{
    reveal(cf_all); let r1 = res + (if and(mask, kb@) == am { rn[kb] as int } else { 0 });
    let (d, f) = choose|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) && d.len() <= usize::MAX; lemma_cf_one(rn, d, f, n, mask, am, done, kb);
    assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) implies r1 == lab(part(d, f, done.insert(kb)), masked(f, mask), am).len() by { lemma_cf_one(rn, d, f, n, mask, am, done, kb); }
}
pub proof fn lemma_part_all(rn: Map<VertexBitVec, usize>, d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, n: int)
    requires bgood(rn, d, f), nbits(d, f, n)
    ensures part(d, f, rn.dom()) == d
{ axiom_bk(); reveal(bgood); let e = part(d, f, rn.dom()); assert(e =~= d) by { assert forall|x: Vertex| d.contains(x) implies rn.dom().contains(bk(f(x))) by { let q = bk(f(x)); assert(q@ == f(x)); assert(tb(rn, q@) == lab(d, f, q@).len()); assert(lab(d, f, q@).contains(x)); } } }
pub proof fn lemma_cf_end(rn: Map<VertexBitVec, usize>, n: int, mask: Seq<bool>, am: Seq<bool>, res: int)
    requires cf_all(rn, n, mask, am, rn.dom(), res)
    ensures forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) ==> res == lab(d, masked(f, mask), am).len()
{ reveal(cf_all); assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) implies res == lab(d, masked(f, mask), am).len() by { lemma_part_all(rn, d, f, n); } }
impl SReachContext {
    pub open spec fn c(&self) -> Seq<Vertex> { self.context@ }
    pub open spec fn wf(&self) -> bool { shape(self.context@, self.indices@, self.right_neighbours@) && counted(self.right_neighbours@, self.context@.len() as int) }
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext new
//@ requires context@.len() > 0, context@.no_duplicates()
//@ ensures r.wf(), r.c() == context@, forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| d.len() == 0 ==> #[trigger] bgood(r.right_neighbours@, d, f)
//@ loop 1
    it1_s.len() == context@.len(), forall|i: int| 0 <= i < it1_s.len() ==> #[trigger] it1_s[i] == (i as usize, &context@[i]), numof(context@, it1.pos() as int, indices@),
//@ hint loop1.before
    proof { lemma_numof0(context@); }
//@ hint loop1.start
    let ghost m0 = indices@;
    proof { lemma_numof_step(context@, it1.pos() - 1, m0); }
//@ hint end
    proof {
        let rn = right_neighbours@; let n = context@.len() as int; reveal(numof);
        assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| d.len() == 0 implies #[trigger] bgood(rn, d, f) by { reveal(bgood); assert forall|k: VertexBitVec| tb(rn, #[trigger] k@) == lab(d, f, k@).len() by { lemma_lab_bound(d, f, k@); } }
        let d = Set::<Vertex>::empty(); let f = |x: Vertex| Seq::<bool>::empty(); assert(bgood(rn, d, f)); let l = context.len(); assert(nbits(d, f, n)); assert(counted(rn, n));
        assert forall|x: Vertex| #[trigger] indices@.dom().contains(x) <==> context@.contains(x) by { if context@.contains(x) { let i = choose|i: int| 0 <= i < context@.len() && context@[i] == x; assert(indices@.dom().contains(context@[i])); } }
    }
//@ end
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext to_bitset
//@ local ix ixv
//@ requires self.wf()
//@ ensures r@ == bitsof(self.c(), set@.to_set())
//@ hint loop1.before
    proof { assert(bitvec@ =~= bitsof(self.c(), Set::<Vertex>::empty())); }
//@ loop 1
    it1_s == set@, bitvec@ == bitsof(self.c(), pre(it1_s, it1.pos())),
//@ hint loop1.end
    proof { let p = (it1.pos() - 1) as nat; lemma_pre(it1_s, p); assert(bitvec@ =~= bitsof(self.c(), pre(it1_s, it1.pos()))) by { assert forall|i: int| 0 <= i < self.c().len() && self.c()[i] == *u implies self.indices@[*u] == i by { assert(self.indices@[self.c()[i]] == i); } } }
//@ hint loop1.after
    proof { lemma_pre_ends(it1_s); }
//@ end
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext singleton_bitset
//@ local ix ixv
//@ requires self.wf()
//@ ensures r@ == bitsof(self.c(), Set::<Vertex>::empty().insert(*u))
//@ hint end
    proof { assert(bitvec@ =~= bitsof(self.c(), Set::<Vertex>::empty().insert(*u))) by { assert forall|i: int| 0 <= i < self.c().len() && self.c()[i] == *u implies self.indices@[*u] == i by { assert(self.indices@[self.c()[i]] == i); } } }
//@ end
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext to_vecset
//@ local ix ixv
//@ requires self.wf(), bits@.len() == self.c().len()
//@ ensures r@ == keepb(self.c(), bits@)
//@ loop 1
    ones(bits@, bits@.len() as int, it1_s), onesel(self.c(), bits@, it1_s, it1.pos() as int, res@),
//@ hint loop1.start
    let ghost r0 = res@;
    proof { lemma_ones(bits@, bits@.len() as int, it1_s, it1.pos() - 1); }
//@ hint loop1.end
    proof { lemma_onesel_step(self.c(), bits@, it1_s, it1.pos() - 1, r0); }
//@ hint loop1.after
    proof { lemma_onesel_end(self.c(), bits@, it1_s, res@); }
//@ end
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext insert
//@ requires old(self).wf(), room(old(self).right_neighbours@, old(self).c().len() as int)
//@ ensures final(self).wf(), final(self).context@ == old(self).context@, forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, y: Vertex, g: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(old(self).right_neighbours@, d, f) && nbits(d, f, old(self).c().len() as int) && !d.contains(y) && g(y) == bitsof(old(self).c(), neighs@.to_set()) && (forall|x: Vertex| d.contains(x) ==> #[trigger] g(x) == f(x)) && d.len() < usize::MAX ==> #[trigger] bgood(final(self).right_neighbours@, d.insert(y), g)
//@ hint start
    let ghost rn = self.right_neighbours@; let ghost c = self.context@; let ghost s = bitsof(c, neighs@.to_set()); let ghost n = c.len() as int;
    proof { axiom_bk(); let l = self.context.len(); lemma_room(rn, n, s); }
//@ hint end
    proof {
        axiom_bk(); assert(bk(s)@ == s); let k = bk(s); assert(self.right_neighbours@ == rn.insert(k, (tb(rn, s) + 1) as usize));
        assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, y: Vertex, g: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) && !d.contains(y) && g(y) == s && (forall|x: Vertex| d.contains(x) ==> #[trigger] g(x) == f(x)) && d.len() < usize::MAX implies #[trigger] bgood(self.right_neighbours@, d.insert(y), g) by { lemma_bgood_add(rn, d, f, y, g, k); }
    }
//@ end
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext count_neighbours
//@ requires self.wf()
//@ ensures positive(r@), forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(self.right_neighbours@, d, f) && nbits(d, f, self.c().len() as int) ==> vgood(r@, d, chosen(self.c(), f, bitsof(self.c(), target@.to_set())))
//@ subst mask.clone() & bits => vx_bits_and(mask.clone(), bits)
//@ subst *counts.entry(bits).or_default() += count => *counts.entry(bits).or_default() += *count
//@ unchain vx_res
//@ hint loop1.before
    let ghost rn = self.right_neighbours@; let ghost ord = self.right_neighbours.order(); let ghost c = self.context@; let ghost mk = mask@; let ghost n = c.len() as int;
    proof { let l = self.context.len(); lemma_cn0_all(rn, n, mk); assert(mk == bitsof(c, target@.to_set())); }
//@ loop 1
    rn == self.right_neighbours@, ord == self.right_neighbours.order(), c == self.context@, mk == mask@, mk.len() == n, n == c.len(), counted(rn, n), self.wf(),
    it1_s.len() == ord.len(), lists(ord, rn.dom()), forall|i: int| 0 <= i < ord.len() ==> #[trigger] it1_s[i] == (&ord[i], &rn[ord[i]]),
    cn_all(rn, counts@, n, mk, pre(ord, it1.pos())), forall|b: VertexBitVec| #[trigger] counts@.dom().contains(b) ==> b@.len() == n,
//@ hint loop1.start
    let ghost p = (it1.pos() - 1) as nat; let ghost kb = ord[p as int]; let ghost m0 = counts@;
    proof { assert(*bits == kb && *count == rn[kb]); lemma_pre(ord, p); assert(ord.contains(kb)); let b1 = bk(and(mk, kb@)); axiom_bk(); assert(and(mk, kb@).len() == n); lemma_cn_all(rn, m0, n, mk, pre(ord, p), kb, b1); }
//@ hint loop1.end
    proof { axiom_bk(); let b1 = bk(and(mk, kb@)); assert(counts@ == m0.insert(b1, (tb(m0, b1@) + rn[kb]) as usize)); }
//@ hint loop1.after
    proof { lemma_pre_ends(ord); assert(pre(ord, it1.pos()) =~= rn.dom()); }
    let ghost cm = counts@; let ghost co = counts.order();
//@ hint end
    proof {
        lemma_listed(c, cm, co, vx_res_2.seq(), vx_res);
        let (d, f) = choose|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) && d.len() <= usize::MAX;
        lemma_cn_use(rn, cm, n, mk, rn.dom(), d, f); lemma_positive(rn, cm, part(d, f, rn.dom()), masked(f, mk), c, vx_res@);
        assert forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(rn, d, f) && nbits(d, f, n) implies vgood(vx_res@, d, chosen(c, f, mk)) by { lemma_cn_use(rn, cm, n, mk, rn.dom(), d, f); lemma_cn_end(rn, cm, d, f, mk, c, vx_res@); }
    }
//@ closure 1 |vxp1: (VertexBitVec, usize)| -> (y: (Vec<Vertex>, usize)) requires self.wf(), vxp1.0@.len() == self.c().len() ensures y.0@ == keepb(self.c(), vxp1.0@), y.1 == vxp1.1
//@ end
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext get_sets
//@ requires self.wf()
//@ ensures positive(r@), forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(self.right_neighbours@, d, f) && nbits(d, f, self.c().len() as int) ==> vgood(r@, d, chosen(self.c(), f, bitsof(self.c(), self.c().to_set())))
//@ end
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachContext count_first_intersection
//@ requires self.wf()
//@ ensures forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(self.right_neighbours@, d, f) && nbits(d, f, self.c().len() as int) ==> r == lab(d, masked(f, bitsof(self.c(), target@.to_set())), bitsof(self.c(), Set::<Vertex>::empty().insert(self.c().last()))).len()
//@ subst mask.clone() & bits => vx_bits_and(mask.clone(), bits)
//@ subst res += count => res += *count
//@ hint loop1.before
    let ghost rn = self.right_neighbours@; let ghost ord = self.right_neighbours.order(); let ghost c = self.context@; let ghost mk = mask@; let ghost n = c.len() as int; let ghost am = anchor_mask@;
    proof { let l = self.context.len(); lemma_cf0(rn, n, mk, am); assert(mk == bitsof(c, target@.to_set())); assert(am == bitsof(c, Set::<Vertex>::empty().insert(c.last()))); }
//@ loop 1
    rn == self.right_neighbours@, ord == self.right_neighbours.order(), c == self.context@, mk == mask@, mk.len() == n, n == c.len(), am == anchor_mask@, am.len() == n, counted(rn, n), self.wf(),
    it1_s.len() == ord.len(), lists(ord, rn.dom()), forall|i: int| 0 <= i < ord.len() ==> #[trigger] it1_s[i] == (&ord[i], &rn[ord[i]]),
    cf_all(rn, n, mk, am, pre(ord, it1.pos()), res as int),
//@ hint loop1.start
    let ghost p = (it1.pos() - 1) as nat; let ghost kb = ord[p as int];
    proof { assert(*bits == kb && *count == rn[kb]); lemma_pre(ord, p); assert(ord.contains(kb)); lemma_cf_step(rn, n, mk, am, pre(ord, p), res as int, kb); }
//@ hint loop1.after
    proof { lemma_pre_ends(ord); assert(pre(ord, it1.pos()) =~= rn.dom()); lemma_cf_end(rn, n, mk, am, res as int); }
//@ end
}
// ===================================================================== dialect: slices and vectors as keys
pub trait VxDed : Sized { spec fn dd(&self) -> Seq<Vertex>; fn vx_dedup(&mut self) ensures old(self).dd().no_duplicates() ==> final(self).dd() == old(self).dd(); }
impl VxDed for Vec<Vertex> { open spec fn dd(&self) -> Seq<Vertex> { self@ } #[verifier::external_body] fn vx_dedup(&mut self) { unimplemented!() } }
impl It<u32> { pub fn vx_collect_vec(self) -> (r: Vec<u32>) requires self.pos() == 0 ensures r@ == self.seq() { self.vx_collect() } }
pub trait VxGetSlice<V> { spec fn gs(&self) -> Map<Vec<Vertex>, V>;
    fn vx_get_mut_slice<'a>(&'a mut self, k: &[Vertex]) -> (r: Option<&'a mut V>)
        ensures r.is_some() == old(self).gs().dom().contains(vk(k@)), r.is_some() ==> *r->0 == old(self).gs()[vk(k@)] && final(self).gs() == old(self).gs().insert(vk(k@), *final(r->0)), r.is_none() ==> final(self).gs() == old(self).gs(); }
impl<V> VxGetSlice<V> for FxHashMap<Vec<Vertex>, V> { open spec fn gs(&self) -> Map<Vec<Vertex>, V> { self@ }
    #[verifier::external_body]
    fn vx_get_mut_slice<'a>(&'a mut self, k: &[Vertex]) -> (r: Option<&'a mut V>) { unimplemented!() } }
pub trait VxUnwrap<T> : Sized { spec fn uw(self) -> Option<T>; fn vx_unwrap_unchecked(self) -> (r: T) requires self.uw().is_some() ensures r == self.uw()->0; }
impl<T> VxUnwrap<T> for Option<T> { open spec fn uw(self) -> Option<T> { self } fn vx_unwrap_unchecked(self) -> (r: T) { self.unwrap() } }
pub trait VxIsSorted<T> { spec fn iss(&self) -> Seq<T>;
    fn vx_is_sorted_by_key<K: VxKey, F: Fn(&T) -> K>(&self, f: F) -> (r: bool)
        requires forall|i: int| 0 <= i < self.iss().len() ==> #[trigger] f.requires((&self.iss()[i],))
        ensures (forall|i: int, j: int, a: K, b: K| 0 <= i < j < self.iss().len() && #[trigger] f.ensures((&self.iss()[i],), a) && #[trigger] f.ensures((&self.iss()[j],), b) ==> a.kle(b)) ==> r; }
impl<T> VxIsSorted<T> for [T] { open spec fn iss(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_is_sorted_by_key<K: VxKey, F: Fn(&T) -> K>(&self, f: F) -> (r: bool) { unimplemented!() } }
impl<T> VxIsSorted<T> for Vec<T> { open spec fn iss(&self) -> Seq<T> { self@ } #[verifier::external_body] fn vx_is_sorted_by_key<K: VxKey, F: Fn(&T) -> K>(&self, f: F) -> (r: bool) { unimplemented!() } }
pub trait VxSlHas { spec fn shas(&self) -> Seq<Vertex>; fn vx_has(&self, x: &Vertex) -> (r: bool) ensures r == self.shas().contains(*x); }
impl VxSlHas for [Vertex] { open spec fn shas(&self) -> Seq<Vertex> { self@ } #[verifier::external_body] fn vx_has(&self, x: &Vertex) -> (r: bool) { unimplemented!() } }
// ===================================================================== oracle
//@ struct datastructures/sreach_trace_oracle.rs SReachTraceOracle
/// earlier neighbours, all neighbours, earlier neighbours up to a
pub open spec fn en(g: DegenGraph, x: Vertex) -> Set<Vertex> { g.lseq(x).to_set() }
pub open spec fn nb(g: DegenGraph, x: Vertex) -> Set<Vertex> { g.nseq(x).to_set() }
pub open spec fn upto(g: DegenGraph, x: Vertex, a: Vertex) -> Set<Vertex> { en(g, x).filter(|y: Vertex| ix(g.vseq(), y) <= ix(g.vseq(), a)) }
/// those with earlier neighbour a
pub open spec fn rights(g: DegenGraph, a: Vertex, s: Set<Vertex>) -> Set<Vertex> { s.filter(|x: Vertex| en(g, x).contains(a)) }
pub open spec fn blab(g: DegenGraph, a: Vertex, c: Seq<Vertex>) -> spec_fn(Vertex) -> Seq<bool> { |x: Vertex| bitsof(c, upto(g, x, a)) }
/// c lists a and what is strongly reachable from it in two steps, in order
#[verifier::opaque]
pub open spec fn ctx_for(g: DegenGraph, a: Vertex, c: Seq<Vertex>) -> bool { sorted_in(g.vseq(), c) && c.no_duplicates() && c.len() > 0 && c.last() == a && forall|w: Vertex| #[trigger] c.contains(w) <==> w == a || sball(g, a, 2, w) }
#[verifier::opaque]
pub open spec fn ctx_ok(g: DegenGraph, a: Vertex, x: SReachContext, d: Set<Vertex>) -> bool { x.wf() && ctx_for(g, a, x.context@) && bgood(x.right_neighbours@, d, blab(g, a, x.context@)) }
pub open spec fn cx(m: Map<Vertex, SReachContext>, a: Vertex) -> SReachContext { m[a] }
/// every context has counted the vertices of `done`, and x for the anchors in s
#[verifier::opaque]
pub open spec fn all_ok(g: DegenGraph, m: Map<Vertex, SReachContext>, done: Set<Vertex>, x: Vertex, s: Set<Vertex>) -> bool { m.dom() == g.vs() && forall|a: Vertex| g.vs().contains(a) ==> ctx_ok(g, a, #[trigger] cx(m, a), rights_x(g, a, done, x, s)) }
pub open spec fn rights_x(g: DegenGraph, a: Vertex, done: Set<Vertex>, x: Vertex, s: Set<Vertex>) -> Set<Vertex> { if s.contains(a) { rights(g, a, done).insert(x) } else { rights(g, a, done) } }
#[verifier::opaque]
pub open spec fn fresh(g: DegenGraph, m: Map<Vertex, SReachContext>) -> bool { forall|a: Vertex| m.dom().contains(a) ==> ctx_ok(g, a, #[trigger] cx(m, a), Set::empty()) }
pub proof fn lemma_en(g: DegenGraph, x: Vertex)
    requires g.wf(), g.vs().contains(x)
    ensures forall|y: Vertex| #[trigger] en(g, x).contains(y) <==> g.adj(x, y) && ix(g.vseq(), y) < ix(g.vseq(), x), forall|y: Vertex| #[trigger] nb(g, x).contains(y) <==> g.adj(x, y), en(g, x).subset_of(g.vs()), g.lseq(x).no_duplicates(), sorted_in(g.vseq(), g.lseq(x)),
        forall|y: Vertex| #[trigger] g.lseq(x).contains(y) <==> en(g, x).contains(y)
{ g.lemma_lin(); g.lemma_wf(); assert forall|y: Vertex| #[trigger] en(g, x).contains(y) <==> g.adj(x, y) && ix(g.vseq(), y) < ix(g.vseq(), x) by { assert(en(g, x).contains(y) <==> g.lseq(x).contains(y)); }
  assert forall|y: Vertex| #[trigger] nb(g, x).contains(y) <==> g.adj(x, y) by { assert(nb(g, x).contains(y) <==> g.nseq(x).contains(y)); } }
pub proof fn lemma_fresh_step(g: DegenGraph, m: Map<Vertex, SReachContext>, a: Vertex, c: Seq<Vertex>, x: SReachContext)
    requires fresh(g, m), ctx_for(g, a, c), x.wf(), x.context@ == c, forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>| d.len() == 0 ==> #[trigger] bgood(x.right_neighbours@, d, f)
    ensures fresh(g, m.insert(a, x))
{ reveal(fresh); reveal(ctx_ok); let d = Set::<Vertex>::empty(); assert(bgood(x.right_neighbours@, d, blab(g, a, c))); let m1 = m.insert(a, x);
  assert forall|b: Vertex| m1.dom().contains(b) implies ctx_ok(g, b, #[trigger] cx(m1, b), Set::empty()) by { if b != a { assert(cx(m1, b) == cx(m, b)); } } }
pub proof fn lemma_fresh_end(g: DegenGraph, m: Map<Vertex, SReachContext>, x: Vertex)
    requires fresh(g, m), m.dom() == g.vs()
    ensures all_ok(g, m, Set::empty(), x, Set::empty())
{ reveal(fresh); reveal(all_ok); assert forall|a: Vertex| g.vs().contains(a) implies ctx_ok(g, a, #[trigger] cx(m, a), rights_x(g, a, Set::empty(), x, Set::empty())) by { assert(rights(g, a, Set::empty()) =~= Set::<Vertex>::empty()); } }
pub open spec fn sorted_iof(g: DegenGraph, s: Seq<Vertex>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> g.iof(s[i]) <= g.iof(s[j]) }
pub proof fn lemma_sorted_iof(g: DegenGraph, s: Seq<Vertex>)
    requires g.wf(), s.no_duplicates(), s.to_set().subset_of(g.vs()), sorted_iof(g, s)
    ensures sorted_in(g.vseq(), s)
{ g.lemma_lin(); lemma_ix(g.vseq()); reveal(sorted_in); let o = g.vseq(); assert forall|i: int, j: int| 0 <= i < j < s.len() implies ix(o, s[i]) < ix(o, s[j]) by { let a = s[i]; let b = s[j]; assert(s.to_set().contains(a) && s.to_set().contains(b)); assert(g.iof(a) <= g.iof(b)); lemma_iof(g, a, b); lemma_iof(g, b, a); assert(o.contains(a) && o.contains(b)); } }
pub open spec fn skeys(g: DegenGraph, a: Vertex, keys: Seq<Vertex>) -> bool { exists|m: Map<Vertex, u32>| #[trigger] is_sreach(g, a, 2, m) && lists(keys, m.dom()) }
pub proof fn lemma_ctx_in(g: DegenGraph, a: Vertex, keys: Seq<Vertex>)
    requires g.wf(), g.vs().contains(a), skeys(g, a, keys)
    ensures forall|x: Vertex| #[trigger] keys.contains(x) ==> g.vs().contains(x), forall|i: int| 0 <= i < keys.push(a).len() ==> g.vs().contains(#[trigger] keys.push(a)[i])
{ g.lemma_wf(); reveal(is_sreach); let m = choose|m: Map<Vertex, u32>| #[trigger] is_sreach(g, a, 2, m) && lists(keys, m.dom()); assert forall|w: Vertex| #[trigger] keys.contains(w) implies g.vs().contains(w) by { assert(m.dom().contains(w)); let y = choose|y: Vertex| rball(g, a, 1, y) && #[trigger] g.adj(y, w); }
  let t = keys.push(a); assert forall|i: int| 0 <= i < t.len() implies g.vs().contains(#[trigger] t[i]) by { if i < keys.len() { assert(t[i] == keys[i] && keys.contains(keys[i])); } } }
/// the sorted list of a and its strongly reachable vertices is a context
pub proof fn lemma_ctx_for(g: DegenGraph, a: Vertex, keys: Seq<Vertex>, s: Seq<Vertex>)
    requires g.wf(), g.vs().contains(a), skeys(g, a, keys), perm(s, keys.push(a)), sorted_iof(g, s)
    ensures ctx_for(g, a, s)
{
    let m = choose|m: Map<Vertex, u32>| #[trigger] is_sreach(g, a, 2, m) && lists(keys, m.dom());
    reveal(is_sreach); reveal(ctx_for); g.lemma_wf(); g.lemma_lin(); lemma_ix(g.vseq()); let o = g.vseq(); let t = keys.push(a);
    assert forall|w: Vertex| #[trigger] s.contains(w) <==> w == a || sball(g, a, 2, w) by { lemma_push_has(keys, a, w); assert(t.contains(w) <==> s.contains(w)); assert(keys.contains(w) <==> m.dom().contains(w)); }
    assert(!keys.contains(a)) by { if keys.contains(a) { assert(m.dom().contains(a)); assert(sball(g, a, 2, a)); } }
    assert(t.no_duplicates()) by { assert forall|i: int, j: int| 0 <= i < t.len() && 0 <= j < t.len() && i != j implies t[i] != t[j] by { if i < keys.len() && j < keys.len() { } else if i < keys.len() { assert(t[i] == keys[i] && keys.contains(keys[i])); } else { assert(t[j] == keys[j] && keys.contains(keys[j])); } } }
    assert(s.to_set().subset_of(g.vs())) by { assert forall|w: Vertex| s.to_set().contains(w) implies g.vs().contains(w) by { assert(s.contains(w)); if w != a { let y = choose|y: Vertex| rball(g, a, 1, y) && #[trigger] g.adj(y, w); } } }
    lemma_sorted_iof(g, s);
    assert(t[keys.len() as int] == a); assert(t.contains(a)); assert(s.contains(a)); let i = choose|i: int| 0 <= i < s.len() && s[i] == a; let n = s.len() - 1;
    assert(s.last() == a) by { if i < n { reveal(sorted_in); assert(ix(o, s[i]) < ix(o, s[n])); assert(s.contains(s[n])); assert(sball(g, a, 2, s[n])); } }
}
pub proof fn lemma_prefix(g: DegenGraph, x: Vertex, i: int)
    requires g.wf(), g.vs().contains(x), 0 < i <= g.lseq(x).len()
    ensures g.lseq(x).take(i).to_set() == upto(g, x, g.lseq(x)[i - 1]), en(g, x).contains(g.lseq(x)[i - 1])
{
    lemma_en(g, x); let n = g.lseq(x); let a = n[i - 1]; let o = g.vseq(); g.lemma_lin(); lemma_ix(o); reveal(sorted_in); assert(n.contains(a)); let p = n.take(i);
    assert(p.to_set() =~= upto(g, x, a)) by { assert forall|y: Vertex| p.to_set().contains(y) <==> upto(g, x, a).contains(y) by {
        if p.to_set().contains(y) { assert(p.contains(y)); let k = choose|k: int| 0 <= k < i && p[k] == y; assert(n[k] == y && n.contains(y)); if k < i - 1 { assert(ix(o, n[k]) < ix(o, n[i - 1])); } }
        if upto(g, x, a).contains(y) { assert(n.contains(y)); let k = choose|k: int| 0 <= k < n.len() && n[k] == y; if k > i - 1 { assert(ix(o, n[i - 1]) < ix(o, n[k])); } assert(p[k] == y); assert(p.contains(y)); }
    } }
}
/// before context a is updated
pub proof fn lemma_ctx_room(g: DegenGraph, m: Map<Vertex, SReachContext>, done: Set<Vertex>, x: Vertex, s: Set<Vertex>, a: Vertex)
    requires g.wf(), all_ok(g, m, done, x, s), done.subset_of(g.vs()), !done.contains(x), g.vs().contains(a), !s.contains(a)
    ensures m.dom().contains(a), cx(m, a).wf(), room(cx(m, a).right_neighbours@, cx(m, a).context@.len() as int)
{
    reveal(all_ok); reveal(ctx_ok); g.lemma_wf(); let k = cx(m, a); let d = rights(g, a, done); let f = blab(g, a, k.context@); let l = k.context.len();
    assert(ctx_ok(g, a, k, rights_x(g, a, done, x, s))); assert(bgood(k.right_neighbours@, d, f)); assert(nbits(d, f, k.context@.len() as int)); vstd::set_lib::lemma_len_subset(d, g.vs()); assert(!d.contains(x));
}
pub proof fn lemma_ctx_step(g: DegenGraph, m: Map<Vertex, SReachContext>, m1: Map<Vertex, SReachContext>, done: Set<Vertex>, x: Vertex, s: Set<Vertex>, a: Vertex, neighs: Set<Vertex>)
    requires g.wf(), all_ok(g, m, done, x, s), done.subset_of(g.vs()), !done.contains(x), g.vs().contains(a), !s.contains(a), neighs == upto(g, x, a), m1 == m.insert(a, m1[a]),
        cx(m1, a).wf(), cx(m1, a).context@ == cx(m, a).context@,
        forall|d: Set<Vertex>, f: spec_fn(Vertex) -> Seq<bool>, y: Vertex, h: spec_fn(Vertex) -> Seq<bool>| #[trigger] bgood(cx(m, a).right_neighbours@, d, f) && nbits(d, f, cx(m, a).context@.len() as int) && !d.contains(y) && h(y) == bitsof(cx(m, a).context@, neighs) && (forall|z: Vertex| d.contains(z) ==> #[trigger] h(z) == f(z)) && d.len() < usize::MAX ==> #[trigger] bgood(cx(m1, a).right_neighbours@, d.insert(y), h)
    ensures all_ok(g, m1, done, x, s.insert(a))
{
    reveal(all_ok); reveal(ctx_ok); g.lemma_wf(); let k = cx(m, a); let d = rights(g, a, done); let f = blab(g, a, k.context@); let l = k.context.len();
    assert(ctx_ok(g, a, k, rights_x(g, a, done, x, s))); assert(bgood(k.right_neighbours@, d, f)); assert(nbits(d, f, k.context@.len() as int)); vstd::set_lib::lemma_len_subset(d, g.vs()); assert(!d.contains(x));
    assert(f(x) == bitsof(k.context@, neighs)); assert(bgood(cx(m1, a).right_neighbours@, d.insert(x), f));
    assert forall|b: Vertex| g.vs().contains(b) implies ctx_ok(g, b, #[trigger] cx(m1, b), rights_x(g, b, done, x, s.insert(a))) by { if b != a { assert(cx(m1, b) == cx(m, b)); assert(rights_x(g, b, done, x, s.insert(a)) == rights_x(g, b, done, x, s)); } else { assert(rights_x(g, a, done, x, s.insert(a)) == d.insert(x)); } }
    assert(m1.dom() =~= m.dom());
}
pub proof fn lemma_ctx_done(g: DegenGraph, m: Map<Vertex, SReachContext>, done: Set<Vertex>, x: Vertex, y: Vertex)
    requires g.wf(), all_ok(g, m, done, x, en(g, x))
    ensures all_ok(g, m, done.insert(x), y, Set::empty())
{ reveal(all_ok); assert forall|a: Vertex| g.vs().contains(a) implies ctx_ok(g, a, #[trigger] cx(m, a), rights_x(g, a, done.insert(x), y, Set::empty())) by { assert(rights(g, a, done.insert(x)) =~= rights_x(g, a, done, x, en(g, x))); } }
pub proof fn lemma_ctx_any(g: DegenGraph, m: Map<Vertex, SReachContext>, done: Set<Vertex>, x: Vertex, y: Vertex)
    requires all_ok(g, m, done, x, Set::empty())
    ensures all_ok(g, m, done, y, Set::empty())
{ reveal(all_ok); assert forall|a: Vertex| g.vs().contains(a) implies ctx_ok(g, a, #[trigger] cx(m, a), rights_x(g, a, done, y, Set::empty())) by { assert(rights_x(g, a, done, y, Set::empty()) == rights_x(g, a, done, x, Set::empty())); } }
impl SReachTraceOracle {
    /// the oracle holds, for every vertex a, the counts of all later vertices adjacent to a by their neighbours up to a
    pub open spec fn ok(&self, g: DegenGraph) -> bool { all_ok(g, self.contexts@, g.vs(), 0, Set::empty()) }
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachTraceOracle for_graph
//@ requires graph.wf()
//@ ensures r.ok(*graph)
//@ hint start
    proof { graph.lemma_wf(); graph.lemma_lin(); reveal(fresh); }
//@ loop 1
    it1_s == graph.vseq(), contexts@.dom() == pre(it1_s, it1.pos()), fresh(*graph, contexts@),
//@ hint loop1.start
    let ghost m0 = contexts@; let ghost p = (it1.pos() - 1) as nat;
    proof { lemma_pre(it1_s, p); assert(graph.vseq().contains(*x)); }
//@ hint after let S 1
    let ghost keys = S@;
//@ hint before call sort_by_key 1
    proof { lemma_ctx_in(*graph, *x, keys); }
//@ hint after call sort_by_key 1
    proof { lemma_ctx_for(*graph, *x, keys, S@); reveal(ctx_for); }
//@ hint loop1.end
    proof { lemma_fresh_step(*graph, m0, *x, cx(contexts@, *x).context@, cx(contexts@, *x)); assert(contexts@ == m0.insert(*x, cx(contexts@, *x))); }
//@ hint loop1.after
    proof { lemma_pre_ends(it1_s); assert(contexts@.dom() =~= graph.vs()); lemma_fresh_end(*graph, contexts@, 0); }
//@ closure 1 |x: &Vertex| -> (y: usize) requires graph.wf(), graph.vs().contains(*x) ensures y == graph.iof(*x)
//@ loop 2
    it2_s == graph.vseq(), all_ok(*graph, contexts@, pre(it2_s, it2.pos()), 0, Set::empty()),
//@ hint loop2.start
    let ghost p = (it2.pos() - 1) as nat; let ghost done = pre(it2_s, p);
    proof { lemma_pre(it2_s, p); assert(graph.vseq().contains(*x)); lemma_ctx_any(*graph, contexts@, done, 0, *x); lemma_en(*graph, *x); }
//@ closure 2 |x: &Vertex| -> (y: usize) requires graph.wf(), graph.vs().contains(*x) ensures y == graph.iof(*x)
//@ hint after call sort_by_key 2
    proof { assert(sorted_iof(*graph, N@)); lemma_sorted_iof(*graph, N@); lemma_sorted_unique(graph.vseq(), N@, graph.lseq(*x)); }
//@ loop 3
    N@ == graph.lseq(*x), it3_s.len() == N@.len(), forall|k: int| 0 <= k < it3_s.len() ==> #[trigger] it3_s[k] == k + 1, all_ok(*graph, contexts@, done, *x, N@.take(it3.pos() as int).to_set()),
//@ hint loop3.before
    proof { assert(N@.take(0).to_set() =~= Set::<Vertex>::empty()); }
//@ hint loop3.start
    let ghost m1 = contexts@; let ghost q = it3.pos() - 1; let ghost s0 = N@.take(q).to_set(); let ghost a = N@[q];
    proof { lemma_prefix(*graph, *x, q + 1); lemma_take_has(N@, q); lemma_ctx_room(*graph, m1, done, *x, s0, a); }
//@ hint loop3.end
    proof { assert(contexts@.dom().contains(a)); assert(contexts@[a].wf()); assert(contexts@[a].context@ == m1[a].context@); assert(contexts@ == m1.insert(a, contexts@[a])); lemma_ctx_step(*graph, m1, contexts@, done, *x, s0, a, N@.take(q + 1).to_set()); }
//@ hint loop3.after
    proof { assert(N@.take(N@.len() as int) =~= N@); lemma_ctx_done(*graph, contexts@, done, *x, 0); }
//@ hint loop2.after
    proof { lemma_pre_ends(it2_s); assert(pre(it2_s, it2.pos()) =~= graph.vs()); }
//@ end
}
pub proof fn lemma_take_has(s: Seq<Vertex>, q: int)
    requires 0 <= q < s.len(), s.no_duplicates()
    ensures s.take(q + 1).to_set() == s.take(q).to_set().insert(s[q]), !s.take(q).to_set().contains(s[q])
{
    let a = s.take(q); let b = s.take(q + 1); assert(b =~= a.push(s[q]));
    assert(b.to_set() =~= a.to_set().insert(s[q])) by { assert forall|x: Vertex| b.to_set().contains(x) <==> a.to_set().insert(s[q]).contains(x) by { lemma_push_has(a, s[q], x); } }
    if a.to_set().contains(s[q]) { assert(a.contains(s[q])); let k = choose|k: int| 0 <= k < q && a[k] == s[q]; assert(s[k] == s[q]); }
}

// ===================================================================== queries
pub open spec fn query(g: DegenGraph, q: Seq<Vertex>) -> bool { sorted_in(g.vseq(), q) && q.no_duplicates() && q.to_set().subset_of(g.vs()) && q.len() <= usize::MAX }
/// s lists some of q, in order
pub open spec fn sublist(g: DegenGraph, q: Seq<Vertex>, s: Seq<Vertex>) -> bool { sorted_in(g.vseq(), s) && s.no_duplicates() && s.to_set().subset_of(q.to_set()) }
#[verifier::opaque]
pub open spec fn okkeys(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>) -> bool { forall|k: Vec<Vertex>| #[trigger] m.dom().contains(k) ==> sublist(g, q, k@) }
pub open spec fn trf(g: DegenGraph, q: Seq<Vertex>) -> spec_fn(Vertex) -> Seq<Vertex> { |x: Vertex| keep(q, en(g, x)) }
pub open spec fn mixf(g: DegenGraph, q: Seq<Vertex>, d: Set<Vec<Vertex>>) -> spec_fn(Vertex) -> Seq<Vertex> { |x: Vertex| if en(g, x).contains(q.last()) && d.contains(vk(keep(q, en(g, x)))) { keep(q, en(g, x)) } else { keep(q.drop_last(), en(g, x)) } }
pub proof fn lemma_query_take(g: DegenGraph, q: Seq<Vertex>, i: int)
    requires query(g, q), 0 <= i <= q.len()
    ensures query(g, q.take(i)), forall|x: Vertex| q.take(i).contains(x) ==> q.contains(x)
{ let t = q.take(i); lemma_sorted_take(g.vseq(), q, i); assert forall|x: Vertex| t.contains(x) implies q.contains(x) by { let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(q[k] == x); }
  assert forall|x: Vertex| t.to_set().contains(x) implies g.vs().contains(x) by { assert(t.contains(x)); assert(q.to_set().contains(x)); } }
pub proof fn lemma_sorted_nodup(g: DegenGraph, s: Seq<Vertex>)
    requires sorted_in(g.vseq(), s)
    ensures s.no_duplicates()
{ reveal(sorted_in); assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && i != j implies s[i] != s[j] by { if i < j { assert(ix(g.vseq(), s[i]) < ix(g.vseq(), s[j])); } else { assert(ix(g.vseq(), s[j]) < ix(g.vseq(), s[i])); } } }
pub proof fn lemma_keep_sub(g: DegenGraph, q: Seq<Vertex>, s: Set<Vertex>)
    requires query(g, q)
    ensures sublist(g, q, keep(q, s)), keep(q, s).len() <= usize::MAX
{ lemma_keep(q, s); lemma_keep_sorted(g.vseq(), q, s); let k = keep(q, s); lemma_sorted_nodup(g, k); assert forall|x: Vertex| k.to_set().contains(x) implies q.to_set().contains(x) by { assert(k.contains(x)); } }
pub proof fn lemma_ctx_use(g: DegenGraph, m: Map<Vertex, SReachContext>, a: Vertex)
    requires g.wf(), all_ok(g, m, g.vs(), 0, Set::empty()), g.vs().contains(a)
    ensures m.dom().contains(a), m[a].wf(), ctx_for(g, a, m[a].context@), bgood(m[a].right_neighbours@, rights(g, a, g.vs()), blab(g, a, m[a].context@)), nbits(rights(g, a, g.vs()), blab(g, a, m[a].context@), m[a].context@.len() as int)
{ reveal(all_ok); reveal(ctx_ok); let k = cx(m, a); let l = k.context.len(); assert(ctx_ok(g, a, k, rights_x(g, a, g.vs(), 0, Set::empty()))); }
/// an earlier neighbour in q of a vertex right of a = q.last() is in the context of a
pub proof fn lemma_in_ctx(g: DegenGraph, q: Seq<Vertex>, c: Seq<Vertex>, x: Vertex, w: Vertex)
    requires g.wf(), query(g, q), q.len() > 0, ctx_for(g, q.last(), c), g.vs().contains(x), en(g, x).contains(q.last()), q.contains(w), en(g, x).contains(w)
    ensures c.contains(w), upto(g, x, q.last()).contains(w)
{
    reveal(ctx_for); reveal(sorted_in); let a = q.last(); let o = g.vseq(); lemma_en(g, x); g.lemma_wf(); let k = choose|k: int| 0 <= k < q.len() && q[k] == w; let n = q.len() - 1;
    if k < n { assert(ix(o, q[k]) < ix(o, q[n])); assert(g.adj(a, x)); assert(g.vs().contains(a)); assert(rball(g, a, 0, a)); assert(rball(g, a, 1, x)); assert(g.adj(x, w)); assert(sball(g, a, 2, w)); }
}
pub proof fn lemma_round(g: DegenGraph, q: Seq<Vertex>, c: Seq<Vertex>, x: Vertex)
    requires g.wf(), query(g, q), q.len() > 0, ctx_for(g, q.last(), c), g.vs().contains(x), en(g, x).contains(q.last())
    ensures chosen(c, blab(g, q.last(), c), bitsof(c, q.to_set()))(x) == keep(q, en(g, x))
{
    let a = q.last(); let u = upto(g, x, a); let s = q.to_set().intersect(u); let b = and(bitsof(c, q.to_set()), bitsof(c, u)); let o = g.vseq();
    lemma_keepb_eq(c, b, s); lemma_keep(c, s); lemma_keep(q, en(g, x)); let l = keep(c, s); let r = keep(q, en(g, x));
    assert(sorted_in(o, c)) by { reveal(ctx_for); } lemma_keep_sorted(o, c, s); lemma_keep_sorted(o, q, en(g, x)); lemma_sorted_nodup(g, l); lemma_sorted_nodup(g, r);
    assert forall|w: Vertex| #[trigger] l.contains(w) <==> r.contains(w) by { if r.contains(w) { lemma_in_ctx(g, q, c, x, w); } if l.contains(w) { assert(q.contains(w)); } }
    lemma_sorted_unique(o, l, r);
}
pub proof fn lemma_counts(g: DegenGraph, q: Seq<Vertex>, c: Seq<Vertex>, counts: Map<Vec<Vertex>, usize>)
    requires g.wf(), query(g, q), q.len() > 0, ctx_for(g, q.last(), c), vgood(counts, rights(g, q.last(), g.vs()), chosen(c, blab(g, q.last(), c), bitsof(c, q.to_set())))
    ensures vgood(counts, rights(g, q.last(), g.vs()), trf(g, q))
{ let f = chosen(c, blab(g, q.last(), c), bitsof(c, q.to_set())); let h = trf(g, q); let d = rights(g, q.last(), g.vs()); assert forall|x: Vertex| d.contains(x) implies #[trigger] f(x) == h(x) by { lemma_round(g, q, c, x); } lemma_vgood_ext(counts, d, f, h); }
pub proof fn lemma_mix0(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>)
    requires vgood(m, g.vs(), trf(g, q.drop_last())), q.len() > 0
    ensures vgood(m, g.vs(), mixf(g, q, Set::empty()))
{ let f = trf(g, q.drop_last()); let h = mixf(g, q, Set::empty()); assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] f(x) == h(x) by { } lemma_vgood_ext(m, g.vs(), f, h); }
pub proof fn lemma_mix_end(g: DegenGraph, m: Map<Vec<Vertex>, usize>, counts: Map<Vec<Vertex>, usize>, q: Seq<Vertex>)
    requires query(g, q), vgood(m, g.vs(), mixf(g, q, counts.dom())), q.len() > 0, vgood(counts, rights(g, q.last(), g.vs()), trf(g, q))
    ensures vgood(m, g.vs(), trf(g, q))
{
    let f = mixf(g, q, counts.dom()); let h = trf(g, q); let d = rights(g, q.last(), g.vs()); axiom_vk();
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] f(x) == h(x) by { if d.contains(x) { reveal(vgood); let s = keep(q, en(g, x)); lemma_keep_sub(g, q, en(g, x)); let k = vk(s); assert(k@ == s); assert(tv(counts, k@) == lab(d, h, k@).len()); assert(lab(d, h, k@).contains(x)); } }
    lemma_vgood_ext(m, g.vs(), f, h);
}
/// the vertices counted under key set in the round of q
pub proof fn lemma_set_vs(g: DegenGraph, counts: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, set: Vec<Vertex>)
    requires query(g, q), q.len() > 0, vgood(counts, rights(g, q.last(), g.vs()), trf(g, q)), positive(counts), counts.dom().contains(set)
    ensures lab(rights(g, q.last(), g.vs()), trf(g, q), set@).len() == counts[set], counts[set] > 0, set@.len() > 0, set@.last() == q.last(), sublist(g, q, set@),
        forall|x: Vertex| #[trigger] lab(rights(g, q.last(), g.vs()), trf(g, q), set@).contains(x) ==> keep(q.drop_last(), en(g, x)) == set@.drop_last()
{
    reveal(vgood); reveal(positive); axiom_vk(); let mm = lab(rights(g, q.last(), g.vs()), trf(g, q), set@); assert(vk(set@) == set); assert(tv(counts, set@) == mm.len());
    let y = choose|y: Vertex| mm.contains(y); assert(mm.contains(y)) by { if forall|y: Vertex| !mm.contains(y) { assert(mm =~= Set::<Vertex>::empty()); } } lemma_keep_sub(g, q, en(g, y));
    assert forall|x: Vertex| #[trigger] mm.contains(x) implies keep(q.drop_last(), en(g, x)) == set@.drop_last() by { let r = keep(q.drop_last(), en(g, x)); assert(set@ == r.push(q.last())); assert(set@.drop_last() =~= r); }
}
pub proof fn lemma_set_step(g: DegenGraph, m: Map<Vec<Vertex>, usize>, counts: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, d: Set<Vec<Vertex>>, set: Vec<Vertex>)
    requires g.wf(), query(g, q), q.len() > 0, vgood(m, g.vs(), mixf(g, q, d)), vgood(counts, rights(g, q.last(), g.vs()), trf(g, q)), positive(counts), counts.dom().contains(set), !d.contains(set)
    ensures ({
        let p = vk(set@.drop_last()); let m1 = m.insert(set, (tv(m, set@) + counts[set]) as usize);
        set@.len() > 0 && sublist(g, q, set@) && tv(m, set@) + counts[set] <= usize::MAX && p != set && p@ == set@.drop_last() && m.dom().contains(p) && m[p] >= counts[set] && vgood(m1.insert(p, (m[p] - counts[set]) as usize), g.vs(), mixf(g, q, d.insert(set)))
    })
{
    lemma_set_vs(g, counts, q, set); axiom_vk(); g.lemma_wf(); let l = set.len();
    let s1 = set@; let s0 = s1.drop_last(); let p = vk(s0); assert(p@ == s0); let c = counts[set] as int; let m1 = m.insert(set, (tv(m, s1) + c) as usize); let m2 = m1.insert(p, (m[p] - c) as usize);
    let f = mixf(g, q, d); let h = mixf(g, q, d.insert(set)); let mm = lab(rights(g, q.last(), g.vs()), trf(g, q), s1); assert(vk(s1) == set);
    assert(mm.subset_of(lab(g.vs(), f, s0)));
    assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] h(x) == (if mm.contains(x) { s1 } else { f(x) }) by { lemma_keep_sub(g, q, en(g, x)); assert(vk(keep(q, en(g, x)))@ == keep(q, en(g, x))); }
    assert forall|k: Vec<Vertex>| lab(g.vs(), h, #[trigger] k@).len() == lab(g.vs(), f, k@).len() + (if k@ == s1 { mm.len() as int } else { 0 }) - (if k@ == s0 { mm.len() as int } else { 0 }) by { lemma_lab_move(g.vs(), f, h, mm, s0, s1, k@); }
    lemma_lab_bound(g.vs(), h, s1); vstd::set_lib::lemma_len_subset(mm, lab(g.vs(), f, s0));
    reveal(vgood); assert(tv(m, set@) == lab(g.vs(), f, set@).len()); assert(tv(m, p@) == lab(g.vs(), f, p@).len()); assert(set@ != p@);
    assert(lab(g.vs(), h, set@).len() == tv(m, set@) + c);
    assert forall|k: Vec<Vertex>| tv(m2, #[trigger] k@) == lab(g.vs(), h, k@).len() by { assert(vk(k@) == k); assert(tv(m, k@) == lab(g.vs(), f, k@).len()); if k@ == s1 { assert(k == set); } if k@ == s0 { assert(k == p); } }
}
pub proof fn lemma_okkeys_add(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, k: Vec<Vertex>, n: usize)
    requires okkeys(g, m, q), sublist(g, q, k@) || m.dom().contains(k)
    ensures okkeys(g, m.insert(k, n), q)
{ reveal(okkeys); }
pub proof fn lemma_sublist_take(g: DegenGraph, q: Seq<Vertex>, i: int, s: Seq<Vertex>)
    requires 0 <= i <= q.len(), sublist(g, q.take(i), s)
    ensures sublist(g, q, s)
{ let t = q.take(i); assert forall|x: Vertex| s.to_set().contains(x) implies q.to_set().contains(x) by { assert(t.to_set().contains(x)); assert(t.contains(x)); let k = choose|k: int| 0 <= k < t.len() && t[k] == x; assert(q[k] == x); assert(q.contains(x)); } }
pub proof fn lemma_iof_sorted(g: DegenGraph, q: Seq<Vertex>, s: Seq<Vertex>)
    requires g.wf(), sublist(g, q, s), query(g, q)
    ensures sorted_iof(g, s), forall|i: int| 0 <= i < s.len() ==> g.vs().contains(#[trigger] s[i])
{ reveal(sorted_in); assert forall|i: int| 0 <= i < s.len() implies g.vs().contains(#[trigger] s[i]) by { assert(s.contains(s[i])); assert(s.to_set().contains(s[i])); assert(q.to_set().contains(s[i])); }
  assert forall|i: int, j: int| 0 <= i < j < s.len() implies g.iof(s[i]) <= g.iof(s[j]) by { lemma_iof(g, s[i], s[j]); assert(ix(g.vseq(), s[i]) < ix(g.vseq(), s[j])); } }
// --------------------------------------------------------------------- second phase: vertices left of the query
#[verifier::opaque]
pub open spec fn is_left(g: DegenGraph, q: Seq<Vertex>, l: Set<Vertex>) -> bool { forall|y: Vertex| #[trigger] l.contains(y) <==> q.contains(y) || exists|u: Vertex| q.contains(u) && #[trigger] en(g, u).contains(y) }
pub proof fn lemma_left0(g: DegenGraph, q: Seq<Vertex>) ensures is_left(g, q.take(0), Set::empty()) { reveal(is_left); }
pub proof fn lemma_left_step(g: DegenGraph, q: Seq<Vertex>, p: int, l: Set<Vertex>, l1: Set<Vertex>)
    requires is_left(g, q.take(p), l), 0 <= p < q.len(), forall|y: Vertex| #[trigger] l1.contains(y) <==> l.contains(y) || en(g, q[p]).contains(y) || y == q[p]
    ensures is_left(g, q.take(p + 1), l1)
{
    reveal(is_left); let t = q.take(p); let u0 = q[p]; let t1 = q.take(p + 1); assert(t1 =~= t.push(u0));
    assert forall|y: Vertex| #[trigger] l1.contains(y) <==> t1.contains(y) || exists|u: Vertex| t1.contains(u) && #[trigger] en(g, u).contains(y) by {
        lemma_push_has(t, u0, y); lemma_push_has(t, u0, u0);
        if exists|u: Vertex| t1.contains(u) && #[trigger] en(g, u).contains(y) { let u = choose|u: Vertex| t1.contains(u) && #[trigger] en(g, u).contains(y); lemma_push_has(t, u0, u); }
        if exists|u: Vertex| t.contains(u) && #[trigger] en(g, u).contains(y) { let u = choose|u: Vertex| t.contains(u) && #[trigger] en(g, u).contains(y); lemma_push_has(t, u0, u); }
    }
}
pub proof fn lemma_left_vs(g: DegenGraph, q: Seq<Vertex>, l: Set<Vertex>)
    requires g.wf(), query(g, q), is_left(g, q, l)
    ensures l.subset_of(g.vs()), q.to_set().subset_of(l)
{ reveal(is_left); g.lemma_wf(); assert forall|y: Vertex| l.contains(y) implies g.vs().contains(y) by { if q.contains(y) { assert(q.to_set().contains(y)); } else { let u = choose|u: Vertex| q.contains(u) && #[trigger] en(g, u).contains(y); assert(q.to_set().contains(u)); lemma_en(g, u); } }
  assert forall|y: Vertex| q.to_set().contains(y) implies l.contains(y) by { assert(q.contains(y)); } }
pub open spec fn f2(g: DegenGraph, q: Seq<Vertex>, done: Set<Vertex>) -> spec_fn(Vertex) -> Seq<Vertex> { |x: Vertex| if done.contains(x) { keep(q, nb(g, x)) } else { keep(q, en(g, x)) } }
pub open spec fn d2(g: DegenGraph, q: Seq<Vertex>, done: Set<Vertex>) -> Set<Vertex> { g.vs().filter(|x: Vertex| !(q.contains(x) && done.contains(x))) }
pub open spec fn trace_of(g: DegenGraph, q: Seq<Vertex>) -> spec_fn(Vertex) -> Seq<Vertex> { |x: Vertex| keep(q, nb(g, x)) }
pub open spec fn outside(g: DegenGraph, q: Seq<Vertex>) -> Set<Vertex> { g.vs().filter(|x: Vertex| !q.contains(x)) }
pub proof fn lemma_f2_0(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>)
    requires vgood(m, g.vs(), trf(g, q))
    ensures vgood(m, d2(g, q, Set::empty()), f2(g, q, Set::empty()))
{ assert(d2(g, q, Set::empty()) =~= g.vs()); let f = trf(g, q); let h = f2(g, q, Set::empty()); assert forall|x: Vertex| g.vs().contains(x) implies #[trigger] f(x) == h(x) by { } lemma_vgood_ext(m, g.vs(), f, h); }
pub proof fn lemma_y_in(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, done: Set<Vertex>, y: Vertex)
    requires g.wf(), query(g, q), vgood(m, d2(g, q, done), f2(g, q, done)), g.vs().contains(y), !done.contains(y), q.contains(y)
    ensures ({ let p = vk(keep(q, en(g, y))); m.dom().contains(p) && m[p] >= 1 && vgood(m.insert(p, (m[p] - 1) as usize), d2(g, q, done.insert(y)), f2(g, q, done.insert(y))) })
{
    let s = keep(q, en(g, y)); lemma_keep_sub(g, q, en(g, y)); axiom_vk(); let p = vk(s); assert(p@ == s); let d = d2(g, q, done); let f = f2(g, q, done); let d1 = d2(g, q, done.insert(y)); let h = f2(g, q, done.insert(y));
    reveal(vgood); assert(tv(m, p@) == lab(d, f, p@).len()); assert(lab(d, f, p@).contains(y)); assert(d1 =~= d.remove(y)); let m1 = m.insert(p, (m[p] - 1) as usize);
    assert forall|k: Vec<Vertex>| tv(m1, #[trigger] k@) == lab(d1, h, k@).len() by { assert(vk(k@) == k); assert(tv(m, k@) == lab(d, f, k@).len()); lemma_lab_drop(d, f, y, k@); lemma_lab_ext(d1, f, h, k@); if k@ == s { assert(k == p); } }
}
pub proof fn lemma_y_out(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, done: Set<Vertex>, y: Vertex)
    requires g.wf(), query(g, q), vgood(m, d2(g, q, done), f2(g, q, done)), g.vs().contains(y), !done.contains(y), !q.contains(y)
    ensures ({ let p = vk(keep(q, en(g, y))); let t = vk(keep(q, nb(g, y))); let m1 = m.insert(t, (tv(m, t@) + 1) as usize);
        tv(m, t@) + 1 <= usize::MAX && m.dom().contains(p) && m[p] >= 1 && m1[p] >= 1 && vgood(m1.insert(p, (m1[p] - 1) as usize), d2(g, q, done.insert(y)), f2(g, q, done.insert(y))) })
{
    let s0 = keep(q, en(g, y)); let s1 = keep(q, nb(g, y)); lemma_keep_sub(g, q, en(g, y)); lemma_keep_sub(g, q, nb(g, y)); axiom_vk(); let p = vk(s0); let t = vk(s1); assert(p@ == s0 && t@ == s1); g.lemma_wf();
    let d = d2(g, q, done); let f = f2(g, q, done); let h = f2(g, q, done.insert(y)); assert(d2(g, q, done.insert(y)) =~= d); let m1 = m.insert(t, (tv(m, t@) + 1) as usize); let m2 = m1.insert(p, (m1[p] - 1) as usize); let mm = Set::<Vertex>::empty().insert(y);
    reveal(vgood); assert(tv(m, p@) == lab(d, f, p@).len()); assert(tv(m, t@) == lab(d, f, t@).len()); assert(lab(d, f, s0).contains(y)); vstd::set_lib::lemma_len_subset(d, g.vs()); lemma_lab_bound(d, f, s1);
    assert forall|k: Vec<Vertex>| tv(m2, #[trigger] k@) == lab(d, h, k@).len() by {
        assert(vk(k@) == k); assert(tv(m, k@) == lab(d, f, k@).len()); if k@ == s0 { assert(k == p); } if k@ == s1 { assert(k == t); }
        if s0 != s1 { assert forall|x: Vertex| d.contains(x) implies #[trigger] h(x) == (if mm.contains(x) { s1 } else { f(x) }) by { } lemma_lab_move(d, f, h, mm, s0, s1, k@); } else { assert forall|x: Vertex| d.contains(x) implies #[trigger] f(x) == h(x) by { } lemma_lab_ext(d, f, h, k@); }
    }
}
pub proof fn lemma_f2_end(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, l: Set<Vertex>)
    requires g.wf(), query(g, q), is_left(g, q, l), vgood(m, d2(g, q, l), f2(g, q, l))
    ensures vgood(m, outside(g, q), trace_of(g, q))
{
    lemma_left_vs(g, q, l); assert(d2(g, q, l) =~= outside(g, q)) by { assert forall|x: Vertex| q.contains(x) implies l.contains(x) by { assert(q.to_set().contains(x)); } }
    let d = outside(g, q); let f = f2(g, q, l); let h = trace_of(g, q);
    assert forall|x: Vertex| d.contains(x) implies #[trigger] f(x) == h(x) by { if !l.contains(x) { lemma_not_left(g, q, l, x); } }
    lemma_vgood_ext(m, d, f, h);
}
/// a vertex outside l has all its neighbours in q before it
pub proof fn lemma_not_left(g: DegenGraph, q: Seq<Vertex>, l: Set<Vertex>, x: Vertex)
    requires g.wf(), query(g, q), is_left(g, q, l), g.vs().contains(x), !l.contains(x)
    ensures keep(q, nb(g, x)) == keep(q, en(g, x)), forall|u: Vertex| q.contains(u) ==> (nb(g, x).contains(u) <==> #[trigger] en(g, x).contains(u))
{
    lemma_en(g, x); g.lemma_wf(); g.lemma_lin(); lemma_ix(g.vseq());
    assert forall|u: Vertex| q.contains(u) implies (nb(g, x).contains(u) <==> #[trigger] en(g, x).contains(u)) by {
        assert(q.to_set().contains(u)); lemma_en(g, u); if nb(g, x).contains(u) && !en(g, x).contains(u) { assert(g.adj(x, u)); assert(g.adj(u, x)); assert(g.vseq().contains(x) && g.vseq().contains(u)); assert(x != u); assert(ix(g.vseq(), x) != ix(g.vseq(), u)); assert(en(g, u).contains(x)); reveal(is_left); }
    }
    lemma_keep_ext(q, nb(g, x), en(g, x));
}
pub proof fn lemma_keep_ext(q: Seq<Vertex>, a: Set<Vertex>, b: Set<Vertex>)
    requires forall|u: Vertex| q.contains(u) ==> (a.contains(u) <==> b.contains(u))
    ensures keep(q, a) == keep(q, b)
    decreases q.len()
{ if q.len() > 0 { let d = q.drop_last(); assert forall|u: Vertex| d.contains(u) implies (a.contains(u) <==> b.contains(u)) by { let k = choose|k: int| 0 <= k < d.len() && d[k] == u; assert(q[k] == u); } lemma_keep_ext(d, a, b); assert(q.contains(q.last())); } }
pub proof fn lemma_keep_step(q: Seq<Vertex>, s: Set<Vertex>, p: int)
    requires 0 <= p < q.len()
    ensures keep(q.take(p + 1), s) == (if s.contains(q[p]) { keep(q.take(p), s).push(q[p]) } else { keep(q.take(p), s) })
{ let t = q.take(p + 1); assert(t.drop_last() =~= q.take(p)); assert(t.last() == q[p]); }
impl SReachTraceOracle {
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachTraceOracle compute_traces
//@ attr #[verifier::rlimit(60)]
//@ requires graph.wf(), self.ok(*graph), query(*graph, inner@)
//@ ensures vgood(r@, outside(*graph, inner@), trace_of(*graph, inner@)), okkeys(*graph, r@, inner@)
//@ subst traces.get_mut(set_prefix) => traces.vx_get_mut_slice(set_prefix)
//@ subst inner.contains(&y) => inner.vx_has(&y)
//@ closure 1 |x: &Vertex| -> (y: usize) requires graph.wf(), graph.vs().contains(*x) ensures y == graph.iof(*x)
//@ closure 2 |x: &Vertex| -> (y: usize) requires graph.wf(), graph.vs().contains(*x) ensures y == graph.iof(*x)
//@ hint start
    let ghost g = *graph; let ghost q = inner@;
    proof { g.lemma_wf(); lemma_sub_self(g, q); lemma_iof_sorted(g, q, q); }
//@ hint loop1.before
    proof { lemma_traces0(g, traces@, q); }
//@ loop 1
    g == *graph, q == inner@, it1_s.len() == q.len(), forall|k: int| 0 <= k < it1_s.len() ==> #[trigger] it1_s[k] == k + 1, vgood(traces@, g.vs(), trf(g, q.take(it1.pos() as int))), okkeys(g, traces@, q),
//@ hint loop1.start
    let ghost n = it1.pos() as int; let ghost qn = q.take(n);
    proof { lemma_query_take(g, q, n); assert(qn.last() == q[n - 1]); assert(qn.drop_last() =~= q.take(n - 1)); assert(q.contains(q[n - 1])); assert(q.to_set().contains(q[n - 1])); lemma_ctx_use(g, self.contexts@, q[n - 1]); lemma_mix0(g, traces@, qn); }
//@ hint loop2.before
    let ghost cm = counts@; let ghost ord = counts.order();
    proof { lemma_counts(g, qn, ctx.context@, cm); lemma_pre_ends(ord); }
//@ loop 2
    g == *graph, q == inner@, qn == q.take(n), 0 < n <= q.len(), it2_s.len() == ord.len(), lists(ord, cm.dom()), forall|k: int| 0 <= k < ord.len() ==> #[trigger] it2_s[k] == (ord[k], cm[ord[k]]),
    vgood(cm, rights(g, qn.last(), g.vs()), trf(g, qn)), positive(cm), query(g, qn), vgood(traces@, g.vs(), mixf(g, qn, pre(ord, it2.pos()))), okkeys(g, traces@, q),
//@ hint loop2.start
    let ghost p = (it2.pos() - 1) as nat; let ghost m0 = traces@; let ghost pk = vk(set@.drop_last());
    proof { assert(set == ord[p as int]); lemma_pre(ord, p); assert(ord.contains(set)); lemma_set_step(g, m0, cm, qn, pre(ord, p), set); lemma_iof_sorted(g, qn, set@); lemma_sublist_take(g, q, n, set@); axiom_vk(); }
//@ hint loop2.end
    proof { let m1 = m0.insert(set, (tv(m0, set@) + count) as usize); assert(traces@ =~= m1.insert(pk, (m0[pk] - count) as usize)); lemma_okkeys_add(g, m0, q, set, m1[set]); lemma_okkeys_add(g, m1, q, pk, (m0[pk] - count) as usize); }
//@ hint loop2.after
    proof { lemma_pre_ends(ord); assert(pre(ord, it2.pos()) =~= cm.dom()); lemma_mix_end(g, traces@, cm, qn); }
//@ hint loop3.before
    proof { assert(q.take(q.len() as int) =~= q); lemma_left0(g, q); assert(vgood(traces@, g.vs(), trf(g, q))); }
//@ loop 3
    g == *graph, q == inner@, it3_s == q, is_left(g, q.take(it3.pos() as int), left_neighbours@),
//@ hint loop3.start
    let ghost l0 = left_neighbours@;
    proof { let k = it3.pos() - 1; assert(q.contains(q[k])); assert(q.to_set().contains(q[k])); }
//@ hint loop3.end
    proof { lemma_left_step(g, q, it3.pos() - 1, l0, left_neighbours@); }
//@ hint loop4.before
    let ghost lf = left_neighbours@;
    proof { assert(is_left(g, q, lf)); lemma_left_vs(g, q, lf); lemma_f2_0(g, traces@, q); }
//@ loop 4
    g == *graph, q == inner@, lists(it4_s, lf), is_left(g, q, lf), lf.subset_of(g.vs()), vgood(traces@, d2(g, q, pre(it4_s, it4.pos())), f2(g, q, pre(it4_s, it4.pos()))), okkeys(g, traces@, q),
//@ hint loop4.start
    let ghost p = (it4.pos() - 1) as nat; let ghost m0 = traces@; let ghost done = pre(it4_s, p); let ghost t0 = keep(q, nb(g, y)); let ghost p0 = keep(q, en(g, y));
    proof { lemma_pre(it4_s, p); assert(it4_s.contains(y)); lemma_en(g, y); if q.contains(y) { lemma_y_in(g, m0, q, done, y); } else { lemma_y_out(g, m0, q, done, y); } lemma_keep_sub(g, q, nb(g, y)); lemma_keep_sub(g, q, en(g, y)); axiom_vk(); }
//@ hint loop5.before
    proof { assert(q.take(0) =~= Seq::<Vertex>::empty()); }
//@ loop 5
    g == *graph, q == inner@, it5_s == q, trace@ == keep(q.take(it5.pos() as int), nb(g, y)), trace_prefix@ == keep(q.take(it5.pos() as int), en(g, y)),
//@ hint loop5.start
    proof { let k = it5.pos() - 1; lemma_keep_step(q, nb(g, y), k); lemma_keep_step(q, en(g, y), k); assert(nb(g, y).contains(q[k]) <==> g.adj(y, q[k])); assert(en(g, y).contains(q[k]) <==> g.adj(y, q[k]) && ix(g.vseq(), q[k]) < ix(g.vseq(), y)); assert(g.adj(y, q[k]) <==> g.adj(q[k], y)); }
//@ hint loop5.after
    proof { assert(q.take(q.len() as int) =~= q); assert(trace@ == t0 && trace_prefix@ == p0); assert(vk(t0) == trace && vk(p0) == trace_prefix); }
//@ hint loop4.end
    proof {
        let t = vk(t0); let pp = vk(p0);
        if q.contains(y) { assert(traces@ =~= m0.insert(pp, (m0[pp] - 1) as usize)); lemma_okkeys_add(g, m0, q, pp, (m0[pp] - 1) as usize); }
        else { let m1 = m0.insert(t, (tv(m0, t@) + 1) as usize); assert(traces@ =~= m1.insert(pp, (m1[pp] - 1) as usize)); lemma_okkeys_add(g, m0, q, t, m1[t]); lemma_okkeys_add(g, m1, q, pp, (m1[pp] - 1) as usize); }
    }
//@ hint loop4.after
    proof { lemma_pre_ends(it4_s); assert(pre(it4_s, it4.pos()) =~= lf); lemma_f2_end(g, traces@, q, lf); }
//@ end
}
pub proof fn lemma_sub_self(g: DegenGraph, q: Seq<Vertex>) requires query(g, q) ensures sublist(g, q, q) { }
pub proof fn lemma_traces0(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>)
    requires exists|k: Vec<Vertex>, n: usize| k@.len() == 0 && n == g.vs().len() && m == #[trigger] Map::<Vec<Vertex>, usize>::empty().insert(k, n)
    ensures vgood(m, g.vs(), trf(g, q.take(0))), okkeys(g, m, q)
{
    let (k, n) = choose|k: Vec<Vertex>, n: usize| k@.len() == 0 && n == g.vs().len() && m == #[trigger] Map::<Vec<Vertex>, usize>::empty().insert(k, n); axiom_vk(); reveal(vgood); reveal(okkeys); let f = trf(g, q.take(0));
    assert forall|j: Vec<Vertex>| tv(m, #[trigger] j@) == lab(g.vs(), f, j@).len() by { assert(vk(j@) == j); if j@.len() == 0 { assert(j@ =~= k@); assert(vk(k@) == k); assert(lab(g.vs(), f, j@) =~= g.vs()) by { assert forall|x: Vertex| g.vs().contains(x) implies f(x) == j@ by { assert(f(x) =~= j@); } } } else { assert(lab(g.vs(), f, j@) =~= Set::<Vertex>::empty()); } }
    assert(sublist(g, q, k@)) by { reveal(sorted_in); }
}

// ===================================================================== neighbour counts
pub open spec fn hits(q: Seq<Vertex>, s: Set<Vertex>) -> bool { exists|u: Vertex| #[trigger] q.contains(u) && s.contains(u) }
/// vertices with an earlier neighbour in q
pub open spec fn h1(g: DegenGraph, q: Seq<Vertex>) -> Set<Vertex> { g.vs().filter(|x: Vertex| hits(q, en(g, x))) }
pub open spec fn h2(g: DegenGraph, q: Seq<Vertex>, done: Set<Vertex>) -> Set<Vertex> { g.vs().filter(|x: Vertex| if done.contains(x) { !q.contains(x) && hits(q, nb(g, x)) } else { hits(q, en(g, x)) }) }
/// vertices outside q with a neighbour in q
pub open spec fn around(g: DegenGraph, q: Seq<Vertex>) -> Set<Vertex> { outside(g, q).filter(|x: Vertex| hits(q, nb(g, x))) }
pub proof fn lemma_first(g: DegenGraph, q: Seq<Vertex>, c: Seq<Vertex>, r: int)
    requires g.wf(), query(g, q), q.len() > 0, ctx_for(g, q.last(), c), r == lab(rights(g, q.last(), g.vs()), masked(blab(g, q.last(), c), bitsof(c, q.to_set())), bitsof(c, Set::<Vertex>::empty().insert(c.last()))).len()
    ensures h1(g, q).len() == h1(g, q.drop_last()).len() + r, h1(g, q).len() <= g.vs().len()
{
    let a = q.last(); let q0 = q.drop_last(); let d = rights(g, a, g.vs()); let f = masked(blab(g, a, c), bitsof(c, q.to_set())); let k = bitsof(c, Set::<Vertex>::empty().insert(c.last())); let m = lab(d, f, k); let h = h1(g, q); let h0 = h1(g, q0);
    assert(c.last() == a) by { reveal(ctx_for); }
    assert forall|u: Vertex| #[trigger] q.contains(u) <==> q0.contains(u) || u == a by { assert(q =~= q0.push(a)); lemma_push_has(q0, a, u); }
    assert(!q0.contains(a)) by { if q0.contains(a) { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == a; assert(q[i] == q[q.len() - 1]); } }
    assert forall|x: Vertex| g.vs().contains(x) implies (m.contains(x) <==> en(g, x).contains(a) && !hits(q0, en(g, x))) by {
        if d.contains(x) {
            let b = f(x); let u = upto(g, x, a); assert(b == and(bitsof(c, q.to_set()), bitsof(c, u)));
            if !hits(q0, en(g, x)) { assert(b =~= k) by { assert forall|i: int| 0 <= i < c.len() implies b[i] == k[i] by { let w = c[i]; assert(q.to_set().contains(w) <==> q.contains(w)); if b[i] { assert(q.contains(w) && en(g, x).contains(w)); } } } }
            if b == k && hits(q0, en(g, x)) { let w = choose|w: Vertex| #[trigger] q0.contains(w) && en(g, x).contains(w); assert(q.contains(w)); lemma_in_ctx(g, q, c, x, w); let i = choose|i: int| 0 <= i < c.len() && c[i] == w; assert(b[i]); assert(k[i]); assert(w == a); }
        }
    }
    assert(h =~= h0.union(m)) by { assert forall|x: Vertex| h.contains(x) <==> h0.contains(x) || m.contains(x) by { if g.vs().contains(x) { if hits(q, en(g, x)) { let w = choose|w: Vertex| #[trigger] q.contains(w) && en(g, x).contains(w); if w != a { assert(q0.contains(w)); } } if hits(q0, en(g, x)) { let w = choose|w: Vertex| #[trigger] q0.contains(w) && en(g, x).contains(w); assert(q.contains(w)); } if en(g, x).contains(a) { assert(q.contains(a)); } } } }
    assert(h0.disjoint(m)) by { assert forall|x: Vertex| h0.contains(x) implies !m.contains(x) by { } }
    vstd::set_lib::lemma_set_disjoint_lens(h0, m); vstd::set_lib::lemma_len_subset(h, g.vs());
}
pub proof fn lemma_h1_0(g: DegenGraph, q: Seq<Vertex>) ensures h1(g, q.take(0)).len() == 0 { assert(h1(g, q.take(0)) =~= Set::<Vertex>::empty()); }
pub proof fn lemma_h2_0(g: DegenGraph, q: Seq<Vertex>) ensures h2(g, q, Set::empty()) == h1(g, q) { assert(h2(g, q, Set::empty()) =~= h1(g, q)); }
pub proof fn lemma_h2_step(g: DegenGraph, q: Seq<Vertex>, l: Set<Vertex>, done: Set<Vertex>, y: Vertex)
    requires g.wf(), query(g, q), is_left(g, q, l), l.contains(y), g.vs().contains(y), !done.contains(y)
    ensures h2(g, q, done.insert(y)).len() == h2(g, q, done).len() + (if hits(q, en(g, y)) { if q.contains(y) { -1int } else { 0 } } else { if q.contains(y) { 0 } else { 1int } }), h2(g, q, done).len() <= g.vs().len(), h2(g, q, done.insert(y)).len() <= g.vs().len()
{
    let a = h2(g, q, done); let b = h2(g, q, done.insert(y)); vstd::set_lib::lemma_len_subset(a, g.vs()); vstd::set_lib::lemma_len_subset(b, g.vs()); lemma_en(g, y); g.lemma_wf();
    if hits(q, en(g, y)) { let w = choose|w: Vertex| #[trigger] q.contains(w) && en(g, y).contains(w); assert(nb(g, y).contains(w)); assert(hits(q, nb(g, y))); if q.contains(y) { assert(b =~= a.remove(y)); assert(a.contains(y)); } else { assert(b =~= a); } }
    else if q.contains(y) { assert(b =~= a); }
    else { reveal(is_left); let u = choose|u: Vertex| q.contains(u) && #[trigger] en(g, u).contains(y); assert(q.to_set().contains(u)); lemma_en(g, u); assert(g.adj(u, y)); assert(g.adj(y, u)); assert(nb(g, y).contains(u)); assert(hits(q, nb(g, y))); assert(b =~= a.insert(y)); assert(!a.contains(y)); }
}
pub proof fn lemma_h2_end(g: DegenGraph, q: Seq<Vertex>, l: Set<Vertex>)
    requires g.wf(), query(g, q), is_left(g, q, l)
    ensures h2(g, q, l) == around(g, q)
{
    let a = h2(g, q, l); let b = around(g, q); lemma_left_vs(g, q, l);
    assert(a =~= b) by { assert forall|x: Vertex| a.contains(x) <==> b.contains(x) by { if g.vs().contains(x) && !l.contains(x) { assert(!q.contains(x)) by { if q.contains(x) { assert(q.to_set().contains(x)); } } lemma_not_left(g, q, l, x);
        if hits(q, en(g, x)) { let w = choose|w: Vertex| #[trigger] q.contains(w) && en(g, x).contains(w); assert(nb(g, x).contains(w)); } if hits(q, nb(g, x)) { let w = choose|w: Vertex| #[trigger] q.contains(w) && nb(g, x).contains(w); assert(en(g, x).contains(w)); } } } }
}
impl SReachTraceOracle {
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachTraceOracle compute_neighbour_count
//@ attr #[verifier::rlimit(60)]
//@ requires graph.wf(), self.ok(*graph), query(*graph, inner@)
//@ ensures r == around(*graph, inner@).len()
//@ subst inner.contains(&u) => inner.vx_has(&u)
//@ subst inner.contains(w) => inner.vx_has(w)
//@ closure 1 |x: &Vertex| -> (y: usize) requires graph.wf(), graph.vs().contains(*x) ensures y == graph.iof(*x)
//@ hint start
    let ghost g = *graph; let ghost q = inner@;
    proof { g.lemma_wf(); lemma_sub_self(g, q); lemma_iof_sorted(g, q, q); lemma_h1_0(g, q); }
//@ loop 1
    g == *graph, q == inner@, it1_s.len() == q.len(), forall|k: int| 0 <= k < it1_s.len() ==> #[trigger] it1_s[k] == k + 1, res == h1(g, q.take(it1.pos() as int)).len(),
//@ hint loop1.start
    let ghost n = it1.pos() as int; let ghost qn = q.take(n); let ghost r0 = res;
    proof { lemma_query_take(g, q, n); assert(qn.last() == q[n - 1]); assert(qn.drop_last() =~= q.take(n - 1)); assert(q.contains(q[n - 1])); assert(q.to_set().contains(q[n - 1])); lemma_ctx_use(g, self.contexts@, q[n - 1]); }
//@ hint after let ctx 1
    proof { let c = ctx.context@; let r = lab(rights(g, qn.last(), g.vs()), masked(blab(g, qn.last(), c), bitsof(c, qn.to_set())), bitsof(c, Set::<Vertex>::empty().insert(c.last()))).len() as int; lemma_first(g, qn, c, r); }
//@ hint loop2.before
    proof { assert(q.take(q.len() as int) =~= q); lemma_left0(g, q); lemma_h2_0(g, q); }
//@ loop 2
    g == *graph, q == inner@, it2_s == q, is_left(g, q.take(it2.pos() as int), left_neighbours@),
//@ hint loop2.start
    let ghost l0 = left_neighbours@;
    proof { let k = it2.pos() - 1; assert(q.contains(q[k])); assert(q.to_set().contains(q[k])); }
//@ hint loop2.end
    proof { lemma_left_step(g, q, it2.pos() - 1, l0, left_neighbours@); }
//@ hint loop3.before
    let ghost lf = left_neighbours@;
    proof { assert(is_left(g, q, lf)); lemma_left_vs(g, q, lf); }
//@ loop 3
    g == *graph, q == inner@, lists(it3_s, lf), is_left(g, q, lf), lf.subset_of(g.vs()), res == h2(g, q, pre(it3_s, it3.pos())).len(),
//@ hint loop3.start
    let ghost r0 = res;
    proof { let p = (it3.pos() - 1) as nat; lemma_pre(it3_s, p); assert(it3_s.contains(u)); lemma_h2_step(g, q, lf, pre(it3_s, p), u); lemma_en(g, u); }
//@ loop 4
    g == *graph, q == inner@, it4_s == g.lseq(u), forall|k: int| 0 <= k < it4.pos() ==> !q.contains(#[trigger] it4_s[k]), res == r0,
//@ hint loop4.start
    proof { assert(g.lseq(u).contains(it4_s[it4.pos() - 1])); assert(en(g, u).contains(*w)); if q.contains(*w) { assert(hits(q, en(g, u))); } }
//@ hint loop4.after
    proof { if hits(q, en(g, u)) { let w = choose|w: Vertex| #[trigger] q.contains(w) && en(g, u).contains(w); assert(g.lseq(u).contains(w)); } }
//@ hint loop3.after
    proof { lemma_pre_ends(it3_s); assert(pre(it3_s, it3.pos()) =~= lf); lemma_h2_end(g, q, lf); }
//@ end
}

// ===================================================================== shattered sets
pub trait VxPow : Sized { spec fn pw(self) -> int; fn vx_pow(self, e: u32) -> (r: Self) requires vstd::arithmetic::power::pow(self.pw(), e as nat) <= usize::MAX ensures r.pw() == vstd::arithmetic::power::pow(self.pw(), e as nat); }
impl VxPow for usize { open spec fn pw(self) -> int { self as int } #[verifier::external_body] fn vx_pow(self, e: u32) -> (r: Self) { unimplemented!() } }
pub open spec fn two(n: int) -> int { vstd::arithmetic::power::pow(2, n as nat) }
/// every sublist of q is the trace of at least n vertices outside q
pub open spec fn traced(g: DegenGraph, q: Seq<Vertex>, n: int) -> bool { forall|s: Seq<Vertex>| #[trigger] sublist(g, q, s) ==> lab(outside(g, q), trace_of(g, q), s).len() >= n }
pub open spec fn shattered(g: DegenGraph, q: Seq<Vertex>, k: int) -> bool { traced(g, q, two(k - q.len())) }
pub open spec fn subs(q: Seq<Vertex>) -> Set<Seq<Vertex>>
    decreases q.len()
{ if q.len() == 0 { Set::empty().insert(Seq::empty()) } else { subs(q.drop_last()).union(subs(q.drop_last()).map(|s: Seq<Vertex>| s.push(q.last()))) } }
pub proof fn lemma_subs_keep(q: Seq<Vertex>, s: Set<Vertex>)
    ensures subs(q).contains(keep(q, s))
    decreases q.len()
{ if q.len() > 0 { let q0 = q.drop_last(); lemma_subs_keep(q0, s); let f = |s: Seq<Vertex>| s.push(q.last()); if s.contains(q.last()) { assert(f(keep(q0, s)) == keep(q, s)); assert(subs(q0).map(f).contains(f(keep(q0, s)))); } } }
pub proof fn lemma_subs_are(q: Seq<Vertex>, s: Seq<Vertex>)
    requires subs(q).contains(s), q.no_duplicates()
    ensures exists|t: Set<Vertex>| #[trigger] keep(q, t) == s
    decreases q.len()
{
    if q.len() == 0 { assert(keep(q, Set::<Vertex>::empty()) == s); } else {
        let q0 = q.drop_last(); let a = q.last(); let f = |s: Seq<Vertex>| s.push(a);
        assert(!q0.contains(a)) by { if q0.contains(a) { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == a; assert(q[i] == q[q.len() - 1]); } }
        if subs(q0).contains(s) { lemma_subs_are(q0, s); let t = choose|t: Set<Vertex>| #[trigger] keep(q0, t) == s; lemma_keep_ext(q0, t, t.remove(a)); assert(keep(q, t.remove(a)) == s); }
        else { assert(subs(q0).map(f).contains(s)); let r = choose|r: Seq<Vertex>| subs(q0).contains(r) && f(r) == s; lemma_subs_are(q0, r); let t = choose|t: Set<Vertex>| #[trigger] keep(q0, t) == r; lemma_keep_ext(q0, t, t.insert(a)); assert(keep(q, t.insert(a)) == s); }
    }
}
pub proof fn lemma_subs_len(q: Seq<Vertex>)
    requires q.no_duplicates()
    ensures subs(q).len() == two(q.len() as int)
    decreases q.len()
{
    reveal(vstd::arithmetic::power::pow);
    if q.len() > 0 {
        let q0 = q.drop_last(); let a = q.last(); let f = |s: Seq<Vertex>| s.push(a); let x = subs(q0); let y = x.map(f); lemma_subs_len(q0);
        assert(!q0.contains(a)) by { if q0.contains(a) { let i = choose|i: int| 0 <= i < q0.len() && q0[i] == a; assert(q[i] == q[q.len() - 1]); } }
        assert forall|s: Seq<Vertex>, t: Seq<Vertex>| x.contains(s) && x.contains(t) && #[trigger] f(s) == #[trigger] f(t) implies s == t by { assert(s =~= f(s).drop_last()); assert(t =~= f(t).drop_last()); }
        vstd::set_lib::lemma_map_size(x, y, f);
        assert(x.disjoint(y)) by { assert forall|s: Seq<Vertex>| x.contains(s) implies !y.contains(s) by { if y.contains(s) { let r = choose|r: Seq<Vertex>| x.contains(r) && f(r) == s; lemma_push_has(r, a, a); lemma_subs_are(q0, s); let t = choose|t: Set<Vertex>| #[trigger] keep(q0, t) == s; lemma_keep(q0, t); assert(s.contains(a)); } } }
        vstd::set_lib::lemma_set_disjoint_lens(x, y); assert(two(q.len() as int) == 2 * two(q0.len() as int));
    } else { assert(two(0) == 1); }
}
pub proof fn lemma_sublist_subs(g: DegenGraph, q: Seq<Vertex>, s: Seq<Vertex>)
    requires query(g, q), sublist(g, q, s)
    ensures subs(q).contains(s)
{
    let t = s.to_set(); let k = keep(q, t); lemma_keep(q, t); lemma_keep_sub(g, q, t);
    assert forall|x: Vertex| #[trigger] k.contains(x) <==> s.contains(x) by { if s.contains(x) { assert(t.contains(x)); assert(q.to_set().contains(x)); assert(q.contains(x)); } if k.contains(x) { assert(t.contains(x)); } }
    lemma_sorted_unique(g.vseq(), k, s); lemma_subs_keep(q, t);
}
pub proof fn lemma_keys(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>)
    requires query(g, q), okkeys(g, m, q)
    ensures m.dom().len() >= two(q.len() as int) ==> forall|s: Seq<Vertex>| #[trigger] sublist(g, q, s) ==> m.dom().contains(vk(s)),
        m.dom().len() < two(q.len() as int) ==> exists|s: Seq<Vertex>| #[trigger] sublist(g, q, s) && s.len() <= usize::MAX && !m.dom().contains(vk(s))
{
    axiom_vk(); let f = |k: Vec<Vertex>| k@; let d = m.dom(); let e = d.map(f); let all = subs(q); lemma_subs_len(q);
    assert forall|a: Vec<Vertex>, b: Vec<Vertex>| d.contains(a) && d.contains(b) && #[trigger] f(a) == #[trigger] f(b) implies a == b by { assert(vk(a@) == a && vk(b@) == b); }
    vstd::set_lib::lemma_map_size(d, e, f);
    assert(e.subset_of(all)) by { assert forall|s: Seq<Vertex>| e.contains(s) implies all.contains(s) by { let k = choose|k: Vec<Vertex>| d.contains(k) && f(k) == s; reveal(okkeys); lemma_sublist_subs(g, q, s); } }
    vstd::set_lib::lemma_len_subset(e, all);
    if d.len() >= two(q.len() as int) {
        vstd::set_lib::lemma_subset_equality(e, all);
        assert forall|s: Seq<Vertex>| #[trigger] sublist(g, q, s) implies m.dom().contains(vk(s)) by { lemma_sublist_subs(g, q, s); assert(e.contains(s)); let k = choose|k: Vec<Vertex>| d.contains(k) && f(k) == s; assert(vk(k@) == k); }
    } else {
        assert(exists|s: Seq<Vertex>| all.contains(s) && !e.contains(s)) by { if forall|s: Seq<Vertex>| all.contains(s) ==> e.contains(s) { assert(e =~= all); } }
        let s = choose|s: Seq<Vertex>| all.contains(s) && !e.contains(s); lemma_subs_are(q, s); let t = choose|t: Set<Vertex>| #[trigger] keep(q, t) == s; lemma_keep_sub(g, q, t); assert(sublist(g, q, s));
        if d.contains(vk(s)) { assert(f(vk(s)) == s); assert(e.contains(f(vk(s)))); }
    }
}
pub open spec fn all_ge(m: Map<Vec<Vertex>, usize>, o: Seq<Vec<Vertex>>, p: int, n: int) -> bool { forall|i: int| 0 <= i < p && i < o.len() ==> m[#[trigger] o[i]] >= n }
pub proof fn lemma_sh_few(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, n: int)
    requires query(g, q), okkeys(g, m, q), vgood(m, outside(g, q), trace_of(g, q)), n >= 1, m.dom().len() < two(q.len() as int)
    ensures !traced(g, q, n)
{ axiom_vk(); reveal(vgood); lemma_keys(g, m, q); let s = choose|s: Seq<Vertex>| #[trigger] sublist(g, q, s) && s.len() <= usize::MAX && !m.dom().contains(vk(s)); let k = vk(s); assert(k@ == s); assert(tv(m, k@) == lab(outside(g, q), trace_of(g, q), k@).len()); }
pub proof fn lemma_sh_low(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, n: int, k: Vec<Vertex>)
    requires query(g, q), okkeys(g, m, q), vgood(m, outside(g, q), trace_of(g, q)), m.dom().contains(k), m[k] < n
    ensures !traced(g, q, n)
{ axiom_vk(); reveal(vgood); reveal(okkeys); assert(sublist(g, q, k@)); assert(vk(k@) == k); assert(tv(m, k@) == lab(outside(g, q), trace_of(g, q), k@).len()); }
pub proof fn lemma_sh_yes(g: DegenGraph, m: Map<Vec<Vertex>, usize>, q: Seq<Vertex>, n: int, o: Seq<Vec<Vertex>>)
    requires query(g, q), okkeys(g, m, q), vgood(m, outside(g, q), trace_of(g, q)), m.dom().len() >= two(q.len() as int), lists(o, m.dom()), all_ge(m, o, o.len() as int, n)
    ensures traced(g, q, n)
{
    axiom_vk(); reveal(vgood); lemma_keys(g, m, q);
    assert forall|s: Seq<Vertex>| #[trigger] sublist(g, q, s) implies lab(outside(g, q), trace_of(g, q), s).len() >= n by { let k = vk(s); assert(m.dom().contains(k)); assert(o.contains(k)); let i = choose|i: int| 0 <= i < o.len() && o[i] == k; assert(m[o[i]] >= n); lemma_sublist_subs(g, q, s); lemma_subs_are(q, s); let t = choose|t: Set<Vertex>| #[trigger] keep(q, t) == s; lemma_keep(q, t); assert(k@ == s); assert(tv(m, k@) == lab(outside(g, q), trace_of(g, q), k@).len()); }
}
pub proof fn lemma_query_sort(g: DegenGraph, src: Seq<Vertex>, q: Seq<Vertex>)
    requires g.wf(), src.no_duplicates(), src.to_set().subset_of(g.vs()), perm(q, src), sorted_iof(g, q), q.len() <= usize::MAX
    ensures query(g, q), q.len() == src.len(), forall|q1: Seq<Vertex>| #[trigger] query(g, q1) && q1.to_set() == src.to_set() ==> q1 == q
{ assert(q.to_set() =~= src.to_set()); lemma_sorted_iof(g, q); assert forall|q1: Seq<Vertex>| #[trigger] query(g, q1) && q1.to_set() == src.to_set() implies q1 == q by { assert forall|x: Vertex| #[trigger] q1.contains(x) <==> q.contains(x) by { assert(q1.to_set().contains(x) <==> q.to_set().contains(x)); } lemma_sorted_unique(g.vseq(), q1, q); } }
impl SReachTraceOracle {
//@ fn datastructures/sreach_trace_oracle.rs impl:SReachTraceOracle is_shattered
//@ requires graph.wf(), self.ok(*graph), inner.src_ok(), inner.src().no_duplicates(), inner.src().to_set().subset_of(graph.vs()), inner.src().len() <= k, two(k - inner.src().len()) <= usize::MAX, two(inner.src().len() as int) <= usize::MAX
//@ ensures forall|q: Seq<Vertex>| #[trigger] query(*graph, q) && q.to_set() == inner.src().to_set() ==> r == shattered(*graph, q, k as int)
//@ closure 1 |x: &Vertex| -> (y: usize) requires graph.wf(), graph.vs().contains(*x) ensures y == graph.iof(*x)
//@ hint start
    let ghost g = *graph; let ghost src = inner.src();
    proof { g.lemma_wf(); vstd::arithmetic::power::lemma_pow_positive(2, (k - src.len()) as nat); assert forall|i: int| 0 <= i < src.len() implies g.vs().contains(#[trigger] src[i]) by { assert(src.contains(src[i])); assert(src.to_set().contains(src[i])); } src.unique_seq_to_set(); vstd::set_lib::lemma_len_subset(src.to_set(), g.vs()); }
//@ hint after call sort_by_key 1
    let ghost q = inner@; let ghost n = two(k - q.len());
    proof { let l = inner.len(); assert(sorted_iof(g, q)); lemma_query_sort(g, src, q); }
//@ hint after let traces 1
    let ghost m = traces@; let ghost o = traces.order();
    proof { if m.dom().len() < two(q.len() as int) { lemma_sh_few(g, m, q, n); } }
//@ loop 1
    g == *graph, q == inner@, n == two(k - q.len()), n == multiplicity, query(g, q), okkeys(g, m, q), vgood(m, outside(g, q), trace_of(g, q)), m.dom().len() >= two(q.len() as int),
    lists(o, m.dom()), it1_s.len() == o.len(), forall|i: int| 0 <= i < o.len() ==> #[trigger] it1_s[i] == (o[i], m[o[i]]), all_ge(m, o, it1.pos() as int, n),
//@ hint loop1.start
    proof { let kk = o[it1.pos() - 1]; assert(o.contains(kk)); if m[kk] < n { lemma_sh_low(g, m, q, n, kk); } }
//@ hint loop1.after
    proof { lemma_sh_yes(g, m, q, n, o); }
//@ end
}
} // verus!
