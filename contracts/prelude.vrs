#![allow(mismatched_lifetime_syntaxes, unused_imports, unused_variables, unused_mut, dead_code, non_snake_case, unused_parens, unused_braces, unused_assignments, unused_labels, non_camel_case_types, unreachable_code, unused_must_use, ellipsis_inclusive_range_patterns)]
pub mod vxp {
use vstd::prelude::*;
use vstd::std_specs::cmp::{PartialEqSpec, PartialEqSpecImpl};
use std::hash::Hash;
use std::cmp::Ordering;
verus! {
// ===================================================================== trusted base
// Assumed contracts of the standard-library containers and iterators.  Every
// `external_body` item in this file is part of the trusted base and is counted as such
// in the evidence.  The harness exercises the same containers through the real code.
pub type Vertex = u32;
pub type Edge = (Vertex, Vertex);
pub type Arc = (Vertex, Vertex);
pub type VertexSet = FxHashSet<Vertex>;
pub type EdgeSet = FxHashSet<Edge>;
pub type VertexMap<T> = FxHashMap<Vertex, T>;


#[verifier::external_body]
pub fn vx_panic() -> !
    requires false
{ panic!() }
pub fn vx_assert(b: bool)
    requires b
{ }
#[verifier::external_body]
pub fn vx_and(a: bool, b: bool) -> (r: bool)
    ensures r == (a && b)
{ a & b }

// ---------------------------------------------------------------- sequences
/// the set of the first n elements of s
pub open spec fn pre<T>(s: Seq<T>, n: nat) -> Set<T> { s.take(n as int).to_set() }

pub proof fn lemma_pre<T>(s: Seq<T>, n: nat)
    requires n < s.len()
    ensures pre(s, n + 1) == pre(s, n).insert(s[n as int]),
        s.no_duplicates() ==> !pre(s, n).contains(s[n as int]),
        forall|x: T| #[trigger] pre(s, n).contains(x) ==> s.contains(x),
{
    let a = s.take(n as int);
    let b = s.take(n as int + 1);
    assert(b =~= a.push(s[n as int]));
    assert forall|x: T| b.to_set().contains(x) <==> #[trigger] a.to_set().insert(s[n as int]).contains(x) by {
        if b.contains(x) { let i = choose|i: int| 0 <= i < b.len() && b[i] == x; if i < n { assert(a[i] == x); } }
        if a.contains(x) { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(b[i] == x); }
        assert(b[n as int] == s[n as int]);
    }
    assert(pre(s, n + 1) =~= pre(s, n).insert(s[n as int]));
    if s.no_duplicates() && a.contains(s[n as int]) { let i = choose|i: int| 0 <= i < a.len() && a[i] == s[n as int]; assert(s[i] == s[n as int]); }
    assert forall|x: T| #[trigger] pre(s, n).contains(x) implies s.contains(x) by { let i = choose|i: int| 0 <= i < a.len() && a[i] == x; assert(s[i] == x); }
}
pub proof fn lemma_pre_ends<T>(s: Seq<T>)
    ensures pre(s, 0) == Set::<T>::empty(), pre(s, s.len()) == s.to_set(),
{ assert(s.take(0).to_set() =~= Set::<T>::empty()); assert(s.take(s.len() as int) =~= s); }
pub proof fn lemma_pre_len<T>(s: Seq<T>, n: nat)
    requires n <= s.len(), s.no_duplicates()
    ensures pre(s, n).len() == n
{ s.take(n as int).unique_seq_to_set(); }
pub proof fn lemma_pre_mem<T>(s: Seq<T>, n: nat, i: int)
    requires 0 <= i < n <= s.len()
    ensures pre(s, n).contains(s[i])
{ assert(s.take(n as int)[i] == s[i]); }
pub broadcast proof fn lemma_seq_index_contains<T>(s: Seq<T>, i: int)
    requires 0 <= i < s.len()
    ensures s.contains(#[trigger] s[i])
{ }

// ---------------------------------------------------------------- iterators over values
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct It<T> { v: std::vec::IntoIter<T> }
impl<T> It<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn raw_more(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_take(&mut self) -> (r: T)
        requires old(self).pos() < old(self).seq().len()
        ensures r == old(self).seq()[old(self).pos() as int], final(self).pos() == old(self).pos() + 1, final(self).seq() == old(self).seq()
    { unimplemented!() }
    pub fn vx_more(&self) -> (r: bool)
        requires self.pos() <= self.seq().len()
        ensures r == (self.pos() < self.seq().len()), !r ==> self.pos() == self.seq().len() && pre(self.seq(), self.pos()) == self.seq().to_set(),
    { proof { lemma_pre_ends(self.seq()); } self.raw_more() }
    pub fn vx_take(&mut self) -> (r: T)
        requires old(self).pos() < old(self).seq().len()
        ensures r == old(self).seq()[old(self).pos() as int], final(self).pos() == old(self).pos() + 1, final(self).seq() == old(self).seq(),
            old(self).seq().contains(r),
            pre(old(self).seq(), old(self).pos() + 1) == pre(old(self).seq(), old(self).pos()).insert(r),
            old(self).seq().no_duplicates() ==> !pre(old(self).seq(), old(self).pos()).contains(r),
    { proof { lemma_pre(self.seq(), self.pos()); } self.raw_take() }
    pub fn next(&mut self) -> (r: Option<T>)
        requires old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            r.is_some() == (old(self).pos() < old(self).seq().len()),
            r.is_some() ==> r->0 == old(self).seq()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1 && old(self).seq().contains(r->0)
                && pre(old(self).seq(), old(self).pos() + 1) == pre(old(self).seq(), old(self).pos()).insert(r->0)
                && (old(self).seq().no_duplicates() ==> !pre(old(self).seq(), old(self).pos()).contains(r->0)),
            r.is_none() ==> final(self).pos() == old(self).pos() && pre(old(self).seq(), old(self).pos()) == old(self).seq().to_set(),
    { if self.vx_more() { Some(self.vx_take()) } else { None } }
    #[verifier::external_body]
    pub fn from_vec(v: Vec<T>) -> (r: Self) ensures r.seq() == v@, r.pos() == 0 { unimplemented!() }
}

// ---------------------------------------------------------------- iterators over references
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RIt<'a, T> { v: std::vec::IntoIter<&'a T> }
impl<'a, T> RIt<'a, T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> nat;
    #[verifier::external_body]
    pub fn raw_more(&self) -> (r: bool) ensures r == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn raw_take(&mut self) -> (r: &'a T)
        requires old(self).pos() < old(self).seq().len()
        ensures *r == old(self).seq()[old(self).pos() as int], final(self).pos() == old(self).pos() + 1, final(self).seq() == old(self).seq()
    { unimplemented!() }
    pub fn vx_more(&self) -> (r: bool)
        requires self.pos() <= self.seq().len()
        ensures r == (self.pos() < self.seq().len()), !r ==> self.pos() == self.seq().len() && pre(self.seq(), self.pos()) == self.seq().to_set(),
    { proof { lemma_pre_ends(self.seq()); } self.raw_more() }
    pub fn vx_take(&mut self) -> (r: &'a T)
        requires old(self).pos() < old(self).seq().len()
        ensures *r == old(self).seq()[old(self).pos() as int], final(self).pos() == old(self).pos() + 1, final(self).seq() == old(self).seq(),
            old(self).seq().contains(*r),
            pre(old(self).seq(), old(self).pos() + 1) == pre(old(self).seq(), old(self).pos()).insert(*r),
            old(self).seq().no_duplicates() ==> !pre(old(self).seq(), old(self).pos()).contains(*r),
    { proof { lemma_pre(self.seq(), self.pos()); } self.raw_take() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).pos() <= old(self).seq().len()
        ensures final(self).seq() == old(self).seq(),
            r.is_some() == (old(self).pos() < old(self).seq().len()),
            r.is_some() ==> *r->0 == old(self).seq()[old(self).pos() as int] && final(self).pos() == old(self).pos() + 1 && old(self).seq().contains(*r->0)
                && pre(old(self).seq(), old(self).pos() + 1) == pre(old(self).seq(), old(self).pos()).insert(*r->0)
                && (old(self).seq().no_duplicates() ==> !pre(old(self).seq(), old(self).pos()).contains(*r->0)),
            r.is_none() ==> final(self).pos() == old(self).pos() && pre(old(self).seq(), old(self).pos()) == old(self).seq().to_set(),
    { if self.vx_more() { Some(self.vx_take()) } else { None } }
    pub fn vx_iter(self) -> (r: Self) ensures r == self { self }
    pub fn vx_box(self) -> (r: Self) ensures r == self { self }
    pub fn vx_src(self) -> (r: Self) requires self.pos() == 0 ensures r == self, pre(r.seq(), 0) == Set::<T>::empty() { proof { lemma_pre_ends(self.seq()); } self }
    #[verifier::external_body]
    pub fn vx_cloned(self) -> (r: It<T>)
        ensures r.seq() == self.seq().subrange(self.pos() as int, self.seq().len() as int), self.pos() == 0 ==> r.seq() == self.seq(), r.pos() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain<O: VxRSrc<'a, T>>(self, o: O) -> (r: Self)
        requires self.pos() == 0, o.rok()
        ensures r.seq() == self.seq() + o.rsrc(), r.pos() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&&'a T) -> bool>(self, f: F) -> (r: Self)
        requires self.pos() == 0, forall|x: &&T| #[trigger] f.requires((x,))
        ensures r.pos() == 0, filtered(self.seq(), r.seq(), |x: T, b: bool| f.ensures((&&x,), b)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all<F: Fn(&'a T) -> bool>(self, f: F) -> (r: bool)
        requires self.pos() == 0, forall|x: &T| #[trigger] f.requires((x,))
        ensures r ==> forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((&#[trigger] self.seq()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.seq().len() && f.ensures((&#[trigger] self.seq()[i],), false),
    { unimplemented!() }
}
/// r is a subsequence of s: exactly the elements for which the predicate returned true (order kept)
pub open spec fn filtered<T>(s: Seq<T>, r: Seq<T>, p: spec_fn(T, bool) -> bool) -> bool {
    &&& r.len() <= s.len()
    &&& forall|j: int| 0 <= j < r.len() ==> s.contains(#[trigger] r[j]) && p(r[j], true)
    &&& forall|i: int| 0 <= i < s.len() ==> r.contains(#[trigger] s[i]) || p(s[i], false)
    &&& s.no_duplicates() ==> r.no_duplicates()
}

// ---------------------------------------------------------------- sources of values (IntoIterator)
/// what yields references of lifetime 'a
pub trait VxRSrc<'a, T> : Sized { spec fn rsrc(&self) -> Seq<T>; spec fn rok(&self) -> bool; }
impl<'a, T> VxRSrc<'a, T> for RIt<'a, T> { open spec fn rsrc(&self) -> Seq<T> { self.seq() } open spec fn rok(&self) -> bool { self.pos() == 0 } }
impl<'a, T> VxRSrc<'a, T> for It<&'a T> { open spec fn rsrc(&self) -> Seq<T> { self.seq().map_values(|x: &T| *x) } open spec fn rok(&self) -> bool { self.pos() == 0 } }
pub trait VxSrc<T> : Sized {
    spec fn src(&self) -> Seq<T>;
    spec fn src_ok(&self) -> bool;
    fn vx_src(self) -> (r: It<T>)
        requires self.src_ok()
        ensures r.seq() == self.src(), r.pos() == 0, pre(r.seq(), 0) == Set::<T>::empty();
    fn vx_into_iter(self) -> (r: It<T>)
        requires self.src_ok()
        ensures r.seq() == self.src(), r.pos() == 0, pre(r.seq(), 0) == Set::<T>::empty()
    { self.vx_src() }
}
/// names a sequence for the solver
pub open spec fn seen<T>(s: Seq<T>) -> bool { true }
/// adaptors of a source (inherent methods of It and RIt take precedence)
pub trait VxIter<T> : VxSrc<T> {
    fn vx_collect<B: VxFrom<T>>(self) -> (r: B)
        requires self.src_ok()
        ensures B::from_spec(self.src(), r)
    { self.vx_src().vx_collect() }
    fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires self.src_ok(), forall|i: int| 0 <= i < self.src().len() ==> #[trigger] f.requires((self.src()[i],))
        ensures seen(self.src()), r.pos() == 0, r.seq().len() == self.src().len(), forall|i: int| 0 <= i < self.src().len() ==> f.ensures((self.src()[i],), #[trigger] r.seq()[i])
    { self.vx_src().vx_map(f) }
    fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: It<T>)
        requires self.src_ok(), forall|x: &T| #[trigger] f.requires((x,))
        ensures seen(self.src()), r.pos() == 0, filtered(self.src(), r.seq(), |x: T, b: bool| f.ensures((&x,), b)),
    { self.vx_src().vx_filter(f) }
    fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.src_ok(), forall|i: int| 0 <= i < self.src().len() ==> #[trigger] f.requires((self.src()[i],))
        ensures seen(self.src()), r ==> forall|i: int| 0 <= i < self.src().len() ==> f.ensures((#[trigger] self.src()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.src().len() && f.ensures((#[trigger] self.src()[i],), false),
    { self.vx_src().vx_all(f) }
    fn vx_enumerate(self) -> (r: It<(usize, T)>)
        requires self.src_ok()
        ensures seen(self.src()), r.pos() == 0, r.seq().len() == self.src().len(), forall|i: int| 0 <= i < self.src().len() ==> #[trigger] r.seq()[i] == (i as usize, self.src()[i]), self.src().len() <= usize::MAX
    { self.vx_src().vx_enumerate() }
}
impl<T, S: VxSrc<T>> VxIter<T> for S { }
/// targets of collect
pub trait VxFrom<T> : Sized {
    spec fn from_spec(s: Seq<T>, r: Self) -> bool;
    fn vx_from_it(it: It<T>) -> (r: Self)
        requires it.pos() == 0
        ensures Self::from_spec(it.seq(), r);
    fn vx_from_iter<S: VxSrc<T>>(s: S) -> (r: Self)
        requires s.src_ok()
        ensures Self::from_spec(s.src(), r)
    { Self::vx_from_it(s.vx_src()) }
}
impl<T> VxFrom<T> for Vec<T> {
    open spec fn from_spec(s: Seq<T>, r: Self) -> bool { r@ == s }
    #[verifier::external_body]
    fn vx_from_it(it: It<T>) -> (r: Self) { unimplemented!() }
}
impl<K: Hash + Eq> VxFrom<K> for FxHashSet<K> {
    open spec fn from_spec(s: Seq<K>, r: Self) -> bool { r@ == s.to_set() && forall|x: K| #[trigger] r@.contains(x) <==> s.contains(x) }
    #[verifier::external_body]
    fn vx_from_it(it: It<K>) -> (r: Self) { unimplemented!() }
}
/// later pairs override earlier ones
#[verifier::opaque]
pub open spec fn map_of<K, V>(s: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && s[i] == (k, m[k]) && forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != k
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0)
}
impl<K: Hash + Eq, V> VxFrom<(K, V)> for FxHashMap<K, V> {
    open spec fn from_spec(s: Seq<(K, V)>, r: Self) -> bool { map_of(s, r@) }
    #[verifier::external_body]
    fn vx_from_it(it: It<(K, V)>) -> (r: Self) { unimplemented!() }
}
impl<T> It<T> {
    /// a partly consumed iterator passed on as a source of its remaining values
    #[verifier::external_body]
    pub fn vx_rest(self) -> (r: Self)
        requires self.pos() <= self.seq().len()
        ensures r.pos() == 0, r.seq() == self.seq().skip(self.pos() as int)
    { unimplemented!() }
    /// values of a cloned iterator (the dialect reads references through)
    pub fn vx_cloned(self) -> (r: Self) ensures r == self { self }
    pub fn vx_collect<B: VxFrom<T>>(self) -> (r: B)
        requires self.pos() == 0
        ensures B::from_spec(self.seq(), r)
    { B::vx_from_it(self) }
    #[verifier::external_body]
    pub fn vx_map<U, F: Fn(T) -> U>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] f.requires((self.seq()[i],))
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((self.seq()[i],), #[trigger] r.seq()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_filter<F: Fn(&T) -> bool>(self, f: F) -> (r: Self)
        requires self.pos() == 0, forall|x: &T| #[trigger] f.requires((x,))
        ensures r.pos() == 0, filtered(self.seq(), r.seq(), |x: T, b: bool| f.ensures((&x,), b)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: It<(usize, T)>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] r.seq()[i] == (i as usize, self.seq()[i]), self.seq().len() <= usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_all<F: Fn(T) -> bool>(self, f: F) -> (r: bool)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] f.requires((self.seq()[i],))
        ensures r ==> forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((#[trigger] self.seq()[i],), true),
            !r ==> exists|i: int| 0 <= i < self.seq().len() && f.ensures((#[trigger] self.seq()[i],), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_chain<S: VxSrc<T>>(self, o: S) -> (r: Self)
        requires self.pos() == 0, o.src_ok()
        ensures r.seq() == self.seq() + o.src(), r.pos() == 0
    { unimplemented!() }
}
impl<'a, T> RIt<'a, T> {
    /// the collected references are read through: the dialect collects the values
    pub fn vx_collect<B: VxFrom<T>>(self) -> (r: B) where T: Clone
        requires self.pos() == 0
        ensures B::from_spec(self.seq(), r)
    { B::vx_from_it(self.vx_cloned()) }
    #[verifier::external_body]
    pub fn vx_map<U, F: Fn(&'a T) -> U>(self, f: F) -> (r: It<U>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] f.requires((&self.seq()[i],))
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> f.ensures((&self.seq()[i],), #[trigger] r.seq()[i])
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_enumerate(self) -> (r: It<(usize, &'a T)>)
        requires self.pos() == 0
        ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] r.seq()[i] == (i as usize, &self.seq()[i]), self.seq().len() <= usize::MAX
    { unimplemented!() }
}
impl<'a> RIt<'a, u32> {
    #[verifier::external_body]
    pub fn vx_max(self) -> (r: Option<&'a u32>)
        requires self.pos() == 0
        ensures r.is_some() == (self.seq().len() > 0), r.is_some() ==> self.seq().contains(*r->0) && forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] self.seq()[i] <= *r->0
    { unimplemented!() }
}
impl<T> VxSrc<T> for It<T> {
    open spec fn src(&self) -> Seq<T> { self.seq() }
    open spec fn src_ok(&self) -> bool { self.pos() == 0 }
    fn vx_src(self) -> (r: It<T>) { proof { lemma_pre_ends(self.seq()); } self }
}
impl<T> VxSrc<T> for Vec<T> {
    open spec fn src(&self) -> Seq<T> { self@ }
    open spec fn src_ok(&self) -> bool { true }
    fn vx_src(self) -> (r: It<T>) { proof { lemma_pre_ends(self@); assert(<Self as VxSrc<T>>::src(&self) == self@); } let r = It::from_vec(self); assert(r.seq() == self@); r }
}
impl<'a, T: Copy> VxSrc<T> for RIt<'a, T> {
    open spec fn src(&self) -> Seq<T> { self.seq() }
    open spec fn src_ok(&self) -> bool { self.pos() == 0 }
    fn vx_src(self) -> (r: It<T>) { proof { lemma_pre_ends(self.seq()); } self.vx_cloned() }
}
impl<T> VxSrc<T> for [T; 2] {
    open spec fn src(&self) -> Seq<T> { self@ }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<T>) { unimplemented!() }
}
impl<T: Copy> VxSrc<T> for [T; 1] {
    open spec fn src(&self) -> Seq<T> { self@ }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<T>) { unimplemented!() }
}
impl<'a, K: Copy + Hash + Eq> VxSrc<K> for &'a FxHashSet<K> {
    open spec fn src(&self) -> Seq<K> { self.order() }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<K>) { unimplemented!() }
}
impl<'a, T: Copy> VxSrc<T> for &'a Vec<T> {
    open spec fn src(&self) -> Seq<T> { self@ }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<T>) { unimplemented!() }
}
impl VxSrc<u32> for core::ops::Range<u32> {
    open spec fn src(&self) -> Seq<u32> { urange(self.start, self.end) }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<u32>) { unimplemented!() }
}
impl VxSrc<usize> for core::ops::Range<usize> {
    open spec fn src(&self) -> Seq<usize> { zrange(self.start, self.end) }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<usize>) { unimplemented!() }
}
pub open spec fn urange(a: u32, b: u32) -> Seq<u32> { Seq::new(if a < b { (b - a) as nat } else { 0 }, |i: int| (a + i) as u32) }
pub open spec fn zrange(a: usize, b: usize) -> Seq<usize> { Seq::new(if a < b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
pub trait VxBorrow : Sized { fn vx_borrow(&self) -> (r: &Self) ensures *r == *self; }
impl VxBorrow for u32 { fn vx_borrow(&self) -> (r: &Self) { self } }
impl VxBorrow for (u32, u32) { fn vx_borrow(&self) -> (r: &Self) { self } }

pub trait VxDefault : Sized { spec fn dflt(r: Self) -> bool; fn vx_default() -> (r: Self) ensures Self::dflt(r); }

impl<T> VxDefault for Vec<T> {
    open spec fn dflt(r: Self) -> bool { r@ == Seq::<T>::empty() }
    fn vx_default() -> (r: Self) { let r = Vec::new(); proof { assert(r@ =~= Seq::<T>::empty()); } r }
}

// ---------------------------------------------------------------- FxHashSet
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
pub struct FxHashSet<K> { m: std::collections::HashSet<K> }
impl<K> View for FxHashSet<K> { type V = Set<K>; uninterp spec fn view(&self) -> Set<K>; }
impl<K> FxHashSet<K> {
    /// the (unspecified but fixed) order in which this set value is iterated
    pub uninterp spec fn order(&self) -> Seq<K>;
}
/// s lists exactly the elements of a, each once
pub open spec fn lists<K>(s: Seq<K>, a: Set<K>) -> bool { s.no_duplicates() && s.to_set() == a && s.len() == a.len() && forall|x: K| #[trigger] s.contains(x) <==> a.contains(x) }
#[verifier::external_body]
pub broadcast proof fn axiom_set_order<K>(s: FxHashSet<K>)
    ensures lists(#[trigger] s.order(), s@)
{ }
impl<K: Hash + Eq> VxSrc<K> for FxHashSet<K> {
    open spec fn src(&self) -> Seq<K> { self.order() }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<K>) { unimplemented!() }
}
/// machine assumption: a hash set held in memory has fewer than 2^31 elements
#[verifier::external_body]
pub broadcast proof fn axiom_set_mem<K>(s: FxHashSet<K>)
    ensures #[trigger] s@.len() < 0x8000_0000
{ }
impl<K: Hash + Eq> VxDefault for FxHashSet<K> {
    open spec fn dflt(r: Self) -> bool { r@ == Set::<K>::empty() }
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { unimplemented!() }
}
impl<K: Hash + Eq> FxHashSet<K> {
    #[verifier::external_body]
    pub fn contains(&self, k: &K) -> (r: bool) ensures r == self@.contains(*k) { self.m.contains(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K) -> (r: bool) ensures final(self)@ == old(self)@.insert(k), r == !old(self)@.contains(k) { self.m.insert(k) }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: bool) ensures final(self)@ == old(self)@.remove(*k), r == old(self)@.contains(*k) { self.m.remove(k) }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { self.m.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0), r == (self@ == Set::<K>::empty()) { self.m.is_empty() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: RIt<'a, K>) ensures r.pos() == 0, r.seq() == self.order(), lists(r.seq(), self@), pre(r.seq(), 0) == Set::<K>::empty() { unimplemented!() }
    pub fn vx_src<'a>(&'a self) -> (r: RIt<'a, K>) ensures r.pos() == 0, r.seq() == self.order(), lists(r.seq(), self@), pre(r.seq(), 0) == Set::<K>::empty() { self.vx_iter() }
    #[verifier::external_body]
    pub fn vx_extend<S: VxSrc<K>>(&mut self, s: S)
        requires s.src_ok()
        ensures forall|x: K| #[trigger] final(self)@.contains(x) <==> old(self)@.contains(x) || s.src().contains(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_retain<F: Fn(&K) -> bool>(&mut self, f: F)
        requires forall|x: &K| #[trigger] f.requires((x,))
        ensures forall|x: K| #[trigger] final(self)@.contains(x) ==> old(self)@.contains(x) && f.ensures((&x,), true),
            forall|x: K| #[trigger] old(self)@.contains(x) ==> final(self)@.contains(x) || f.ensures((&x,), false),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_intersection<'a>(&'a self, o: &'a Self) -> (r: RIt<'a, K>)
        ensures r.pos() == 0, pre(r.seq(), 0) == Set::<K>::empty(), r.seq().no_duplicates(), forall|x: K| #[trigger] r.seq().contains(x) <==> self@.contains(x) && o@.contains(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_difference<'a>(&'a self, o: &'a Self) -> (r: RIt<'a, K>)
        ensures r.pos() == 0, pre(r.seq(), 0) == Set::<K>::empty(), r.seq().no_duplicates(), forall|x: K| #[trigger] r.seq().contains(x) <==> self@.contains(x) && !o@.contains(x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_iter(self) -> (r: It<K>) ensures r.pos() == 0, lists(r.seq(), self@), pre(r.seq(), 0) == Set::<K>::empty() { unimplemented!() }
}

// ---------------------------------------------------------------- FxHashMap
#[verifier::external_body]
#[verifier::accept_recursive_types(V)]
#[verifier::reject_recursive_types(K)]
pub struct FxHashMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> View for FxHashMap<K, V> { type V = Map<K, V>; uninterp spec fn view(&self) -> Map<K, V>; }
impl<K, V> FxHashMap<K, V> {
    /// the (unspecified but fixed) order in which the keys of this map value are iterated
    pub uninterp spec fn order(&self) -> Seq<K>;
}
#[verifier::external_body]
pub broadcast proof fn axiom_map_order<K, V>(m: FxHashMap<K, V>)
    ensures lists(#[trigger] m.order(), m@.dom())
{ }
#[verifier::external_body]
pub broadcast proof fn axiom_map_mem<K, V>(m: FxHashMap<K, V>)
    ensures #[trigger] m@.dom().len() < 0x8000_0000
{ }
impl<K: Hash + Eq, V> VxDefault for FxHashMap<K, V> {
    open spec fn dflt(r: Self) -> bool { r@ == Map::<K, V>::empty() }
    #[verifier::external_body]
    fn vx_default() -> (r: Self) { unimplemented!() }
}
impl<K: Hash + Eq, V> FxHashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { self.m.contains_key(k) }
    #[verifier::external_body]
    pub fn get<'a>(&'a self, k: &K) -> (r: Option<&'a V>)
        ensures r.is_some() == self@.dom().contains(*k), r.is_some() ==> *r->0 == self@[*k]
    { self.m.get(k) }
    #[verifier::external_body]
    pub fn vx_get_mut<'a>(&'a mut self, k: &K) -> (r: Option<&'a mut V>)
        ensures r.is_some() == old(self)@.dom().contains(*k),
            r.is_some() ==> *r->0 == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(r->0)),
            r.is_none() ==> final(self)@ == old(self)@,
    { self.m.get_mut(k) }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v), r.is_some() == old(self)@.dom().contains(k), r.is_some() ==> r->0 == old(self)@[k]
    { self.m.insert(k, v) }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), r.is_some() == old(self)@.dom().contains(*k), r.is_some() ==> r->0 == old(self)@[*k]
    { self.m.remove(k) }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { self.m.len() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0), r == (self@ == Map::<K, V>::empty()) { self.m.is_empty() }
    #[verifier::external_body]
    pub fn vx_keys<'a>(&'a self) -> (r: RIt<'a, K>) ensures r.pos() == 0, r.seq() == self.order(), lists(r.seq(), self@.dom()), pre(r.seq(), 0) == Set::<K>::empty() { unimplemented!() }
    /// the keys of the map, for visiting every value mutably
    #[verifier::external_body]
    pub fn vx_key_list(&self) -> (r: It<K>) where K: Copy ensures r.pos() == 0, r.seq() == self.order(), lists(r.seq(), self@.dom()), pre(r.seq(), 0) == Set::<K>::empty() { unimplemented!() }
    pub fn entry<'a>(&'a mut self, k: K) -> (r: Entry<'a, K, V>)
        ensures *r.map == *old(self), r.key == k, *final(self) == *final(r.map)
    { Entry { map: self, key: k } }
}
#[verifier::reject_recursive_types(K)]
pub struct Entry<'a, K, V> { pub map: &'a mut FxHashMap<K, V>, pub key: K }
impl<'a, K: Hash + Eq, V> Entry<'a, K, V> {
    #[verifier::external_body]
    pub fn or_insert(self, v: V) -> (r: &'a mut V)
        ensures *r == (if old(self.map)@.dom().contains(self.key) { old(self.map)@[self.key] } else { v }),
            final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn or_default(self) -> (r: &'a mut V) where V: VxDefault
        ensures old(self.map)@.dom().contains(self.key) ==> *r == old(self.map)@[self.key],
            !old(self.map)@.dom().contains(self.key) ==> V::dflt(*r),
            final(self.map)@ == old(self.map)@.insert(self.key, *final(r)),
    { unimplemented!() }
}

/// `match map.entry(k) { Occupied(e) => .., Vacant(e) => .. }`
#[verifier::reject_recursive_types(K)]
pub enum VxEnt<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
pub use VxEnt::{Occupied, Vacant};
#[verifier::reject_recursive_types(K)]
pub struct OccupiedEntry<'a, K, V> { pub map: &'a mut FxHashMap<K, V>, pub key: K }
#[verifier::reject_recursive_types(K)]
pub struct VacantEntry<'a, K, V> { pub map: &'a mut FxHashMap<K, V>, pub key: K }
impl<K: Hash + Eq, V> FxHashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_match_entry<'a>(&'a mut self, k: K) -> (r: VxEnt<'a, K, V>)
        ensures match r { VxEnt::Occupied(e) => *e.map == *old(self) && e.key == k && old(self)@.dom().contains(k) && *final(self) == *final(e.map), VxEnt::Vacant(e) => *e.map == *old(self) && e.key == k && !old(self)@.dom().contains(k) && *final(self) == *final(e.map) }
    { unimplemented!() }
}
impl<'a, K: Hash + Eq, V> OccupiedEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn get<'b>(&'b self) -> (r: &'b V) requires self.map@.dom().contains(self.key) ensures *r == old(self.map)@[self.key] { unimplemented!() }
}
impl<'a, K: Hash + Eq, V> VacantEntry<'a, K, V> {
    #[verifier::external_body]
    pub fn insert(self, v: V) -> (r: &'a mut V) ensures *r == v, final(self.map)@ == old(self.map)@.insert(self.key, *final(r)) { unimplemented!() }
}

// ---------------------------------------------------------------- Vec
pub trait VxVec<T> {
    spec fn vv(&self) -> Seq<T>;
    fn vx_iter<'a>(&'a self) -> (r: RIt<'a, T>) ensures r.pos() == 0, r.seq() == self.vv(), pre(r.seq(), 0) == Set::<T>::empty();
    fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) ensures r.is_some() == (self.vv().len() > 0), r.is_some() ==> *r->0 == self.vv()[0];
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) ensures r.is_some() == (self.vv().len() > 0), r.is_some() ==> *r->0 == self.vv().last();
    fn vx_reverse(&mut self) ensures final(self).vv() == old(self).vv().reverse();
    fn vx_swap(&mut self, i: usize, j: usize)
        requires i < old(self).vv().len(), j < old(self).vv().len()
        ensures final(self).vv() == old(self).vv().update(i as int, old(self).vv()[j as int]).update(j as int, old(self).vv()[i as int]);
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy ensures r@ == self.vv();
}
impl<T> VxVec<T> for Vec<T> {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: RIt<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { unimplemented!() }
}

// ---------------------------------------------------------------- more of the containers
impl<K: Hash + Eq> PartialEqSpecImpl for FxHashSet<K> {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &FxHashSet<K>) -> bool { self@ == o@ }
}
impl<K: Hash + Eq> PartialEq for FxHashSet<K> {
    #[verifier::external_body]
    fn eq(&self, o: &FxHashSet<K>) -> bool { unimplemented!() }
}
impl<K: Hash + Eq, V: PartialEq> PartialEqSpecImpl for FxHashMap<K, V> {
    open spec fn obeys_eq_spec() -> bool { V::obeys_eq_spec() }
    open spec fn eq_spec(&self, o: &FxHashMap<K, V>) -> bool { self@.dom() == o@.dom() && forall|k: K| #[trigger] self@.dom().contains(k) ==> PartialEqSpec::eq_spec(&self@[k], &o@[k]) }
}
impl<K: Hash + Eq, V: PartialEq> PartialEq for FxHashMap<K, V> {
    #[verifier::external_body]
    fn eq(&self, o: &FxHashMap<K, V>) -> bool { unimplemented!() }
}
pub open spec fn vals<K, V>(m: Map<K, V>, o: Seq<K>) -> Seq<V> { o.map_values(|k: K| m[k]) }
/// the pairs of m in the order o of its keys
pub open spec fn pairs<K, V>(m: Map<K, V>, o: Seq<K>) -> Seq<(K, V)> { o.map_values(|k: K| (k, m[k])) }
impl<K: Hash + Eq, V> FxHashMap<K, V> {
    #[verifier::external_body]
    pub fn vx_iter<'a>(&'a self) -> (r: It<(&'a K, &'a V)>)
        ensures r.pos() == 0, r.seq().len() == self.order().len(), forall|i: int| 0 <= i < self.order().len() ==> #[trigger] r.seq()[i] == (&self.order()[i], &self@[self.order()[i]]),
            pre(r.seq(), 0) == Set::<(&'a K, &'a V)>::empty(), lists(self.order(), self@.dom()), pre(self.order(), 0) == Set::<K>::empty()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_values<'a>(&'a self) -> (r: RIt<'a, V>)
        ensures r.pos() == 0, r.seq() == vals(self@, self.order()), pre(r.seq(), 0) == Set::<V>::empty(), lists(self.order(), self@.dom())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_into_keys(self) -> (r: It<K>) ensures r.pos() == 0, r.seq() == self.order(), lists(r.seq(), self@.dom()), pre(r.seq(), 0) == Set::<K>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn clone(&self) -> (r: Self) where V: Copy ensures r@ == self@ { unimplemented!() }
}
impl<'a, K: Hash + Eq, V> VxSrc<(&'a K, &'a V)> for &'a FxHashMap<K, V> {
    open spec fn src(&self) -> Seq<(&'a K, &'a V)> { self.order().map_values(|k: K| (&k, &self@[k])) }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<(&'a K, &'a V)>) { unimplemented!() }
}
impl<K: Hash + Eq, V> VxSrc<(K, V)> for FxHashMap<K, V> {
    open spec fn src(&self) -> Seq<(K, V)> { pairs(self@, self.order()) }
    open spec fn src_ok(&self) -> bool { true }
    #[verifier::external_body]
    fn vx_src(self) -> (r: It<(K, V)>) { unimplemented!() }
}
pub trait VxOpt<T> : Sized {
    spec fn opt(&self) -> Option<T>;
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>)
        requires self.opt().is_some() ==> f.requires((self.opt()->0,))
        ensures r.is_some() == self.opt().is_some(), r.is_some() ==> f.ensures((self.opt()->0,), r->0);
}
impl<T> VxOpt<T> for Option<T> {
    open spec fn opt(&self) -> Option<T> { *self }
    fn vx_map<U, F: FnOnce(T) -> U>(self, f: F) -> (r: Option<U>) { match self { Some(x) => Some(f(x)), None => None } }
}
pub trait VxOptRef<T> : Sized {
    spec fn opr(&self) -> Option<T>;
    fn vx_cloned(self) -> (r: Option<T>) ensures r == self.opr();
    fn vx_copied(self) -> (r: Option<T>) ensures r == self.opr();
}
impl<'a, T: Copy> VxOptRef<T> for Option<&'a T> {
    open spec fn opr(&self) -> Option<T> { match *self { Some(x) => Some(*x), None => None } }
    fn vx_cloned(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
    fn vx_copied(self) -> (r: Option<T>) { match self { Some(x) => Some(*x), None => None } }
}
/// ordered keys
pub trait VxKey : Sized + Copy { spec fn kle(self, o: Self) -> bool; }
impl VxKey for u32 { open spec fn kle(self, o: Self) -> bool { self <= o } }
impl<'a, K: VxKey> VxKey for &'a K { open spec fn kle(self, o: Self) -> bool { (*self).kle(*o) } }
impl VxKey for usize { open spec fn kle(self, o: Self) -> bool { self <= o } }
/// x has a smallest key among the elements of s (keys given by the relation k)
pub open spec fn argmin<T, K: VxKey>(s: Seq<T>, x: T, k: spec_fn(T, K) -> bool) -> bool {
    s.contains(x) && exists|kx: K| #[trigger] k(x, kx) && forall|j: int| 0 <= j < s.len() ==> exists|kj: K| #[trigger] k(#[trigger] s[j], kj) && kx.kle(kj)
}
pub open spec fn argmax<T, K: VxKey>(s: Seq<T>, x: T, k: spec_fn(T, K) -> bool) -> bool {
    s.contains(x) && exists|kx: K| #[trigger] k(x, kx) && forall|j: int| 0 <= j < s.len() ==> exists|kj: K| #[trigger] k(#[trigger] s[j], kj) && kj.kle(kx)
}
/// r holds the elements of s, ascending in the key
pub open spec fn sorted_by<T, K: VxKey>(r: Seq<T>, k: spec_fn(T, K) -> bool) -> bool {
    forall|i: int, j: int| 0 <= i < j < r.len() ==> exists|ki: K, kj: K| #[trigger] k(#[trigger] r[i], ki) && #[trigger] k(#[trigger] r[j], kj) && ki.kle(kj)
}
pub open spec fn perm<T>(r: Seq<T>, s: Seq<T>) -> bool {
    r.len() == s.len() && r.to_multiset() == s.to_multiset() && (forall|x: T| #[trigger] r.contains(x) <==> s.contains(x)) && r.no_duplicates() == s.no_duplicates() && r.to_set() == s.to_set()
}
impl<T> It<T> {
    #[verifier::external_body]
    pub fn vx_min_by_key<K: VxKey, F: Fn(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] f.requires((&self.seq()[i],))
        ensures r.is_some() == (self.seq().len() > 0), r.is_some() ==> argmin(self.seq(), r->0, |x: T, k: K| f.ensures((&x,), k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_max_by_key<K: VxKey, F: Fn(&T) -> K>(self, f: F) -> (r: Option<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] f.requires((&self.seq()[i],))
        ensures r.is_some() == (self.seq().len() > 0), r.is_some() ==> argmax(self.seq(), r->0, |x: T, k: K| f.ensures((&x,), k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_sorted_by_key<K: VxKey, F: Fn(&T) -> K>(self, f: F) -> (r: It<T>)
        requires self.pos() == 0, forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] f.requires((&self.seq()[i],))
        ensures r.pos() == 0, perm(r.seq(), self.seq()), sorted_by(r.seq(), |x: T, k: K| f.ensures((&x,), k))
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: It<T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().skip(if n <= self.seq().len() { n as int } else { self.seq().len() as int }) { unimplemented!() }
}
impl<'a, T> It<&'a T> {
    /// an iterator over references made by a closure
    #[verifier::external_body]
    pub fn vx_box(self) -> (r: RIt<'a, T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq().len() == self.seq().len(), forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] r.seq()[i] == *self.seq()[i] { unimplemented!() }
}
impl It<u32> {
    #[verifier::external_body]
    pub fn vx_max(self) -> (r: Option<u32>)
        requires self.pos() == 0
        ensures r.is_some() == (self.seq().len() > 0), r.is_some() ==> self.seq().contains(r->0) && forall|i: int| 0 <= i < self.seq().len() ==> #[trigger] self.seq()[i] <= r->0
    { unimplemented!() }
}
impl<'a, T> RIt<'a, T> {
    #[verifier::external_body]
    pub fn vx_unique(self) -> (r: RIt<'a, T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq().no_duplicates(), forall|x: T| #[trigger] r.seq().contains(x) <==> self.seq().contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_copied(self) -> (r: It<T>) where T: Copy
        ensures r.seq() == self.seq().subrange(self.pos() as int, self.seq().len() as int), self.pos() == 0 ==> r.seq() == self.seq(), r.pos() == 0
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_rev(self) -> (r: RIt<'a, T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().reverse() { unimplemented!() }
    #[verifier::external_body]
    pub fn vx_skip(self, n: usize) -> (r: RIt<'a, T>) requires self.pos() == 0 ensures r.pos() == 0, r.seq() == self.seq().skip(if n <= self.seq().len() { n as int } else { self.seq().len() as int }) { unimplemented!() }
}
/// r lists every pair of elements of s at positions i < j
pub open spec fn all_pairs<'a, T>(s: Seq<T>, r: Seq<Vec<&'a T>>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k])@.len() == 2 && s.contains(*r[k]@[0]) && s.contains(*r[k]@[1]) && (s.no_duplicates() ==> *r[k]@[0] != *r[k]@[1])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> exists|k: int| 0 <= k < r.len() && *(#[trigger] r[k])@[0] == #[trigger] s[i] && *r[k]@[1] == #[trigger] s[j]
}
impl<'a, T> RIt<'a, T> {
    /// itertools' combinations, at k = 2
    #[verifier::external_body]
    pub fn vx_combinations(self, k: usize) -> (r: It<Vec<&'a T>>)
        requires self.pos() == 0, k == 2
        ensures r.pos() == 0, all_pairs(self.seq(), r.seq())
    { unimplemented!() }
}
pub open spec fn all_pairs_of<T>(s: Seq<T>, r: Seq<Vec<T>>) -> bool {
    &&& forall|k: int| 0 <= k < r.len() ==> (#[trigger] r[k])@.len() == 2 && s.contains(r[k]@[0]) && s.contains(r[k]@[1]) && (s.no_duplicates() ==> r[k]@[0] != r[k]@[1])
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> exists|k: int| 0 <= k < r.len() && (#[trigger] r[k])@[0] == #[trigger] s[i] && r[k]@[1] == #[trigger] s[j]
}
impl<T> It<T> {
    /// itertools' combinations, at k = 2
    #[verifier::external_body]
    pub fn vx_combinations(self, k: usize) -> (r: It<Vec<T>>)
        requires self.pos() == 0, k == 2
        ensures r.pos() == 0, all_pairs_of(self.seq(), r.seq())
    { unimplemented!() }
}
impl VxKey for i64 { open spec fn kle(self, o: Self) -> bool { self <= o } }
#[verifier::opaque]
pub open spec fn ascending(s: Seq<u32>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i] <= s[j] }
pub trait VxVecOrd {
    spec fn vo(&self) -> Seq<u32>;
    fn vx_sort_unstable(&mut self) ensures perm(final(self).vo(), old(self).vo()), ascending(final(self).vo());
}
impl VxVecOrd for Vec<u32> {
    open spec fn vo(&self) -> Seq<u32> { self@ }
    #[verifier::external_body]
    fn vx_sort_unstable(&mut self) { unimplemented!() }
}
pub trait VxVecMut<T> {
    spec fn vm(&self) -> Seq<T>;
    fn vx_append(&mut self, o: &mut Self) ensures final(self).vm() == old(self).vm() + old(o).vm(), final(o).vm() == Seq::<T>::empty();
    fn vx_sort_by_key<K: VxKey, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vm().len() ==> #[trigger] f.requires((&old(self).vm()[i],))
        ensures perm(final(self).vm(), old(self).vm()), sorted_by(final(self).vm(), |x: T, k: K| f.ensures((&x,), k));
    fn vx_sort_by_cached_key<K: VxKey, F: Fn(&T) -> K>(&mut self, f: F)
        requires forall|i: int| 0 <= i < old(self).vm().len() ==> #[trigger] f.requires((&old(self).vm()[i],))
        ensures perm(final(self).vm(), old(self).vm()), sorted_by(final(self).vm(), |x: T, k: K| f.ensures((&x,), k));
    fn vx_extend<S: VxSrc<T>>(&mut self, s: S)
        requires s.src_ok()
        ensures final(self).vm() == old(self).vm() + s.src();
}
impl<T> VxVecMut<T> for Vec<T> {
    open spec fn vm(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_append(&mut self, o: &mut Self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sort_by_key<K: VxKey, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vx_sort_by_cached_key<K: VxKey, F: Fn(&T) -> K>(&mut self, f: F) { unimplemented!() }
    #[verifier::external_body]
    fn vx_extend<S: VxSrc<T>>(&mut self, s: S) { unimplemented!() }
}
#[verifier::external_body]
pub fn vx_vec_from<T, const N: usize>(a: [T; N]) -> (r: Vec<T>) ensures r@ == a@ { unimplemented!() }
/// values that `vec![a; n]` can repeat: y is a copy of x
pub trait VxDup : Sized { spec fn dup(x: Self, y: Self) -> bool; }
impl VxDup for u32 { open spec fn dup(x: Self, y: Self) -> bool { x == y } }
impl VxDup for usize { open spec fn dup(x: Self, y: Self) -> bool { x == y } }
impl VxDup for bool { open spec fn dup(x: Self, y: Self) -> bool { x == y } }
impl<K> VxDup for FxHashSet<K> { open spec fn dup(x: Self, y: Self) -> bool { x@ == y@ } }
impl<T> VxDup for Vec<T> { open spec fn dup(x: Self, y: Self) -> bool { x@.len() == 0 && y@ == x@ } }
#[verifier::external_body]
pub fn vx_vec_repeat<T: VxDup>(a: T, n: usize) -> (r: Vec<T>) ensures r@.len() == n, forall|i: int| 0 <= i < n ==> T::dup(a, #[trigger] r@[i]) { unimplemented!() }
/// concatenation of the sequences in s
pub open spec fn flat<T>(s: Seq<Seq<T>>) -> Seq<T> decreases s.len() { if s.len() == 0 { Seq::empty() } else { flat(s.drop_last()) + s.last() } }
/// sum of the numbers in s
pub open spec fn usum(s: Seq<u32>) -> nat decreases s.len() { if s.len() == 0 { 0 } else { usum(s.drop_last()) + s.last() as nat } }
impl<'a, T> RIt<'a, T> {
    #[verifier::external_body]
    pub fn vx_flat_map<U, F: Fn(&'a T) -> RIt<'a, U>>(self, f: F) -> (r: RIt<'a, U>)
        requires self.pos() == 0, forall|x: &T| #[trigger] f.requires((x,))
        ensures r.pos() == 0, exists|p: Seq<Seq<U>>| flat_of(self.seq(), p, |x: T, y: RIt<'a, U>| f.ensures((&x,), y)) && r.seq() == #[trigger] flat(p)
    { unimplemented!() }
}
/// p[i] is what the iterator made from s[i] lists
pub open spec fn flat_of<'a, T, U>(s: Seq<T>, p: Seq<Seq<U>>, f: spec_fn(T, RIt<'a, U>) -> bool) -> bool {
    p.len() == s.len() && forall|i: int| 0 <= i < s.len() ==> exists|y: RIt<'a, U>| f(s[i], y) && y.pos() == 0 && #[trigger] y.seq() == #[trigger] p[i]
}
impl<'a> RIt<'a, u32> {
    /// the sum must fit in 32 bits
    #[verifier::external_body]
    pub fn vx_sum1<S>(self) -> (r: Option<u32>)
        requires self.pos() == 0, usum(self.seq()) <= u32::MAX
        ensures r.is_some() == (self.seq().len() > 0), r.is_some() ==> r->0 == usum(self.seq())
    { unimplemented!() }
}
/// the vector grown (or cut) to n elements
pub trait VxResize<T: VxDup> { 
    spec fn rz(&self) -> Seq<T>;
    fn vx_resize(&mut self, n: usize, x: T)
        ensures final(self).rz().len() == n, forall|i: int| 0 <= i < n && i < old(self).rz().len() ==> #[trigger] final(self).rz()[i] == old(self).rz()[i],
            forall|i: int| old(self).rz().len() <= i < n ==> T::dup(x, #[trigger] final(self).rz()[i]);
}
impl<T: VxDup> VxResize<T> for Vec<T> {
    open spec fn rz(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_resize(&mut self, n: usize, x: T) { unimplemented!() }
}
/// r lists the pairs of elements of s at positions i < j
#[verifier::opaque]
pub open spec fn pairs2a<T>(s: Seq<T>, r: Seq<(&T, &T)>) -> bool { forall|k: int| 0 <= k < r.len() ==> exists|i: int, j: int| 0 <= i < j < s.len() && *(#[trigger] r[k]).0 == #[trigger] s[i] && *r[k].1 == #[trigger] s[j] }
#[verifier::opaque]
pub open spec fn pairs2b<T>(s: Seq<T>, r: Seq<(&T, &T)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> exists|k: int| 0 <= k < r.len() && *(#[trigger] r[k]).0 == #[trigger] s[i] && *r[k].1 == #[trigger] s[j] }
pub open spec fn pairs2<T>(s: Seq<T>, r: Seq<(&T, &T)>) -> bool { pairs2a(s, r) && pairs2b(s, r) }
pub proof fn lemma_pair_at<T>(s: Seq<T>, r: Seq<(&T, &T)>, k: int)
    requires pairs2(s, r), 0 <= k < r.len()
    ensures s.contains(*r[k].0), s.contains(*r[k].1), s.no_duplicates() ==> *r[k].0 != *r[k].1
{ reveal(pairs2a); let q = r[k]; let (i, j) = choose|i: int, j: int| 0 <= i < j < s.len() && *q.0 == #[trigger] s[i] && *q.1 == #[trigger] s[j]; assert(s[i] == *q.0 && s[j] == *q.1); }
pub proof fn lemma_pair_of<T>(s: Seq<T>, r: Seq<(&T, &T)>, x: T, y: T) -> (k: int)
    requires pairs2(s, r), s.contains(x), s.contains(y), x != y
    ensures 0 <= k < r.len(), (*r[k].0 == x && *r[k].1 == y) || (*r[k].0 == y && *r[k].1 == x)
{
    reveal(pairs2b); let i = s.index_of(x); let j = s.index_of(y); assert(s[i] == x && s[j] == y);
    if i < j { choose|k: int| 0 <= k < r.len() && *(#[trigger] r[k]).0 == s[i] && *r[k].1 == s[j] } else { choose|k: int| 0 <= k < r.len() && *(#[trigger] r[k]).0 == s[j] && *r[k].1 == s[i] }
}
impl<T: Copy> It<T> {
    // the vector holds references in the code; the pairs point to the same elements
    #[verifier::external_body]
    pub fn vx_tuple_combinations<'a>(self) -> (r: It<(&'a T, &'a T)>) requires self.pos() == 0 ensures r.pos() == 0, pairs2(self.seq(), r.seq()) { unimplemented!() }
}
pub trait VxSatPow : Sized { fn vx_saturating_pow(self, e: u32) -> Self; }
impl VxSatPow for u32 {
    #[verifier::external_body]
    fn vx_saturating_pow(self, e: u32) -> (r: u32) { self.saturating_pow(e) }
}
pub trait VxSplit<T> : Sized {
    spec fn sp(&self) -> Seq<T>;
    /// the two halves; slices keep their length
    fn vx_split_at_mut<'a>(&'a mut self, k: usize) -> (r: (&'a mut Vec<T>, &'a mut Vec<T>))
        requires k <= old(self).sp().len()
        ensures (*r.0)@ == old(self).sp().take(k as int), (*r.1)@ == old(self).sp().skip(k as int), (*final(r.0))@.len() == k && (*final(r.1))@.len() == old(self).sp().len() - k ==> final(self).sp() == (*final(r.0))@ + (*final(r.1))@;
}
impl<T> VxSplit<T> for Vec<T> {
    open spec fn sp(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_split_at_mut<'a>(&'a mut self, k: usize) -> (r: (&'a mut Vec<T>, &'a mut Vec<T>)) { unimplemented!() }
}
pub trait VxGetMut<T> : Sized {
    spec fn gm(&self) -> Seq<T>;
    fn vx_get_mut<'a>(&'a mut self, k: usize) -> (r: Option<&'a mut T>)
        ensures r.is_some() == (k < old(self).gm().len()), r.is_some() ==> *(r->0) == old(self).gm()[k as int] && final(self).gm() == old(self).gm().update(k as int, *final(r->0)), r.is_none() ==> final(self).gm() == old(self).gm();
}
impl<T> VxGetMut<T> for Vec<T> {
    open spec fn gm(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_get_mut<'a>(&'a mut self, k: usize) -> (r: Option<&'a mut T>) { unimplemented!() }
}
/// a..=b
pub trait VxIncl : Sized { fn vx_incl(a: Self, b: Self) -> (r: It<Self>) ensures r.pos() == 0, r.seq() == Self::iseq(a, b); spec fn iseq(a: Self, b: Self) -> Seq<Self>; }
impl VxIncl for u32 {
    open spec fn iseq(a: Self, b: Self) -> Seq<Self> { Seq::new(if a <= b { (b - a + 1) as nat } else { 0 }, |i: int| (a + i) as u32) }
    #[verifier::external_body]
    fn vx_incl(a: Self, b: Self) -> (r: It<Self>) { unimplemented!() }
}
impl VxIncl for usize {
    open spec fn iseq(a: Self, b: Self) -> Seq<Self> { Seq::new(if a <= b { (b - a + 1) as nat } else { 0 }, |i: int| (a + i) as usize) }
    #[verifier::external_body]
    fn vx_incl(a: Self, b: Self) -> (r: It<Self>) { unimplemented!() }
}
pub fn vx_incl<T: VxIncl>(a: T, b: T) -> (r: It<T>) ensures r.pos() == 0, r.seq() == T::iseq(a, b) { T::vx_incl(a, b) }
#[verifier::external_body]
pub fn vx_once<T>(a: T) -> (r: It<T>) ensures r.pos() == 0, r.seq() == seq![a] { unimplemented!() }

/// iter::empty over references
#[verifier::external_body]
pub fn vx_empty<'a, T>() -> (r: RIt<'a, T>) ensures r.pos() == 0, r.seq() == Seq::<T>::empty() { unimplemented!() }
/// num::Integer at u32
pub trait VxInt : Sized { fn zero() -> Self; spec fn vi(&self) -> int; fn vx_inc(&mut self) requires old(self).vi() < 0xffff_ffff ensures final(self).vi() == old(self).vi() + 1; }
impl VxInt for u32 {
    open spec fn vi(&self) -> int { *self as int }
    fn zero() -> (r: Self) ensures r == 0 { 0 }
    fn vx_inc(&mut self) { *self = *self + 1; }
}

// ---------------------------------------------------------------- slices and unchecked access
impl<T> VxVec<T> for [T] {
    open spec fn vv(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_iter<'a>(&'a self) -> (r: RIt<'a, T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_first<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_last<'a>(&'a self) -> (r: Option<&'a T>) { unimplemented!() }
    #[verifier::external_body]
    fn vx_reverse(&mut self) { unimplemented!() }
    #[verifier::external_body]
    fn vx_swap(&mut self, i: usize, j: usize) { unimplemented!() }
    #[verifier::external_body]
    fn vx_to_vec(&self) -> (r: Vec<T>) where T: Copy { unimplemented!() }
}
/// unchecked access: being in bounds is an obligation of the caller
pub trait VxUnchecked<I> {
    type UOut: ?Sized;
    spec fn un_req(&self, i: I) -> bool;
    spec fn un_val(&self, i: I, r: &Self::UOut) -> bool;
    fn vx_get_unchecked<'a>(&'a self, i: I) -> (r: &'a Self::UOut) requires self.un_req(i) ensures self.un_val(i, r);
}
impl<T> VxUnchecked<usize> for Vec<T> {
    type UOut = T;
    open spec fn un_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn un_val(&self, i: usize, r: &T) -> bool { *r == self@[i as int] }
    #[verifier::external_body]
    fn vx_get_unchecked<'a>(&'a self, i: usize) -> (r: &'a T) { unimplemented!() }
}
impl<T> VxUnchecked<core::ops::Range<usize>> for Vec<T> {
    type UOut = [T];
    open spec fn un_req(&self, i: core::ops::Range<usize>) -> bool { i.start <= i.end && i.end <= self@.len() }
    open spec fn un_val(&self, i: core::ops::Range<usize>, r: &[T]) -> bool { r@ == self@.subrange(i.start as int, i.end as int) }
    #[verifier::external_body]
    fn vx_get_unchecked<'a>(&'a self, i: core::ops::Range<usize>) -> (r: &'a [T]) { unimplemented!() }
}
pub trait VxUncheckedMut<I> {
    type UMut;
    spec fn um_req(&self, i: I) -> bool;
    spec fn um_old(&self, i: I, x: Self::UMut) -> bool;
    spec fn um_new(o: &Self, n: &Self, i: I, x: Self::UMut) -> bool;
    fn vx_get_unchecked_mut<'a>(&'a mut self, i: I) -> (r: &'a mut Self::UMut) requires old(self).um_req(i) ensures old(self).um_old(i, *r), Self::um_new(old(self), final(self), i, *final(r));
}
impl<T> VxUncheckedMut<usize> for Vec<T> {
    type UMut = T;
    open spec fn um_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn um_old(&self, i: usize, x: T) -> bool { x == self@[i as int] }
    open spec fn um_new(o: &Self, n: &Self, i: usize, x: T) -> bool { n@ == o@.update(i as int, x) }
    #[verifier::external_body]
    fn vx_get_unchecked_mut<'a>(&'a mut self, i: usize) -> (r: &'a mut T) { unimplemented!() }
}
/// the borrowed range is a vector of unchanged length
impl<T> VxUncheckedMut<core::ops::Range<usize>> for Vec<T> {
    type UMut = Vec<T>;
    open spec fn um_req(&self, i: core::ops::Range<usize>) -> bool { i.start <= i.end && i.end <= self@.len() }
    open spec fn um_old(&self, i: core::ops::Range<usize>, x: Vec<T>) -> bool { x@ == self@.subrange(i.start as int, i.end as int) }
    open spec fn um_new(o: &Self, n: &Self, i: core::ops::Range<usize>, x: Vec<T>) -> bool { x@.len() == i.end - i.start ==> n@ == o@.subrange(0, i.start as int) + x@ + o@.subrange(i.end as int, o@.len() as int) }
    #[verifier::external_body]
    fn vx_get_unchecked_mut<'a>(&'a mut self, i: core::ops::Range<usize>) -> (r: &'a mut Vec<T>) { unimplemented!() }
}
pub trait VxSlice<T> : Sized {
    spec fn sl(&self) -> Seq<T>;
    fn vx_clone_from_slice(&mut self, o: &Self) requires old(self).sl().len() == o.sl().len() ensures final(self).sl() == o.sl();
}
impl<T: Copy> VxSlice<T> for Vec<T> {
    open spec fn sl(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vx_clone_from_slice(&mut self, o: &Self) { unimplemented!() }
}
/// lexicographic order of pairs, ascending
#[verifier::opaque]
pub open spec fn asc2(s: Seq<(usize, u32)>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> s[i].0 < s[j].0 || (s[i].0 == s[j].0 && s[i].1 <= s[j].1) }
pub trait VxVecOrd2 {
    spec fn vo2(&self) -> Seq<(usize, u32)>;
    fn vx_sort_unstable(&mut self) ensures perm(final(self).vo2(), old(self).vo2()), asc2(final(self).vo2());
}
impl VxVecOrd2 for Vec<(usize, u32)> {
    open spec fn vo2(&self) -> Seq<(usize, u32)> { self@ }
    #[verifier::external_body]
    fn vx_sort_unstable(&mut self) { unimplemented!() }
}
impl<'a, T> RIt<'a, T> {
    #[verifier::external_body]
    pub fn from_refs(v: Vec<&'a T>) -> (r: Self) ensures r.pos() == 0, r.seq().len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] r.seq()[i] == *v@[i] { unimplemented!() }
}

// ---------------------------------------------------------------- indexing
pub trait VxIndex<I> {
    type Out: ?Sized;
    spec fn ix_req(&self, i: I) -> bool;
    spec fn ix_val(&self, i: I, r: &Self::Out) -> bool;
    fn vx_index<'a>(&'a self, i: I) -> (r: &'a Self::Out) requires self.ix_req(i) ensures self.ix_val(i, r);
}
impl<K: Hash + Eq, V> VxIndex<&K> for FxHashMap<K, V> {
    type Out = V;
    open spec fn ix_req(&self, i: &K) -> bool { self@.dom().contains(*i) }
    open spec fn ix_val(&self, i: &K, r: &V) -> bool { *r == self@[*i] }
    fn vx_index<'a>(&'a self, i: &K) -> (r: &'a V) { proof { assert(<Self as VxIndex<&K>>::ix_req(self, i)); assert(self@.dom().contains(*i)); } let r = self.get(i).unwrap(); assert(<Self as VxIndex<&K>>::ix_val(self, i, r)); r }
}
pub trait VxIndexMut<I> {
    type Mut;
    spec fn im_req(&self, i: I) -> bool;
    spec fn im_old(&self, i: I) -> Self::Mut;
    spec fn im_new(o: &Self, n: &Self, i: I, x: Self::Mut) -> bool;
    fn vx_index_mut<'a>(&'a mut self, i: I) -> (r: &'a mut Self::Mut) requires old(self).im_req(i) ensures *r == old(self).im_old(i), Self::im_new(old(self), final(self), i, *final(r));
}
impl<V> VxIndexMut<usize> for Vec<V> {
    type Mut = V;
    open spec fn im_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn im_old(&self, i: usize) -> V { self@[i as int] }
    open spec fn im_new(o: &Self, n: &Self, i: usize, x: V) -> bool { n@ == o@.update(i as int, x) }
    #[verifier::external_body]
    fn vx_index_mut<'a>(&'a mut self, i: usize) -> (r: &'a mut V) { unimplemented!() }
}
impl<V> VxIndex<usize> for Vec<V> {
    type Out = V;
    open spec fn ix_req(&self, i: usize) -> bool { i < self@.len() }
    open spec fn ix_val(&self, i: usize, r: &V) -> bool { *r == self@[i as int] }
    fn vx_index<'a>(&'a self, i: usize) -> (r: &'a V) { assert(<Self as VxIndex<usize>>::ix_req(self, i)); assert(i < self@.len()); let r = &self[i]; assert(<Self as VxIndex<usize>>::ix_val(self, i, r)); r }
}
} // verus!
} // mod vxp
use vstd::prelude::*;
use vxp::*;
use std::hash::Hash;
verus! {
global size_of usize == 8;
broadcast use {vxp::axiom_set_order, vxp::axiom_set_mem, vxp::axiom_map_order, vxp::axiom_map_mem, vxp::lemma_seq_index_contains};
} // verus!
