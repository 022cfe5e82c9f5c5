// ---- panics and process exit are obligations / divergence
pub fn vmin(a: usize, b: usize) -> (r: usize) ensures r == (if a < b { a } else { b }) { if a < b { a } else { b } }
//@if P13
// what follows an assertion or an unwrap only runs when it held: a panic is a refusal
#[verifier::external_body]
pub fn vassert(b: bool) ensures b { assert!(b) }
#[verifier::external_body]
pub fn vpanic() -> ! { unimplemented!() }
pub trait VUnwrap<T> { spec fn good(self) -> bool; spec fn val(self) -> T; fn vunwrap(self) -> (r: T) where Self: Sized ensures self.good(), r == self.val(); }
impl<T> VUnwrap<T> for Option<T> { open spec fn good(self) -> bool { self is Some } open spec fn val(self) -> T { self->0 } #[verifier::external_body] fn vunwrap(self) -> (r: T) { self.unwrap() } }
impl<T, E> VUnwrap<T> for core::result::Result<T, E> { open spec fn good(self) -> bool { self is Ok } open spec fn val(self) -> T { self->Ok_0 } #[verifier::external_body] fn vunwrap(self) -> (r: T) { unimplemented!() } }
#[verifier::external_body]
pub fn vix<E>(v: &Vec<E>, i: usize) -> (r: &E) ensures i < v@.len(), *r == v@[i as int] { &v[i] }
#[verifier::external_body]
pub fn vixm<E>(v: &mut Vec<E>, i: usize) -> (r: &mut E) ensures i < old(v)@.len() { &mut v[i] }
//@else
pub fn vassert(b: bool) requires b {}
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
//@endif
#[verifier::external_body]
pub fn vexit() -> ! { std::process::exit(1) }
#[verifier::external_body]
pub fn vlog_enabled() -> bool { unimplemented!() }

// an arbitrary value, overwritten before it is used
#[verifier::external_body]
pub fn varb<T>() -> T { unimplemented!() }

// ---- containers of the standard library / hashbrown, with assumed contracts   [assumption: containers]
// The order of a heap is the Ord of its elements (the ordering functions themselves are under contract).
pub trait HeapOrd { spec fn okey(&self) -> int; spec fn onan(&self) -> bool; }
#[verifier::external_body]
#[verifier::reject_recursive_types(E)]
pub struct BinaryHeap<E: HeapOrd> { x: Vec<E> }
pub open spec fn is_perm(n: int, p: Seq<int>, q: Seq<int>) -> bool {
    p.len() == n && q.len() == n
    && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n && q[p[i]] == i)
    && (forall|i: int| 0 <= i < n ==> 0 <= #[trigger] q[i] < n && p[q[i]] == i)
}
pub open spec fn perm_of<E>(a: Seq<E>, b: Seq<E>) -> bool {
    a.len() == b.len() && exists|p: Seq<int>, q: Seq<int>| #[trigger] is_perm(a.len() as int, p, q)
      && (forall|i: int| #![trigger a[i]] 0 <= i < a.len() ==> a[i] == b[p[i]])
      && (forall|i: int| #![trigger b[i]] 0 <= i < a.len() ==> b[i] == a[q[i]])
}
pub open spec fn derefs<E>(s: Seq<&E>) -> Seq<E> { Seq::new(s.len(), |i: int| *s[i]) }
// The view of a heap is the bag of its elements, kept as a sequence in no meaningful order.
impl<E: HeapOrd> BinaryHeap<E> {
    pub uninterp spec fn view(&self) -> Seq<E>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<E>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Seq::<E>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, e: E)
        requires !e.onan(),
        ensures final(self)@ == old(self)@.push(e)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<E>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn pop(&mut self) -> (r: Option<E>)
        ensures
            old(self)@.len() == 0 ==> r.is_none() && final(self)@ == old(self)@,
            old(self)@.len() > 0 ==> r.is_some() && exists|i: int| 0 <= i < old(self)@.len() && r == Some(#[trigger] old(self)@[i]) && final(self)@ == old(self)@.remove(i),
            old(self)@.len() > 0 ==> forall|i: int| 0 <= i < old(self)@.len() ==> (#[trigger] old(self)@[i]).okey() <= r->0.okey(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn peek(&self) -> (r: Option<&E>)
        ensures
            self@.len() == 0 ==> r.is_none(),
            self@.len() > 0 ==> r.is_some() && exists|i: int| 0 <= i < self@.len() && *r->0 == #[trigger] self@[i],
            self@.len() > 0 ==> forall|i: int| 0 <= i < self@.len() ==> (#[trigger] self@[i]).okey() <= r->0.okey(),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn into_sorted_vec(self) -> (r: Vec<E>)
        ensures perm_of(r@, self@),
            forall|i: int, j: int| 0 <= i <= j < r@.len() ==> (#[trigger] r@[i]).okey() <= (#[trigger] r@[j]).okey()
    { unimplemented!() }
    // iteration in unspecified order
    #[verifier::external_body]
    pub fn iter(&self) -> (r: std::slice::Iter<'_, E>)
        ensures derefs(vstd::std_specs::iter::IteratorSpec::remaining(&r)).to_multiset() == self@.to_multiset(), perm_of(derefs(vstd::std_specs::iter::IteratorSpec::remaining(&r)), self@),
    { unimplemented!() }
}

#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::reject_recursive_types(V)]
pub struct HashMap<K, V> { k: Vec<K>, v: Vec<V> }
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            r == (if old(self)@.dom().contains(k) { Some(old(self)@[k]) } else { None })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn iter(&self) -> (r: std::slice::Iter<'_, (K, V)>)
        ensures map_entries(vstd::std_specs::iter::IteratorSpec::remaining(&r), self@), vstd::std_specs::iter::IteratorSpec::remaining(&r).len() <= usize::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures r.is_some() == self@.dom().contains(*k), r.is_some() ==> *r->0 == self@[*k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_key_value(&self, k: &K) -> (r: Option<(&K, &V)>)
        ensures r.is_some() == self@.dom().contains(*k), r.is_some() ==> *(r->0).0 == *k && *(r->0).1 == self@[*k]
    { unimplemented!() }
}

// the entries of a map, each once, in no meaningful order
pub open spec fn map_entries<K, V>(s: Seq<&(K, V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains((#[trigger] s[i]).0) && m[s[i].0] == s[i].1
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).0 != (#[trigger] s[j]).0
    &&& forall|k: K| #[trigger] m.dom().contains(k) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
}
// Iterator::any
pub open spec fn vk(k: int) -> bool { true }
#[verifier::external_body]
pub fn vany<'a, E, F: Fn(&'a E) -> bool>(i: std::slice::Iter<'a, E>, f: F) -> (r: bool)
    requires forall|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() ==> f.requires((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],))
    ensures r ==> exists|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() && f.ensures((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],), true),
        !r ==> forall|k: int| #![trigger vk(k)] #![trigger vstd::std_specs::iter::IteratorSpec::remaining(&i)[k]] 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() ==> f.ensures((vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],), false)
{ let mut i = i; i.any(f) }
// Iterator::position
#[verifier::external_body]
pub fn vposition<'a, E, F: Fn(&'a E) -> bool>(i: std::slice::Iter<'a, E>, f: F) -> (r: Option<usize>)
    requires forall|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() ==> f.requires((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],))
    ensures r.is_some() ==> 0 <= r->0 < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() && f.ensures((vstd::std_specs::iter::IteratorSpec::remaining(&i)[r->0 as int],), true),
        forall|k: int| #![trigger vk(k)] #![trigger vstd::std_specs::iter::IteratorSpec::remaining(&i)[k]] 0 <= k < (if r.is_some() { r->0 as int } else { vstd::std_specs::iter::IteratorSpec::remaining(&i).len() as int })
            ==> f.ensures((vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],), false)
{ let mut i = i; i.position(f) }
// Iterator::map followed by collect: the results of the function, in order   [assumption: containers]
#[verifier::external_body]
pub fn vmap_collect<'a, E, N, F: Fn(&'a E) -> N>(i: std::slice::Iter<'a, E>, f: F) -> (r: Vec<N>)
    requires forall|k: int| 0 <= k < vstd::std_specs::iter::IteratorSpec::remaining(&i).len() ==> f.requires((#[trigger] vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],))
    ensures r@.len() == vstd::std_specs::iter::IteratorSpec::remaining(&i).len(), forall|k: int| #![trigger r@[k]] 0 <= k < r@.len() ==> f.ensures((vstd::std_specs::iter::IteratorSpec::remaining(&i)[k],), r@[k])
{ i.map(f).collect() }

// slice::binary_search   [assumption: containers]
#[verifier::external_body]
pub fn vbinary_search(s: &[usize], x: &usize) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| 0 <= i <= j < s@.len() ==> s@[i] <= s@[j]
    ensures r is Ok == s@.contains(*x), r is Ok ==> r->Ok_0 < s@.len() && s@[r->Ok_0 as int] == *x
{ s.binary_search(x) }
// slice::sort / sort_unstable: the same elements, in the order of Ord (which panics on NaN)
#[verifier::external_body]
pub fn vsort<E: HeapOrd>(v: &mut Vec<E>)
//@if !P13
    requires forall|i: int| 0 <= i < old(v)@.len() ==> !(#[trigger] old(v)@[i]).onan()
//@endif
    ensures final(v)@.to_multiset() == old(v)@.to_multiset(), perm_of(final(v)@, old(v)@),
        forall|i: int, j: int| 0 <= i <= j < final(v)@.len() ==> (#[trigger] final(v)@[i]).okey() <= (#[trigger] final(v)@[j]).okey()
{ unimplemented!() }
// clone of a vector of plain data or of shared pointers
#[verifier::external_body]
pub fn vclone_from<E: Clone>(v: &mut Vec<E>, w: &Vec<E>) ensures final(v)@ == w@ { v.clone_from(w) }
pub trait VCl: Sized {
    spec fn copy_of(self, o: Self) -> bool;
    fn vcl(&self) -> (r: Self) ensures r.copy_of(*self);
}
impl<E: Clone> VCl for Vec<E> {
    open spec fn copy_of(self, o: Self) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vcl(&self) -> (r: Self) { self.clone() }
}
impl<E: Clone> VCl for Option<E> {
    open spec fn copy_of(self, o: Self) -> bool { self == o }
    #[verifier::external_body]
    fn vcl(&self) -> (r: Self) { self.clone() }
}
impl<E> VCl for Arc<E> {
    open spec fn copy_of(self, o: Self) -> bool { self == o }
    #[verifier::external_body]
    fn vcl(&self) -> (r: Self) { self.clone() }
}
