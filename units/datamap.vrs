#![allow(unused)]
use vstd::prelude::*;
//@mode io
//@sub? . to_string ( ) => .vstring()
//@sub? . copy_from_slice => .vcopy_from
//@sub? . as_ptr ( ) as * const T => .vptr()
//@sub? std :: slice :: from_raw_parts => vraw_parts::<T>
//@sub? std :: mem :: size_of :: < T > ( ) => vsize_of::<T>()
//@sub? . try_into ( ) => .vtry()
//@sub? BufReader :: new ( $x ) => VRead::vnew($x)
//@sub? std :: fs :: metadata ( $x ) => vmetadata($x)
//@sub? std :: any :: type_name :: < T > ( ) => vtype_name::<T>()
//@sub? hnswio :: load_description => load_description
//@sub? & mut dyn Read => &mut VRead
//@sub? indexmap :: map :: Keys < DataId , usize > => VKeys
//@sub? . collect :: < Vec < & str > > ( ) => .collect()
//@sub? Vec < & str > => Vec<VStr>
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
global size_of usize == 8;
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include pre_io.vrs
//@include pre_tostring.vrs
//@include pre_rng.vrs
//@include types.vrs
//@const src/hnswio.rs MAGICPOINT
//@const src/hnswio.rs MAGICDESCR_2
//@const src/hnswio.rs MAGICDESCR_3
//@const src/hnswio.rs MAGICDESCR_4
//@const src/hnswio.rs MAGICLAYER
//@const src/hnswio.rs MAGICDATAP
//@struct src/hnswio.rs Description
//@include spec_io.vrs
//@include spec_dump.vrs
//@include spec_map.vrs
// ---- memory maps   [assumption: mmap]
// (a piece of mapped memory: its bytes and its address)
#[verifier::external_body]
#[derive(Clone, Copy)]
pub struct VSl<'a> { x: &'a [u8] }
impl<'a> VSl<'a> {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    pub uninterp spec fn addr(&self) -> int;
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    pub fn vptr(&self) -> (r: VSl<'a>) ensures r == *self { *self }
}
impl<'a> VBytes for VSl<'a> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vsub<'a>(x: VSl<'a>, a: usize, b: usize) -> (r: VSl<'a>) requires a <= b <= x@.len() ensures r@ == x@.subrange(a as int, b as int), r.addr() == x.addr() + a { unimplemented!() }
#[verifier::external_body]
pub fn vsubfrom<'a>(x: VSl<'a>, a: usize) -> (r: VSl<'a>) requires a <= x@.len() ensures r@ == x@.skip(a as int), r.addr() == x.addr() + a { unimplemented!() }
#[verifier::external_body]
pub fn vsubto<'a>(x: VSl<'a>, b: usize) -> (r: VSl<'a>) requires b <= x@.len() ensures r@ == x@.take(b as int), r.addr() == x.addr() { unimplemented!() }
pub trait VCopyFrom { spec fn seq(&self) -> Seq<u8>; fn vcopy_from(&mut self, s: VSl<'_>) requires s@.len() == old(self).seq().len() ensures final(self).seq() == s@; }
impl<const N: usize> VCopyFrom for [u8; N] {
    open spec fn seq(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vcopy_from(&mut self, s: VSl<'_>) { unimplemented!() }
}
// a vector in mapped memory: n elements of T from there on   [assumption: plain-data]
#[verifier::external_body]
pub fn vraw_parts<'a, T>(p: VSl<'a>, n: usize) -> (r: &'a [T])
    requires n * size_of_t::<T>() <= p@.len(), p.addr() % align_of_t::<T>() == 0
    ensures r@.len() == n, raw_of(r@) == p@.take(n * size_of_t::<T>())
{ unimplemented!() }
pub trait VTry: Sized { spec fn ok(self, r: usize) -> bool; fn vtry(self) -> (r: Result<usize>) ensures r is Ok, self.ok(r->Ok_0); }
impl VTry for u64 { open spec fn ok(self, r: usize) -> bool { r == self } fn vtry(self) -> (r: Result<usize>) { Ok(self as usize) } }
#[verifier::external_body]
pub struct Mmap { x: u8 }
impl Mmap {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn size(&self) -> (r: usize) ensures r == self.b().len() { unimplemented!() }
    // (a map starts at the start of a page)
    #[verifier::external_body]
    pub fn as_slice(&self) -> (r: VSl<'_>) ensures r@ == self.b(), r.addr() % 4096 == 0 { unimplemented!() }
}
pub struct MmapOptions { pub n: usize, pub off: u64, pub f: Ghost<Option<Seq<u8>>> }
impl MmapOptions {
    pub fn new(n: usize) -> (r: Result<MmapOptions>) ensures n > 0 ==> r is Ok && r->Ok_0 == (MmapOptions { n: n, off: 0, f: Ghost(None) }) { if n > 0 { Ok(MmapOptions { n: n, off: 0, f: Ghost(None) }) } else { Err(vanyhow()) } }
    pub fn with_file(self, f: &File, off: u64) -> (r: MmapOptions) ensures r == (MmapOptions { n: self.n, off: off, f: Ghost(Some(content(f.path()))) }) { MmapOptions { n: self.n, off: off, f: Ghost(Some(content(f.path()))) } }
    // (reading past the end of the file is not allowed)
    #[verifier::external_body]
    pub fn map(self) -> (r: Result<Mmap>)
        requires self.f@ is Some, self.off % 4096 == 0, self.off + self.n <= self.f@->0.len()
        ensures r is Ok ==> r->Ok_0.b() == self.f@->0.subrange(self.off as int, self.off + self.n)
    { unimplemented!() }
}
pub struct VMeta { pub n: u64 }
impl VMeta { pub fn len(&self) -> (r: u64) ensures r == self.n { self.n } }
#[verifier::external_body]
pub fn vmetadata(p: &PathBuf) -> (r: Result<VMeta>) ensures openable(p@) ==> r is Ok, r is Ok ==> r->Ok_0.n == content(p@).len() { unimplemented!() }
pub broadcast axiom fn ax_file_len(p: Seq<Seq<u8>>) ensures (#[trigger] content(p)).len() <= i64::MAX;
pub fn vdrop<X>(x: X) {}
// a map that keeps the order of first insertion   [assumption: containers]
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct IndexMap<K, V> { x: Vec<(K, V)> }
#[verifier::external_body]
pub struct VKeys { x: u8 }
impl VKeys { pub uninterp spec fn seq(&self) -> Seq<usize>; }
impl<V> IndexMap<usize, V> {
    pub uninterp spec fn view(&self) -> Map<usize, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<usize, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_capacity(n: usize) -> (r: Self) ensures r@ == Map::<usize, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: usize, v: V) -> (r: Option<V>) ensures final(self)@ == old(self)@.insert(k, v) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &usize) -> (r: Option<&V>) ensures r is Some == self@.dom().contains(*k), r is Some ==> *r->0 == self@[*k] { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &usize) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn keys(&self) -> (r: VKeys) ensures r.seq().no_duplicates(), r.seq().to_set() == self@.dom() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
}
//@struct src/datamap.rs DataMap
impl DataMap {
    pub open spec fn of(&self) -> Map<usize, Seq<u8>> { map_of(self.mmap.b()) }
    // the map shows these records, and they can be read as vectors of T
    pub open spec fn shows<T>(&self, s: Seq<(usize, Seq<u8>)>) -> bool { fills(self.mmap.b(), s) && self.hmap@ == amap(s, s.len() as int) && fit::<T>(s, self.dimension) && self.mmap.b().len() <= i64::MAX }
    pub open spec fn wf_for<T>(&self) -> bool { exists|s: Seq<(usize, Seq<u8>)>| #[trigger] self.shows::<T>(s) }
}
pub open spec fn gfile(dir: Seq<Seq<u8>>, base: Seq<u8>) -> Seq<u8> { content(dir + seq![base + lit(".hnsw.graph"@)]) }
pub open spec fn dfile(dir: Seq<Seq<u8>>, base: Seq<u8>) -> Seq<u8> { content(dir + seq![base + lit(".hnsw.data"@)]) }
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
pub broadcast proof fn lemma_at_unique(b: Seq<u8>, p: int, x: Seq<u8>, y: Seq<u8>)
    requires #[trigger] at(b, p, x), #[trigger] at(b, p, y), x.len() == y.len()
    ensures x == y
{}
pub broadcast proof fn lemma_at_fits(b: Seq<u8>, p: int, x: Seq<u8>)
    requires #[trigger] at(b, p, x)
    ensures 0 <= p, p + x.len() <= b.len()
{}
pub broadcast proof fn lemma_sub_at(b: Seq<u8>, p: int, q: int)
    requires 0 <= p <= q <= b.len()
    ensures at(b, p, #[trigger] b.subrange(p, q))
{}
pub broadcast proof fn lemma_skip_take(b: Seq<u8>, a: int, k: int)
    requires 0 <= a <= b.len(), 0 <= k <= b.len() - a
    ensures #[trigger] b.skip(a).take(k) == b.subrange(a, a + k)
{ assert(b.skip(a).take(k) =~= b.subrange(a, a + k)); }
pub broadcast proof fn lemma_empty_add<X>(s: Seq<X>)
    ensures #[trigger] (Seq::<X>::empty() + s) == s
{ assert(Seq::<X>::empty() + s =~= s); }
//@include lem_descr.vrs
//@include lem_map.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero, super::sp::ax_enc_len, super::sp::ax_dec, super::sp::ax_raw_len, super::sp::ax_file_len, super::sp::ax_align, super::lem::lemma_at_unique, super::lem::lemma_at_fits, super::lem::lemma_sub_at, super::lem::lemma_empty_add, super::lem::lemma_skip_take};
//@include fns_descr.vrs
impl Description {
//@fn src/hnswio.rs Description::get_typename
//@ret r
//@spec
    ensures r@ == self.t_name@
//@endfn
//@fn src/hnswio.rs Description::get_dimension
//@ret r
//@spec
    ensures r == self.dimension
//@endfn
}
impl DataMap {
//@fn src/datamap.rs DataMap::from_hnswdump
//@sub? drop ( $x ) => vdrop($x)
//@ret r
//@spec
    requires exists|d: Description, s: Seq<(usize, Seq<u8>)>| descr_ok(d) && #[trigger] descr_at(gfile(dir@, lit(file_name@)), 0, d) && #[trigger] fills(dfile(dir@, lit(file_name@)), s) && s.len() <= i32::MAX
            && num_at(dfile(dir@, lit(file_name@)), 4, d.dimension) && (tname::<T>() == d.t_name@ ==> fit::<T>(s, d.dimension)),
    ensures r is Ok ==> r->Ok_0.of() == map_of(dfile(dir@, lit(file_name@))) && r->Ok_0.wf_for::<T>() && r->Ok_0.t_name@ == tname::<T>(),
        r is Ok ==> exists|d: Description| #[trigger] descr_at(gfile(dir@, lit(file_name@)), 0, d) && r->Ok_0.t_name@ == d.t_name@ && r->Ok_0.distname@ == d.distname@ && r->Ok_0.dimension == d.dimension,
//@at start
    hide(descr_at); hide(data_at); hide(drecs_at); hide(at);
    let ghost gb = gfile(dir@, lit(file_name@));
    let ghost db = dfile(dir@, lit(file_name@));
    let ghost (c, cs) = choose|d: Description, s: Seq<(usize, Seq<u8>)>| descr_ok(d) && #[trigger] descr_at(gb, 0, d) && #[trigger] fills(db, s) && s.len() <= i32::MAX && num_at(db, 4, d.dimension) && (tname::<T>() == d.t_name@ ==> fit::<T>(s, d.dimension));
    let ghost mut n = 0int;
    proof { assert(descr_at(gb, 0, c)); }
//@at before-loop 1
    proof { lemma_moff_le(cs, 0, cs.len() as int); }
//@loop 1
    invariant mapped_slice@ == db, db.len() <= i64::MAX, fills(db, cs), 0 <= n <= cs.len(), current_mmap_addr == 12 + moff(cs, n), hmap@ == amap(cs, n), i == n, cs.len() <= i32::MAX, n < cs.len() ==> current_mmap_addr < db.len(),
    ensures n == cs.len()
    decreases db.len() - current_mmap_addr
//@at loop-start 1
    proof { reveal(data_at); reveal(drecs_at); lemma_moff_le(cs, n, cs.len() as int); assert(n < cs.len()); lemma_moff_le(cs, n + 1, cs.len() as int); lemma_moff_le(cs, 0, n); assert(drec_at(db, cs, n)); }
//@at loop-end 1
    proof { n = n + 1; lemma_moff_le(cs, n, cs.len() as int); }
//@at tail
    proof { lemma_fills_unique(db, cs, cs); assert(tail__->Ok_0.shows::<T>(cs)); }
//@endfn
//@fn src/datamap.rs DataMap::check_data_type
//@ret r
//@spec
    requires rsplit(self.t_name@, lit("::"@)).len() > 0, rsplit(tname::<T>(), lit("::"@)).len() > 0
    ensures r == (short(tname::<T>()) == short(self.t_name@))
//@endfn
//@fn src/datamap.rs DataMap::get_data
//@ret r
//@spec
    requires self.wf_for::<T>()
    ensures r is Some == self.of().dom().contains(*dataid), r is Some && size_of_t::<T>() > 0 ==> raw_of(r->0@) == self.of()[*dataid]
//@at start
    hide(at);
    let ghost b = self.mmap.b();
    let ghost s = choose|s: Seq<(usize, Seq<u8>)>| #[trigger] self.shows::<T>(s);
    let ghost n = s.len() as int;
    proof { lemma_fills_unique(b, s, s); lemma_fold_in(s, n, *dataid); }
    let ghost i = choose|i: int| 0 <= i < n && (#[trigger] s[i]).0 == *dataid && mfold(s, n)[*dataid] == s[i].1 && amap(s, n)[*dataid] == (24 + moff(s, i)) as usize;
    proof { 
        if self.hmap@.dom().contains(*dataid) {
            assert(drec_at(b, s, i)); lemma_moff_le(s, i, n);
            lemma_aligned::<T>(s, i, self.dimension);
            if size_of_t::<T>() > 0 { lemma_parts::<T>(s, i, self.dimension); }
        }
    }
//@endfn
//@fn src/datamap.rs DataMap::get_dataid_iter
//@ret r
//@spec
    ensures r.seq().no_duplicates(), r.seq().to_set() == self.hmap@.dom()
//@endfn
//@fn src/datamap.rs DataMap::get_data_typename
//@ret r
//@spec
    ensures r@ == self.t_name@
//@endfn
//@fn src/datamap.rs DataMap::get_distname
//@ret r
//@spec
    ensures r@ == self.distname@
//@endfn
//@fn src/datamap.rs DataMap::get_nb_data
//@ret r
//@spec
    ensures r == self.hmap@.dom().len()
//@endfn
}
}
}
fn main() {}
