// ---- memory handed over by the caller and to the caller   [assumption: c-memory]
#[verifier::external_body]
#[verifier::accept_recursive_types(X)]
pub struct CPtr<X> { x: *const X }
impl<X> Copy for CPtr<X> {}
impl<X> Clone for CPtr<X> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<X> CPtr<X> {
    pub uninterp spec fn nonnull(&self) -> bool;
    // the values it points to: an array, or one value
    pub uninterp spec fn elems(&self) -> Seq<X>;
    pub uninterp spec fn pointee(&self) -> X;
    pub uninterp spec fn buf(&self) -> int;
}
// the buffer is never given back
pub uninterp spec fn kept(buf: int) -> bool;
pub trait VBuf { type E; spec fn bufid(&self) -> int; spec fn els(&self) -> Seq<Self::E>; }
pub uninterp spec fn bufid_of<X>(x: X) -> int;
impl<X> VBuf for Vec<X> { type E = X; open spec fn bufid(&self) -> int { bufid_of(*self) } open spec fn els(&self) -> Seq<X> { self@ } }
impl VBuf for String { type E = u8; open spec fn bufid(&self) -> int { bufid_of(*self) } open spec fn els(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub fn vas_ptr<V: VBuf>(v: &V) -> (r: CPtr<V::E>) ensures r.nonnull(), r.elems() == v.els(), r.buf() == v.bufid() { unimplemented!() }
#[verifier::external_body]
pub fn vforget<V: VBuf>(v: V) ensures kept(v.bufid()) { unimplemented!() }
#[verifier::external_body]
pub fn vraw_parts<'a, X>(p: CPtr<X>, n: usize) -> (r: &'a [X]) requires p.nonnull(), n <= p.elems().len() ensures r@ == p.elems().subrange(0, n as int), n == p.elems().len() ==> r@ == p.elems() { unimplemented!() }
#[verifier::external_body]
pub fn vat<'a, X>(p: CPtr<X>) -> (r: &'a X) requires p.nonnull() ensures *r == p.pointee() { unimplemented!() }
#[verifier::external_body]
pub fn vnull<X>() -> (r: CPtr<X>) ensures !r.nonnull() { unimplemented!() }
#[verifier::external_body]
pub fn vbox_raw<X>(b: Box<X>) -> (r: CPtr<X>) ensures r.nonnull(), r.pointee() == *b { unimplemented!() }
pub trait VBox: Sized { type Out; spec fn boxed(self, r: Self::Out) -> bool; fn vbox1(self) -> (r: Self::Out) ensures self.boxed(r); }
pub fn vbox<X: VBox>(x: X) -> (r: X::Out) ensures x.boxed(r) { x.vbox1() }
#[verifier::external_body]
pub fn vfrom_slice<X>(s: &[X]) -> (r: Vec<X>) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vmap_fn<A, B, F: Fn(&A) -> B>(v: &Vec<A>, f: F) -> (r: Vec<B>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (&#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (&v@[i],), #[trigger] r@[i])
{ unimplemented!() }
// ---- strings as bytes
#[verifier::external_body]
pub struct String { x: u8 }
pub uninterp spec fn lit(s: Seq<char>) -> Seq<u8>;
pub uninterp spec fn trimmed(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lowered(b: Seq<u8>) -> Seq<u8>;
pub uninterp spec fn lossy(b: Seq<u8>) -> Seq<u8>;
impl String {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn into_owned(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn trim(&self) -> (r: String) ensures r@ == trimmed(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_lowercase(&self) -> (r: String) ensures r@ == lowered(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vlen(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
}
#[verifier::external_body]
pub fn vsclone(s: &String) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn vlossy(b: &[u8]) -> (r: String) ensures r@ == lossy(b@) { unimplemented!() }
#[verifier::external_body]
pub fn veqs(s: &String, l: &str) -> (r: bool) ensures r == (s@ == lit(l@)) { unimplemented!() }
pub trait VPathLike { spec fn pb(&self) -> Seq<u8>; }
impl VPathLike for String { open spec fn pb(&self) -> Seq<u8> { self@ } }
impl VPathLike for &str { open spec fn pb(&self) -> Seq<u8> { lit(self@) } }
#[verifier::external_body]
pub struct VPath { x: u8 }
impl VPath { pub uninterp spec fn view(&self) -> Seq<u8>; }
#[verifier::external_body]
pub fn vpath<S: VPathLike>(s: S) -> (r: VPath) ensures r@ == s.pb() { unimplemented!() }
#[verifier::external_body]
pub struct VErr { x: u8 }
// ---- the Rust interface behind the C one: its calls are logged, its answers named   [assumption: search]
pub struct NoData;
pub enum Dn { Name(Seq<u8>), Func(int) }
pub trait Distance<T>: Sized { spec fn dn(self) -> Dn; }
pub struct NoDist;
impl<T> Distance<T> for NoDist { open spec fn dn(self) -> Dn { Dn::Name(lit("NoDist"@)) } }
//@foreach D : DistL1 DistL2 DistDot DistCosine DistHellinger DistJeffreys DistJensenShannon DistHamming DistJaccard DistLevenshtein
pub struct $D;
impl<T> Distance<T> for $D { open spec fn dn(self) -> Dn { Dn::Name(lit("$D"@)) } }
//@endfor
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct CFn<T> { x: Vec<T> }
impl<T> CFn<T> { pub uninterp spec fn f(&self) -> int; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct DistCFFI<T> { x: Vec<T> }
impl<T> DistCFFI<T> {
    pub uninterp spec fn f(&self) -> int;
    #[verifier::external_body]
    pub fn new(f: CFn<T>) -> (r: Self) ensures r.f() == f.f() { unimplemented!() }
}
impl<T> Distance<T> for DistCFFI<T> { open spec fn dn(self) -> Dn { Dn::Func(self.f()) } }
pub struct Made { pub m: usize, pub elts: usize, pub layers: usize, pub ef: usize, pub dist: Dn }
#[verifier::external_body]
pub struct PointId { x: u8 }
pub struct Neighbour { pub d_id: usize, pub distance: f32, pub p_id: PointId }
pub enum Call<T> { Insert(int, Seq<T>, usize), ParInsert(int, Seq<(Seq<T>, usize)>), Dump(int, Seq<u8>, Seq<u8>, bool) }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Log<T> { x: T }
impl<T> Log<T> { pub uninterp spec fn view(&self) -> Seq<Call<T>>; }
pub open spec fn dumped<T>(a: Seq<Call<T>>, b: Seq<Call<T>>, id: int, dir: Seq<u8>, base: Seq<u8>, ok: bool) -> bool { b == a.push(Call::Dump(id, dir, base, ok)) }
pub open spec fn items<T>(s: Seq<(&Vec<T>, usize)>) -> Seq<(Seq<T>, usize)> { Seq::new(s.len(), |i: int| (s[i].0@, s[i].1)) }
pub uninterp spec fn single<T>(id: int, q: Seq<T>, k: usize, ef: usize) -> Seq<Neighbour>;
pub trait VSlc<T> { spec fn sq(&self) -> Seq<T>; }
impl<T> VSlc<T> for Vec<T> { open spec fn sq(&self) -> Seq<T> { self@ } }
impl<T> VSlc<T> for [T] { open spec fn sq(&self) -> Seq<T> { self@ } }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VAnn<T> { x: Vec<T> }
impl<T> VAnn<T> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn made(&self) -> Made;
    pub open spec fn single(&self, q: Seq<T>, k: usize, ef: usize) -> Seq<Neighbour> { single(self.id(), q, k, ef) }
    // proved of the implementation of AnnT for Hnsw below, and of file_dump by P10
    #[verifier::external_body]
    pub fn insert_data<S: VSlc<T> + ?Sized>(&self, data: &S, id: usize, Tracked(hist__): Tracked<&mut Log<T>>) ensures final(hist__)@ == old(hist__)@.push(Call::Insert(self.id(), data.sq(), id)) { unimplemented!() }
    #[verifier::external_body]
    pub fn parallel_insert_data<'x, S: VSlc<(&'x Vec<T>, usize)> + ?Sized>(&self, data: &S, Tracked(hist__): Tracked<&mut Log<T>>) where T: 'x ensures final(hist__)@ == old(hist__)@.push(Call::ParInsert(self.id(), items(data.sq()))) { unimplemented!() }
    #[verifier::external_body]
    pub fn search_neighbours<S: VSlc<T> + ?Sized>(&self, data: &S, knbn: usize, ef_s: usize) -> (r: Vec<Neighbour>) ensures r@ == self.single(data.sq(), knbn, ef_s), r@.len() <= i64::MAX { unimplemented!() }
    #[verifier::external_body]
    pub fn parallel_search_neighbours<S: VSlc<Vec<T>> + ?Sized>(&self, data: &S, knbn: usize, ef_s: usize) -> (r: Vec<Vec<Neighbour>>)
        ensures r@.len() == data.sq().len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.single(data.sq()[i]@, knbn, ef_s) && r@[i]@.len() <= i64::MAX
    { unimplemented!() }
    #[verifier::external_body]
    pub fn file_dump(&self, path: &VPath, base: &String, Tracked(hist__): Tracked<&mut Log<T>>) -> (r: Result<String, VErr>) ensures dumped(old(hist__)@, final(hist__)@, self.id(), path@, base@, r is Ok) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(D)]
pub struct Hnsw<'b, T, D> { x: &'b Vec<(T, D)> }
impl<'b, T, D> VBox for Hnsw<'b, T, D> {
    type Out = VAnn<T>;
    open spec fn boxed(self, r: VAnn<T>) -> bool { r.id() == self.id() && r.made() == self.made() }
    #[verifier::external_body] fn vbox1(self) -> (r: VAnn<T>) { unimplemented!() }
}
impl<'b, T, D> Hnsw<'b, T, D> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn made(&self) -> Made;
    pub open spec fn single(&self, q: Seq<T>, k: usize, ef: usize) -> Seq<Neighbour> { single(self.id(), q, k, ef) }
    #[verifier::external_body]
    pub fn insert(&self, d: (&[T], usize), Tracked(hist__): Tracked<&mut Log<T>>) ensures final(hist__)@ == old(hist__)@.push(Call::Insert(self.id(), d.0@, d.1)) { unimplemented!() }
    #[verifier::external_body]
    pub fn parallel_insert(&self, d: &[(&Vec<T>, usize)], Tracked(hist__): Tracked<&mut Log<T>>) ensures final(hist__)@ == old(hist__)@.push(Call::ParInsert(self.id(), items(d@))) { unimplemented!() }
    #[verifier::external_body]
    pub fn search(&self, data: &[T], k: usize, ef: usize) -> (r: Vec<Neighbour>) ensures r@ == self.single(data@, k, ef) { unimplemented!() }
    #[verifier::external_body]
    pub fn parallel_search(&self, data: &[Vec<T>], k: usize, ef: usize) -> (r: Vec<Vec<Neighbour>>) ensures r@.len() == data@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == self.single(data@[i]@, k, ef) { unimplemented!() }
}
impl<'b, T, D: Distance<T>> Hnsw<'b, T, D> {
    #[verifier::external_body]
    pub fn new(m: usize, elts: usize, layers: usize, ef: usize, d: D) -> (r: Self) ensures r.made() == (Made { m: m, elts: elts, layers: layers, ef: ef, dist: d.dn() }) { unimplemented!() }
}
#[verifier::external_body]
pub struct HnswIo { x: u8 }
// what a reload of it gives (P10, P11, P13 say what): nothing, or an index
pub uninterp spec fn loaded<T, D>(io: HnswIo) -> Option<int>;
impl HnswIo {
    pub uninterp spec fn dir(&self) -> Seq<u8>;
    pub uninterp spec fn base(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(dir: &VPath, base: &String) -> (r: Self) ensures r.dir() == dir@, r.base() == base@ { unimplemented!() }
    #[verifier::external_body]
    pub fn load_hnsw<T, D>(&self) -> (r: Result<Hnsw<'_, T, D>, VErr>) ensures r is Ok <==> loaded::<T, D>(*self) is Some, r is Ok ==> r->Ok_0.id() == loaded::<T, D>(*self)->0 { unimplemented!() }
}
impl VBox for HnswIo { type Out = Box<HnswIo>; open spec fn boxed(self, r: Box<HnswIo>) -> bool { *r == self } #[verifier::external_body] fn vbox1(self) -> (r: Box<HnswIo>) { Box::new(self) } }
// the names each constructor knows
pub open spec fn one_of(n: Seq<u8>, a: Seq<char>) -> bool { n == lit(a) }
pub open spec fn names_f32(n: Seq<u8>) -> bool { n == lit("DistL1"@) || n == lit("DistL2"@) || n == lit("DistDot"@) || n == lit("DistHellinger"@) || n == lit("DistJeffreys"@) || n == lit("DistJensenShannon"@) }
pub open spec fn names_i32(n: Seq<u8>) -> bool { n == lit("DistL1"@) || n == lit("DistL2"@) || n == lit("DistHamming"@) }
pub open spec fn names_u32(n: Seq<u8>) -> bool { names_i32(n) || n == lit("DistJaccard"@) }
pub open spec fn names_u8(n: Seq<u8>) -> bool { names_u32(n) }
pub open spec fn names_u16(n: Seq<u8>) -> bool { names_u32(n) || n == lit("DistLevenshtein"@) }
// ---- the description of a dump
//@struct src/hnswio.rs Description
#[verifier::external_body]
pub struct File { x: u8 }
#[verifier::external_body]
pub struct BufReader { x: u8 }
impl File { pub uninterp spec fn path(&self) -> Seq<u8>; }
impl BufReader { pub uninterp spec fn path(&self) -> Seq<u8>; pub uninterp spec fn fresh(&self) -> bool; }
// what the description at the start of the named graph file is, if there is one (P10 and P13 say what load_description accepts)
pub uninterp spec fn described(name: Seq<u8>) -> Option<Description>;
#[verifier::external_body]
pub fn vopen_read(p: &VPath) -> (r: Result<File, VErr>) ensures r is Ok ==> r->Ok_0.path() == p@, r is Err ==> described(p@) is None { unimplemented!() }
#[verifier::external_body]
pub fn vbufr(n: usize, f: File) -> (r: BufReader) ensures r.path() == f.path(), r.fresh() { unimplemented!() }
#[verifier::external_body]
pub fn load_description(b: &mut BufReader) -> (r: Result<Description, VErr>) requires old(b).fresh() ensures r is Ok <==> described(old(b).path()) is Some, r is Ok ==> r->Ok_0 == described(old(b).path())->0 { unimplemented!() }
pub open spec fn text_at(p: CPtr<u8>, n: usize, s: Seq<u8>) -> bool { p.nonnull() && n == s.len() && p.elems() == s && kept(p.buf()) }
pub open spec fn same_descr(r: DescriptionFFI, d: Description) -> bool {
    &&& r.max_nb_connection == d.max_nb_connection && r.nb_layer == d.nb_layer && r.ef == d.ef && r.nb_point == d.nb_point && r.data_dimension == d.dimension
    &&& text_at(r.distname, r.distname_len, d.distname@) && text_at(r.t_name, r.t_name_len, d.t_name@)
}
