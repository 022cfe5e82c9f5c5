// ---- bytes of numbers, of strings and of plain data; files read and written   [assumption: io]
pub trait VBytes { spec fn bytes(&self) -> Seq<u8>; }
impl VBytes for [u8] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl VBytes for Vec<u8> { open spec fn bytes(&self) -> Seq<u8> { self@ } }
impl<const N: usize> VBytes for [u8; N] { open spec fn bytes(&self) -> Seq<u8> { self@ } }
#[verifier::external_body]
pub struct VErr { x: u8 }
impl core::fmt::Debug for VErr { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
pub type Result<T, E = VErr> = core::result::Result<T, E>;
#[verifier::external_body]
pub fn vanyhow() -> VErr { unimplemented!() }
// numbers in native byte order: as many bytes as the type has, different numbers have different bytes
pub trait Ne: Sized {
    spec fn enc(self) -> Seq<u8>;
    spec fn sz() -> nat;
    fn vne(&self) -> (r: Vec<u8>) ensures r@ == self.enc();
    fn from_ne<B: VBytes>(b: B) -> (r: Self) requires b.bytes().len() == Self::sz() ensures r.enc() == b.bytes();
}
pub broadcast axiom fn ax_enc_len<X: Ne>(x: X) ensures #[trigger] x.enc().len() == X::sz();
pub uninterp spec fn dec<X>(b: Seq<u8>) -> X;
pub broadcast axiom fn ax_dec<X: Ne>(x: X) ensures dec::<X>(#[trigger] x.enc()) == x;
pub uninterp spec fn enc_of<X>(x: X) -> Seq<u8>;
impl Ne for u8 { open spec fn enc(self) -> Seq<u8> { enc_of(self) } open spec fn sz() -> nat { 1 }
    #[verifier::external_body] fn vne(&self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn from_ne<B: VBytes>(b: B) -> (r: Self) { unimplemented!() } }
impl Ne for u32 { open spec fn enc(self) -> Seq<u8> { enc_of(self) } open spec fn sz() -> nat { 4 }
    #[verifier::external_body] fn vne(&self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn from_ne<B: VBytes>(b: B) -> (r: Self) { unimplemented!() } }
impl Ne for i32 { open spec fn enc(self) -> Seq<u8> { enc_of(self) } open spec fn sz() -> nat { 4 }
    #[verifier::external_body] fn vne(&self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn from_ne<B: VBytes>(b: B) -> (r: Self) { unimplemented!() } }
impl Ne for f32 { open spec fn enc(self) -> Seq<u8> { enc_of(self) } open spec fn sz() -> nat { 4 }
    #[verifier::external_body] fn vne(&self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn from_ne<B: VBytes>(b: B) -> (r: Self) { unimplemented!() } }
impl Ne for u64 { open spec fn enc(self) -> Seq<u8> { enc_of(self) } open spec fn sz() -> nat { 8 }
    #[verifier::external_body] fn vne(&self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn from_ne<B: VBytes>(b: B) -> (r: Self) { unimplemented!() } }
impl Ne for usize { open spec fn enc(self) -> Seq<u8> { enc_of(self) } open spec fn sz() -> nat { 8 }
    #[verifier::external_body] fn vne(&self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn from_ne<B: VBytes>(b: B) -> (r: Self) { unimplemented!() } }
impl Ne for f64 { open spec fn enc(self) -> Seq<u8> { enc_of(self) } open spec fn sz() -> nat { 8 }
    #[verifier::external_body] fn vne(&self) -> (r: Vec<u8>) { unimplemented!() } #[verifier::external_body] fn from_ne<B: VBytes>(b: B) -> (r: Self) { unimplemented!() } }
// the bytes e stand at p in b
pub open spec fn at(b: Seq<u8>, p: int, e: Seq<u8>) -> bool { 0 <= p && p + e.len() <= b.len() && b.subrange(p, p + e.len()) == e }
// the number x stands at p in b
pub open spec fn num_at<X: Ne>(b: Seq<u8>, p: int, x: X) -> bool { at(b, p, x.enc()) }
#[verifier::external_body]
pub fn vzeros(n: usize) -> (r: Vec<u8>) ensures r@.len() == n { vec![0; n] }

// a file being read from its start: its content and how much has been read; reading fails when the file is too short
#[verifier::external_body]
pub struct VRead { x: u8 }
impl VRead {
    pub uninterp spec fn b(&self) -> Seq<u8>;
    pub uninterp spec fn pn(&self) -> nat;
    pub open spec fn p(&self) -> int { self.pn() as int }
    #[verifier::external_body]
    pub fn read_exact<B: VBytes>(&mut self, buf: &mut B) -> (r: Result<()>)
        ensures final(self).b() == old(self).b(), final(buf).bytes().len() == old(buf).bytes().len(),
            r is Ok ==> at(old(self).b(), old(self).p() as int, final(buf).bytes()) && final(self).p() == old(self).p() + old(buf).bytes().len(),
            old(self).p() + old(buf).bytes().len() <= old(self).b().len() ==> r is Ok
    { unimplemented!() }
}
// a file being written: how much has been written, and what the file holds in the end (a prophecy: what is written is never written over)
pub trait Write {}
#[verifier::external_body]
#[verifier::accept_recursive_types(W)]
pub struct BufWriter<W> { x: Option<W> }
impl<W> BufWriter<W> {
    pub uninterp spec fn end(&self) -> Seq<u8>;
    pub uninterp spec fn pn(&self) -> nat;
    pub open spec fn p(&self) -> int { self.pn() as int }
    pub uninterp spec fn path(&self) -> Seq<Seq<u8>>;
    // nothing is kept back, and whether the file was empty when it was opened
    pub uninterp spec fn flushed(&self) -> bool;
    pub uninterp spec fn was_empty(&self) -> bool;
    #[verifier::external_body]
    pub fn write_all<B: VBytes + ?Sized>(&mut self, x: &B) -> (r: Result<()>)
        ensures final(self).end() == old(self).end(), final(self).path() == old(self).path(), final(self).was_empty() == old(self).was_empty(),
            r is Ok ==> at(old(self).end(), old(self).p() as int, x.bytes()) && final(self).p() == old(self).p() + x.bytes().len()
    { unimplemented!() }
}
// strings as their bytes
#[verifier::external_body]
pub struct String { x: u8 }
pub uninterp spec fn utf8(b: Seq<u8>) -> bool;
pub uninterp spec fn lit(s: Seq<char>) -> Seq<u8>;
impl String {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn from(s: &str) -> (r: String) ensures r@ == lit(s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<String, VErr>) ensures r is Ok == utf8(v@), r is Ok ==> r->Ok_0@ == v@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@, utf8(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str<B: VStrLike + ?Sized>(&mut self, s: &B) ensures final(self)@ == old(self)@ + s.sb() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) ensures final(self)@ == old(self)@ + lit(seq![c]) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: String) ensures r@ == self@ { unimplemented!() }
}
pub trait VStrLike { spec fn sb(&self) -> Seq<u8>; }
impl VStrLike for String { open spec fn sb(&self) -> Seq<u8> { self@ } }
impl VStrLike for str { open spec fn sb(&self) -> Seq<u8> { lit(self@) } }
impl PartialEq for String { #[verifier::external_body] fn eq(&self, o: &String) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for String {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &String) -> bool { self@ == o@ }
}
impl VCl for String {
    open spec fn copy_of(self, o: Self) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vcl(&self) -> (r: Self) { unimplemented!() }
}
impl core::fmt::Debug for String { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
// the name the compiler gives a type, and whether it is the type without data
pub uninterp spec fn tname<X>() -> Seq<u8>;
pub uninterp spec fn nodata<X>() -> bool;
#[verifier::external_body]
pub fn vtype_name<X>() -> (r: String) ensures r@ == tname::<X>() { unimplemented!() }
#[verifier::external_body]
pub fn vis_nodata<X>() -> (r: bool) ensures r == nodata::<X>() { unimplemented!() }
// vectors of plain data as their bytes; the bytes determine the vector   [assumption: plain-data]
pub uninterp spec fn size_of_t<T>() -> nat;
pub uninterp spec fn raw_of<T>(v: Seq<T>) -> Seq<u8>;
pub broadcast axiom fn ax_raw_len<T>(v: Seq<T>) ensures #[trigger] raw_of(v).len() == v.len() * size_of_t::<T>();
// (the type without data has no bytes)
pub uninterp spec fn align_of_t<T>() -> int;
pub broadcast axiom fn ax_align<T>() ensures #![trigger align_of_t::<T>()] align_of_t::<T>() >= 1, size_of_t::<T>() % (align_of_t::<T>() as nat) == 0;
pub axiom fn ax_nodata<T>() requires nodata::<T>() ensures size_of_t::<T>() == 0;
pub axiom fn ax_raw_inj<T>(v: Seq<T>, w: Seq<T>) requires raw_of(v) == raw_of(w), size_of_t::<T>() > 0 ensures v == w;
#[verifier::external_body]
pub fn vsize_of<T>() -> (r: usize) ensures r == size_of_t::<T>() { unimplemented!() }
// casts between integer types, and sums that wrap
pub trait VAsUsize: Sized { spec fn uz(self) -> usize; fn us(self) -> (r: usize) ensures r == self.uz(); }
impl VAsUsize for u8 { open spec fn uz(self) -> usize { self as usize } fn us(self) -> (r: usize) { self as usize } }
impl VAsUsize for u32 { open spec fn uz(self) -> usize { self as usize } fn us(self) -> (r: usize) { self as usize } }
impl VAsUsize for u64 { open spec fn uz(self) -> usize { self as usize } fn us(self) -> (r: usize) { self as usize } }
impl VAsUsize for usize { open spec fn uz(self) -> usize { self } fn us(self) -> (r: usize) { self } }
impl VAsUsize for i32 {
    open spec fn uz(self) -> usize { if self >= 0 { self as usize } else { (self + 0x1_0000_0000_0000_0000) as usize } }
    #[verifier::external_body] fn us(self) -> (r: usize) { self as usize }
}
pub fn vas_usize<X: VAsUsize>(x: X) -> (r: usize) ensures r == x.uz() { x.us() }
pub trait VWrap: Sized { fn wadd(self, o: Self) -> Self; fn wsub(self, o: Self) -> Self; }
impl VWrap for usize { fn wadd(self, o: usize) -> usize { self.wrapping_add(o) } fn wsub(self, o: usize) -> usize { self.wrapping_sub(o) } }
impl VWrap for i64 { fn wadd(self, o: i64) -> i64 { self.wrapping_add(o) } fn wsub(self, o: i64) -> i64 { self.wrapping_sub(o) } }
pub fn vwadd<X: VWrap>(a: X, b: X) -> X { a.wadd(b) }
pub fn vwsub<X: VWrap>(a: X, b: X) -> X { a.wsub(b) }
// raw memory of vectors: room made by with_capacity, bytes copied into it, and the length set over them   [assumption: plain-data]
// (how many elements there is room for, at least)
pub uninterp spec fn vcap<T>(v: &Vec<T>) -> int;
pub uninterp spec fn vroom<T>(v: &Vec<T>) -> Seq<u8>;
#[verifier::external_body]
pub fn vwith_capacity<T>(n: usize) -> (r: Vec<T>) ensures r@ == Seq::<T>::empty(), vcap(&r) == n { Vec::with_capacity(n) }
#[verifier::external_body]
pub fn vcopy_into<T>(src: &[u8], v: &mut Vec<T>, n: usize)
    requires n <= src@.len(), n <= vcap(old(v)) * size_of_t::<T>()
    ensures final(v)@ == old(v)@, vcap(final(v)) == vcap(old(v)), vroom(final(v)).len() >= n, vroom(final(v)).take(n as int) == src@.take(n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vset_len<T>(v: &mut Vec<T>, n: usize)
    requires n <= vcap(old(v)), n * size_of_t::<T>() <= vroom(old(v)).len()
    ensures final(v)@.len() == n, raw_of(final(v)@) == vroom(old(v)).take(n * size_of_t::<T>())
{ unimplemented!() }
// the types which can be stored
pub trait Serialize {}
impl<T> Serialize for T {}
pub trait DeserializeOwned {}
#[verifier::external_body]
pub struct AtomicUsize { x: u8 }
pub struct AtOrd {}
impl AtomicUsize { #[verifier::external_body] pub fn new(n: usize) -> AtomicUsize { unimplemented!() }
    #[verifier::external_body] pub fn fetch_add(&self, n: usize, o: AtOrd) -> usize { unimplemented!() } }
#[verifier::external_body]
pub fn vbincode<T>(b: &Vec<u8>) -> Result<Vec<T>>
//@if !P13
    requires false
//@endif
{ unimplemented!() }
// ---- files by their path; a path is the parts pushed on it   [assumption: files]
// (what a file holds: nothing else writes the files of a dump while it is read)
pub uninterp spec fn content(p: Seq<Seq<u8>>) -> Seq<u8>;
pub uninterp spec fn openable(p: Seq<Seq<u8>>) -> bool;
#[verifier::external_body]
pub struct PathBuf { x: u8 }
pub type Path = PathBuf;
pub trait VPart { spec fn parts(&self) -> Seq<Seq<u8>>; }
impl VPart for String { open spec fn parts(&self) -> Seq<Seq<u8>> { seq![self@] } }
impl VPart for PathBuf { open spec fn parts(&self) -> Seq<Seq<u8>> { self@ } }
impl<X: VPart> VPart for &X { open spec fn parts(&self) -> Seq<Seq<u8>> { (*self).parts() } }
impl PathBuf {
    pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn new() -> (r: PathBuf) ensures r@ == Seq::<Seq<u8>>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn from(p: &PathBuf) -> (r: PathBuf) ensures r@ == p@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push<P: VPart>(&mut self, p: P) ensures final(self)@ == old(self)@ + p.parts() { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_os_str(&self) -> (r: &PathBuf) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path(&self) -> (r: &PathBuf) ensures r@ == self@ { unimplemented!() }
}
impl VCl for PathBuf {
    open spec fn copy_of(self, o: Self) -> bool { self@ == o@ }
    #[verifier::external_body]
    fn vcl(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub struct File { x: u8 }
impl Write for File {}
impl File {
    pub uninterp spec fn path(&self) -> Seq<Seq<u8>>;
    pub uninterp spec fn was_empty(&self) -> bool;
    #[verifier::external_body]
    pub fn open(p: &PathBuf) -> (r: Result<File>) ensures r is Ok ==> r->Ok_0.path() == p@, openable(p@) ==> r is Ok { unimplemented!() }
}
pub struct OpenOptions { pub r: bool, pub w: bool, pub c: bool, pub t: bool }
impl OpenOptions {
    pub fn new() -> (o: OpenOptions) ensures o == (OpenOptions { r: false, w: false, c: false, t: false }) { OpenOptions { r: false, w: false, c: false, t: false } }
    pub fn read(self, x: bool) -> (o: OpenOptions) ensures o == (OpenOptions { r: x, ..self }) { OpenOptions { r: x, ..self } }
    #[verifier::external_body]
    pub fn open(&self, p: &PathBuf) -> (r: Result<File>)
        requires
//@if dump
            self.w && self.c && !self.r,
//@endif
//@if P14
            may(p@),
//@endif
//@if !dump
            *self == (OpenOptions { r: true, w: false, c: false, t: false })
//@endif
        ensures r is Ok ==> r->Ok_0.path() == p@, openable(p@) ==> r is Ok, self.t && r is Ok ==> r->Ok_0.was_empty()
    { unimplemented!() }
}
impl VRead {
    #[verifier::external_body]
    pub fn vnew(f: File) -> (r: VRead) ensures r.b() == content(f.path()), r.pn() == 0, r.p() == 0 { unimplemented!() }
}
// str::rsplit_terminator: the parts of a name, last first
#[verifier::external_body]
pub struct VStr { x: u8 }
impl VStr { pub uninterp spec fn view(&self) -> Seq<u8>; }
impl PartialEq for VStr { #[verifier::external_body] fn eq(&self, o: &VStr) -> bool { unimplemented!() } }
impl vstd::std_specs::cmp::PartialEqSpecImpl for VStr {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, o: &VStr) -> bool { self@ == o@ }
}
pub uninterp spec fn rsplit(s: Seq<u8>, sep: Seq<u8>) -> Seq<Seq<u8>>;
pub open spec fn svs(s: Seq<VStr>) -> Seq<Seq<u8>> { Seq::new(s.len(), |i: int| s[i]@) }
#[verifier::external_body]
pub struct VSplit { x: u8 }
impl VSplit {
    pub uninterp spec fn view(&self) -> Seq<Seq<u8>>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<VStr>) ensures svs(r@) == self@ { unimplemented!() }
}
impl String {
    #[verifier::external_body]
    pub fn rsplit_terminator(&self, sep: &str) -> (r: VSplit) ensures r@ == rsplit(self@, lit(sep@)) { unimplemented!() }
}
// the name of a type or of a distance, without its path
pub open spec fn short(s: Seq<u8>) -> Seq<u8> { rsplit(s, lit("::"@))[0] }
pub uninterp spec fn vdefault_of<D>() -> D;
#[verifier::external_body]
pub fn vdefault<D: Default>() -> (r: D) ensures r == vdefault_of::<D>() { D::default() }
