// ---- an index at rest, as the records a dump of it holds
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
    pub open spec fn nlayers(&self) -> int { (*self.neighbours)@@.len() as int }
}
pub open spec fn link<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>) -> Neighbour {
    Neighbour { d_id: e.point_ref.origin_id, distance: e.dist_to_ref, p_id: e.point_ref.p_id }
}
pub open spec fn links<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>) -> Seq<Neighbour> { Seq::new(s.len(), |i: int| link(s[i])) }
pub open spec fn rec_of<'b, T: Clone + Send + Sync>(p: Point<'b, T>) -> Rec {
    Rec { id: p.origin_id, p_id: p.p_id, nb: Seq::new(p.nlayers() as nat, |l: int| links(p.nb(l))), raw: raw_of(p.data@) }
}
pub open spec fn layer_recs<'b, T: Clone + Send + Sync>(y: Layer<'b, T>) -> Seq<Rec> { Seq::new(y@.len(), |r: int| rec_of(*y@[r])) }
pub open spec fn recs_of<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>) -> Seq<Seq<Rec>> { Seq::new(s.len(), |l: int| layer_recs(s[l])) }
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
    pub open spec fn ep_of(&self) -> (usize, PointId) { (self.entry()->0.origin_id, self.entry()->0.p_id) }
    // what holds of an index at rest besides `wf` (units insert and points): the links have distances, the points are counted, and no layer is longer than a rank can say
    pub open spec fn dumpable(&self) -> bool {
        &&& self.wf()
        &&& forall|l: int, r: int, m: int, k: int| 0 <= l < self.layers().len() && 0 <= r < self.layers()[l]@.len() && 0 <= m < 16 && 0 <= k < self.layers()[l]@[r].nb(m).len() ==> !is_nan((#[trigger] self.layers()[l]@[r].nb(m)[k]).dist_to_ref)
        &&& forall|l: int| 0 <= l < self.layers().len() ==> (#[trigger] self.layers()[l])@.len() <= i32::MAX
        &&& (*self.nb_point)@ == total(recs_of(self.layers()), self.layers().len() as int)
        &&& (*self.nb_point)@ <= i64::MAX
        &&& size_of_t::<T>() > 0 || nodata::<T>()
        &&& forall|l: int, r: int| 0 <= l < self.layers().len() && 0 <= r < self.layers()[l]@.len() ==> raw_of((#[trigger] self.layers()[l]@[r]).data@).len() <= usize::MAX
    }
}
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
    // d describes this index
    pub open spec fn described(&self, d: Description) -> bool {
        let x = self.layer_indexed_points;
        &&& d.format_version == 4 && d.dumpmode == 1 && d.max_nb_connection == self.max_nb_connection as u8 && d.level_scale == x.layer_g.scale
        &&& d.nb_layer == self.max_layer && d.ef == self.ef_construction && d.nb_point == (*x.nb_point)@
        &&& d.dimension == (if x.entry() is Some { x.entry()->0.data@.len() as int } else { 0 })
        &&& d.distname@ == tname::<D>() && d.t_name@ == tname::<T>()
    }
}
// the names of a type and of a distance, as a dump can hold them
pub open spec fn name_fits(s: Seq<u8>) -> bool { s.len() <= 256 && utf8(s) && rsplit(s, lit("::"@)).len() > 0 }
pub open spec fn sview(s: String) -> Seq<u8> { s@ }
pub open spec fn gpath(dir: Seq<Seq<u8>>, base: Seq<u8>) -> Seq<Seq<u8>> { dir + seq![base + lit(".hnsw.graph"@)] }
pub open spec fn dpath(dir: Seq<Seq<u8>>, base: Seq<u8>) -> Seq<Seq<u8>> { dir + seq![base + lit(".hnsw.data"@)] }
// the bytes of a vector in memory   [assumption: plain-data]
#[verifier::external_body]
pub fn vsize_of_val<T>(v: &[T]) -> (r: usize) ensures r == raw_of(v@).len() { std::mem::size_of_val(v) }
#[verifier::external_body]
pub fn vraw<T>(v: &[T], n: usize) -> (r: &[u8])
    requires n <= raw_of(v@).len()
    ensures r@ == raw_of(v@).take(n as int)
{ unimplemented!() }
#[verifier::external_body]
pub fn vdiverge() -> ! { unimplemented!() }
//@include pre_tostring.vrs
// which files there are when the dump starts, and which this dump may open for writing
pub uninterp spec fn exists0(p: Seq<Seq<u8>>) -> bool;
pub uninterp spec fn may(p: Seq<Seq<u8>>) -> bool;
#[verifier::external_body]
pub fn vmetadata(p: &PathBuf) -> (r: Result<()>) ensures r is Ok == exists0(p@) { unimplemented!() }
// the name a dump is written under
pub open spec fn name_ok(dir: Seq<Seq<u8>>, base: Seq<u8>, overwrite: bool, b: Seq<u8>) -> bool {
    if !overwrite && exists0(dpath(dir, base)) { !exists0(dpath(dir, b)) } else { b == base }
}
pub open spec fn may_all(dir: Seq<Seq<u8>>, base: Seq<u8>, overwrite: bool) -> bool {
    forall|b: Seq<u8>| #![trigger (dir + seq![b + lit(".hnsw.graph"@)])] #![trigger (dir + seq![b + lit(".hnsw.data"@)])] #![trigger gpath(dir, b)] #![trigger dpath(dir, b)] name_ok(dir, base, overwrite, b) ==> may(gpath(dir, b)) && may(dpath(dir, b))
}
impl OpenOptions {
    pub fn write(self, x: bool) -> (o: OpenOptions) ensures o == (OpenOptions { w: x, ..self }) { OpenOptions { w: x, ..self } }
    pub fn create(self, x: bool) -> (o: OpenOptions) ensures o == (OpenOptions { c: x, ..self }) { OpenOptions { c: x, ..self } }
    pub fn truncate(self, x: bool) -> (o: OpenOptions) ensures o == (OpenOptions { t: x, ..self }) { OpenOptions { t: x, ..self } }
}
// a file opened for writing is written from its start
#[verifier::external_body]
pub fn vbufwriter(f: File) -> (r: BufWriter<File>) ensures r.path() == f.path(), r.was_empty() == f.was_empty(), r.pn() == 0 { unimplemented!() }
impl<W> BufWriter<W> {
    #[verifier::external_body]
    pub fn flush(&mut self) -> (r: Result<()>) ensures final(self).end() == old(self).end(), final(self).pn() == old(self).pn(), final(self).path() == old(self).path(), final(self).was_empty() == old(self).was_empty(), r is Ok ==> final(self).flushed() { unimplemented!() }
}
// a file written to, when nothing is written to it any more: it holds what was written, from its start
pub axiom fn ax_written(w: BufWriter<File>) requires w.flushed() ensures content(w.path()) == w.end(), w.was_empty() ==> w.end().len() == w.p(), content(w.path()).len() <= i64::MAX;
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@enum src/hnswio.rs DumpMode
//@struct src/hnswio.rs DumpInit
