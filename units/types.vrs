// ---- traits of the crate and of anndists, with assumed contracts
pub trait FilterT {
    spec fn allows(&self, id: usize) -> bool;
    fn hnsw_filter(&self, id: &DataId) -> (r: bool) ensures r == self.allows(*id);
}
// [assumption: distance] eval is a deterministic function of the two vectors, never NaN, never negative
pub trait Distance<T> {
    spec fn d(&self, a: Seq<T>, b: Seq<T>) -> f32;
    fn eval(&self, va: &[T], vb: &[T]) -> (r: f32) ensures r == self.d(va@, vb@), !is_nan(r), key(r) >= 0;
}
//@type src/hnsw.rs DataId
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
//@struct src/hnsw.rs PointId
//@enum src/hnsw.rs PointData
//@struct src/hnsw.rs Point
//@struct src/hnsw.rs PointWithOrder
#[derive(Clone, Copy)]
//@struct src/hnsw.rs Neighbour
//@type src/hnsw.rs Layer
//@if rng
//@sub? Arc < Mutex < rand :: rngs :: StdRng > > => Arc<Mutex<StdRng>>
//@struct src/hnsw.rs LayerGenerator
//@else
#[verifier::external_body]
pub struct LayerGenerator { x: u8 }
//@endif
//@struct src/hnsw.rs PointIndexation
//@struct src/hnsw.rs Hnsw

impl<'b, T: Clone + Send + Sync + 'b> PointData<'b, T> {
    pub open spec fn view(&self) -> Seq<T> { match self { PointData::V(v) => v@, PointData::S(s) => s@ } }
}
impl<'b, T: Clone + Send + Sync> HeapOrd for Arc<PointWithOrder<'b, T>> {
    open spec fn okey(&self) -> int { key((**self).dist_to_ref) }
    open spec fn onan(&self) -> bool { is_nan((**self).dist_to_ref) }
}
