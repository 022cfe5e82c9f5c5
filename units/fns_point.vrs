// ---- small functions every unit depends on
impl<'b, T: Clone + Send + Sync + 'b> PointData<'b, T> {
//@fn src/hnsw.rs PointData::get_v
//@ret r
//@spec
    ensures r@ == self@
//@endfn
}
impl<'b, T: Clone + Send + Sync> Point<'b, T> {
//@fn src/hnsw.rs Point::get_v
//@ret r
//@spec
    ensures r@ == self.data@
//@endfn
//@fn src/hnsw.rs Point::get_point_id
//@ret r
//@spec
    ensures r == self.p_id
//@endfn
//@fn src/hnsw.rs Point::get_origin_id
//@ret r
//@spec
    ensures r == self.origin_id
//@endfn
}
impl<'b, T: Clone + Send + Sync> PointWithOrder<'b, T> {
//@fn src/hnsw.rs PointWithOrder::new
//@ret r
//@spec
    ensures r.point_ref == *point_ref, r.dist_to_ref == dist_to_ref
//@endfn
// the order of heap entries is the order of their distances
//@fn src/hnsw.rs Ord for PointWithOrder::cmp
//@ret r
//@sub? self . dist_to_ref . is_nan ( ) => f32_is_nan(self.dist_to_ref)
//@sub? other . dist_to_ref . is_nan ( ) => f32_is_nan(other.dist_to_ref)
//@sub? self . dist_to_ref . partial_cmp ( & other . dist_to_ref ) => f32_partial_cmp(&self.dist_to_ref, &other.dist_to_ref)
//@spec
    requires !is_nan(self.dist_to_ref), !is_nan(other.dist_to_ref)
    ensures Some(r) == fcmp(self.dist_to_ref, other.dist_to_ref)
//@endfn
//@fn src/hnsw.rs PartialOrd for PointWithOrder::partial_cmp
//@ret r
//@sub? self . dist_to_ref . partial_cmp ( & other . dist_to_ref ) => f32_partial_cmp(&self.dist_to_ref, &other.dist_to_ref)
//@spec
    ensures r == fcmp(self.dist_to_ref, other.dist_to_ref)
//@endfn
//@fn src/hnsw.rs PartialEq for PointWithOrder::eq
//@ret r
//@spec
    ensures r == (fcmp(self.dist_to_ref, other.dist_to_ref) == Some(Ordering::Equal))
//@endfn
}
impl Neighbour {
//@fn src/hnsw.rs Neighbour::new
//@ret r
//@spec
    ensures r.d_id == d_id, r.distance == distance, r.p_id == p_id
//@endfn
//@fn src/hnsw.rs Neighbour::get_origin_id
//@ret r
//@spec
    ensures r == self.d_id
//@endfn
//@fn src/hnsw.rs Neighbour::get_distance
//@ret r
//@spec
    ensures r == self.distance
//@endfn
}
