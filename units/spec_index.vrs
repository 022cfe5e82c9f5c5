impl<'b, T: Clone + Send + Sync> Point<'b, T> {
    pub open spec fn nb(&self, l: int) -> Seq<Arc<PointWithOrder<'b, T>>> { (*self.neighbours)@@[l]@ }
}
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
    pub open spec fn layers(&self) -> Seq<Layer<'b, T>> { (*self.points_by_layer)@@ }
    pub open spec fn entry(&self) -> Option<Arc<Point<'b, T>>> { (*self.entry_point)@ }
    // p is a point of the index, stored where its position id says
    pub open spec fn stored(&self, p: Point<'b, T>) -> bool {
        let l = p.p_id.0 as int;
        let r = p.p_id.1 as int;
        0 <= l < self.layers().len() && 0 <= r < self.layers()[l]@.len() && *self.layers()[l]@[r] == p && (*p.neighbours)@@.len() == 16
    }
    // representation invariant of an index at rest (established by insertion, see unit insert; by reload, see unit dump)
    pub open spec fn wf(&self) -> bool {
        &&& self.layers().len() <= 16
        &&& forall|p: Point<'b, T>, l: int, k: int| #![trigger self.stored(p), p.nb(l)[k]] self.stored(p) && 0 <= l < 16 && 0 <= k < p.nb(l).len() ==> self.stored(*p.nb(l)[k].point_ref)
        &&& forall|l: int, r: int| 0 <= l < self.layers().len() && 0 <= r < self.layers()[l]@.len() ==> self.stored(*#[trigger] self.layers()[l]@[r]) && self.layers()[l]@[r].p_id == PointId(l as u8, r as i32)
        &&& self.entry().is_some() ==> self.stored(*self.entry()->0)
    }
}
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
    pub open spec fn layers(&self) -> Seq<Layer<'b, T>> { self.layer_indexed_points.layers() }
    pub open spec fn stored(&self, p: Point<'b, T>) -> bool { self.layer_indexed_points.stored(p) }
    pub open spec fn wf(&self) -> bool { self.layer_indexed_points.wf() }
    pub open spec fn dist(&self, q: Seq<T>, p: Point<'b, T>) -> f32 { self.dist_f.d(q, p.data@) }
    // the point a position id names
    pub open spec fn named(&self, id: PointId) -> Point<'b, T> { *self.layers()[id.0 as int]@[id.1 as int] }
    pub open spec fn valid_id(&self, id: PointId) -> bool {
        0 <= id.0 < self.layers().len() && 0 <= id.1 < self.layers()[id.0 as int]@.len()
    }
}
