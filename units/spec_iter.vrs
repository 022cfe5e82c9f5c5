//@struct src/hnsw.rs IterPoint
//@struct src/hnsw.rs IterPointLayer
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
    pub open spec fn layers(&self) -> Seq<Layer<'b, T>> { (*self.points_by_layer)@@ }
    pub open spec fn entry(&self) -> Option<Arc<Point<'b, T>>> { (*self.entry_point)@ }
    // at rest: no layer above the entry point's level holds a point (nor any layer, without entry point)
    pub open spec fn top_ok(&self) -> bool {
        &&& self.layers().len() <= 16
        &&& self.entry().is_some() ==> self.entry()->0.p_id.0 < self.layers().len()
        &&& forall|l: int| 0 <= l < self.layers().len() && (self.entry().is_some() ==> l > self.entry()->0.p_id.0) ==> (#[trigger] self.layers()[l])@.len() == 0
        &&& forall|l: int| 0 <= l < self.layers().len() ==> (#[trigger] self.layers()[l])@.len() < i64::MAX
    }
}
// every stored point from (l, slot) on: by layer upwards, by rank inside a layer
pub open spec fn rem_from<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>, l: int, slot: int) -> Seq<Arc<Point<'b, T>>>
    decreases s.len() - l
{
    if l < 0 || l >= s.len() { Seq::empty() }
    else { s[l]@.subrange(if 0 <= slot <= s[l]@.len() { slot } else { s[l]@.len() as int }, s[l]@.len() as int) + rem_from(s, l + 1, 0) }
}
pub open spec fn all_points<'b, T: Clone + Send + Sync>(s: Seq<Layer<'b, T>>) -> Seq<Arc<Point<'b, T>>> { rem_from(s, 0, 0) }
impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
    pub open spec fn wf(&self) -> bool {
        &&& self.point_indexation.top_ok()
        &&& self.pi_guard@ == self.point_indexation.layers()
        &&& -1 <= self.layer <= 16 && (self.layer >= 0 ==> 0 <= self.slot_in_layer < i64::MAX)
        &&& 0 <= self.layer < self.pi_guard@.len() ==> self.slot_in_layer <= self.pi_guard@[self.layer as int]@.len()
    }
    // what is still to be returned
    pub open spec fn rem(&self) -> Seq<Arc<Point<'b, T>>> {
        if self.layer == -1 { all_points(self.pi_guard@) } else { rem_from(self.pi_guard@, self.layer as int, self.slot_in_layer as int) }
    }
}
impl<'a, 'b, T: Clone + Send + Sync> IterPointLayer<'a, 'b, T> {
    pub open spec fn wf(&self) -> bool {
        &&& (self.layer as int) < self.pi_guard@.len() && self.slot_in_layer <= self.pi_guard@[self.layer as int]@.len()
    }
    pub open spec fn rem(&self) -> Seq<Arc<Point<'b, T>>> {
        self.pi_guard@[self.layer as int]@.subrange(self.slot_in_layer as int, self.pi_guard@[self.layer as int]@.len() as int)
    }
}
