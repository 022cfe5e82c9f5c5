impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
//@fn src/hnsw.rs PointIndexation::get_layer_nb_point
//@ret r
//@spec
    ensures r == (if layer < self.layers().len() { self.layers()[layer as int]@.len() } else { 0 })
//@endfn
//@fn src/hnsw.rs PointIndexation::get_layer_iterator
//@ret r
//@spec
    requires (layer as int) < self.layers().len()
    ensures r.wf(), r.rem() =~= self.layers()[layer as int]@, r.layer == layer, r.pi_guard@ == self.layers()
//@endfn
}
pub trait IntoIterAll<'a, 'b, T: Clone + Send + Sync>: Sized {
    spec fn pi(self) -> &'a PointIndexation<'b, T>;
    fn into_iter(self) -> (r: IterPoint<'a, 'b, T>) requires self.pi().top_ok() ensures r.wf(), r.rem() == all_points(self.pi().layers()), r.point_indexation == self.pi();
}
impl<'a, 'b, T: Clone + Send + Sync> IntoIterAll<'a, 'b, T> for &'a PointIndexation<'b, T> {
    open spec fn pi(self) -> &'a PointIndexation<'b, T> { self }
//@fn src/hnsw.rs IntoIterator for PointIndexation::into_iter [vis=none]
//@sub? Self :: IntoIter => IterPoint<'a, 'b, T>
//@endfn
}
impl<'a, 'b, T: Clone + Send + Sync> IterPoint<'a, 'b, T> {
//@fn src/hnsw.rs IterPoint::new
//@ret r
//@spec
    requires point_indexation.top_ok()
    ensures r.wf(), r.rem() == all_points(point_indexation.layers()), r.point_indexation == point_indexation
//@endfn
//@fn src/hnsw.rs Iterator for IterPoint::next
//@attr #[verifier::exec_allows_no_decreases_clause]
//@sub? Self :: Item => Arc<Point<'b, T>>
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).point_indexation == old(self).point_indexation,
        old(self).rem().len() == 0 ==> r.is_none() && final(self).rem().len() == 0,
        old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() =~= old(self).rem().drop_first(),
//@at start
    let ghost s0 = self.pi_guard@;
    let ghost l0 = if self.layer == -1 { 0 } else { self.layer as int };
    let ghost k0 = if self.layer == -1 { 0 } else { self.slot_in_layer as int };
    proof {
        assert(rem_from(s0, l0, k0) == self.rem());
        if 0 <= l0 < s0.len() && k0 < s0[l0]@.len() { lemma_rem_step(s0, l0, k0); }
        if 0 <= l0 < s0.len() && k0 >= s0[l0]@.len() {
            assert forall|m: int| l0 < m <= s0.len() && (forall|j: int| l0 < j < m ==> (#[trigger] s0[j])@.len() == 0) implies rem_from(s0, l0, k0) =~= #[trigger] rem_from(s0, m, 0)
                by { lemma_rem_skip(s0, l0, k0, m); }
        }
        assert forall|m: int| 0 <= m && (forall|j: int| m <= j < s0.len() ==> (#[trigger] s0[j])@.len() == 0) implies (#[trigger] rem_from(s0, m, 0)) =~= Seq::empty()
            by { lemma_rem_empty(s0, m); }
        assert forall|m: int| 0 <= m < s0.len() && s0[m]@.len() > 0 implies (#[trigger] rem_from(s0, m, 0)).len() > 0 && rem_from(s0, m, 0)[0] == s0[m]@[0] && rem_from(s0, m, 1) =~= rem_from(s0, m, 0).drop_first()
            by { lemma_rem_step(s0, m, 0); }
    }
//@loop 1
    invariant
        self.point_indexation.top_ok(), s0 == self.point_indexation.layers(), self.pi_guard@ == s0, points_by_layer@ == s0,
        self.point_indexation == old(self).point_indexation, self.pi_guard == old(self).pi_guard, entry_point_level < s0.len(),
        self.point_indexation.entry().is_some(), entry_point_level == self.point_indexation.entry()->0.p_id.0,
        0 <= l0 < self.layer <= 16, l0 < s0.len(), self.slot_in_layer == 0, k0 >= s0[l0]@.len(),
        self.layer <= entry_point_level + 1 || self.layer == l0 + 1,
        forall|j: int| l0 < j < self.layer && j < s0.len() ==> (#[trigger] s0[j])@.len() == 0,
//@if P19
    decreases 16 - self.layer,
//@endif
//@at after-loop 1
    let ghost t = rem_from(s0, self.layer as int, 0);
//@endfn
}
impl<'a, 'b, T: Clone + Send + Sync> IterPointLayer<'a, 'b, T> {
//@fn src/hnsw.rs IterPointLayer::new
//@ret r
//@spec
    requires (layer as int) < point_indexation.layers().len()
    ensures r.wf(), r.rem() =~= point_indexation.layers()[layer as int]@, r.layer == layer, r.pi_guard@ == point_indexation.layers()
//@endfn
//@fn src/hnsw.rs Iterator for IterPointLayer::next
//@sub? Self :: Item => Arc<Point<'b, T>>
//@ret r
//@spec
    requires old(self).wf()
    ensures final(self).wf(), final(self).layer == old(self).layer, final(self).pi_guard == old(self).pi_guard,
        old(self).rem().len() == 0 ==> r.is_none() && final(self).rem() == old(self).rem(),
        old(self).rem().len() > 0 ==> r == Some(old(self).rem()[0]) && final(self).rem() =~= old(self).rem().drop_first(),
//@endfn
}
