// ---- a reloaded index against what its files hold
// the map of a data file, with the contract proved in the unit "datamap"
#[verifier::external_body]
pub struct DataMap { x: u8 }
impl DataMap {
    // the bytes mapped for each client id, and whether they can be read as vectors of T
    pub uninterp spec fn of(&self) -> Map<usize, Seq<u8>>;
    pub uninterp spec fn wf_for<T>(&self) -> bool;
    #[verifier::external_body]
    pub fn from_hnswdump<T: core::fmt::Debug>(dir: &PathBuf, base: &String) -> (r: Result<DataMap, String>)
//@if !P13
        requires exists|d: Description, s: Seq<(usize, Seq<u8>)>| descr_ok(d) && #[trigger] descr_at(gfile(dir@, base@), 0, d) && #[trigger] fills(dfile(dir@, base@), s) && s.len() <= i32::MAX
            && num_at(dfile(dir@, base@), 4, d.dimension) && (tname::<T>() == d.t_name@ ==> fit::<T>(s, d.dimension))
//@endif
        ensures r is Ok ==> r->Ok_0.of() == map_of(dfile(dir@, base@)) && r->Ok_0.wf_for::<T>()
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_data<'a, T: Clone + core::fmt::Debug>(&'a self, id: &usize) -> (r: Option<&'a [T]>)
//@if !P13
        requires self.wf_for::<T>()
//@endif
        ensures r is Some == self.of().dom().contains(*id), r is Some && size_of_t::<T>() > 0 ==> raw_of(r->0@) == self.of()[*id]
    { unimplemented!() }
}
pub open spec fn gfile(dir: Seq<Seq<u8>>, base: Seq<u8>) -> Seq<u8> { content(dir + seq![base + lit(".hnsw.graph"@)]) }
pub open spec fn dfile(dir: Seq<Seq<u8>>, base: Seq<u8>) -> Seq<u8> { content(dir + seq![base + lit(".hnsw.data"@)]) }
#[derive(Clone, Copy)]
//@struct src/hnswio.rs ReloadOptions
//@struct src/hnswio.rs HnswIo
pub broadcast axiom fn ax_file_len(f: VRead) ensures (#[trigger] f.b()).len() <= i64::MAX;
// the vector read has the bytes of the record
//@if P13
pub open spec fn vec_ok<T>(v: Seq<T>, raw: Seq<u8>) -> bool { true }
//@else
pub open spec fn vec_ok<T>(v: Seq<T>, raw: Seq<u8>) -> bool { !nodata::<T>() ==> raw_of(v) == raw }
//@endif
//@if P13
pub open spec fn pt_ok<'b, T: Clone + Send + Sync>(p: Arc<Point<'b, T>>, g: Rec) -> bool { p.p_id == g.p_id }
//@else
pub open spec fn pt_ok<'b, T: Clone + Send + Sync>(p: Arc<Point<'b, T>>, g: Rec) -> bool { p.origin_id == g.id && p.p_id == g.p_id && vec_ok(p.data@, g.raw) }
//@endif
pub open spec fn lid<'b, T: Clone + Send + Sync>(p: Arc<Point<'b, T>>) -> int { (*p.neighbours).id() }
pub open spec fn is_empties<'b, T: Clone + Send + Sync>(v: NLists<'b, T>) -> bool { v@.len() == 16 && empty_lists(v@) }
pub open spec fn pair_at(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, g: Rec, n: int, full: bool) -> bool { graph_at(gb, gp, g, n, full) && data_at(db, dp, g.id, g.raw) }
// a record can be read into a T: its bytes are those of a vector of T, in the map too when it is mapped
pub open spec fn mapped<T>(m: Option<DataMap>, g: Rec) -> bool { m is Some && m->0.wf_for::<T>() && m->0.of().dom().contains(g.id) && m->0.of()[g.id] == g.raw }
// a lock has been made, holding 16 empty lists
pub open spec fn made<'b, T: Clone + Send + Sync>(h: Map<int, NLists<'b, T>>, k: Map<int, NLists<'b, T>>, i: int) -> bool { k == h.insert(i, k[i]) && is_empties(k[i]) }
pub open spec fn pviews<'b, T: Clone + Send + Sync>(s: Seq<Vec<Arc<Point<'b, T>>>>) -> Seq<Seq<Arc<Point<'b, T>>>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn layer_ok<'b, T: Clone + Send + Sync>(p: Seq<Arc<Point<'b, T>>>, s: Seq<Rec>) -> bool { p.len() == s.len() && forall|r: int| 0 <= r < s.len() ==> pt_ok(#[trigger] p[r], s[r]) }
pub open spec fn pts_ok<'b, T: Clone + Send + Sync>(pv: Seq<Seq<Arc<Point<'b, T>>>>, s: Seq<Seq<Rec>>) -> bool { pv.len() == s.len() && forall|l: int| 0 <= l < s.len() ==> layer_ok(#[trigger] pv[l], s[l]) }
// the links read so far, by position
pub open spec fn has(m: Map<PointId, Vec<Vec<Neighbour>>>, g: Rec) -> bool { m.dom().contains(g.p_id) && vviews(m[g.p_id]@) == g.nb }
pub open spec fn map_has(m: Map<PointId, Vec<Vec<Neighbour>>>, s: Seq<Seq<Rec>>) -> bool {
    (forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() ==> has(m, #[trigger] s[l][r])) && (forall|k: PointId| #[trigger] m.dom().contains(k) ==> named(s, k))
}
// each point has its own lock; before the links are resolved all lists are empty
pub open spec fn own_at<'b, T: Clone + Send + Sync>(h: Map<int, NLists<'b, T>>, own: Map<int, (int, int)>, p: Arc<Point<'b, T>>, l: int, r: int) -> bool {
    h.dom().contains(lid(p)) && own.dom().contains(lid(p)) && own[lid(p)] == (l, r)
}
pub open spec fn fresh<'b, T: Clone + Send + Sync>(h: Map<int, NLists<'b, T>>, own: Map<int, (int, int)>, pv: Seq<Seq<Arc<Point<'b, T>>>>) -> bool {
    forall|l: int, r: int| 0 <= l < pv.len() && 0 <= r < pv[l].len() ==> own_at(h, own, #[trigger] pv[l][r], l, r) && is_empties(h[lid(pv[l][r])])
}
// the entry of a neighbour list for a link read from the file
pub open spec fn lnk<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>, n: Neighbour, pv: Seq<Seq<Arc<Point<'b, T>>>>) -> bool { e.point_ref == pv[n.p_id.0 as int][n.p_id.1 as int] && e.dist_to_ref == n.distance }
pub open spec fn built<'b, T: Clone + Send + Sync>(a: Seq<Arc<PointWithOrder<'b, T>>>, nb: Seq<Neighbour>, j: int, pv: Seq<Seq<Arc<Point<'b, T>>>>) -> bool { a.len() == j && forall|i: int| 0 <= i < j ==> lnk(#[trigger] a[i], nb[i], pv) }
pub open spec fn ascending<'b, T: Clone + Send + Sync>(a: Seq<Arc<PointWithOrder<'b, T>>>) -> bool { forall|i: int, j: int| 0 <= i <= j < a.len() ==> (#[trigger] a[i]).okey() <= (#[trigger] a[j]).okey() }
pub open spec fn linked<'b, T: Clone + Send + Sync>(a: Seq<Arc<PointWithOrder<'b, T>>>, nb: Seq<Neighbour>, pv: Seq<Seq<Arc<Point<'b, T>>>>) -> bool {
    exists|o: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] built(o, nb, nb.len() as int, pv) && perm_of(a, o) && ascending(a)
}
pub open spec fn lists_done<'b, T: Clone + Send + Sync>(v: NLists<'b, T>, nb: Seq<Seq<Neighbour>>, pv: Seq<Seq<Arc<Point<'b, T>>>>) -> bool { v@.len() == 16 && forall|l: int| 0 <= l < 16 ==> linked((#[trigger] v@[l])@, nb[l], pv) }
pub open spec fn in_pre(s: Seq<&(PointId, Vec<Vec<Neighbour>>)>, k: int, p: PointId) -> bool { exists|i: int| 0 <= i < k && (#[trigger] s[i]).0 == p }
pub open spec fn linking<'b, T: Clone + Send + Sync>(h: Map<int, NLists<'b, T>>, own: Map<int, (int, int)>, pv: Seq<Seq<Arc<Point<'b, T>>>>, s: Seq<Seq<Rec>>, e: Seq<&(PointId, Vec<Vec<Neighbour>>)>, k: int) -> bool {
    forall|l: int, r: int| 0 <= l < pv.len() && 0 <= r < pv[l].len() ==> own_at(h, own, #[trigger] pv[l][r], l, r)
        && (if in_pre(e, k, PointId(l as u8, r as i32)) { lists_done(h[lid(pv[l][r])], s[l][r].nb, pv) } else { is_empties(h[lid(pv[l][r])]) })
}
pub open spec fn all_linked<'b, T: Clone + Send + Sync>(h: Map<int, NLists<'b, T>>, pv: Seq<Seq<Arc<Point<'b, T>>>>, s: Seq<Seq<Rec>>) -> bool {
    forall|l: int, r: int| 0 <= l < pv.len() && 0 <= r < pv[l].len() ==> lists_done(h[lid(#[trigger] pv[l][r])], s[l][r].nb, pv)
}
pub open spec fn dom_le<'b, T: Clone + Send + Sync>(own: Map<int, (int, int)>, h: Map<int, NLists<'b, T>>) -> bool { forall|i: int| #[trigger] own.dom().contains(i) ==> h.dom().contains(i) }
// a map of the data file holds every record under its client id
pub open spec fn map_good<T>(m: Option<DataMap>, s: Seq<Seq<Rec>>) -> bool { m is Some ==> forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() ==> mapped::<T>(m, #[trigger] s[l][r]) }
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
    // the parameters are those of the description
    pub open spec fn like(&self, d: Description) -> bool {
//@if P13
        true
//@else
        self.max_nb_connection == d.max_nb_connection && self.max_layer == 16 && self.layer_g.maxlevel == 16 && (d.format_version == 4 ==> self.layer_g.scale == d.level_scale)
//@endif
    }
    // the points are those of the records, and the entry point is the one at the position recorded
    pub open spec fn holds(&self, s: Seq<Seq<Rec>>, ep: (usize, PointId)) -> bool {
//@if P13
        true
//@else
        let pv = pviews((*self.points_by_layer)@@);
        pts_ok(pv, s) && ids_ok(s) && named(s, ep.1) && (*self.entry_point)@ == Some(pv[ep.1.0 as int][ep.1.1 as int])
//@endif
    }
}
//@if !P13
// what the index dumped must be like for its vectors to be mapped: one vector per client id, a type that can be read where its records stand
pub open spec fn map_needs<T>(d: Description, db: Seq<u8>, s: Seq<Seq<Rec>>) -> bool {
    db.len() == 12 + ldoff(s, s.len() as int) && one_each(s) && total(s, s.len() as int) <= i32::MAX
        && (tname::<T>() == d.t_name@ ==> (align_of_t::<T>() == 1 || size_of_t::<T>() > 0 && (align_of_t::<T>() == 2 || align_of_t::<T>() == 4)) && d.dimension * size_of_t::<T>() <= i64::MAX)
}
//@endif
#[verifier::external_body]
pub fn varc_clone<E>(a: &Arc<E>) -> (r: Arc<E>) ensures r == *a { unimplemented!() }
impl<'b, T: Clone + Send + Sync + 'b, D: Distance<T>> Hnsw<'b, T, D> {
//@if P13
    pub open spec fn loaded(&self, d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)) -> bool { true }
//@else
    pub open spec fn loaded(&self, d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)) -> bool {
        &&& self.max_nb_connection == d.max_nb_connection && self.ef_construction == d.ef && self.max_layer == d.nb_layer
        &&& self.layer_indexed_points.like(d) && self.layer_indexed_points.holds(s, ep)
        &&& self.data_dimension == pviews((*self.layer_indexed_points.points_by_layer)@@)[ep.1.0 as int][ep.1.1 as int].data@.len()
    }
//@endif
}
