// ---- what a whole dump is
// some vector of T has these bytes
pub open spec fn whole<T>(raw: Seq<u8>) -> bool { size_of_t::<T>() > 0 && raw.len() % size_of_t::<T>() == 0 }
pub open spec fn readable<T>(g: Rec) -> bool { nodata::<T>() || whole::<T>(g.raw) }
// every record is where its position says
pub open spec fn ids_ok(s: Seq<Seq<Rec>>) -> bool { s.len() <= 16 && forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() ==> (#[trigger] s[l][r]).p_id == PointId(l as u8, r as i32) && r <= i32::MAX }
pub open spec fn named(s: Seq<Seq<Rec>>, k: PointId) -> bool { k.0 < s.len() && 0 <= k.1 < s[k.0 as int].len() }
pub open spec fn total(s: Seq<Seq<Rec>>, l: int) -> int
    decreases l
{ if l <= 0 { 0 } else { total(s, l - 1) + s[l - 1].len() } }
// what an index that is dumped is like: 16 lists per point, each link names a stored point by its id and position, no distance is NaN, the entry point is stored
pub open spec fn link_ok(s: Seq<Seq<Rec>>, n: Neighbour) -> bool { named(s, n.p_id) && s[n.p_id.0 as int][n.p_id.1 as int].id == n.d_id && !is_nan(n.distance) }
pub open spec fn rec_ok<T>(s: Seq<Seq<Rec>>, g: Rec) -> bool { readable::<T>(g) && g.nb.len() == 16 && forall|l: int, i: int| 0 <= l < 16 && 0 <= i < g.nb[l].len() ==> link_ok(s, #[trigger] g.nb[l][i]) }
pub open spec fn coherent<T>(s: Seq<Seq<Rec>>, ep: (usize, PointId)) -> bool {
    &&& ids_ok(s) && forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() ==> rec_ok::<T>(s, #[trigger] s[l][r])
    &&& named(s, ep.1) && s[ep.1.0 as int][ep.1.1 as int].id == ep.0 && total(s, s.len() as int) <= i64::MAX
}
// what the two files of a dump hold from their start: the description, the header of the data, the points
pub open spec fn dump_at(gb: Seq<u8>, db: Seq<u8>, d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)) -> bool {
    descr_at(gb, 0, d) && num_at(db, 0, MAGICDATAP) && num_at(db, 4, d.dimension) && index_at(gb, descr_len(d), db, 12, s, ep, d.nb_layer as int, isfull(d))
}
pub open spec fn names_ok<T, D>(d: Description) -> bool { nodata::<T>() || (tname::<T>() == d.t_name@ && short(tname::<D>()) == short(d.distname@)) }
// a dump an index can be read from whole
pub open spec fn whole_dump<T, D>(gb: Seq<u8>, db: Seq<u8>, d: Description, s: Seq<Seq<Rec>>, ep: (usize, PointId)) -> bool {
    dump_at(gb, db, d, s, ep) && descr_ok(d) && isfull(d) && d.nb_layer == 16 && d.nb_point == total(s, s.len() as int) && coherent::<T>(s, ep) && names_ok::<T, D>(d)
        && rsplit(tname::<D>(), lit("::"@)).len() > 0 && rsplit(d.distname@, lit("::"@)).len() > 0
}
