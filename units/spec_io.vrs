// ---- what the two files of a dump hold
// (the number of bytes one link takes; without positions in light mode)
pub open spec fn nsz(full: bool) -> int { if full { 17 } else { 12 } }
pub open spec fn upto(n: int, full: bool) -> int { if full { 17 * n } else { 12 * n } }
pub open spec fn link_at(b: Seq<u8>, p: int, n: Neighbour, full: bool) -> bool {
    &&& num_at(b, p, n.d_id)
    &&& full ==> num_at(b, p + 8, n.p_id.0) && num_at(b, p + 9, n.p_id.1)
    &&& num_at(b, p + nsz(full) - 4, n.distance)
}
pub open spec fn links_at(b: Seq<u8>, p: int, s: Seq<Neighbour>, n: int, full: bool) -> bool {
    forall|i: int| 0 <= i < n ==> link_at(b, p + upto(i, full), #[trigger] s[i], full)
}
pub open spec fn list_at(b: Seq<u8>, p: int, s: Seq<Neighbour>, full: bool) -> bool {
    s.len() <= usize::MAX && num_at(b, p, s.len() as usize) && links_at(b, p + 8, s, s.len() as int, full)
}
// where the list of layer l starts, from the first
pub open spec fn loff(nb: Seq<Seq<Neighbour>>, l: int, full: bool) -> int
    decreases l
{ if l <= 0 { 0 } else { loff(nb, l - 1, full) + 8 + upto(nb[l - 1].len() as int, full) } }
pub open spec fn lists_at(b: Seq<u8>, p: int, nb: Seq<Seq<Neighbour>>, n: int, full: bool) -> bool {
    forall|l: int| 0 <= l < n ==> list_at(b, p + loff(nb, l, full), #[trigger] nb[l], full)
}
// a stored point, as dumped
pub ghost struct Rec { pub id: usize, pub p_id: PointId, pub nb: Seq<Seq<Neighbour>>, pub raw: Seq<u8> }
// the graph record of a point: MAGICPOINT, client id, layer, rank, then for n layers the number of links and the links
pub open spec fn graph_at(b: Seq<u8>, p: int, g: Rec, n: int, full: bool) -> bool {
    num_at(b, p, MAGICPOINT) && num_at(b, p + 4, g.id) && num_at(b, p + 12, g.p_id.0) && num_at(b, p + 13, g.p_id.1) && lists_at(b, p + 17, g.nb, n, full)
        && g.nb.len() >= n && forall|l: int| n <= l < g.nb.len() ==> (#[trigger] g.nb[l]).len() == 0
}
pub open spec fn graph_len(g: Rec, n: int, full: bool) -> int { 17 + loff(g.nb, n, full) }
// the data record of a point: MAGICDATAP, client id, length in bytes, bytes
pub open spec fn data_at(b: Seq<u8>, p: int, id: usize, raw: Seq<u8>) -> bool {
    num_at(b, p, MAGICDATAP) && num_at(b, p + 4, id as u64) && raw.len() <= usize::MAX && num_at(b, p + 12, raw.len() as u64) && at(b, p + 20, raw)
}
pub open spec fn data_len(raw: Seq<u8>) -> int { (20 + raw.len()) as int }
// where the records of the r-th point of a layer start, from the layer's first
pub open spec fn goff(s: Seq<Rec>, r: int, n: int, full: bool) -> int
    decreases r
{ if r <= 0 { 0 } else { goff(s, r - 1, n, full) + graph_len(s[r - 1], n, full) } }
pub open spec fn doff(s: Seq<Rec>, r: int) -> int
    decreases r
{ if r <= 0 { 0 } else { doff(s, r - 1) + data_len(s[r - 1].raw) } }
pub open spec fn rec_at(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, s: Rec, l: int, r: int, n: int, full: bool) -> bool {
    graph_at(gb, gp, s, n, full) && data_at(db, dp, s.id, s.raw) && s.p_id == PointId(l as u8, r as i32) && 0 <= r <= i32::MAX
}
pub open spec fn recs_at(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, s: Seq<Rec>, l: int, cnt: int, n: int, full: bool) -> bool {
    forall|r: int| 0 <= r < cnt ==> rec_at(gb, gp + goff(s, r, n, full), db, dp + doff(s, r), #[trigger] s[r], l, r, n, full)
}
// layers: MAGICLAYER, number of points, the graph records of the points
pub open spec fn lgoff(s: Seq<Seq<Rec>>, l: int, n: int, full: bool) -> int
    decreases l
{ if l <= 0 { 0 } else { lgoff(s, l - 1, n, full) + 12 + goff(s[l - 1], s[l - 1].len() as int, n, full) } }
pub open spec fn ldoff(s: Seq<Seq<Rec>>, l: int) -> int
    decreases l
{ if l <= 0 { 0 } else { ldoff(s, l - 1) + doff(s[l - 1], s[l - 1].len() as int) } }
pub open spec fn layer_at(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, s: Seq<Rec>, l: int, n: int, full: bool) -> bool {
    s.len() <= usize::MAX && num_at(gb, gp, MAGICLAYER) && num_at(gb, gp + 4, s.len() as usize) && recs_at(gb, gp + 12, db, dp, s, l, s.len() as int, n, full)
}
pub open spec fn layers_at(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, s: Seq<Seq<Rec>>, cnt: int, n: int, full: bool) -> bool {
    forall|l: int| 0 <= l < cnt ==> layer_at(gb, gp + lgoff(s, l, n, full), db, dp + ldoff(s, l), #[trigger] s[l], l, n, full)
}
// the points of an index: number of layers, layers, entry point (client id, layer, rank)
pub open spec fn index_at(gb: Seq<u8>, gp: int, db: Seq<u8>, dp: int, s: Seq<Seq<Rec>>, ep: (usize, PointId), n: int, full: bool) -> bool {
    s.len() <= 16 && num_at(gb, gp, s.len() as u8) && layers_at(gb, gp + 1, db, dp, s, s.len() as int, n, full)
        && num_at(gb, gp + 1 + lgoff(s, s.len() as int, n, full), ep.0)
        && num_at(gb, gp + 9 + lgoff(s, s.len() as int, n, full), ep.1.0)
        && num_at(gb, gp + 10 + lgoff(s, s.len() as int, n, full), ep.1.1)
}
// the description at the start of the graph file
pub open spec fn magic_of(version: usize) -> u32 { if version == 4 { MAGICDESCR_4 } else if version == 3 { MAGICDESCR_3 } else { MAGICDESCR_2 } }
pub open spec fn dscale(version: usize) -> int { if version == 4 { 8 } else { 0 } }
pub open spec fn descr_at(b: Seq<u8>, p: int, d: Description) -> bool {
    let q = p + 6 + dscale(d.format_version);
    let n1 = d.distname@.len();
    let n2 = d.t_name@.len();
    &&& (d.format_version == 2 || d.format_version == 3 || d.format_version == 4) && num_at(b, p, magic_of(d.format_version))
    &&& num_at(b, p + 4, d.dumpmode) && num_at(b, p + 5, d.max_nb_connection)
    &&& d.format_version == 4 ==> num_at(b, p + 6, d.level_scale)
    &&& num_at(b, q, d.nb_layer) && num_at(b, q + 1, d.ef) && num_at(b, q + 9, d.nb_point) && num_at(b, q + 17, d.dimension)
    &&& n1 <= usize::MAX && num_at(b, q + 25, n1 as usize) && at(b, q + 33, d.distname@)
    &&& n2 <= usize::MAX && num_at(b, q + 33 + n1, n2 as usize) && at(b, q + 41 + n1, d.t_name@)
}
pub open spec fn descr_len(d: Description) -> int { (47 + dscale(d.format_version) + d.distname@.len() + d.t_name@.len()) as int }
pub open spec fn same_descr(x: Description, y: Description) -> bool {
    x.format_version == y.format_version && x.dumpmode == y.dumpmode && x.max_nb_connection == y.max_nb_connection && x.level_scale == y.level_scale && x.nb_layer == y.nb_layer && x.ef == y.ef && x.nb_point == y.nb_point
        && x.dimension == y.dimension && x.distname@ == y.distname@ && x.t_name@ == y.t_name@ && descr_len(x) == descr_len(y)
}
// a description the current version writes and reads back
pub open spec fn descr_ok(d: Description) -> bool { d.format_version == 4 && d.distname@.len() <= 256 && d.t_name@.len() <= 256 && utf8(d.distname@) && utf8(d.t_name@) }
pub open spec fn vviews(s: Seq<Vec<Neighbour>>) -> Seq<Seq<Neighbour>> { Seq::new(s.len(), |i: int| s[i]@) }
pub open spec fn isfull(d: Description) -> bool { d.dumpmode == 1 }
