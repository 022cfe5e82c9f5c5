// ---- what a memory map of a data file shows
// the records of a data file, one after the other: client id and bytes
pub open spec fn moff(s: Seq<(usize, Seq<u8>)>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { moff(s, n - 1) + data_len(s[n - 1].1) } }
pub open spec fn drec_at(b: Seq<u8>, s: Seq<(usize, Seq<u8>)>, i: int) -> bool { data_at(b, 12 + moff(s, i), s[i].0, s[i].1) }
pub open spec fn drecs_at(b: Seq<u8>, s: Seq<(usize, Seq<u8>)>, n: int) -> bool { forall|i: int| 0 <= i < n ==> #[trigger] drec_at(b, s, i) }
// the file holds these records and nothing else
pub open spec fn fills(b: Seq<u8>, s: Seq<(usize, Seq<u8>)>) -> bool { num_at(b, 0, MAGICDATAP) && b.len() >= 12 && drecs_at(b, s, s.len() as int) && 12 + moff(s, s.len() as int) == b.len() }
// the bytes held for each client id, and where its record's length stands
pub open spec fn mfold(s: Seq<(usize, Seq<u8>)>, n: int) -> Map<usize, Seq<u8>>
    decreases n
{ if n <= 0 { Map::empty() } else { mfold(s, n - 1).insert(s[n - 1].0, s[n - 1].1) } }
pub open spec fn amap(s: Seq<(usize, Seq<u8>)>, n: int) -> Map<usize, usize>
    decreases n
{ if n <= 0 { Map::empty() } else { amap(s, n - 1).insert(s[n - 1].0, (24 + moff(s, n - 1)) as usize) } }
pub open spec fn map_of(b: Seq<u8>) -> Map<usize, Seq<u8>> { let s = choose|s: Seq<(usize, Seq<u8>)>| fills(b, s); mfold(s, s.len() as int) }
// vectors of T can be read where the records stand
pub open spec fn fit<T>(s: Seq<(usize, Seq<u8>)>, dim: usize) -> bool {
    (align_of_t::<T>() == 1 || size_of_t::<T>() > 0 && (align_of_t::<T>() == 2 || align_of_t::<T>() == 4)) && dim * size_of_t::<T>() <= i64::MAX
        && (size_of_t::<T>() > 0 ==> forall|i: int| 0 <= i < s.len() ==> (#[trigger] s[i]).1.len() % size_of_t::<T>() == 0)
}
// the records of an index, one after the other
pub open spec fn flat1(x: Seq<Rec>) -> Seq<(usize, Seq<u8>)> { Seq::new(x.len(), |r: int| (x[r].id, x[r].raw)) }
pub open spec fn flat(s: Seq<Seq<Rec>>, l: int) -> Seq<(usize, Seq<u8>)>
    decreases l
{ if l <= 0 { Seq::empty() } else { flat(s, l - 1) + flat1(s[l - 1]) } }
// one vector per client id
pub open spec fn one_each(s: Seq<Seq<Rec>>) -> bool { forall|l: int, r: int, m: int, q: int| 0 <= l < s.len() && 0 <= r < s[l].len() && 0 <= m < s.len() && 0 <= q < s[m].len() && (#[trigger] s[l][r]).id == (#[trigger] s[m][q]).id ==> s[l][r].raw == s[m][q].raw }
// the map of ids holds every record under its client id
pub open spec fn records(m: Map<usize, Seq<u8>>, s: Seq<Seq<Rec>>) -> bool { forall|l: int, r: int| 0 <= l < s.len() && 0 <= r < s[l].len() ==> m.dom().contains((#[trigger] s[l][r]).id) && m[s[l][r].id] == s[l][r].raw }
