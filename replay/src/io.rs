//! P10 to P14: dump and reload
use crate::gen::note;
use crate::rng::Rng;
use crate::{Case, Outcome};
use anndists::dist::*;
use hnsw_rs::datamap::DataMap;
use hnsw_rs::hnswio::*;
use hnsw_rs::prelude::*;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};

pub trait El: 'static + Clone + Copy + Send + Sync + Debug + PartialEq + Serialize + DeserializeOwned {
    fn draw(r: &mut Rng) -> Self;
    fn base() -> Self;
    fn far(r: &mut Rng, i: usize) -> Self;
}
impl El for f32 {
    fn base() -> f32 {
        100.
    }
    fn far(_: &mut Rng, i: usize) -> f32 {
        100. + (if (i / 40) % 2 == 0 { 10. + i as f32 / 100. } else { -10. - i as f32 / 100. })
    }
    fn draw(r: &mut Rng) -> f32 {
        r.below(20) as f32 / 2.
    }
}
impl El for u8 {
    fn base() -> u8 {
        100
    }
    fn far(_: &mut Rng, i: usize) -> u8 {
        if (i / 40) % 2 == 0 { 150 + (i / 80) as u8 } else { 50 - (i / 80) as u8 }
    }
    fn draw(r: &mut Rng) -> u8 {
        r.below(256) as u8
    }
}
impl El for u16 {
    fn base() -> u16 {
        2
    }
    fn far(_: &mut Rng, i: usize) -> u16 {
        3 + i as u16
    }
    fn draw(r: &mut Rng) -> u16 {
        r.below(5) as u16
    }
}
impl El for u32 {
    fn base() -> u32 {
        0
    }
    fn far(_: &mut Rng, i: usize) -> u32 {
        if (i / 40) % 2 == 0 { 5 + (i / 80) as u32 } else { 900 + (i / 80) as u32 }
    }
    fn draw(r: &mut Rng) -> u32 {
        r.below(40) as u32
    }
}
impl El for i32 {
    fn base() -> i32 {
        0
    }
    fn far(_: &mut Rng, i: usize) -> i32 {
        if (i / 40) % 2 == 0 { 5 + (i / 80) as i32 } else { -5 - (i / 80) as i32 }
    }
    fn draw(r: &mut Rng) -> i32 {
        r.below(40) as i32 - 20
    }
}
impl El for u64 {
    fn base() -> u64 {
        7
    }
    fn far(_: &mut Rng, i: usize) -> u64 {
        1000 + i as u64
    }
    fn draw(r: &mut Rng) -> u64 {
        r.next() >> r.below(64)
    }
}
/// a user's element type, and another of the same crate
#[repr(C)]
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub struct Pair(u16, u16);
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Twin(u16, u16);
impl El for Pair {
    fn base() -> Pair {
        Pair(3, 4)
    }
    fn far(_: &mut Rng, i: usize) -> Pair {
        Pair(1000 + i as u16, 7)
    }
    fn draw(r: &mut Rng) -> Pair {
        Pair(r.below(4) as u16, r.below(50) as u16)
    }
}
/// a distance on words of any length
#[derive(Default, Clone, Copy)]
pub struct Word;
/// distances whose names begin or end like the others'
#[derive(Default, Clone, Copy)]
pub struct SwapWord;
#[derive(Default, Clone, Copy)]
pub struct WordSwap;
impl<T: El> Distance<T> for Word {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        let n = a.len().min(b.len());
        let d = (0..n).filter(|i| a[*i] != b[*i]).count();
        (d + (a.len() - n) + (b.len() - n)) as f32
    }
}
impl<T: El> Distance<T> for SwapWord {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        Word.eval(b, a)
    }
}
impl<T: El> Distance<T> for WordSwap {
    fn eval(&self, a: &[T], b: &[T]) -> f32 {
        Word.eval(b, a)
    }
}

pub fn scratch(name: &str, case: u64) -> PathBuf {
    let d = std::env::var("VREPLAY_SCRATCH").unwrap_or_else(|_| "/tmp/vreplay_scratch".to_string());
    let p = PathBuf::from(d).join(format!("{}_{}", name, case));
    let _ = std::fs::remove_dir_all(&p);
    std::fs::create_dir_all(&p).unwrap();
    p
}
pub struct Clean(pub PathBuf);
impl Drop for Clean {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

type Lists = Vec<Vec<(u32, u8, i32, usize)>>;
#[derive(Clone, Debug, PartialEq)]
pub struct Snap<T> {
    params: (usize, usize, usize, u64),
    nb: usize,
    entry: Option<(u8, i32)>,
    pts: Vec<((u8, i32), usize, Vec<T>, Lists)>,
}
fn snap<T: El, D: Distance<T> + Send + Sync>(h: &Hnsw<T, D>) -> Snap<T> {
    let mut pts = vec![];
    for l in 0..16 {
        if h.get_point_indexation().get_layer_nb_point(l) == 0 {
            continue;
        }
        for p in h.get_point_indexation().get_layer_iterator(l) {
            let k = p.get_point_id();
            pts.push(((k.0, k.1), p.get_origin_id(), p.get_v().to_vec(), lists(&p.get_neighborhood_id())));
        }
    }
    Snap {
        params: (h.get_max_nb_connection() as usize, h.get_max_level(), h.get_ef_construction(), h.get_point_indexation().get_level_scale().to_bits()),
        nb: h.get_nb_point(),
        entry: h.verif_entry_point().map(|p| (p.0, p.1)),
        pts,
    }
}
fn lists(nb: &[Vec<Neighbour>]) -> Lists {
    nb.iter()
        .map(|l| {
            let mut v: Vec<_> = l.iter().map(|n| (n.distance.to_bits(), n.p_id.0, n.p_id.1, n.d_id)).collect();
            v.sort();
            v
        })
        .collect()
}
fn sorted_by_distance(nb: &[Vec<Neighbour>]) -> bool {
    nb.iter().all(|l| l.windows(2).all(|w| w[0].distance <= w[1].distance))
}
fn differ<T: El>(a: &Snap<T>, b: &Snap<T>, with_data: bool) -> Option<String> {
    if a.params != b.params {
        return Some(format!("parameters (connections, layers, construction width, level scale bits) dumped {:?}, reloaded {:?}", a.params, b.params));
    }
    if a.nb != b.nb || a.pts.len() != b.pts.len() {
        return Some(format!("number of points: dumped {} ({} stored), reloaded {} ({} stored)", a.nb, a.pts.len(), b.nb, b.pts.len()));
    }
    if a.entry != b.entry {
        return Some(format!("entry point: dumped {:?}, reloaded {:?}", a.entry, b.entry));
    }
    for (x, y) in a.pts.iter().zip(&b.pts) {
        if (x.0, x.1) != (y.0, y.1) {
            return Some(format!("ids of a point: dumped {:?}, reloaded {:?}", (x.0, x.1), (y.0, y.1)));
        }
        if with_data && x.2 != y.2 {
            return Some(format!("vector of point {:?}: dumped {:?}, reloaded {:?}", x.0, x.2, y.2));
        }
        for l in 0..x.3.len().max(y.3.len()) {
            let e = vec![];
            let (p, q) = (x.3.get(l).unwrap_or(&e), y.3.get(l).unwrap_or(&e));
            if p != q {
                return Some(format!("neighbours (distance bits, layer, rank, id) of point {:?} at layer {}: dumped {:?}, reloaded {:?}", x.0, l, p, q));
            }
        }
    }
    None
}

#[derive(Clone, Debug)]
pub struct Shape {
    m: usize,
    efc: usize,
    n: usize,
    dim: usize,
    vary: bool,
    scale: f64,
    stride: usize,
    /// how many points share a client id
    same: usize,
    /// points all around one: one coordinate differs from it
    hub: bool,
}
impl Shape {
    fn random(r: &mut Rng, nmax: usize, vary: bool) -> Shape {
        Shape {
            m: *r.pick(&[2, 3, 4, 8, 16, 100, 255]),
            efc: *r.pick(&[1, 2, 8, 32, 1000]),
            n: if r.chance(1, 4) { r.range(1, 3) } else { r.range(1, nmax) },
            dim: r.range(1, 5),
            vary,
            scale: *r.pick(&[1., 1., 0.5, 0.3, 0.1, 0.77]),
            stride: *r.pick(&[1, 1, 7, 1 << 40, usize::MAX / 2]),
            same: 1,
            hub: false,
        }
    }
    /// also: equal client ids, long vectors, lists of more than 255 entries, a construction width below the connections
    fn wild(r: &mut Rng, nmax: usize, vary: bool) -> Shape {
        let mut s = Shape::random(r, nmax, vary);
        match r.below(40) {
            0..=5 => s.same = r.range(2, 4),
            6..=7 => {
                s.dim = r.range(100, 700);
                s.n = r.range(1, 8);
            }
            8 if r.chance(1, 4) => {
                s.m = *r.pick(&[130, 200, 255]);
                s.efc = 300;
                s.n = r.range(300, 400);
                s.dim = 40;
                s.vary = false;
                s.hub = true;
            }
            _ => {}
        }
        s
    }
}
fn make<T: El, D: Distance<T> + Send + Sync>(r: &mut Rng, s: &Shape, d: D) -> Hnsw<'static, T, D> {
    let mut h = Hnsw::<T, D>::new(s.m, s.n, 16, s.efc, d);
    if s.scale < 1. {
        h.modify_level_scale(s.scale);
    }
    for i in 0..s.n {
        let len = if s.vary { r.below(s.dim + 1) } else { s.dim };
        let v: Vec<T> = if s.hub {
            let (z, x) = (T::base(), T::far(r, i));
            (0..len).map(|j| if i > 0 && j == i % len { x } else { z }).collect()
        } else {
            (0..len).map(|_| T::draw(r)).collect()
        };
        let id = (i / s.same).wrapping_mul(s.stride);
        h.insert((v.as_slice(), id));
    }
    h
}
fn nontrivial<T>(s: &Snap<T>) -> bool {
    s.pts.len() > 1 && s.pts.last().unwrap().0 .0 > 0
}

// a base name, in a directory which may hold files of that name and of names like it
fn prepare(r: &mut Rng, dir: &Path) -> String {
    let names = ["x", "x.1", "x.hnsw", "my dump"];
    for n in names {
        for ext in ["data", "graph"] {
            if r.chance(1, 3) {
                std::fs::write(dir.join(format!("{}.hnsw.{}", n, ext)), vec![7u8; r.below(40000)]).unwrap();
            }
        }
    }
    r.pick(&names).to_string()
}
// ---- P10
fn p10_t<T: El, D: Distance<T> + Default + Clone + Send + Sync>(r: &mut Rng, case: u64, vary: bool) -> Outcome {
    let s = Shape::wild(r, 60, vary);
    let dir = scratch("p10", case);
    let _c = Clean(dir.clone());
    let x = prepare(r, &dir);
    note(format!("dumping {:?} of {}", s, std::any::type_name::<T>()));
    let h = make::<T, D>(r, &s, D::default());
    let a = snap(&h);
    let name = h.file_dump(&dir, &x).map_err(|e| format!("dump fails: {} {:?}", e, s))?;
    note(format!("reloading {:?} of {}", s, std::any::type_name::<T>()));
    let what = format!("{:?} of {}, distance {}", s, std::any::type_name::<T>(), std::any::type_name::<D>());
    let mut io = HnswIo::new(&dir, &name);
    if r.chance(1, 2) {
        let g = io.load_hnsw::<T, D>().map_err(|e| format!("reload fails: {} {}", e, what))?;
        if let Some(m) = differ(&a, &snap(&g), true) {
            return Err(format!("{}; {}", m, what));
        }
        // and again: the dump of the reloaded index
        if r.chance(1, 3) {
            let name2 = g.file_dump(&dir, "y").map_err(|e| format!("second dump fails: {} {:?}", e, s))?;
            let mut io2 = HnswIo::new(&dir, &name2);
            let g2 = io2.load_hnsw::<T, D>().map_err(|e| format!("second reload fails: {} {}", e, what))?;
            if let Some(m) = differ(&a, &snap(&g2), true) {
                return Err(format!("after a second dump: {}; {}", m, what));
            }
        }
        for p in g.get_point_indexation().into_iter() {
            if !sorted_by_distance(&p.get_neighborhood_id()) {
                return Err(format!("a reloaded list is not in distance order; {}", what));
            }
        }
    } else {
        let g = io.load_hnsw_with_dist::<T, D>(D::default()).map_err(|e| format!("reload with a distance fails: {} {}", e, what))?;
        if let Some(m) = differ(&a, &snap(&g), true) {
            return Err(format!("{}; {}", m, what));
        }
    }
    Ok(Case { text: format!("{} case {}", what, case), nontrivial: nontrivial(&a) })
}
pub fn p10(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    match r.below(7) {
        0 => p10_t::<f32, DistL1>(&mut r, case, false),
        1 => p10_t::<f32, DistL2>(&mut r, case, false),
        2 => p10_t::<u8, DistL1>(&mut r, case, false),
        3 => p10_t::<u16, DistLevenshtein>(&mut r, case, true),
        4 => p10_t::<f32, Word>(&mut r, case, true),
        5 => p10_t::<u64, Word>(&mut r, case, true),
        _ => p10_t::<i32, DistL1>(&mut r, case, false),
    }
}

// ---- P11
fn p11_t<T: El, D: Distance<T> + Default + Clone + Send + Sync>(r: &mut Rng, case: u64, vary: bool) -> Outcome {
    let s = Shape::wild(r, 60, vary);
    let dir = scratch("p11", case);
    let _c = Clean(dir.clone());
    let x = prepare(r, &dir);
    note(format!("dumping {:?} of {}", s, std::any::type_name::<T>()));
    let h = make::<T, D>(r, &s, D::default());
    let a = snap(&h);
    let what = format!("{:?} of {}, distance {}", s, std::any::type_name::<T>(), std::any::type_name::<D>());
    h.file_dump(&dir, &x).map_err(|e| format!("dump fails: {} {:?}", e, s))?;
    note(format!("reloading the graph of {}", what));
    let mut io = HnswIo::new(&dir, &x);
    let g = io.load_hnsw::<NoData, NoDist>().map_err(|e| format!("reloading the graph alone fails: {} {}", e, what))?;
    let mut pts = vec![];
    for p in g.get_point_indexation().into_iter() {
        let k = p.get_point_id();
        pts.push(((k.0, k.1), p.get_origin_id(), Vec::<T>::new(), lists(&p.get_neighborhood_id())));
    }
    let b = Snap::<T> { params: a.params, nb: g.get_nb_point(), entry: g.verif_entry_point().map(|p| (p.0, p.1)), pts };
    if let Some(m) = differ(&a, &b, false) {
        return Err(format!("graph alone: {}; {}", m, what));
    }
    Ok(Case { text: format!("{} case {}", what, case), nontrivial: nontrivial(&a) })
}
pub fn p11(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    match r.below(4) {
        0 => p11_t::<f32, DistL1>(&mut r, case, false),
        1 => p11_t::<u8, DistL1>(&mut r, case, false),
        2 => p11_t::<u16, DistLevenshtein>(&mut r, case, true),
        _ => p11_t::<i32, Word>(&mut r, case, true),
    }
}

// ---- P12
/// client id and place of the vector of each record of a data file
fn places(b: &[u8]) -> Vec<(usize, usize)> {
    let num = |p: usize| u64::from_ne_bytes(b[p..p + 8].try_into().unwrap()) as usize;
    let (mut res, mut p) = (vec![], 12);
    while p + 20 <= b.len() {
        res.push((num(p + 4), p + 20));
        p += 20 + num(p + 12);
    }
    res
}
fn p12_t<T: El, D: Distance<T> + Default + Clone + Send + Sync>(r: &mut Rng, case: u64, vary: bool) -> Outcome {
    let s = Shape::random(r, 60, vary);
    let dir = scratch("p12", case);
    let _c = Clean(dir.clone());
    let x = prepare(r, &dir);
    note(format!("dumping {:?} of {}", s, std::any::type_name::<T>()));
    let h = make::<T, D>(r, &s, D::default());
    let a = snap(&h);
    let what = format!("{:?} of {}, distance {}", s, std::any::type_name::<T>(), std::any::type_name::<D>());
    h.file_dump(&dir, &x).map_err(|e| format!("dump fails: {} {:?}", e, s))?;
    // a listed finding: the vectors of element types of alignment 8 need not be aligned in the file; those are not asked for
    let wide = std::mem::align_of::<T>() > 4;
    if wide || r.chance(1, 2) {
        note(format!("mapping the data of {}", what));
        let places = if wide { places(&std::fs::read(dir.join(format!("{}.hnsw.data", x))).unwrap_or_default()) } else { vec![] };
        let m = DataMap::from_hnswdump::<T>(&dir, &x).map_err(|e| format!("the data file cannot be mapped: {} {}", e, what))?;
        if m.get_nb_data() != a.pts.len() {
            return Err(format!("{} vectors mapped, {} dumped; {}", m.get_nb_data(), a.pts.len(), what));
        }
        if !m.check_data_type::<T>() {
            return Err(format!("the data map denies the type it was dumped with: {}, {}", m.get_data_typename(), what));
        }
        if m.check_data_type::<Twin>() || m.check_data_type::<i64>() || m.check_data_type::<Option<T>>() {
            return Err(format!("the data map accepts a type of another name: {}, {}", m.get_data_typename(), what));
        }
        let mut ids = vec![];
        for p in &a.pts {
            ids.push(p.1);
            if wide && places.iter().any(|q| q.0 == p.1 && q.1 % std::mem::align_of::<T>() != 0) {
                continue;
            }
            match m.get_data::<T>(&p.1) {
                Some(v) if v == p.2.as_slice() => {}
                v => return Err(format!("mapped vector of id {}: {:?}, dumped {:?}; {}", p.1, v, p.2, what)),
            }
        }
        for k in 0..20 {
            let id = if k < 10 { k } else { r.next() as usize };
            if !ids.contains(&id) && m.get_data::<T>(&id).is_some() {
                return Err(format!("id {} was not dumped but has a mapped vector; {}", id, what));
            }
        }
    } else {
        let thr = *r.pick(&[0, 0, 1, 5, 20, 1000]);
        let mut o = ReloadOptions::new(true);
        if thr > 0 {
            o.set_mmap_threshold(thr);
        }
        note(format!("reloading with memory map, threshold {}, {}", thr, what));
        let mut io = HnswIo::new_with_options(&dir, &x, o);
        if r.chance(3, 4) {
            let g = io.load_hnsw::<T, D>().map_err(|e| format!("reload with memory map, threshold {}, fails: {} {}", thr, e, what))?;
            if let Some(m) = differ(&a, &snap(&g), true) {
                return Err(format!("memory map, threshold {}: {}; {}", thr, m, what));
            }
        } else {
            let g = io.load_hnsw_with_dist::<T, D>(D::default()).map_err(|e| format!("reload with a distance and memory map fails: {} {}", e, what))?;
            if let Some(m) = differ(&a, &snap(&g), true) {
                return Err(format!("memory map and a given distance, threshold {}: {}; {}", thr, m, what));
            }
        }
    }
    Ok(Case { text: format!("{} case {}", what, case), nontrivial: nontrivial(&a) })
}
pub fn p12(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    match r.below(8) {
        7 => p12_t::<u64, Word>(&mut r, case, true),
        6 => p12_t::<Pair, Word>(&mut r, case, true),
        0 => p12_t::<f32, DistL1>(&mut r, case, false),
        1 => p12_t::<u8, DistL1>(&mut r, case, false),
        2 => p12_t::<u16, DistLevenshtein>(&mut r, case, true),
        3 => p12_t::<f32, Word>(&mut r, case, true),
        4 => p12_t::<u8, Word>(&mut r, case, true),
        _ => p12_t::<i32, DistL1>(&mut r, case, false),
    }
}

// ---- P13: an independent reading of the two files, from the documented format
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum F {
    Magic,
    Name,
    NameLen,
    Mode,
    Param,
    Count,
    Place,
    Client,
    Link,
    Dim,
    Len,
    Value,
    LayerCount,
}
pub struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    pub fields: Vec<(F, usize, usize)>,
    /// a length or count asks for more memory than there is, or the format is an old one: reloading is not tried
    pub skip: bool,
}
impl<'a> Cur<'a> {
    fn new(b: &'a [u8]) -> Self {
        Cur { b, p: 0, fields: vec![], skip: false }
    }
    fn take(&mut self, n: usize, f: F) -> Option<&'a [u8]> {
        if n > self.b.len() || self.p + n > self.b.len() {
            return None;
        }
        self.fields.push((f, self.p, n));
        self.p += n;
        Some(&self.b[self.p - n..self.p])
    }
    fn num(&mut self, n: usize, f: F) -> Option<u64> {
        let mut x = [0u8; 8];
        x[..n].copy_from_slice(self.take(n, f)?);
        let v = u64::from_le_bytes(x);
        if matches!(f, F::Count | F::Len | F::NameLen) && v > 1 << 24 {
            self.skip = true;
        }
        Some(v)
    }
}
/// what is expected of a dump of T with distance named `dist`; None when it must be refused
fn accept<'a>(g: &'a [u8], d: &'a [u8], tname: &str, size: usize, dist: &str, nodata: bool, full: bool) -> (Cur<'a>, Cur<'a>, Option<()>) {
    let (mut g, mut d) = (Cur::new(g), Cur::new(d));
    let ok = accept_in(&mut g, &mut d, tname, size, dist, nodata, full);
    (g, d, ok)
}
fn accept_in(g: &mut Cur, d: &mut Cur, tname: &str, size: usize, dist: &str, nodata: bool, full: bool) -> Option<()> {
    // refused, but read on to see what the reader would meet
    let mut bad = false;
    let m = g.num(4, F::Magic)?;
    if m != 0x002a6779 {
        // older formats are accepted but never written: not judged
        g.skip = m == 0x002a677f || m == 0x002a6771;
        return None;
    }
    let mode = g.num(1, F::Mode)?;
    g.num(1, F::Param)?;
    g.num(8, F::Param)?;
    let nl = g.num(1, F::LayerCount)?;
    g.num(8, F::Param)?;
    g.num(8, F::Count)?;
    let dim = g.num(8, F::Dim)?;
    let n = g.num(8, F::NameLen)? as usize;
    let dn = g.take(n, F::Name)?;
    let n = g.num(8, F::NameLen)? as usize;
    let tn = g.take(n, F::Name)?;
    // the distance is known by its full name when it is given, by its last component otherwise
    fn short(s: &[u8]) -> &str {
        std::str::from_utf8(s).ok().and_then(|s| s.rsplit_terminator("::").next()).unwrap_or("")
    }
    if !nodata && (tn != tname.as_bytes() || (if full { dn != dist.as_bytes() } else { short(dn) != short(dist.as_bytes()) })) {
        bad = true;
    }
    if (d.num(4, F::Magic)? != 0xa67f0000) | (d.num(8, F::Dim)? != dim) {
        bad = true;
    }
    let layers = g.num(1, F::LayerCount)?;
    let mut counts = vec![];
    for l in 0..layers {
        if g.num(4, F::Magic)? != 0x000a676f {
            bad = true;
        }
        let np = g.num(8, F::Count)?;
        counts.push(np);
        for r in 0..np {
            if g.num(4, F::Magic)? != 0x000a678f {
                bad = true;
            }
            let id = g.num(8, F::Client)?;
            if (g.num(1, F::Place)? != l) | (g.num(4, F::Place)? != r) {
                bad = true;
            }
            for _ in 0..nl {
                let k = g.num(8, F::Count)?;
                for _ in 0..k {
                    g.num(8, F::Link)?;
                    if mode == 1 {
                        g.num(1, F::Link)?;
                        g.num(4, F::Link)?;
                    }
                    g.num(4, F::Value)?;
                }
            }
            if (d.num(4, F::Magic)? != 0xa67f0000) | (d.num(8, F::Client)? != id) {
                bad = true;
            }
            let len = d.num(8, F::Len)? as usize;
            if !nodata && size > 0 && len % size != 0 {
                bad = true;
            }
            d.take(len, F::Value)?;
        }
    }
    g.num(8, F::Client)?;
    let l = g.num(1, F::Link)?;
    let r = g.num(4, F::Link)?;
    if l >= counts.len() as u64 || r >= counts[l as usize] {
        bad = true;
    }
    if bad {
        None
    } else {
        Some(())
    }
}
fn p13_t<T: El, D: Distance<T> + Default + Clone + Send + Sync>(r: &mut Rng, case: u64, vary: bool) -> Outcome {
    let s = Shape::random(r, 12, vary);
    let dir = scratch("p13", case);
    let _c = Clean(dir.clone());
    let what = format!("{:?} of {}, distance {}", s, std::any::type_name::<T>(), std::any::type_name::<D>());
    note(format!("dumping {}", what));
    let h = make::<T, D>(r, &s, D::default());
    h.file_dump(&dir, "x").map_err(|e| format!("dump fails: {} {:?}", e, s))?;
    let g0 = std::fs::read(dir.join("x.hnsw.graph")).unwrap();
    let d0 = std::fs::read(dir.join("x.hnsw.data")).unwrap();
    let (tn, dn, sz) = (std::any::type_name::<T>(), std::any::type_name::<D>(), std::mem::size_of::<T>());
    let (gf, df) = {
        let (a, b, ok) = accept(&g0, &d0, tn, sz, dn, false, true);
        if ok.is_none() || a.p != g0.len() || b.p != d0.len() {
            return Err(format!("the dump is not in the documented format: {} of {} graph bytes, {} of {} data bytes read; {}", a.p, g0.len(), b.p, d0.len(), what));
        }
        (a.fields, b.fields)
    };
    let mut bad = 0;
    for _ in 0..12 {
        let (mut g, mut d) = (g0.clone(), d0.clone());
        let mut mutation = vec![];
        for _ in 0..r.range(1, 2) {
            let in_graph = r.chance(2, 3);
            let (b, f) = if in_graph { (&mut g, &gf) } else { (&mut d, &df) };
            if r.chance(1, 4) {
                let n = if r.chance(1, 2) { r.below(b.len() + 1) } else { b.len().saturating_sub(r.range(1, 24)) };
                b.truncate(n);
                mutation.push(format!("{} file cut to {} bytes", if in_graph { "graph" } else { "data" }, n));
            } else {
                // fields of every kind, equally often
                let kinds = [F::Magic, F::Name, F::NameLen, F::Mode, F::Count, F::Place, F::Client, F::Link, F::Dim, F::Len, F::LayerCount];
                let k = *r.pick(&kinds);
                let all: Vec<_> = f.iter().filter(|x| x.0 == k && x.2 > 0).collect();
                if all.is_empty() {
                    continue;
                }
                // the first records of a layer can be taken for those of the next one
                let (k, o, n) = if k == F::Place && r.chance(1, 2) { **r.pick(&all[..all.len().min(6)]) } else { **r.pick(&all) };
                // lengths and counts change a little only: a huge one asks for more memory than there is
                let small = matches!(k, F::Count | F::Len | F::NameLen | F::LayerCount);
                let at = o + if small { 0 } else { r.below(n) };
                if at >= b.len() {
                    continue;
                }
                let was = b[at];
                b[at] = if small || r.chance(1, 2) { if r.chance(1, 2) { was.wrapping_add(1) } else if was > 0 { was - 1 } else { was + 2 } } else { r.below(256) as u8 };
                mutation.push(format!("{} file byte {} ({:?}) {} -> {}", if in_graph { "graph" } else { "data" }, at, k, was, b[at]));
            }
        }
        let nodata = r.chance(1, 6);
        let how = r.below(3);
        let (gc, dc, ok) = accept(&g, &d, tn, sz, dn, nodata, how == 0);
        if gc.skip || dc.skip {
            continue;
        }
        std::fs::write(dir.join("y.hnsw.graph"), &g).unwrap();
        std::fs::write(dir.join("y.hnsw.data"), &d).unwrap();
        note(format!("reloading {} with {:?}", what, mutation));
        let loaded = catch_unwind(AssertUnwindSafe(|| {
            let mut io = HnswIo::new(&dir, "y");
            if nodata {
                io.load_hnsw::<NoData, NoDist>().is_ok()
            } else if how == 0 {
                io.load_hnsw_with_dist::<T, D>(D::default()).is_ok()
            } else {
                io.load_hnsw::<T, D>().is_ok()
            }
        }))
        .unwrap_or(false);
        if ok.is_none() {
            bad += 1;
            if loaded {
                return Err(format!("a damaged dump is reloaded as if it were sound{}: {:?}; {}", if nodata { " (graph only)" } else { "" }, mutation, what));
            }
        }
    }
    // distances of like names
    if case % 4 == 0 {
        let dir = scratch("p13n", case);
        let _c = Clean(dir.clone());
        let s = Shape::random(r, 6, true);
        make::<T, SwapWord>(r, &s, SwapWord).file_dump(&dir, "s").map_err(|e| e.to_string())?;
        make::<T, WordSwap>(r, &s, WordSwap).file_dump(&dir, "e").map_err(|e| e.to_string())?;
        make::<T, Word>(r, &s, Word).file_dump(&dir, "w").map_err(|e| e.to_string())?;
        for (f, asked) in [("s", 1), ("e", 1), ("w", 0), ("w", 2), ("s", 2), ("e", 0)] {
            let got = catch_unwind(AssertUnwindSafe(|| {
                let mut io = HnswIo::new(&dir, f);
                if r.chance(1, 3) {
                    match asked {
                        0 => io.load_hnsw_with_dist::<T, SwapWord>(SwapWord).is_ok(),
                        1 => io.load_hnsw_with_dist::<T, Word>(Word).is_ok(),
                        _ => io.load_hnsw_with_dist::<T, WordSwap>(WordSwap).is_ok(),
                    }
                } else {
                    match asked {
                        0 => io.load_hnsw::<T, SwapWord>().is_ok(),
                        1 => io.load_hnsw::<T, Word>().is_ok(),
                        _ => io.load_hnsw::<T, WordSwap>().is_ok(),
                    }
                }
            }))
            .unwrap_or(false);
            if got {
                let n = ["SwapWord", "Word", "WordSwap"];
                let d = n[["s", "w", "e"].iter().position(|x| *x == f).unwrap()];
                return Err(format!("a dump made with distance {} is reloaded with distance {}; {}", d, n[asked], what));
            }
        }
    }
    // another element type, another distance
    if !vary {
        let wrong = catch_unwind(AssertUnwindSafe(|| HnswIo::new(&dir, "x").load_hnsw::<i16w, Word>().is_ok())).unwrap_or(false);
        if wrong {
            return Err(format!("a dump is reloaded as one of another element type; {}", what));
        }
        let wrong = catch_unwind(AssertUnwindSafe(|| HnswIo::new(&dir, "x").load_hnsw::<T, Word>().is_ok())).unwrap_or(false);
        if wrong {
            return Err(format!("a dump is reloaded with another distance; {}", what));
        }
    }
    Ok(Case { text: format!("{} case {}", what, case), nontrivial: bad > 0 })
}
#[allow(non_camel_case_types)]
type i16w = u64;
pub fn p13(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    match r.below(4) {
        0 => p13_t::<f32, DistL1>(&mut r, case, false),
        1 => p13_t::<u8, DistL1>(&mut r, case, false),
        2 => p13_t::<u16, DistLevenshtein>(&mut r, case, true),
        _ => p13_t::<i32, DistL1>(&mut r, case, false),
    }
}

// ---- P14
fn files(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    std::fs::read_dir(dir).unwrap().map(|e| e.unwrap()).map(|e| (e.file_name().into_string().unwrap(), std::fs::read(e.path()).unwrap())).collect()
}
pub fn p14(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let dir = scratch("p14", case);
    let _c = Clean(dir.clone());
    let s = Shape { n: r.range(1, 8), ..Shape::random(&mut r, 8, false) };
    let names = ["a", "b", "a-1", "deep.name"];
    let base = *r.pick(&names);
    // what is in the directory before
    let h0 = make::<f32, DistL1>(&mut r, &s, DistL1 {});
    h0.file_dump(&dir, "origin").map_err(|e| e.to_string())?;
    for n in names {
        match r.below(4) {
            0 => {
                std::fs::write(dir.join(format!("{}.hnsw.data", n)), vec![7u8; r.below(100)]).unwrap();
            }
            1 => {
                std::fs::write(dir.join(format!("{}.hnsw.data", n)), vec![8u8; r.below(100)]).unwrap();
                std::fs::write(dir.join(format!("{}.hnsw.graph", n)), vec![9u8; r.below(100)]).unwrap();
            }
            _ => {}
        }
    }
    if case % 200 == 7 {
        // nearly all the numbered names are taken, those still free are known
        for n in 0..10000 {
            if n % 2500 != 42 {
                for b in ["origin", base] {
                    std::fs::write(dir.join(format!("{}-{}.hnsw.data", b, n)), [6u8; 3]).unwrap();
                }
            }
        }
    }
    // the index that is dumped
    let origin = r.below(4);
    let mut o = ReloadOptions::new(origin == 2 || origin == 3);
    if origin == 3 {
        o.set_mmap_threshold(r.range(1, 5));
    }
    let target = if r.chance(2, 3) && origin > 0 { "origin" } else { base };
    let mut io = HnswIo::new_with_options(&dir, "origin", o);
    let what = format!("dumping {} under {}, {} points", ["a new index", "a reloaded index", "a memory-mapped index", "a partly memory-mapped index"][origin], target, s.n);
    note(what.clone());
    let before = files(&dir);
    let exists = before.contains_key(&format!("{}.hnsw.data", target));
    let (name, a) = if origin == 0 {
        let h = make::<f32, DistL1>(&mut r, &s, DistL1 {});
        (h.file_dump(&dir, target).map_err(|e| e.to_string())?, snap(&h))
    } else {
        let g = io.load_hnsw::<f32, DistL1>().map_err(|e| e.to_string())?;
        (g.file_dump(&dir, target).map_err(|e| e.to_string())?, snap(&g))
    };
    let after = files(&dir);
    if origin >= 2 && exists {
        if name == target {
            return Err(format!("{}: the base name is kept although its data file exists", what));
        }
        if before.contains_key(&format!("{}.hnsw.data", name)) {
            return Err(format!("{}: the base name chosen, {}, already has a data file", what, name));
        }
        for (f, b) in &before {
            if after.get(f) != Some(b) && f != &format!("{}.hnsw.graph", name) {
                return Err(format!("{}: the existing file {} is changed", what, f));
            }
        }
    } else if (origin == 0 || !exists) && name != target {
        return Err(format!("{}: the name given is free to use, but {} is returned", what, name));
    }
    for (f, b) in &before {
        if !f.starts_with(&format!("{}.hnsw.", name)) && after.get(f) != Some(b) {
            return Err(format!("{}: the file {} is changed, though {} is returned", what, f, name));
        }
    }
    let mut io2 = HnswIo::new(&dir, &name);
    let g2 = io2.load_hnsw::<f32, DistL1>().map_err(|e| format!("{}: nothing to reload under {}: {}", what, name, e))?;
    if let Some(m) = differ(&a, &snap(&g2), true) {
        return Err(format!("{}: what is reloaded under {} differs: {}", what, name, m));
    }
    // asked not to overwrite
    let d0 = files(&dir);
    {
        let over = r.chance(1, 2);
        let t = *r.pick(&names);
        let exists = d0.contains_key(&format!("{}.hnsw.data", t));
        let di = DumpInit::new(&dir, t, over);
        let n = di.get_basename().clone();
        drop(di);
        let d1 = files(&dir);
        if (over || !exists) && &n != t {
            return Err(format!("DumpInit::new({}, overwrite {}) takes the name {}", t, over, n));
        }
        if !over && exists && (&n == t || d0.contains_key(&format!("{}.hnsw.data", n))) {
            return Err(format!("DumpInit::new({}, overwrite {}) takes the name {} whose data file exists", t, over, n));
        }
        for (f, b) in &d0 {
            if !f.starts_with(&format!("{}.hnsw.", n)) && d1.get(f) != Some(b) {
                return Err(format!("DumpInit::new({}, overwrite {}) changes {}", t, over, f));
            }
        }
    }
    Ok(Case { text: format!("{} case {}", what, case), nontrivial: exists })
}
