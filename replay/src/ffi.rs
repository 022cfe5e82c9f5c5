//! P17: the C interface against the Rust one
use crate::gen::note;
use crate::io::{scratch, Clean, El};
use crate::rng::Rng;
use crate::{Case, Outcome};
use anndists::dist::*;
use hnsw_rs::hnswio::*;
use hnsw_rs::libext::*;
use hnsw_rs::prelude::*;

/// same layout as Vec_api, whose fields are private
#[repr(C)]
struct RawVec<T> {
    len: i64,
    ptr: *const T,
}
struct Api<T: 'static, A: 'static> {
    init: unsafe extern "C" fn(usize, usize, usize, *const u8) -> *const A,
    new: Option<unsafe extern "C" fn(usize, usize, usize, *const u8, usize, usize) -> *const A>,
    insert: unsafe extern "C" fn(*mut A, usize, *const T, usize),
    pinsert: unsafe extern "C" fn(*mut A, usize, usize, *mut *const T, *const usize),
    search: unsafe extern "C" fn(*const A, usize, *const T, usize, usize) -> *const Neighbourhood_api,
    psearch: unsafe extern "C" fn(*const A, usize, i64, *mut *const T, usize, usize) -> *const Vec_api<Neighbourhood_api>,
    dump: unsafe extern "C" fn(*const A, usize, *const u8) -> i64,
    ptr: extern "C" fn(usize, usize, extern "C" fn(*const T, *const T, u64) -> f32) -> *const A,
    names: &'static [&'static str],
}
macro_rules! api {
    ($f:ident, $t:ty, $a:ty, $init:ident, $new:expr, $i:ident, $pi:ident, $s:ident, $ps:ident, $d:ident, $p:ident, $n:expr) => {
        fn $f() -> Api<$t, $a> {
            Api { init: $init, new: $new, insert: $i, pinsert: $pi, search: $s, psearch: $ps, dump: $d, ptr: $p, names: &$n }
        }
    };
}
api!(af32, f32, HnswApif32, init_hnsw_f32, Some(new_hnsw_f32), insert_f32, parallel_insert_f32, search_neighbours_f32, parallel_search_neighbours_f32, file_dump_f32, init_hnsw_ptrdist_f32, ["DistL1", "DistL2", "DistDot", "DistHellinger", "DistJeffreys", "DistJensenShannon"]);
api!(ai32, i32, HnswApii32, init_hnsw_i32, None, insert_i32, parallel_insert_i32, search_neighbours_i32, parallel_search_neighbours_i32, file_dump_i32, init_hnsw_ptrdist_i32, ["DistL1", "DistL2", "DistHamming"]);
api!(au32, u32, HnswApiu32, init_hnsw_u32, None, insert_u32, parallel_insert_u32, search_neighbours_u32, parallel_search_neighbours_u32, file_dump_u32, init_hnsw_ptrdist_u32, ["DistL1", "DistL2", "DistJaccard", "DistHamming"]);
api!(au16, u16, HnswApiu16, init_hnsw_u16, Some(new_hnsw_u16), insert_u16, parallel_insert_u16, search_neighbours_u16, parallel_search_neighbours_u16, file_dump_u16, init_hnsw_ptrdist_u16, ["DistL1", "DistL2", "DistHamming", "DistJaccard", "DistLevenshtein"]);
api!(au8, u8, HnswApiu8, init_hnsw_u8, None, insert_u8, parallel_insert_u8, search_neighbours_u8, parallel_search_neighbours_u8, file_dump_u8, init_hnsw_ptrdist_u8, ["DistL1", "DistL2", "DistHamming", "DistJaccard"]);

pub trait Num: El {
    fn f(self) -> f32;
    fn vec(r: &mut Rng, dim: usize) -> Vec<Self>;
}
macro_rules! num {
    ($t:ty) => {
        impl Num for $t {
            fn f(self) -> f32 {
                self as f32
            }
            fn vec(r: &mut Rng, dim: usize) -> Vec<$t> {
                (0..dim).map(|_| 1 + r.below(100) as $t).collect()
            }
        }
    };
}
num!(i32);
num!(u32);
num!(u16);
num!(u8);
impl Num for f32 {
    fn f(self) -> f32 {
        self
    }
    fn vec(r: &mut Rng, dim: usize) -> Vec<f32> {
        let v: Vec<f32> = (0..dim).map(|_| 1. + r.below(100) as f32).collect();
        let s: f32 = v.iter().sum();
        v.iter().map(|x| x / s).collect()
    }
}
extern "C" fn far<T: Num>(a: *const T, b: *const T, n: u64) -> f32 {
    let (a, b) = unsafe { (std::slice::from_raw_parts(a, n as usize), std::slice::from_raw_parts(b, n as usize)) };
    2. * a.iter().zip(b).map(|(x, y)| (x.f() - y.f()).abs()).fold(0., f32::max)
}

type Ans = Vec<(usize, u32)>;
fn rust_ans(v: &[Neighbour]) -> Ans {
    v.iter().map(|n| (n.d_id, n.distance.to_bits())).collect()
}
unsafe fn c_ans(p: &Neighbourhood_api) -> Ans {
    (0..p.nbgh as usize).map(|i| { let n = &*p.neighbours.add(i); (n.id, n.d.to_bits()) }).collect()
}
unsafe fn c_search<T, A>(api: &Api<T, A>, h: *const A, q: &[T], k: usize, ef: usize) -> Ans {
    c_ans(&*(api.search)(h, q.len(), q.as_ptr(), k, ef))
}
unsafe fn c_psearch<T, A>(api: &Api<T, A>, h: *const A, qs: &[Vec<T>], k: usize, ef: usize) -> Vec<Ans> {
    let mut ptrs: Vec<*const T> = qs.iter().map(|q| q.as_ptr()).collect();
    let r = (api.psearch)(h, qs.len(), qs[0].len() as i64, ptrs.as_mut_ptr(), k, ef) as *const RawVec<Neighbourhood_api>;
    (0..(*r).len as usize).map(|i| c_ans(&*(*r).ptr.add(i))).collect()
}
unsafe fn text(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(std::slice::from_raw_parts(p, n)).into_owned()
}
struct Handle<A>(*const A);
impl<A> Drop for Handle<A> {
    fn drop(&mut self) {
        if !self.0.is_null() {
            unsafe { drop(Box::from_raw(self.0 as *mut A)) }
        }
    }
}
fn leave() {
    let _ = std::env::set_current_dir("/");
}

fn pair<T: Num, A, D: Distance<T> + Default + Send + Sync>(r: &mut Rng, case: u64, api: &Api<T, A>, name: &str, load: unsafe extern "C" fn(*mut HnswIo) -> *const A) -> Outcome {
    let dir = scratch("p17", case);
    let _c = Clean(dir.clone());
    let dir = std::fs::canonicalize(&dir).unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let (m, efc, dim, n) = (*r.pick(&[2, 5, 16, 33, 255]), *r.pick(&[3, 20, 400]), r.range(2, 6), r.range(1, 60));
    // (the distances between probabilities can be NaN for equal vectors)
    let dim = if std::any::type_name::<T>() == "f32" { dim + 3 } else { dim };
    let stride = *r.pick(&[1, 3, 1 << 33]);
    let vecs: Vec<Vec<T>> = (0..n).map(|_| T::vec(r, dim)).collect();
    let ids: Vec<usize> = (0..n).map(|i| (i + 5) * stride).collect();
    let from_c = api.names.contains(&name) && r.chance(2, 3);
    let base = *r.pick(&["d", "dump", "a.b", "my dump", " lead", "trail "]);
    let what = format!("case {}: {} of {}, m {} ef {} dim {} n {} ids {}i, base {:?}, built from C: {}", case, name, std::any::type_name::<T>(), m, efc, dim, n, stride, base, from_c);
    note(what.clone());
    let mut built = None;
    if r.chance(1, 3) {
        // an older dump there is replaced
        std::fs::write(dir.join(format!("{}.hnsw.data", base)), vec![1u8; 3000]).unwrap();
        std::fs::write(dir.join(format!("{}.hnsw.graph", base)), vec![1u8; 30000]).unwrap();
    }
    if from_c {
        let h = Handle(unsafe {
            match api.new {
                Some(f) if r.chance(1, 2) => f(m, efc, name.len(), name.as_ptr(), *r.pick(&[1, 1000]), 16),
                _ => (api.init)(m, efc, name.len(), name.as_ptr()),
            }
        });
        if h.0.is_null() {
            return Err(format!("no index for the distance {}: {}", name, what));
        }
        let mut i = 0;
        while i < n {
            if r.chance(1, 2) {
                unsafe { (api.insert)(h.0 as *mut A, dim, vecs[i].as_ptr(), ids[i]) };
                i += 1;
            } else {
                let k = r.range(0, n - i);
                let mut ptrs: Vec<*const T> = vecs[i..i + k].iter().map(|v| v.as_ptr()).collect();
                unsafe { (api.pinsert)(h.0 as *mut A, k, dim, ptrs.as_mut_ptr(), ids[i..].as_ptr()) };
                i += k;
            }
        }
        let rc = unsafe { (api.dump)(h.0, base.len(), base.as_ptr()) };
        if rc != 1 {
            return Err(format!("the dump answers {}: {}", rc, what));
        }
        built = Some(h);
    } else {
        let h = Hnsw::<T, D>::new(m, 100, 16, efc, D::default());
        for i in 0..n {
            h.insert((&vecs[i], ids[i]));
        }
        h.file_dump(&dir, base).map_err(|e| format!("dump fails: {} {}", e, what))?;
    }
    // what is in the dump
    let mut io = HnswIo::new(&dir, base);
    let g = io.load_hnsw::<T, D>().map_err(|e| format!("the dump of the C index does not reload with the named types: {} {}", e, what))?;
    if g.get_max_nb_connection() as usize != m || g.get_ef_construction() != efc {
        return Err(format!("parameters asked {:?}, of the index {:?}: {}", (m, efc), (g.get_max_nb_connection(), g.get_ef_construction()), what));
    }
    let mut got: Vec<(usize, Vec<T>)> = vec![];
    for l in 0..16 {
        for p in g.get_point_indexation().get_layer_iterator(l) {
            got.push((p.get_origin_id(), p.get_v().to_vec()));
        }
    }
    got.sort_by_key(|x| x.0);
    let want: Vec<(usize, Vec<T>)> = ids.iter().cloned().zip(vecs.iter().cloned()).collect();
    if got != want {
        return Err(format!("ids and vectors given {:?}, stored {:?}: {}", want, got, what));
    }
    // reload from C
    let hio = unsafe { get_hnswio(base.len() as u64, base.as_ptr()) };
    let hio = Handle(hio);
    let back = Handle(unsafe { load(hio.0 as *mut HnswIo) });
    if back.0.is_null() {
        return Err(format!("reload from C gives nothing: {}", what));
    }
    if r.chance(1, 6) {
        let graph_only = Handle(unsafe { load_hnswdump_NoData_DistNoDist(hio.0 as *mut HnswIo) });
        if graph_only.0.is_null() {
            return Err(format!("reload of the graph alone from C gives nothing: {}", what));
        }
    }
    // searches
    let qs: Vec<Vec<T>> = (0..r.range(1, 12)).map(|_| T::vec(r, dim)).collect();
    let (k, ef) = (r.range(1, 12), r.range(1, 40));
    let ok: Vec<Ans> = qs.iter().map(|q| rust_ans(&g.search(q, k, ef))).collect();
    for h in built.iter().chain(Some(&back)) {
        let one: Vec<Ans> = qs.iter().map(|q| unsafe { c_search(api, h.0, q, k, ef) }).collect();
        if one != ok {
            return Err(format!("searches (id, distance bits) from C {:?}, from Rust {:?}: k {} ef {} {}", one, ok, k, ef, what));
        }
        let par = unsafe { c_psearch(api, h.0, &qs, k, ef) };
        if par != ok {
            return Err(format!("parallel searches (id, distance bits) from C {:?}, from Rust {:?}: k {} ef {} {}", par, ok, k, ef, what));
        }
    }
    // description
    let gname = format!("{}.hnsw.graph", base);
    let full = if r.chance(1, 2) { gname.clone() } else { dir.join(&gname).to_str().unwrap().to_string() };
    unsafe {
        let d = load_hnsw_description(full.len(), full.as_ptr());
        if d.is_null() {
            return Err(format!("no description of the dump: {}", what));
        }
        let d = &*d;
        let got = (d.max_nb_connection as usize, d.nb_layer, d.ef, d.nb_point, d.data_dimension, text(d.distname, d.distname_len), text(d.t_name, d.t_name_len));
        let want = (m, 16u8, efc, n, dim, std::any::type_name::<D>().to_string(), std::any::type_name::<T>().to_string());
        if got != want {
            return Err(format!("description {:?}, dumped {:?}: {}", got, want, what));
        }
        // a file that is no graph
        let no = format!("{}.nothing", base);
        if !load_hnsw_description(no.len(), no.as_ptr()).is_null() {
            return Err(format!("a description of a file that does not exist: {}", what));
        }
        let nio = Handle(get_hnswio(no.len() as u64, no.as_ptr()));
        if r.chance(1, 8) && !load(nio.0 as *mut HnswIo).is_null() {
            return Err(format!("an index from files that do not exist: {}", what));
        }
    }
    Ok(Case { text: what, nontrivial: n > k })
}
fn unknown<T: Num, A>(r: &mut Rng, case: u64, api: &Api<T, A>) -> Outcome {
    let mut bad: Vec<String> = ["", "dist", "L1", "DistCosin", "DistL11", "distl1", "DistL", "DistL1 ", " DistL1", "DistL3", "NoDist", "DistPtr", "DistJS", "DistNoDist"].iter().map(|s| s.to_string()).collect();
    for n in api.names {
        bad.push(n[..n.len() - 1].to_string());
        bad.push(format!("{}2", n));
        bad.push(n.to_lowercase());
    }
    // no number is part of a name and "DistL12" is none
    bad.retain(|b| !api.names.contains(&b.as_str()));
    let b = r.pick(&bad).clone();
    let what = format!("case {}: name {:?} for {}", case, b, std::any::type_name::<T>());
    note(what.clone());
    for h in [Some(unsafe { (api.init)(5, 10, b.len(), b.as_ptr()) }), api.new.map(|f| unsafe { f(5, 10, b.len(), b.as_ptr(), 10, 16) })].into_iter().flatten() {
        if !h.is_null() {
            return Err(format!("an index for an unknown distance: {}", what));
        }
    }
    // the name ends where its length says
    for n in api.names {
        let longer = format!("{}xyz", n);
        let h = Handle(unsafe { (api.init)(5, 10, n.len(), longer.as_ptr()) });
        if h.0.is_null() {
            return Err(format!("no index for {} in {}", n, what));
        }
    }
    Ok(Case { text: what, nontrivial: true })
}
fn pointer<T: Num, A>(r: &mut Rng, case: u64, api: &Api<T, A>) -> Outcome {
    let (m, dim, n) = (r.range(4, 20), r.range(1, 5), r.range(1, 40));
    let vecs: Vec<Vec<T>> = (0..n).map(|_| T::vec(r, dim)).collect();
    let what = format!("case {}: C distance for {}, m {} dim {} n {}", case, std::any::type_name::<T>(), m, dim, n);
    note(what.clone());
    let h = Handle((api.ptr)(m, 50, far::<T>));
    for i in 0..n {
        unsafe { (api.insert)(h.0 as *mut A, dim, vecs[i].as_ptr(), i * 3) };
    }
    let q = T::vec(r, dim);
    let ans = unsafe { c_search(api, h.0, &q, 5, 30) };
    if ans.is_empty() {
        return Err(format!("no answer: {}", what));
    }
    for (id, d) in ans {
        if id % 3 != 0 || id / 3 >= n || far::<T>(q.as_ptr(), vecs[id / 3].as_ptr(), dim as u64).to_bits() != d {
            return Err(format!("answer {} at {}, not what the C distance says: {}", id, f32::from_bits(d), what));
        }
    }
    Ok(Case { text: what, nontrivial: n > 5 })
}
/// an index by the name of its distance measures that distance
fn named<T: Num, A>(r: &mut Rng, case: u64, api: &Api<T, A>, name: &str, eval: &dyn Fn(&[T], &[T]) -> f32) -> Outcome {
    let (m, n) = (r.range(4, 20), r.range(1, 30));
    // (the distances between probabilities can be NaN for equal vectors)
    let dim = r.range(2, 5) + if std::any::type_name::<T>() == "f32" { 3 } else { 0 };
    let vecs: Vec<Vec<T>> = (0..n).map(|_| T::vec(r, dim)).collect();
    let what = format!("case {}: {} named from C for {}, m {} dim {} n {}", case, name, std::any::type_name::<T>(), m, dim, n);
    note(what.clone());
    let h = Handle(unsafe {
        match api.new {
            Some(f) if r.chance(1, 2) => f(m, 30, name.len(), name.as_ptr(), 10, 16),
            _ => (api.init)(m, 30, name.len(), name.as_ptr()),
        }
    });
    if h.0.is_null() {
        return Err(format!("no index: {}", what));
    }
    for i in 0..n {
        unsafe { (api.insert)(h.0 as *mut A, dim, vecs[i].as_ptr(), i * 3) };
    }
    let q = T::vec(r, dim);
    let ans = unsafe { c_search(api, h.0, &q, 5, 30) };
    if ans.is_empty() {
        return Err(format!("no answer: {}", what));
    }
    for (id, d) in ans {
        if id % 3 != 0 || id / 3 >= n || eval(&q, &vecs[id / 3]).to_bits() != d {
            return Err(format!("answer {} at {}, not at the distance named: {}", id, f32::from_bits(d), what));
        }
    }
    Ok(Case { text: what, nontrivial: n > 5 })
}
macro_rules! names {
    ($r:expr, $c:expr, $api:expr, $(($d:ident, $n:expr)),*) => {{
        let name = *$r.pick($api.names);
        match name {
            $($n => named($r, $c, &$api, name, &|a, b| $d {}.eval(a, b)),)*
            n => Err(format!("no distance for the name {}", n)),
        }
    }};
}
macro_rules! pairs {
    ($r:expr, $c:expr, $k:expr, $api:expr, $(($d:ident, $n:expr, $l:ident)),*) => {{
        let mut i = 0usize;
        let mut res: Option<Outcome> = None;
        $(
            if i == $k {
                res = Some(pair::<_, _, $d>($r, $c, &$api, $n, $l));
            }
            i += 1;
        )*
        let _ = i;
        res.unwrap()
    }};
}
pub fn p17(case: u64) -> Outcome {
    let mut r = Rng::new(case);
    let res = match r.below(9) {
        2 => match r.below(5) {
            0 => names!(&mut r, case, af32(), (DistL1, "DistL1"), (DistL2, "DistL2"), (DistDot, "DistDot"), (DistHellinger, "DistHellinger"), (DistJeffreys, "DistJeffreys"), (DistJensenShannon, "DistJensenShannon")),
            1 => names!(&mut r, case, ai32(), (DistL1, "DistL1"), (DistL2, "DistL2"), (DistHamming, "DistHamming")),
            2 => names!(&mut r, case, au32(), (DistL1, "DistL1"), (DistL2, "DistL2"), (DistHamming, "DistHamming"), (DistJaccard, "DistJaccard")),
            3 => names!(&mut r, case, au16(), (DistL1, "DistL1"), (DistL2, "DistL2"), (DistHamming, "DistHamming"), (DistJaccard, "DistJaccard"), (DistLevenshtein, "DistLevenshtein")),
            _ => names!(&mut r, case, au8(), (DistL1, "DistL1"), (DistL2, "DistL2"), (DistHamming, "DistHamming"), (DistJaccard, "DistJaccard")),
        },
        0 => match r.below(5) {
            0 => unknown(&mut r, case, &af32()),
            1 => unknown(&mut r, case, &ai32()),
            2 => unknown(&mut r, case, &au32()),
            3 => unknown(&mut r, case, &au16()),
            _ => unknown(&mut r, case, &au8()),
        },
        1 => match r.below(5) {
            0 => pointer(&mut r, case, &af32()),
            1 => pointer(&mut r, case, &ai32()),
            2 => pointer(&mut r, case, &au32()),
            3 => pointer(&mut r, case, &au16()),
            _ => pointer(&mut r, case, &au8()),
        },
        _ => match r.below(5) {
            0 => {
                let k = r.below(6);
                pairs!(&mut r, case, k, af32(), (DistL1, "DistL1", load_hnswdump_f32_DistL1), (DistL2, "DistL2", load_hnswdump_f32_DistL2), (DistCosine, "DistCosine", load_hnswdump_f32_DistCosine),
                    (DistDot, "DistDot", load_hnswdump_f32_DistDot), (DistJensenShannon, "DistJensenShannon", load_hnswdump_f32_DistJensenShannon), (DistJeffreys, "DistJeffreys", load_hnswdump_f32_DistJeffreys))
            }
            1 => {
                let k = r.below(3);
                pairs!(&mut r, case, k, ai32(), (DistL1, "DistL1", load_hnswdump_i32_DistL1), (DistL2, "DistL2", load_hnswdump_i32_DistL2), (DistHamming, "DistHamming", load_hnswdump_i32_DistHamming))
            }
            2 => {
                let k = r.below(4);
                pairs!(&mut r, case, k, au32(), (DistL1, "DistL1", load_hnswdump_u32_DistL1), (DistL2, "DistL2", load_hnswdump_u32_DistL2), (DistHamming, "DistHamming", load_hnswdump_u32_DistHamming), (DistJaccard, "DistJaccard", load_hnswdump_u32_DistJaccard))
            }
            3 => {
                let k = r.below(4);
                pairs!(&mut r, case, k, au16(), (DistL1, "DistL1", load_hnswdump_u16_DistL1), (DistL2, "DistL2", load_hnswdump_u16_DistL2), (DistHamming, "DistHamming", load_hnswdump_u16_DistHamming), (DistLevenshtein, "DistLevenshtein", load_hnswdump_u16_DistLevenshtein))
            }
            _ => {
                let k = r.below(4);
                pairs!(&mut r, case, k, au8(), (DistL1, "DistL1", load_hnswdump_u8_DistL1), (DistL2, "DistL2", load_hnswdump_u8_DistL2), (DistHamming, "DistHamming", load_hnswdump_u8_DistHamming), (DistJaccard, "DistJaccard", load_hnswdump_u8_DistJaccard))
            }
        },
    };
    leave();
    res
}
