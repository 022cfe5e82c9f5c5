#![allow(unused, non_camel_case_types)]
use vstd::prelude::*;
//@sub? Self :: Val => T
pub mod sp {
use vstd::prelude::*;
verus! {
global size_of usize == 8;
//@include pre_ffi.vrs
//@struct src/libext.rs Neighbour_api
//@struct src/libext.rs Neighbourhood_api
//@struct src/libext.rs Vec_api
//@struct src/libext.rs DescriptionFFI
//@foreach A : HnswApif32 HnswApii32 HnswApiu32 HnswApiu16 HnswApiu8 HnswApiNodata
//@struct src/libext.rs $A
impl VBox for $A { type Out = Box<$A>; open spec fn boxed(self, r: Box<$A>) -> bool { *r == self } #[verifier::external_body] fn vbox1(self) -> (r: Box<$A>) { Box::new(self) } }
//@endfor
impl VBox for Neighbourhood_api { type Out = Box<Neighbourhood_api>; open spec fn boxed(self, r: Box<Neighbourhood_api>) -> bool { *r == self } #[verifier::external_body] fn vbox1(self) -> (r: Box<Neighbourhood_api>) { Box::new(self) } }
impl VBox for DescriptionFFI { type Out = Box<DescriptionFFI>; open spec fn boxed(self, r: Box<DescriptionFFI>) -> bool { *r == self } #[verifier::external_body] fn vbox1(self) -> (r: Box<DescriptionFFI>) { Box::new(self) } }
impl<X> VBox for Vec_api<X> { type Out = Box<Vec_api<X>>; open spec fn boxed(self, r: Box<Vec_api<X>>) -> bool { *r == self } #[verifier::external_body] fn vbox1(self) -> (r: Box<Vec_api<X>>) { Box::new(self) } }

// ---- what the C functions must give
// the neighbours handed out: same number, ids, distances, order; the memory stays
pub open spec fn handed(n: i64, p: CPtr<Neighbour_api>, s: Seq<Neighbour>) -> bool {
    &&& n == s.len() && p.elems().len() == s.len() && kept(p.buf())
    &&& forall|i: int| 0 <= i < s.len() ==> (#[trigger] p.elems()[i]).id == s[i].d_id && p.elems()[i].d == s[i].distance
}
pub open spec fn pointed<T>(d: CPtr<CPtr<T>>, n: int, l: int) -> Seq<Seq<T>> { Seq::new(n as nat, |i: int| d.elems()[i].elems()) }
pub open spec fn pointed_items<T>(d: CPtr<CPtr<T>>, ids: CPtr<usize>, n: int) -> Seq<(Seq<T>, usize)> { Seq::new(n as nat, |i: int| (d.elems()[i].elems(), ids.elems()[i])) }
pub open spec fn valid_list<T>(d: CPtr<CPtr<T>>, n: int, l: int) -> bool {
    d.nonnull() && d.elems().len() == n && forall|i: int| 0 <= i < n ==> (#[trigger] d.elems()[i]).nonnull() && d.elems()[i].elems().len() == l
}
pub open spec fn is(s: Seq<u8>, l: &str) -> bool { s == lit(l@) }
}
}
pub mod code {
use vstd::prelude::*;
use super::sp::*;
verus! {
impl Neighbour_api {
//@fn src/libext.rs From for Neighbour_api::from [name=vfrom_nb]
//@ret r
//@spec
    ensures r.id == neighbour.d_id, r.d == neighbour.distance
//@endfn
}
//@foreach A,T : HnswApif32,f32 HnswApii32,i32 HnswApiu32,u32 HnswApiu16,u16 HnswApiu8,u8 HnswApiNodata,NoData
impl $A {
//@fn src/libext.rs $A::new
//@ret r
//@spec
    ensures r.opaque == arg
//@endfn
}
//@endfor
//@foreach A,T : HnswApif32,f32 HnswApii32,i32 HnswApiu32,u32 HnswApiu16,u16 HnswApiu8,u8
//@ghostarg insert_$T:&mut~Log<$T> parallel_insert_$T:&mut~Log<$T> file_dump_$T:&mut~Log<$T>
//@endfor
//@ghostarg insert_data:&mut~Log<T> parallel_insert_data:&mut~Log<T> file_dump:&mut~Log<T> insert:&mut~Log<T> parallel_insert:&mut~Log<T>
//@foreach A,T : HnswApif32,f32 HnswApii32,i32 HnswApiu32,u32 HnswApiu16,u16 HnswApiu8,u8
//@fn src/libext.rs insert_$T
//@spec
    requires hnsw_api.nonnull(), data.nonnull(), data.elems().len() == len
    ensures final(hist__)@ == old(hist__)@.push(Call::Insert(hnsw_api.pointee().opaque.id(), data.elems(), id))
//@endfn
//@fn src/libext.rs parallel_insert_$T
//@spec
    requires hnsw_api.nonnull(), valid_list(datas, nb_vec as int, vec_len as int), ids.nonnull(), ids.elems().len() == nb_vec
    ensures final(hist__)@ == old(hist__)@.push(Call::ParInsert(hnsw_api.pointee().opaque.id(), pointed_items(datas, ids, nb_vec as int)))
//@loop 1 it1
    invariant valid_list(datas, nb_vec as int, vec_len as int), data_ptrs@ == datas.elems(),
        data_v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] data_v@[j])@ == datas.elems()[j].elems(),
//@loop 2 it2
    invariant data_ids@ == ids.elems(), ids.elems().len() == nb_vec, data_v@.len() == nb_vec, forall|j: int| 0 <= j < nb_vec ==> (#[trigger] data_v@[j])@ == datas.elems()[j].elems(),
        request@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] request@[j]).0@ == datas.elems()[j].elems() && request@[j].1 == ids.elems()[j],
//@at after-loop 2
    proof { assert(items(request@) =~= pointed_items(datas, ids, nb_vec as int)); }
//@endfn
//@fn src/libext.rs search_neighbours_$T
//@ret ret
//@spec
    requires hnsw_api.nonnull(), data.nonnull(), data.elems().len() == len
    ensures ret.nonnull(), handed(ret.pointee().nbgh, ret.pointee().neighbours, hnsw_api.pointee().opaque.single(data.elems(), knbn, ef_search))
//@endfn
//@fn src/libext.rs parallel_search_neighbours_$T
//@ret ret
//@spec
    requires hnsw_api.nonnull(), vec_len >= 0, valid_list(data, nb_vec as int, vec_len as int), nb_vec <= i64::MAX
    ensures ret.nonnull(), ret.pointee().len == nb_vec, kept(ret.pointee().ptr.buf()), ret.pointee().ptr.elems().len() == nb_vec,
        forall|i: int| 0 <= i < nb_vec ==> handed((#[trigger] ret.pointee().ptr.elems()[i]).nbgh, ret.pointee().ptr.elems()[i].neighbours, hnsw_api.pointee().opaque.single(data.elems()[i].elems(), knbn, ef_search))
//@loop 1 it1
    invariant vec_len >= 0, valid_list(data, nb_vec as int, vec_len as int), ptr_list@ == data.elems(),
        data_v@.len() == i, forall|j: int| 0 <= j < i ==> (#[trigger] data_v@[j])@ == data.elems()[j].elems(),
//@loop 2 it2
    invariant it2.seq().len() == nb_vec, forall|j: int| 0 <= j < nb_vec ==> (#[trigger] it2.seq()[j])@ == hnsw_api.pointee().opaque.single(data.elems()[j].elems(), knbn, ef_search) && it2.seq()[j]@.len() <= i64::MAX,
        neighbour_lists@.len() == it2.index(),
        forall|j: int| 0 <= j < it2.index() ==> handed((#[trigger] neighbour_lists@[j]).nbgh, neighbour_lists@[j].neighbours, hnsw_api.pointee().opaque.single(data.elems()[j].elems(), knbn, ef_search)),
//@endfn
//@fn src/libext.rs file_dump_$T
//@ret ret
//@spec
    requires hnsw_api.nonnull(), filename.nonnull(), filename.elems().len() == namelen
    ensures exists|ok: bool| #[trigger] dumped(old(hist__)@, final(hist__)@, hnsw_api.pointee().opaque.id(), lit("."@), lossy(filename.elems()), ok) && (ret == 1 <==> ok)
//@endfn
//@endfor
// ---- reload of each pair of types
//@foreach T,A,D : f32,HnswApif32,DistL1 f32,HnswApif32,DistL2 f32,HnswApif32,DistCosine f32,HnswApif32,DistDot f32,HnswApif32,DistJensenShannon f32,HnswApif32,DistJeffreys i32,HnswApii32,DistL1 i32,HnswApii32,DistL2 i32,HnswApii32,DistHamming u32,HnswApiu32,DistL1 u32,HnswApiu32,DistL2 u32,HnswApiu32,DistHamming u32,HnswApiu32,DistJaccard u16,HnswApiu16,DistL1 u16,HnswApiu16,DistL2 u16,HnswApiu16,DistHamming u16,HnswApiu16,DistLevenshtein u8,HnswApiu8,DistL1 u8,HnswApiu8,DistL2 u8,HnswApiu8,DistHamming u8,HnswApiu8,DistJaccard
//@fn src/libext.rs load_hnswdump_$T_$D
//@ret ret
//@spec
    requires hnswio_c.nonnull()
    ensures ret.nonnull() <==> loaded::<$T, $D>(hnswio_c.pointee()) is Some,
        ret.nonnull() ==> ret.pointee().opaque.id() == loaded::<$T, $D>(hnswio_c.pointee())->0
//@endfn
//@endfor
//@fn src/libext.rs load_hnswdump_NoData_DistNoDist
//@ret ret
//@spec
    requires hnswio_c.nonnull()
    ensures ret.nonnull() <==> loaded::<NoData, NoDist>(hnswio_c.pointee()) is Some,
        ret.nonnull() ==> ret.pointee().opaque.id() == loaded::<NoData, NoDist>(hnswio_c.pointee())->0
//@endfn
//@fn src/libext.rs get_hnswio
//@ret ret
//@spec
    requires name.nonnull(), name.elems().len() == flen
    ensures ret.nonnull(), ret.pointee().dir() == lit("."@), ret.pointee().base() == lossy(name.elems())
//@endfn
// ---- a new index by the name of its distance: the one named, with the parameters given; none for any other name
//@foreach T,A,F : f32,HnswApif32,names_f32 i32,HnswApii32,names_i32 u32,HnswApiu32,names_u32 u16,HnswApiu16,names_u16 u8,HnswApiu8,names_u8
//@fn src/libext.rs init_hnsw_$T
//@ret ret
//@spec
    requires cdistname.nonnull(), cdistname.elems().len() == namelen
    ensures ret.nonnull() <==> $F(lossy(cdistname.elems())),
        ret.nonnull() ==> ret.pointee().opaque.made().layers >= 16 && ret.pointee().opaque.made().m == max_nb_conn && ret.pointee().opaque.made().ef == ef_const && ret.pointee().opaque.made().dist == Dn::Name(lossy(cdistname.elems()))
//@endfn
//@fn src/libext.rs init_hnsw_ptrdist_$T
//@ret ret
//@spec
    ensures ret.nonnull(), ret.pointee().opaque.made().layers >= 16, ret.pointee().opaque.made().m == max_nb_conn, ret.pointee().opaque.made().ef == ef_const, ret.pointee().opaque.made().dist == Dn::Func(c_func.f())
//@endfn
//@endfor
//@foreach T,A,F : f32,HnswApif32,names_f32 u16,HnswApiu16,names_u16
//@fn src/libext.rs new_hnsw_$T
//@ret ret
//@spec
    requires cdistname.nonnull(), cdistname.elems().len() == namelen
    ensures ret.nonnull() <==> $F(lossy(cdistname.elems())),
        ret.nonnull() ==> ret.pointee().opaque.made() == (Made { m: max_nb_conn, elts: max_elements, layers: max_layer, ef: ef_const, dist: Dn::Name(lossy(cdistname.elems())) })
//@endfn
//@endfor
// ---- the description
impl DescriptionFFI {
//@fn src/libext.rs DescriptionFFI::new
//@endfn
}
//@fn src/libext.rs load_hnsw_description
//@sub? .len() => .vlen()
//@ret ret
//@spec
    requires name.nonnull(), name.elems().len() == flen
    ensures ret.nonnull() <==> described(lossy(name.elems())) is Some,
        ret.nonnull() ==> same_descr(ret.pointee(), described(lossy(name.elems()))->0)
//@endfn
// ---- the trait behind the opaque handle
impl<'b, T, D: Distance<T>> Hnsw<'b, T, D> {
//@fn src/api.rs AnnT for Hnsw::insert_data
//@spec
    ensures final(hist__)@ == old(hist__)@.push(Call::Insert(old(self).id(), data@, id))
//@endfn
//@fn src/api.rs AnnT for Hnsw::search_neighbours
//@ret ret
//@spec
    ensures ret@ == self.single(data@, knbn, ef_s)
//@endfn
//@fn src/api.rs AnnT for Hnsw::parallel_insert_data
//@spec
    ensures final(hist__)@ == old(hist__)@.push(Call::ParInsert(old(self).id(), items(data@)))
//@endfn
//@fn src/api.rs AnnT for Hnsw::parallel_search_neighbours
//@ret ret
//@spec
    ensures ret@.len() == data@.len(), forall|i: int| 0 <= i < ret@.len() ==> (#[trigger] ret@[i])@ == self.single(data@[i]@, knbn, ef_s)
//@endfn
}
}
}
fn main() {}
