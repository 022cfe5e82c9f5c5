#![allow(unused)]
use vstd::prelude::*;
//@mode conc
//@ghostarg read:&Hist<'b,T> write:&Hist<'b,T> search_layer select_neighbours reverse_update_neighborhood_simple check_entry_point generate_new_point insert_slice insert parallel_insert:&mut~Log<T> parallel_insert_slice:&mut~Log<T>
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_rng.vrs
//@include types.vrs
//@include spec_conc.vrs
//@include pre_par.vrs
//@include spec_par_insert.vrs
//@const src/hnsw.rs NB_LAYER_MAX
pub open spec fn empty_lists<E>(s: Seq<Vec<E>>) -> bool { forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l])@.len() == 0 }
// copying a slice element by element   [assumption: containers]
#[verifier::external_body]
pub fn vto_vec<T: Clone>(s: &[T]) -> (r: Vec<T>) ensures r@ == s@ { s.to_vec() }
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_conc.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include fns_point.vrs
//@include fns_insert.vrs
}
}
