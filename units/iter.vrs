#![allow(unused)]
use vstd::prelude::*;
//@include pre_float.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include pre_std.vrs
//@include pre_lock_frozen.vrs
//@include types.vrs
//@include spec_iter.vrs
}
}
pub mod lem {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
//@include lem_iter.vrs
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use core::cmp::Ordering;
use super::fl::*;
use super::sp::*;
use super::lem::*;
verus! {
broadcast use {super::fl::ax_f32_cmp, super::fl::ax_f32_eq, super::fl::ax_f32_obeys, super::fl::ax_f32_zero};
//@include fns_point.vrs
//@include fns_iter.vrs
// P08: a whole iteration: next until None
pub fn iterate_all<'a, 'b, T: Clone + Send + Sync>(pi: &'a PointIndexation<'b, T>) -> (r: Vec<Arc<Point<'b, T>>>)
    requires pi.top_ok()
    ensures r@ == all_points(pi.layers())
{
    let mut v = Vec::new();
    let mut it = pi.into_iter();
    loop
        invariant it.wf(), it.point_indexation == pi, v@ + it.rem() =~= all_points(pi.layers())
        decreases it.rem().len()
    {
        match it.next() {
            Some(p) => v.push(p),
            None => return v,
        }
    }
}
}
}
