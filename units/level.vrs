#![allow(unused)]
use vstd::prelude::*;
//@include pre_f64.vrs
pub mod sp {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
verus! {
broadcast use super::fl::ax_consts;
//@include pre_std.vrs
//@include pre_rng.vrs
//@sub? Arc < Mutex < rand :: rngs :: StdRng > > => Arc<Mutex<StdRng>>
//@struct src/hnsw.rs LayerGenerator
pub const NB_LAYER_MAX: u8 = 16;
}
}
pub mod code {
use vstd::prelude::*;
use std::sync::Arc;
use super::fl::*;
use super::sp::*;
verus! {
broadcast use super::fl::ax_consts;
impl LayerGenerator {
//@fn src/hnsw.rs LayerGenerator::generate
//@sub? let level = $x ; => let level = f64_any();
//@sub? level . floor ( ) as usize => f64_as_usize(level)
//@sub? level as usize => f64_as_usize(level)
//@ret r
//@spec
    // whatever is drawn, the level is below the number of layers
    requires self.maxlevel >= 1
    ensures r < self.maxlevel
//@endfn
//@fn src/hnsw.rs LayerGenerator::new
//@sub? let scale = $x ; => let scale = f64_any();
//@ret r
//@spec
    ensures r.maxlevel == maxlevel
//@endfn
//@fn src/hnsw.rs LayerGenerator::new_with_scale
//@sub? let scale_default = $x ; => let scale_default = f64_any();
//@sub? scale_default * scale_factor => f64_mul(scale_default, scale_factor)
//@ret r
//@spec
    ensures r.maxlevel == maxlevel
//@endfn
//@fn src/hnsw.rs LayerGenerator::set_scale_modification
//@sub? self . scale *= $x ; => self.scale = f64_mul(self.scale, $x);
//@spec
    ensures final(self).scale == fmul(old(self).scale, scale_modification), final(self).maxlevel == old(self).maxlevel
//@endfn
//@fn src/hnsw.rs LayerGenerator::get_level_scale
//@ret r
//@spec
    ensures r == self.scale
//@endfn
}
// the parts of the index this reaches; the fields it does not touch are left out
pub struct PointIndexation { pub layer_g: LayerGenerator }
pub struct Hnsw { pub layer_indexed_points: PointIndexation }
impl PointIndexation {
//@fn src/hnsw.rs PointIndexation::get_level_scale
//@ret r
//@spec
    ensures r == self.layer_g.scale
//@endfn
}
pub open spec fn clamped(c: f64, asked: f64) -> bool {
    if key(asked) < key(0.2f64) { c == 0.2f64 }
    else if key(asked) > key(1.0f64) { c == 1.0f64 }
    else { key(c) == key(asked) && (c == asked || c == 0.2f64 || c == 1.0f64) }
}
impl Hnsw {
    #[verifier::external_body]
    pub fn get_nb_point(&self) -> usize { unimplemented!() }
//@fn src/hnsw.rs Hnsw::modify_level_scale
//@sub? if scale_modification > 1. => if f64_lt(1.0, scale_modification)
//@sub? if scale_modification < min_factor => if f64_lt(scale_modification, min_factor)
//@sub? scale_modification . max ( min_factor ) . min ( 1. ) => f64_min(f64_max(scale_modification, min_factor), 1.)
//@sub? scale_modification . min ( 1. ) . max ( min_factor ) => f64_max(f64_min(scale_modification, 1.), min_factor)
//@sub? scale_modification . clamp ( min_factor , 1. ) => f64_clamp(scale_modification, min_factor, 1.)
//@sub? scale_modification . max ( $x ) . min ( $y ) => f64_min(f64_max(scale_modification, $x), $y)
//@spec
    requires !is_nan(scale_modification)
    ensures
        exists|c: f64| clamped(c, scale_modification) && final(self).layer_indexed_points.layer_g.scale == #[trigger] fmul(old(self).layer_indexed_points.layer_g.scale, c),
        final(self).layer_indexed_points.layer_g.maxlevel == old(self).layer_indexed_points.layer_g.maxlevel,
//@endfn
}
}
}
