// ---- floating point: comparison order only; no arithmetic is interpreted.
// Assumed: on non-NaN f32 values the IEEE comparison is a total preorder given by an
// integer key, negation negates the key, NaN is unordered.   [assumption: float-order]
pub mod fl {
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use core::cmp::Ordering;
verus! {
pub uninterp spec fn key(x: f32) -> int;
pub uninterp spec fn is_nan(x: f32) -> bool;
pub open spec fn fcmp(x: f32, y: f32) -> Option<Ordering> {
    if is_nan(x) || is_nan(y) { None }
    else if key(x) < key(y) { Some(Ordering::Less) }
    else if key(x) > key(y) { Some(Ordering::Greater) }
    else { Some(Ordering::Equal) }
}
pub broadcast axiom fn ax_f32_cmp(x: f32, y: f32)
    ensures <f32 as PartialOrdSpec>::obeys_partial_cmp_spec(),
        #[trigger] <f32 as PartialOrdSpec>::partial_cmp_spec(&x, &y) == fcmp(x, y);
pub broadcast axiom fn ax_f32_eq(x: f32, y: f32)
    ensures <f32 as PartialEqSpec>::obeys_eq_spec(),
        #[trigger] <f32 as PartialEqSpec>::eq_spec(&x, &y) == (fcmp(x, y) == Some(Ordering::Equal));
pub broadcast axiom fn ax_f32_obeys()
    ensures #[trigger] <f32 as PartialEqSpec>::obeys_eq_spec(), #[trigger] <f32 as PartialOrdSpec>::obeys_partial_cmp_spec();
pub broadcast axiom fn ax_f32_zero(x: f32)
    ensures x == 0.0f32 ==> #[trigger] key(x) == 0 && !is_nan(x);
#[verifier::external_body]
pub fn vneg(x: f32) -> (r: f32)
    ensures key(r) == -key(x), is_nan(r) == is_nan(x)
{ -x }
#[verifier::external_body]
pub fn f32_is_nan(x: f32) -> (r: bool) ensures r == is_nan(x) { x.is_nan() }
#[verifier::external_body]
pub fn f32_partial_cmp(x: &f32, y: &f32) -> (r: Option<Ordering>) ensures r == fcmp(*x, *y) { x.partial_cmp(y) }
}
}
