pub mod fl {
use vstd::prelude::*;
use core::cmp::Ordering;
verus! {
// f64 values as far as level sampling uses them: an order key, NaN, an uninterpreted product   [assumption: float-order]
pub uninterp spec fn key(x: f64) -> int;
pub uninterp spec fn is_nan(x: f64) -> bool;
pub uninterp spec fn fmul(x: f64, y: f64) -> f64;
pub broadcast axiom fn ax_consts()
    ensures #![trigger is_nan(1.0f64)] #![trigger key(1.0f64)] #![trigger key(0.2f64)] #![trigger is_nan(0.2f64)] key(0.2f64) < key(1.0f64), !is_nan(0.2f64), !is_nan(1.0f64);
#[verifier::external_body]
pub fn f64_max(x: f64, y: f64) -> (r: f64)
    requires !is_nan(y)
    ensures is_nan(x) ==> r == y, !is_nan(x) && key(x) > key(y) ==> r == x, !is_nan(x) && key(x) < key(y) ==> r == y, key(x) == key(y) ==> (r == x || r == y)
{ x.max(y) }
#[verifier::external_body]
pub fn f64_min(x: f64, y: f64) -> (r: f64)
    requires !is_nan(y)
    ensures is_nan(x) ==> r == y, !is_nan(x) && key(x) < key(y) ==> r == x, !is_nan(x) && key(x) > key(y) ==> r == y, key(x) == key(y) ==> (r == x || r == y)
{ x.min(y) }
#[verifier::external_body]
pub fn f64_clamp(x: f64, a: f64, b: f64) -> (r: f64)
    requires !is_nan(a), !is_nan(b), key(a) <= key(b)
    ensures is_nan(x) ==> r == x, !is_nan(x) && key(x) < key(a) ==> r == a, !is_nan(x) && key(x) > key(b) ==> r == b, !is_nan(x) && key(a) <= key(x) <= key(b) ==> r == x
{ x.clamp(a, b) }
#[verifier::external_body]
pub fn f64_mul(x: f64, y: f64) -> (r: f64) ensures r == fmul(x, y) { x * y }
#[verifier::external_body]
pub fn f64_lt(x: f64, y: f64) -> (r: bool) ensures r == (!is_nan(x) && !is_nan(y) && key(x) < key(y)) { x < y }
// any float expression: its value is not interpreted
#[verifier::external_body]
pub fn f64_any() -> (r: f64) { 0. }
// a cast of a float gives any usize at all
#[verifier::external_body]
pub fn f64_as_usize(x: f64) -> (r: usize) { x as usize }
}
}
