// ---- the generator: uniform draws stay in the half-open (or, so made, closed) range they are made for, and a range must not be empty   [assumption: rand]
#[verifier::external_body]
pub struct StdRng { x: u8 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Mutex<T> { x: T }
impl<T> Mutex<T> {
    #[verifier::external_body]
    pub fn new(x: T) -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> &mut T { unimplemented!() }
}
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Uniform<T> { x: T }
pub uninterp spec fn u_lo<T>(u: Uniform<T>) -> T;
pub uninterp spec fn u_hi<T>(u: Uniform<T>) -> T;
pub uninterp spec fn u_closed<T>(u: Uniform<T>) -> bool;
pub trait Draw: Sized { spec fn in_range(&self, lo: Self, hi: Self, closed: bool) -> bool; spec fn nonempty(lo: Self, hi: Self) -> bool; }
impl Draw for usize {
    open spec fn in_range(&self, lo: usize, hi: usize, closed: bool) -> bool { lo <= *self < hi || closed && *self == hi }
    open spec fn nonempty(lo: usize, hi: usize) -> bool { lo < hi }
}
impl Draw for f64 {
    open spec fn in_range(&self, lo: f64, hi: f64, closed: bool) -> bool { true }
    open spec fn nonempty(lo: f64, hi: f64) -> bool { true }
}
impl<T: Draw> Uniform<T> {
    #[verifier::external_body]
    pub fn new(lo: T, hi: T) -> (r: Self)
        requires T::nonempty(lo, hi)
        ensures u_lo(r) == lo, u_hi(r) == hi, !u_closed(r)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn new_inclusive(lo: T, hi: T) -> (r: Self)
        requires T::nonempty(lo, hi) || lo == hi
        ensures u_lo(r) == lo, u_hi(r) == hi, u_closed(r)
    { unimplemented!() }
}
impl<T: Draw + Copy> Clone for Uniform<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } }
impl<T: Draw + Copy> Copy for Uniform<T> {}
impl StdRng {
    #[verifier::external_body]
    pub fn from_entropy() -> Self { unimplemented!() }
    #[verifier::external_body]
    pub fn sample<T: Draw>(&mut self, u: Uniform<T>) -> (r: T)
        ensures r.in_range(u_lo(u), u_hi(u), u_closed(u))
    { unimplemented!() }
}
