// ---- locks of an index at rest: nobody writes, so a read returns the one value the lock holds.
// No `write` exists here: code that writes during a search does not fit this unit.   [assumption: at-rest]
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { x: T }
impl<T> RwLock<T> {
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Self) ensures r@ == x { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: &T) ensures *r == self@ { unimplemented!() }
}
pub type RwLockReadGuard<'a, T> = &'a T;
