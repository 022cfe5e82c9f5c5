// ---- what a thread holds: the places, in one order of all kinds of locks, of the locks it has taken and not given back (never compiled)
#[verifier::external_body]
pub tracked struct Held { x: u8 }
impl Held { pub uninterp spec fn view(&self) -> Set<int>; }
// every lock in s comes before place m
pub open spec fn below(s: Set<int>, m: int) -> bool { forall|x: int| #[trigger] s.contains(x) ==> x < m }
// a lock is only waited for by a thread that holds nothing at its place or behind it
#[verifier::external_body]
pub fn vtake(Ghost(c): Ghost<int>, Tracked(h): Tracked<&mut Held>)
    requires below(old(h)@, c)
    ensures final(h)@ == old(h)@.insert(c)
{ unimplemented!() }
#[verifier::external_body]
pub fn vgive(Ghost(c): Ghost<int>, Tracked(h): Tracked<&mut Held>)
    requires old(h)@.contains(c)
    ensures final(h)@ == old(h)@.remove(c)
{ unimplemented!() }
// other threads are only waited for by a thread that holds no lock
#[verifier::external_body]
pub fn vwait(Tracked(h): Tracked<&mut Held>)
    requires below(old(h)@, 0)
    ensures final(h)@ == old(h)@
{ unimplemented!() }
#[verifier::external_body]
pub fn vany() -> bool { unimplemented!() }
// the function does not come back from here: it panics, or goes on without touching a lock
#[verifier::external_body]
pub fn vnever() ensures false { unimplemented!() }
