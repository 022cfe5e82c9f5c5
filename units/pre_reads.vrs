// ---- what a function may do: a reading thread has neither permission (never compiled)
#[verifier::external_body]
pub tracked struct World { x: u8 }
impl World {
    pub uninterp spec fn may_change(&self) -> bool;
    pub uninterp spec fn may_chance(&self) -> bool;
}
// something another thread can see through a shared reference is changed
#[verifier::external_body]
pub fn vchange(Tracked(w): Tracked<&mut World>)
    requires old(w).may_change()
    ensures *final(w) == *old(w)
{ unimplemented!() }
// something that is not the same each time is asked for
#[verifier::external_body]
pub fn vchance(Tracked(w): Tracked<&mut World>)
    requires old(w).may_chance()
    ensures *final(w) == *old(w)
{ unimplemented!() }
#[verifier::external_body]
pub fn vany() -> bool { unimplemented!() }
