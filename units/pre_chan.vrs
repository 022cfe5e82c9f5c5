// ---- channels: the receiver gets what has been sent when the last sender is gone, in some order   [assumption: rayon]
#[verifier::external_body]
#[verifier::accept_recursive_types(U)]
pub struct Sender<U> { x: Vec<U> }
#[verifier::external_body]
#[verifier::accept_recursive_types(U)]
pub struct Receiver<U> { x: Vec<U> }
#[verifier::external_body]
#[verifier::accept_recursive_types(U)]
pub struct VRecv<U> { x: Vec<U> }
#[verifier::external_body]
pub struct SendErr { x: u8 }
#[verifier::external]
impl std::fmt::Debug for SendErr { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { unimplemented!() } }
#[verifier::external_body]
pub fn channel<U>() -> (r: (Sender<U>, Receiver<U>)) ensures r.0.sent() == Seq::<U>::empty(), r.0.end() == r.1.end() { unimplemented!() }
impl<U> Sender<U> {
    pub uninterp spec fn sent(&self) -> Seq<U>;
    pub uninterp spec fn end(&self) -> Seq<U>;
    #[verifier::external_body]
    pub fn send(&mut self, x: U) -> (r: std::result::Result<(), SendErr>) ensures r is Ok, final(self).sent() == old(self).sent().push(x), final(self).end() == old(self).end() { unimplemented!() }
}
#[verifier::external_body]
pub fn vgone<U>(s: Sender<U>) ensures s.sent() == s.end() { unimplemented!() }
impl<U> Receiver<U> {
    pub uninterp spec fn end(&self) -> Seq<U>;
    #[verifier::external_body]
    pub fn iter(&self) -> (r: VRecv<U>) ensures r.end() == self.end() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_iter(self) -> (r: VRecv<U>) ensures r.end() == self.end() { unimplemented!() }
}
pub open spec fn reordered<U>(a: Seq<U>, b: Seq<U>, o: Seq<usize>) -> bool { vperm(o, b.len() as int) && a.len() == b.len() && forall|i: int| 0 <= i < a.len() ==> #[trigger] a[i] == b[o[i] as int] }
impl<U> VRecv<U> {
    pub uninterp spec fn end(&self) -> Seq<U>;
    #[verifier::external_body]
    pub fn collect(self) -> (r: Vec<U>) ensures exists|o: Seq<usize>| #[trigger] reordered(r@, self.end(), o) { unimplemented!() }
}
