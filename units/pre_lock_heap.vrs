// ---- the locks of an index that one thread is reloading. The neighbour lists of the points are in a ghost heap (never compiled), by the
// identity of their lock; the other locks are not written after they are made.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { x: T }
pub type NLists<'b, T> = Vec<Vec<Arc<PointWithOrder<'b, T>>>>;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Heap<'b, T: Clone + Send + Sync> { x: &'b T }
impl<'b, T: Clone + Send + Sync> Heap<'b, T> { pub uninterp spec fn view(&self) -> Map<int, NLists<'b, T>>; }
impl<T> RwLock<T> {
    pub uninterp spec fn id(&self) -> int;
    // what a lock that is never written holds
    pub uninterp spec fn view(&self) -> T;
    #[verifier::external_body]
    pub fn new(x: T) -> (r: Self) ensures r@ == x { unimplemented!() }
    #[verifier::external_body]
    pub fn read(&self) -> (r: &T) where T: NeverWritten ensures *r == self@ { unimplemented!() }
}
pub trait NeverWritten {}
impl NeverWritten for usize {}
impl<E> NeverWritten for Option<E> {}
impl<'b, T: Clone + Send + Sync> RwLock<NLists<'b, T>> {
    #[verifier::external_body]
    pub fn vnew(x: NLists<'b, T>, Tracked(h): Tracked<&mut Heap<'b, T>>) -> (r: Self)
        ensures !old(h)@.dom().contains(r.id()), final(h)@ == old(h)@.insert(r.id(), x)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write<U>(&self, Tracked(h): Tracked<&Heap<'b, T>>) -> (r: &mut NLists<'b, T>)
//@if !P13
        requires h@.dom().contains(self.id())
//@endif
        ensures *r == h@[self.id()]
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vw_release<'b, T: Clone + Send + Sync, U>(l: &RwLock<NLists<'b, T>>, v: &mut NLists<'b, T>, Ghost(was): Ghost<U>, Tracked(h): Tracked<&mut Heap<'b, T>>)
    ensures final(h)@ == old(h)@.insert(l.id(), *old(v))
{ unimplemented!() }
pub open spec fn empty_lists<E>(s: Seq<Vec<E>>) -> bool { forall|l: int| 0 <= l < s.len() ==> (#[trigger] s[l])@.len() == 0 }
