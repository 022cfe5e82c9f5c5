// ---- the locks of an index that is being dropped: one thread owns it. What each lock holds is in a ghost heap (never compiled), by the
// identity of the lock.
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { x: T }
pub type NLists<'b, T> = Vec<Vec<Arc<PointWithOrder<'b, T>>>>;
pub type Layers<'b, T> = Vec<Vec<Arc<Point<'b, T>>>>;
pub type Entry<'b, T> = Option<Arc<Point<'b, T>>>;
pub ghost struct HeapView<'b, T: Clone + Send + Sync> { pub lists: Map<int, NLists<'b, T>>, pub layers: Map<int, Layers<'b, T>>, pub entries: Map<int, Entry<'b, T>> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Heap<'b, T: Clone + Send + Sync> { x: &'b T }
impl<'b, T: Clone + Send + Sync> Heap<'b, T> { pub uninterp spec fn view(&self) -> HeapView<'b, T>; }
pub trait InHeap<'b, T: Clone + Send + Sync>: Sized {
    spec fn at(h: HeapView<'b, T>, id: int) -> Self;
    spec fn put(h: HeapView<'b, T>, id: int, x: Self) -> HeapView<'b, T>;
}
impl<'b, T: Clone + Send + Sync> InHeap<'b, T> for NLists<'b, T> {
    open spec fn at(h: HeapView<'b, T>, id: int) -> Self { h.lists[id] }
    open spec fn put(h: HeapView<'b, T>, id: int, x: Self) -> HeapView<'b, T> { HeapView { lists: h.lists.insert(id, x), ..h } }
}
impl<'b, T: Clone + Send + Sync> InHeap<'b, T> for Layers<'b, T> {
    open spec fn at(h: HeapView<'b, T>, id: int) -> Self { h.layers[id] }
    open spec fn put(h: HeapView<'b, T>, id: int, x: Self) -> HeapView<'b, T> { HeapView { layers: h.layers.insert(id, x), ..h } }
}
impl<'b, T: Clone + Send + Sync> InHeap<'b, T> for Entry<'b, T> {
    open spec fn at(h: HeapView<'b, T>, id: int) -> Self { h.entries[id] }
    open spec fn put(h: HeapView<'b, T>, id: int, x: Self) -> HeapView<'b, T> { HeapView { entries: h.entries.insert(id, x), ..h } }
}
impl<X> RwLock<X> {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn read<'b, T: Clone + Send + Sync>(&self, Tracked(h): Tracked<&Heap<'b, T>>) -> (r: &X) where X: InHeap<'b, T>
        ensures *r == X::at(h@, self.id())
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'b, T: Clone + Send + Sync>(&self, Tracked(h): Tracked<&Heap<'b, T>>) -> (r: &mut X) where X: InHeap<'b, T>
        ensures *r == X::at(h@, self.id())
    { unimplemented!() }
}
#[verifier::external_body]
pub fn vw_release<'b, T: Clone + Send + Sync, X: InHeap<'b, T>>(l: &RwLock<X>, v: &mut X, Ghost(was): Ghost<X>, Tracked(h): Tracked<&mut Heap<'b, T>>)
    ensures final(h)@ == X::put(old(h)@, l.id(), *old(v))
{ unimplemented!() }
// the items of a parallel iteration over a list that is borrowed for it
#[verifier::external_body]
pub fn vpar_mut<E>(s: &mut Vec<E>) -> (r: &[E]) ensures r@ == old(s)@, final(s)@ == old(s)@ { unimplemented!() }
