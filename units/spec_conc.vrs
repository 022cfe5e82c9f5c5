// ---- the locks of an index under concurrent insertion.
// Each thread carries a ghost history `Hist` (never compiled). A lock hands out some value that satisfies what the lock protects, and takes
// back, at the end of the guard's scope, only a step that is allowed on it; both relative to what the thread knows (its history).
// The only thing a thread knows exactly is the point it has just stored and not linked yet: nobody else can reach it. It stops being private
// when it is first written where another thread can read it.   [assumption: locks]
#[verifier::reject_recursive_types(T)]
pub ghost struct G<'b, T: Clone + Send + Sync> {
    pub m: int,                                  // configured number of connections
    pub nlayers: int,
    pub d: spec_fn(Seq<T>, Seq<T>) -> f32,
    pub new: Option<Arc<Point<'b, T>>>,          // the point this thread stored last
    pub private: bool,                           // nobody else can reach it yet
    pub lists: Vec<Vec<Arc<PointWithOrder<'b, T>>>>,   // its neighbour lists, while private
    pub neigh: bool,                             // it had a neighbour when it was first linked
    pub entry: bool,                             // it has been made the entry point
    pub filled: Set<int>,                        // layers known to hold a point
    pub floor: int,                              // the entry point's level is known to be at least this (-1: none seen)
    pub pushes: int,                             // points stored by this thread
    pub incs: int,                               // what this thread added to the count of points
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Hist<'b, T: Clone + Send + Sync> { x: &'b T }
impl<'b, T: Clone + Send + Sync> Hist<'b, T> { pub uninterp spec fn view(&self) -> G<'b, T>; }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct RwLock<T> { x: T }
pub uninterp spec fn init_of<V>(l: &RwLock<V>) -> V;
// the vector and the id of the point a neighbours lock belongs to
pub uninterp spec fn owner_data<V, T>(l: &RwLock<V>) -> Seq<T>;
pub uninterp spec fn owner_id<V>(l: &RwLock<V>) -> PointId;
pub trait Guarded<'b, T: Clone + Send + Sync>: Sized {
    spec fn seen(&self, g: G<'b, T>, l: &RwLock<Self>) -> bool;
    spec fn may_write(old: Self, new: Self, g: G<'b, T>, l: &RwLock<Self>) -> bool;
    spec fn after(old: Self, new: Self, g: G<'b, T>, g2: G<'b, T>, l: &RwLock<Self>) -> bool;
}
impl<V> RwLock<V> {
    #[verifier::external_body]
    pub fn new(x: V) -> (r: Self) ensures init_of(&r) == x { unimplemented!() }
    #[verifier::external_body]
    pub fn read<'b, T: Clone + Send + Sync>(&self, Tracked(h): Tracked<&Hist<'b, T>>) -> (r: &V) where V: Guarded<'b, T> ensures r.seen(h@, self) { unimplemented!() }
    #[verifier::external_body]
    pub fn write<'b, T: Clone + Send + Sync>(&self, Tracked(h): Tracked<&Hist<'b, T>>) -> (r: &mut V) where V: Guarded<'b, T> ensures (*r).seen(h@, self) { unimplemented!() }
}
// end of the scope of a write guard
#[verifier::external_body]
pub fn vw_release<'b, T: Clone + Send + Sync, V: Guarded<'b, T>>(l: &RwLock<V>, v: &mut V, Ghost(was): Ghost<V>, Tracked(h): Tracked<&mut Hist<'b, T>>)
    requires V::may_write(was, *old(v), old(h)@, l)
    ensures V::after(was, *old(v), old(h)@, final(h)@, l)
{ unimplemented!() }

// ---- what a point and its lists must be
// p has been stored, and has been made reachable with lists in order
pub uninterp spec fn linked<'b, T: Clone + Send + Sync>(p: Point<'b, T>) -> bool;
pub open spec fn bound_to<'b, T: Clone + Send + Sync>(p: Point<'b, T>) -> bool { owner_data::<_, T>(&*p.neighbours) == p.data@ && owner_id(&*p.neighbours) == p.p_id }
pub open spec fn okp0<'b, T: Clone + Send + Sync>(g: G<'b, T>, p: Point<'b, T>) -> bool { linked(p) && bound_to(p) && 0 <= p.p_id.1 && (p.p_id.0 as int) < g.nlayers }
pub open spec fn not_private<'b, T: Clone + Send + Sync>(g: G<'b, T>, id: PointId) -> bool { g.private ==> g.new.is_some() && id != g.new->0.p_id }
pub open spec fn okp<'b, T: Clone + Send + Sync>(g: G<'b, T>, p: Point<'b, T>) -> bool { okp0(g, p) && not_private(g, p.p_id) }
pub open spec fn cap<'b, T: Clone + Send + Sync>(g: G<'b, T>, l: int) -> int { if l == 0 { 2 * g.m } else { g.m } }
// one entry of a list of the point (data, id); the distance is that of the pair when the distance function is symmetric
pub open spec fn ent<'b, T: Clone + Send + Sync>(g: G<'b, T>, data: Seq<T>, id: PointId, e: Arc<PointWithOrder<'b, T>>) -> bool {
    okp0(g, *e.point_ref) && e.point_ref.p_id != id && !is_nan(e.dist_to_ref) && key(e.dist_to_ref) >= 0 && (symmetric(g) ==> key(e.dist_to_ref) == key((g.d)(data, e.point_ref.data@)))
}
pub open spec fn distinct<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).point_ref.p_id != (#[trigger] s[j]).point_ref.p_id
}
pub open spec fn ascending<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int, j: int| 0 <= i <= j < s.len() ==> key((#[trigger] s[i]).dist_to_ref) <= key((#[trigger] s[j]).dist_to_ref)
}
pub open spec fn list_ok<'b, T: Clone + Send + Sync>(g: G<'b, T>, data: Seq<T>, id: PointId, l: int, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() ==> ent(g, data, id, #[trigger] s[k])
    &&& distinct(s) && ascending(s) && s.len() <= cap(g, l)
}
pub open spec fn nbl<'b, T: Clone + Send + Sync>(v: Vec<Vec<Arc<PointWithOrder<'b, T>>>>, l: int) -> Seq<Arc<PointWithOrder<'b, T>>> { v@[l]@ }
// P04 and P05: what every list of a reachable point satisfies
pub open spec fn lists_ok<'b, T: Clone + Send + Sync>(g: G<'b, T>, data: Seq<T>, id: PointId, v: Vec<Vec<Arc<PointWithOrder<'b, T>>>>) -> bool {
    v@.len() == 16 && forall|l: int| #![trigger nbl(v, l)] #![trigger v@[l]] 0 <= l < 16 ==> list_ok(g, data, id, l, nbl(v, l))
}
pub open spec fn has_link<'b, T: Clone + Send + Sync>(v: Vec<Vec<Arc<PointWithOrder<'b, T>>>>) -> bool { exists|l: int| 0 <= l < 16 && (#[trigger] nbl(v, l)).len() > 0 }
// the private point may be linked now
pub open spec fn publishable<'b, T: Clone + Send + Sync>(g: G<'b, T>) -> bool {
    g.new.is_some() && bound_to(*g.new->0) && 0 <= g.new->0.p_id.1 && (g.new->0.p_id.0 as int) < g.nlayers && lists_ok(g, g.new->0.data@, g.new->0.p_id, g.lists)
}
pub open spec fn symmetric<'b, T: Clone + Send + Sync>(g: G<'b, T>) -> bool { forall|a: Seq<T>, b: Seq<T>| key(#[trigger] (g.d)(a, b)) == key((g.d)(b, a)) }
// P05: s becomes t by adding the new point in distance order and, if s was full, dropping a farthest entry
pub open spec fn added<'b, T: Clone + Send + Sync>(g: G<'b, T>, data: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>, e: Arc<PointWithOrder<'b, T>>, u: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    &&& e.point_ref == g.new->0 && !is_nan(e.dist_to_ref) && key(e.dist_to_ref) >= 0 && (symmetric(g) ==> key(e.dist_to_ref) == key((g.d)(data, g.new->0.data@)))
    &&& #[trigger] perm_of(u, s.push(e)) && ascending(u) && t == (if u.len() > cap(g, g.new->0.p_id.0 as int) { u.drop_last() } else { u })
}
// the history after the private point became reachable
pub open spec fn published<'b, T: Clone + Send + Sync>(g: G<'b, T>) -> G<'b, T> { G { private: false, neigh: g.neigh || (g.private && has_link(g.lists)), ..g } }

// the neighbour lists of a point
impl<'b, T: Clone + Send + Sync> Guarded<'b, T> for Vec<Vec<Arc<PointWithOrder<'b, T>>>> {
    open spec fn seen(&self, g: G<'b, T>, l: &RwLock<Self>) -> bool {
        if g.private && g.new.is_some() && owner_id(l) == g.new->0.p_id { *self == g.lists && self@.len() == 16 }
        else { lists_ok(g, owner_data::<_, T>(l), owner_id(l), *self) && forall|i: int, k: int| #![trigger nbl(*self, i)[k]] #![trigger self@[i]@[k]] 0 <= i < 16 && 0 <= k < nbl(*self, i).len() ==> not_private(g, nbl(*self, i)[k].point_ref.p_id) }
    }
    open spec fn may_write(old: Self, new: Self, g: G<'b, T>, l: &RwLock<Self>) -> bool {
        if g.private && g.new.is_some() && owner_id(l) == g.new->0.p_id { new@.len() == 16 }
        else {
            old == new || {
                &&& g.new.is_some() && owner_id(l) != g.new->0.p_id && (if g.private { publishable(g) } else { okp0(g, *g.new->0) })
                &&& new@.len() == 16 && forall|i: int| #![trigger nbl(new, i)] #![trigger new@[i]] 0 <= i < 16 && i != g.new->0.p_id.0 ==> nbl(new, i) == nbl(old, i)
                &&& only_adds(g, owner_data::<_, T>(l), nbl(old, g.new->0.p_id.0 as int), nbl(new, g.new->0.p_id.0 as int))
            }
        }
    }
    open spec fn after(old: Self, new: Self, g: G<'b, T>, g2: G<'b, T>, l: &RwLock<Self>) -> bool {
        if g.private && g.new.is_some() && owner_id(l) == g.new->0.p_id { g2 == (G { lists: new, ..g }) }
        else if old == new { g2 == g }
        else { g2 == published(g) && okp0(g2, *g.new->0) }
    }
}
// the list s of a point with vector `data` becomes t: nothing but the new point is added, once, with its distance
pub open spec fn only_adds<'b, T: Clone + Send + Sync>(g: G<'b, T>, data: Seq<T>, s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    &&& forall|k: int| 0 <= k < s.len() && vk(k) ==> (#[trigger] s[k]).point_ref.p_id != g.new->0.p_id
    &&& exists|e: Arc<PointWithOrder<'b, T>>, u: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] perm_of(u, s.push(e)) && added(g, data, s, t, e, u)
}
// the entry point: P07
impl<'b, T: Clone + Send + Sync> Guarded<'b, T> for Option<Arc<Point<'b, T>>> {
    open spec fn seen(&self, g: G<'b, T>, l: &RwLock<Self>) -> bool {
        &&& self.is_some() ==> okp(g, *self->0) && self->0.p_id.0 >= g.floor
        &&& g.floor >= 0 ==> self.is_some()
    }
    open spec fn may_write(old: Self, new: Self, g: G<'b, T>, l: &RwLock<Self>) -> bool {
        old == new || {
            &&& new.is_some() && (old.is_some() ==> new->0.p_id.0 >= old->0.p_id.0)
            &&& okp(g, *new->0) || (g.new == new && (if g.private { publishable(g) } else { okp0(g, *new->0) }))
        }
    }
    open spec fn after(old: Self, new: Self, g: G<'b, T>, g2: G<'b, T>, l: &RwLock<Self>) -> bool {
        if old == new { g2 == (G { floor: if new.is_some() && new->0.p_id.0 > g.floor { new->0.p_id.0 as int } else { g.floor }, ..g }) }
        else {
            let g1 = G { floor: if new->0.p_id.0 > g.floor { new->0.p_id.0 as int } else { g.floor }, entry: g.entry || g.new == new, ..g };
            g2 == (if g.private && g.new == new { published(g1) } else { g1 }) && okp0(g2, *new->0)
        }
    }
}
// the points by layer: P06
impl<'b, T: Clone + Send + Sync> Guarded<'b, T> for Vec<Layer<'b, T>> {
    open spec fn seen(&self, g: G<'b, T>, l: &RwLock<Self>) -> bool {
        &&& self@.len() == g.nlayers
        &&& forall|i: int| 0 <= i < g.nlayers ==> (#[trigger] self@[i])@.len() < i32::MAX   // [assumption: fewer than 2^31 points in a layer]
        &&& forall|i: int| 0 <= i < g.nlayers && g.filled.contains(i) ==> (#[trigger] self@[i])@.len() > 0
        &&& forall|i: int, r: int| 0 <= i < g.nlayers && 0 <= r < self@[i]@.len() ==> (#[trigger] self@[i]@[r]).p_id == PointId(i as u8, r as i32)
    }
    open spec fn may_write(old: Self, new: Self, g: G<'b, T>, l: &RwLock<Self>) -> bool {
        old@ == new@ || (!g.private && stores(old@, new@))
    }
    open spec fn after(old: Self, new: Self, g: G<'b, T>, g2: G<'b, T>, l: &RwLock<Self>) -> bool {
        if old@ == new@ { g2 == g }
        else {
            &&& g2.new.is_some() && bound_to(*g2.new->0) && (g2.new->0.p_id.0 as int) < g.nlayers
            &&& forall|i: int| #![trigger old@[i]] #![trigger new@[i]] 0 <= i < old@.len() && old@[i] != new@[i] ==> g2.new->0 == new@[i]@.last()
            &&& g2 == (G { new: g2.new, private: true, lists: init_of(&*g2.new->0.neighbours), neigh: false, entry: false, filled: g.filled.insert(g2.new->0.p_id.0 as int), pushes: g.pushes + 1, ..g })
        }
    }
}
// exactly one point is stored, at the end of its layer, and its id is that slot
pub open spec fn stores<'b, T: Clone + Send + Sync>(old: Seq<Layer<'b, T>>, new: Seq<Layer<'b, T>>) -> bool {
    &&& new.len() == old.len()
    &&& forall|i: int| #![trigger old[i]] #![trigger new[i]] 0 <= i < old.len() && new[i] != old[i] ==>
            new[i]@.len() == old[i]@.len() + 1 && new[i]@ =~= old[i]@.push(new[i]@.last()) && new[i]@.last().p_id == PointId(i as u8, old[i]@.len() as i32) && fresh(*new[i]@.last())
    &&& forall|i: int, j: int| 0 <= i < j < old.len() ==> (#[trigger] new[i]) == old[i] || (#[trigger] new[j]) == old[j]
}
pub open spec fn fresh<'b, T: Clone + Send + Sync>(p: Point<'b, T>) -> bool {
    init_of(&*p.neighbours)@.len() == 16 && forall|l: int| 0 <= l < 16 ==> (#[trigger] nbl(init_of(&*p.neighbours), l)).len() == 0
}
// the number of points: P06
impl<'b, T: Clone + Send + Sync> Guarded<'b, T> for usize {
    open spec fn seen(&self, g: G<'b, T>, l: &RwLock<Self>) -> bool { *self < usize::MAX }   // [assumption: fewer than 2^31 points in a layer]
    open spec fn may_write(old: Self, new: Self, g: G<'b, T>, l: &RwLock<Self>) -> bool { old == new || new == old + 1 }
    open spec fn after(old: Self, new: Self, g: G<'b, T>, g2: G<'b, T>, l: &RwLock<Self>) -> bool { g2 == (G { incs: g.incs + new - old, ..g }) }
}
// ---- heaps of the search inside an insertion
pub open spec fn one_ok<'b, T: Clone + Send + Sync>(g: G<'b, T>, q: Seq<T>, sgn: int, e: Arc<PointWithOrder<'b, T>>) -> bool {
    okp(g, *e.point_ref) && key(e.dist_to_ref) == sgn * key((g.d)(q, e.point_ref.data@)) && !is_nan(e.dist_to_ref) && key((g.d)(q, e.point_ref.data@)) >= 0
}
pub open spec fn all_ok<'b, T: Clone + Send + Sync>(g: G<'b, T>, q: Seq<T>, sgn: int, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> one_ok(g, q, sgn, #[trigger] s[i])
}
pub open spec fn in_dom<'b, T: Clone + Send + Sync>(v: Map<PointId, Arc<Point<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> v.dom().contains((#[trigger] s[i]).point_ref.p_id)
}
pub open spec fn map_ok<'b, T: Clone + Send + Sync>(g: G<'b, T>, v: Map<PointId, Arc<Point<'b, T>>>) -> bool {
    forall|p: PointId| #[trigger] v.dom().contains(p) ==> okp(g, *v[p]) && v[p].p_id == p
}
pub open spec fn flipped<'b, T: Clone + Send + Sync>(e: Arc<PointWithOrder<'b, T>>, f: Arc<PointWithOrder<'b, T>>) -> bool {
    e.point_ref == f.point_ref && key(e.dist_to_ref) == -key(f.dist_to_ref) && is_nan(e.dist_to_ref) == is_nan(f.dist_to_ref)
}
pub open spec fn apart<'b, T: Clone + Send + Sync>(s: Seq<Arc<PointWithOrder<'b, T>>>, t: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < t.len() ==> (#[trigger] s[i]).point_ref.p_id != (#[trigger] t[j]).point_ref.p_id
}
impl<'b, T: Clone + Send + Sync> PointIndexation<'b, T> {
    pub open spec fn fits(&self, g: G<'b, T>) -> bool { self.layer_g.maxlevel == g.nlayers && 1 <= g.nlayers <= 16 }
}
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
    pub open spec fn fits(&self, g: G<'b, T>) -> bool {
        &&& self.layer_indexed_points.fits(g) && self.max_nb_connection == g.m && 1 <= g.m <= 256
        &&& forall|a: Seq<T>, b: Seq<T>| #[trigger] (g.d)(a, b) == self.dist_f.d(a, b)
    }
}
pub open spec fn negation_of<'b, T: Clone + Send + Sync>(r: Seq<Arc<PointWithOrder<'b, T>>>, s: Seq<Arc<PointWithOrder<'b, T>>>) -> bool {
    exists|o: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] perm_of(o, s) && r.len() == o.len() && forall|i: int| 0 <= i < r.len() ==> flipped(#[trigger] r[i], o[i])
}
// one new point has been stored, with the vector and the id given
pub open spec fn stored_new<'b, T: Clone + Send + Sync>(g: G<'b, T>, g2: G<'b, T>, p: Arc<Point<'b, T>>, data: Seq<T>, id: usize) -> bool {
    &&& p.data@ == data && p.origin_id == id && (p.p_id.0 as int) < g.nlayers && bound_to(*p) && 0 <= p.p_id.1
    &&& g2 == (G { new: Some(p), private: true, lists: g2.lists, neigh: false, entry: false, filled: g.filled.insert(p.p_id.0 as int), pushes: g.pushes + 1, incs: g.incs + 1, ..g })
    &&& g2.lists@.len() == 16 && forall|l: int| 0 <= l < 16 ==> (#[trigger] nbl(g2.lists, l)).len() == 0
}
pub open spec fn linked_out<'b, T: Clone + Send + Sync>(g: G<'b, T>) -> bool { g.neigh || g.entry || (g.private && has_link(g.lists)) }
// nothing is stored or counted, the new point stays; it can become reachable, and be made entry point
pub open spec fn quiet<'b, T: Clone + Send + Sync>(g: G<'b, T>, g2: G<'b, T>) -> bool {
    &&& g2 == (G { private: g2.private, neigh: g2.neigh, entry: g2.entry, floor: g2.floor, ..g })
    &&& g2.floor >= g.floor && (g2.private ==> g.private) && (g2.private == g.private ==> g2.neigh == g.neigh) && (g.entry ==> g2.entry)
    &&& linked_out(g) ==> linked_out(g2)
}
// P06, P07: what one completed insertion has done
pub open spec fn inserted<'b, T: Clone + Send + Sync>(g: G<'b, T>, g2: G<'b, T>, data: Seq<T>, id: usize) -> bool {
    &&& g2.pushes == g.pushes + 1 && g2.incs == g.incs + 1
    &&& g2.new.is_some() && g2.new->0.data@ == data && g2.new->0.origin_id == id
    &&& g2.floor >= g2.new->0.p_id.0 && g2.floor >= g.floor
    &&& linked_out(g2)
}
// the new point is stored, still private; only its lists have been filled
pub open spec fn stored_keeping<'b, T: Clone + Send + Sync>(g: G<'b, T>, g2: G<'b, T>, p: Arc<Point<'b, T>>, data: Seq<T>, id: usize) -> bool {
    &&& p.data@ == data && p.origin_id == id && (p.p_id.0 as int) < g.nlayers && bound_to(*p) && 0 <= p.p_id.1
    &&& g2 == (G { new: Some(p), private: true, lists: g2.lists, neigh: false, entry: false, filled: g.filled.insert(p.p_id.0 as int), floor: g2.floor, pushes: g.pushes + 1, incs: g.incs + 1, ..g })
    &&& g2.floor >= g.floor
}
