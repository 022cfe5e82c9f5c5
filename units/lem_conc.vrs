// The step allowed on a list another thread can read keeps what the lock protects: P04 and P05 hold of every list after every history.
pub proof fn lemma_step_keeps<'b, T: Clone + Send + Sync>(g: G<'b, T>, l: &RwLock<Vec<Vec<Arc<PointWithOrder<'b, T>>>>>, old: Vec<Vec<Arc<PointWithOrder<'b, T>>>>, new: Vec<Vec<Arc<PointWithOrder<'b, T>>>>)
    requires g.nlayers <= 16, lists_ok(g, owner_data::<_, T>(l), owner_id(l), old), <Vec<Vec<Arc<PointWithOrder<'b, T>>>> as Guarded<'b, T>>::may_write(old, new, g, l),
        !(g.private && g.new.is_some() && owner_id(l) == g.new->0.p_id), old != new ==> okp0(g, *g.new->0)
    ensures lists_ok(g, owner_data::<_, T>(l), owner_id(l), new)
{
    if old != new {
        let (data, id, lv) = (owner_data::<_, T>(l), owner_id(l), g.new->0.p_id.0 as int);
        let (s, t) = (nbl(old, lv), nbl(new, lv));
        let (e, u) = choose|e: Arc<PointWithOrder<'b, T>>, u: Seq<Arc<PointWithOrder<'b, T>>>| #[trigger] perm_of(u, s.push(e)) && added(g, data, s, t, e, u);
        assert(list_ok(g, data, id, lv, s));
        assert forall|k: int| 0 <= k < s.len() implies (#[trigger] s[k]).point_ref.p_id != g.new->0.p_id by { assert(vk(k)); }
        assert(distinct(s.push(e)));
        assert(list_ok(g, data, id, lv, t));
        assert forall|i: int| #![trigger nbl(new, i)] #![trigger new@[i]] 0 <= i < 16 implies list_ok(g, data, id, i, nbl(new, i)) by {
            if i != lv { assert(nbl(new, i) == nbl(old, i)); assert(list_ok(g, data, id, i, nbl(old, i))); }
        }
    }
}
// a point that becomes reachable brings lists in order with it
pub proof fn lemma_published_ok<'b, T: Clone + Send + Sync>(g: G<'b, T>)
    requires publishable(g)
    ensures lists_ok(g, owner_data::<_, T>(&*g.new->0.neighbours), owner_id(&*g.new->0.neighbours), g.lists)
{}
