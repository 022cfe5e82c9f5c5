// ---- insertions by worker threads: each has its own history; the log says which insertions have been made
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub tracked struct Log<T> { x: T }
impl<T> Log<T> { pub uninterp spec fn view(&self) -> Seq<(Seq<T>, usize)>; }
impl<'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync> Hnsw<'b, T, D> {
    pub open spec fn usable(&self) -> bool { exists|g: G<'b, T>| #[trigger] self.fits(g) }
}
// a worker thread, which has inserted nothing yet or only whole points   [assumption: rayon]
#[verifier::external_body]
pub fn vworker<'a, 'b, T: Clone + Send + Sync, D: Distance<T> + Send + Sync>(h: &Hnsw<'b, T, D>) -> (r: Tracked<&'a mut Hist<'b, T>>)
    requires h.usable() ensures h.fits(r@@), !r@@.private
{ unimplemented!() }
// the definition of the log
pub axiom fn log_insert<'b, T: Clone + Send + Sync>(g0: G<'b, T>, tracked h: &Hist<'b, T>, data: Seq<T>, id: usize, tracked log: &mut Log<T>)
    requires inserted(g0, h@, data, id) ensures final(log)@ == old(log)@.push((data, id));
pub open spec fn vec_items<T>(s: Seq<(&Vec<T>, usize)>, o: Seq<usize>, n: int) -> Seq<(Seq<T>, usize)> { Seq::new(n as nat, |i: int| (s[o[i] as int].0@, s[o[i] as int].1)) }
pub open spec fn sl_items<T>(s: Seq<(&[T], usize)>, o: Seq<usize>, n: int) -> Seq<(Seq<T>, usize)> { Seq::new(n as nat, |i: int| (s[o[i] as int].0@, s[o[i] as int].1)) }
