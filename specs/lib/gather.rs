// ---- lib/gather.rs: collecting into whatever is asked for ----
trait VtFrom<T>: Sized {
    spec fn made(v: Seq<T>, r: Self) -> bool;
    fn vt_from(v: Vec<T>) -> (r: Self) ensures Self::made(v@, r);
}
impl<T> VtFrom<T> for Vec<T> {
    spec fn made(v: Seq<T>, r: Vec<T>) -> bool { r@ == v }
    fn vt_from(v: Vec<T>) -> (r: Vec<T>) { v }
}
impl<T: Ord> VtFrom<T> for BTreeSet<T> {
    spec fn made(v: Seq<T>, r: BTreeSet<T>) -> bool { vstd::laws_cmp::obeys_cmp::<T>() ==> r@ == v.to_set() }
    fn vt_from(v: Vec<T>) -> (s: BTreeSet<T>) {
        let mut s: BTreeSet<T> = BTreeSet::new();
        proof { assert(s@ =~= v@.take(0).to_set()); }
        for x in it: v
            invariant it.seq() == v@, vstd::laws_cmp::obeys_cmp::<T>() ==> s@ == v@.take(it.index@).to_set()
        {
            let ghost w = v@.take(it.index@);
            let ghost before = s@;
            proof { assert(v@.take(it.index@ + 1) =~= w.push(x)); }
            s.insert(x);
            proof {
                if before == w.to_set() {
                    assert forall|k: T| w.push(x).to_set().contains(k) <==> before.insert(x).contains(k) by {
                        if w.contains(k) { let i = choose|i: int| 0 <= i < w.len() && w[i] == k; assert(w.push(x)[i] == k); }
                        if k == x { assert(w.push(x)[w.len() as int] == k); }
                    }
                    assert(w.push(x).to_set() =~= before.insert(x));
                }
            }
        }
        proof { assert(v@.take(v@.len() as int) =~= v@); }
        s
    }
}
// all there or nothing
spec fn somes<T>(v: Seq<Option<T>>) -> Seq<T> { v.map_values(|o: Option<T>| o->0) }
impl<T> VtFrom<Option<T>> for Option<Vec<T>> {
    spec fn made(v: Seq<Option<T>>, r: Option<Vec<T>>) -> bool {
        match r { Some(w) => (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] is Some) && w@ == somes(v), None => exists|i: int| 0 <= i < v.len() && #[trigger] v[i] is None }
    }
    fn vt_from(v: Vec<Option<T>>) -> (r: Option<Vec<T>>) {
        let mut w: Vec<T> = Vec::new();
        for x in it: v
            invariant it.seq() == v@, w@ == somes(v@.take(it.index@)), forall|i: int| 0 <= i < it.index@ ==> #[trigger] v@[i] is Some
        {
            match x { Some(y) => { w.push(y); assert(somes(v@.take(it.index@ + 1)) =~= somes(v@.take(it.index@)).push(y)); } None => { return None; } }
        }
        proof { assert(v@.take(v@.len() as int) =~= v@); }
        Some(w)
    }
}
fn vt_gather<C: VtInto, D: VtFrom<C::Item>>(c: C) -> (r: D) ensures D::made(c.items(), r) { D::vt_from(c.vt_into()) }
fn vt_map_over<C: VtInto, U, F: FnMut(C::Item) -> U>(c: C, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < c.items().len() ==> call_requires(f, (#[trigger] c.items()[i],))
    ensures r@.len() == c.items().len(), forall|i: int| #![trigger r@[i]] #![trigger c.items()[i]] 0 <= i < c.items().len() ==> call_ensures(f, (c.items()[i],), r@[i])
{ vt_map(c.vt_into(), f) }
impl<'a, T: 'a> VtTree<'a> for Vec<T> {
    type Item = &'a T;
    spec fn listed_as(&self, v: Seq<&'a T>) -> bool { v == refs::<'a, T>(self@) }
    fn vt_items(&'a self) -> (v: Vec<&'a T>) { vt_iter(self) }
}
fn vt_count<T>(v: Vec<T>) -> (n: usize) ensures n == v@.len() { v.len() }
fn vt_zip<C: VtInto, D: VtInto>(c: C, d: D) -> (r: Vec<(C::Item, D::Item)>)
    ensures r@.len() == (if c.items().len() <= d.items().len() { c.items().len() } else { d.items().len() }), forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (c.items()[i], d.items()[i])
{
    let ghost v = c.items();
    let ghost w = d.items();
    let mut a = vt_rev(c.vt_into());
    let mut b = vt_rev(d.vt_into());
    let mut r: Vec<(C::Item, D::Item)> = Vec::new();
    while a.len() > 0 && b.len() > 0
        invariant
            r@.len() + a@.len() == v.len(), r@.len() + b@.len() == w.len(),
            forall|i: int| 0 <= i < a@.len() ==> #[trigger] a@[i] == v[v.len() - 1 - i], forall|i: int| 0 <= i < b@.len() ==> #[trigger] b@[i] == w[w.len() - 1 - i],
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == (v[i], w[i]),
        decreases a@.len()
    { match (a.pop(), b.pop()) { (Some(x), Some(y)) => r.push((x, y)), _ => {} } }
    r
}
