// ---- lib/btree.rs: taking ordered tables apart (assumed): each entry once, in increasing order ----
// the order is total and lawful, and equal keys are the same key
spec fn lawful_keys<K: Ord>() -> bool {
    &&& vstd::laws_cmp::obeys_cmp::<K>()
    &&& lawful_ord::<K>()
}
spec fn below<K: Ord>(a: K, b: K) -> bool { vstd::std_specs::cmp::OrdSpec::cmp_spec(&a, &b) == core::cmp::Ordering::Less }
spec fn increasing<K: Ord>(v: Seq<K>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> below(#[trigger] v[i], #[trigger] v[j]) }
// v lists the elements of s
spec fn listing<K: Ord>(v: Seq<K>, s: Set<K>) -> bool {
    &&& increasing(v)
    &&& v.len() == s.len()
    &&& forall|k: K| #[trigger] s.contains(k) <==> v.contains(k)
}
trait VtTree<'a> {
    type Item;
    spec fn listed_as(&self, v: Seq<Self::Item>) -> bool;
    fn vt_items(&'a self) -> (v: Vec<Self::Item>) ensures self.listed_as(v@);
}
impl<'a, K: Ord + 'a> VtTree<'a> for BTreeSet<K> {
    type Item = &'a K;
    spec fn listed_as(&self, v: Seq<&'a K>) -> bool { lawful_keys::<K>() ==> listing(vals(v), self@) }
    #[verifier::external_body]
    fn vt_items(&'a self) -> (v: Vec<&'a K>) { self.iter().collect() }
}
impl<'a, K: Ord + 'a> VtTree<'a> for Rc<BTreeSet<K>> {
    type Item = &'a K;
    spec fn listed_as(&self, v: Seq<&'a K>) -> bool { lawful_keys::<K>() ==> listing(vals(v), (**self)@) }
    fn vt_items(&'a self) -> (v: Vec<&'a K>) { (**self).vt_items() }
}
impl<'a, K: Ord + 'a, V: 'a> VtTree<'a> for BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    spec fn listed_as(&self, v: Seq<(&'a K, &'a V)>) -> bool {
        lawful_keys::<K>() ==> {
            &&& listing(v.map_values(|e: (&'a K, &'a V)| *e.0), self@.dom())
            &&& forall|i: int| 0 <= i < v.len() ==> self@.contains_key(*(#[trigger] v[i]).0) && self@[*v[i].0] == *v[i].1
        }
    }
    #[verifier::external_body]
    fn vt_items(&'a self) -> (v: Vec<(&'a K, &'a V)>) { self.iter().collect() }
}
fn vt_shared<T>(p: &Rc<T>) -> (r: &T) ensures *r == **p { &**p }
