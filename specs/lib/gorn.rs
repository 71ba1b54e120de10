// ---- lib/gorn.rs: trees by address ----
// Assumed: std's BTreeMap with lists of numbers as keys is a finite map by the contents of the lists, and lists its
// entries with keys in lexicographic order (a list before every longer list that starts with it).
uninterp spec fn nodes<V>(m: BTreeMap<Vec<usize>, V>) -> Map<Seq<usize>, V>;
type Address = Seq<usize>;
// p is before q: a proper prefix, or smaller at the first place where they differ
spec fn before(p: Seq<usize>, q: Seq<usize>) -> bool
    decreases p.len()
{
    q.len() > 0 && (p.len() == 0 || p[0] < q[0] || (p[0] == q[0] && before(p.skip(1), q.skip(1))))
}
spec fn in_order(v: Seq<Seq<usize>>) -> bool { forall|i: int, j: int| 0 <= i < j < v.len() ==> before(#[trigger] v[i], #[trigger] v[j]) }
// v lists the entries of m, each once, in order
spec fn lists<V>(v: Seq<(Seq<usize>, V)>, m: Map<Seq<usize>, V>) -> bool {
    &&& in_order(v.map_values(|e: (Seq<usize>, V)| e.0))
    &&& v.len() == m.dom().len()
    &&& forall|i: int| 0 <= i < v.len() ==> m.contains_key((#[trigger] v[i]).0) && m[v[i].0] == v[i].1
    &&& forall|p: Seq<usize>| #[trigger] m.contains_key(p) ==> exists|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == p
}
spec fn shown<V>(v: Seq<(Vec<usize>, V)>) -> Seq<(Seq<usize>, V)> { v.map_values(|e: (Vec<usize>, V)| (e.0@, e.1)) }
spec fn shown_refs<V>(v: Seq<(&Vec<usize>, &V)>) -> Seq<(Seq<usize>, V)> { v.map_values(|e: (&Vec<usize>, &V)| (e.0@, *e.1)) }
// inserting the entries one after the other
spec fn inserted<V>(m: Map<Seq<usize>, V>, v: Seq<(Seq<usize>, V)>) -> Map<Seq<usize>, V>
    decreases v.len()
{ if v.len() == 0 { m } else { inserted(m, v.drop_last()).insert(v.last().0, v.last().1) } }
spec fn looked_up<V>(m: Map<Seq<usize>, V>, p: Seq<usize>) -> Option<V> { if m.contains_key(p) { Some(m[p]) } else { None } }

spec fn keys_of<V>(r: Seq<&Vec<usize>>, m: Map<Seq<usize>, V>) -> bool { exists|v: Seq<(Seq<usize>, V)>| #[trigger] lists(v, m) && r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] r[i])@ == v[i].0 }
spec fn values_of<V>(r: Seq<&V>, m: Map<Seq<usize>, V>) -> bool { exists|v: Seq<(Seq<usize>, V)>| #[trigger] lists(v, m) && r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> *(#[trigger] r[i]) == v[i].1 }
// r is m on the addresses that f picks
spec fn part<V>(m: Map<Seq<usize>, V>, f: spec_fn(Seq<usize>) -> bool, r: Map<Seq<usize>, V>) -> bool {
    forall|p: Seq<usize>| #![trigger r.contains_key(p)] #![trigger m.contains_key(p)] r.contains_key(p) == (m.contains_key(p) && f(p)) && (r.contains_key(p) ==> r[p] == m[p])
}

#[verifier::external_body]
fn vt_tree_new<V>() -> (r: BTreeMap<Vec<usize>, V>) ensures nodes(r) == Map::<Seq<usize>, V>::empty() { BTreeMap::new() }
#[verifier::external_body]
fn vt_tree_clear<V>(m: &mut BTreeMap<Vec<usize>, V>) ensures nodes(*final(m)) == Map::<Seq<usize>, V>::empty() { m.clear() }
#[verifier::external_body]
fn vt_tree_get<'a, V>(m: &'a BTreeMap<Vec<usize>, V>, k: &Vec<usize>) -> (r: Option<&'a V>)
    ensures match r { Some(x) => nodes(*m).contains_key(k@) && *x == nodes(*m)[k@], None => !nodes(*m).contains_key(k@) }
{ m.get(k) }
#[verifier::external_body]
fn vt_tree_has<V>(m: &BTreeMap<Vec<usize>, V>, k: &Vec<usize>) -> (r: bool) ensures r == nodes(*m).contains_key(k@) { m.contains_key(k) }
#[verifier::external_body]
fn vt_tree_get_mut<'a, V>(m: &'a mut BTreeMap<Vec<usize>, V>, k: &Vec<usize>) -> (r: Option<&'a mut V>)
    ensures match r {
        Some(x) => nodes(*old(m)).contains_key(k@) && *x == nodes(*old(m))[k@] && nodes(*final(m)) == nodes(*old(m)).insert(k@, *final(x)),
        None => !nodes(*old(m)).contains_key(k@) && nodes(*final(m)) == nodes(*old(m)),
    }
{ m.get_mut(k) }
#[verifier::external_body]
fn vt_tree_insert<V>(m: &mut BTreeMap<Vec<usize>, V>, k: Vec<usize>, v: V) -> (r: Option<V>)
    ensures nodes(*final(m)) == nodes(*old(m)).insert(k@, v), r == looked_up(nodes(*old(m)), k@)
{ m.insert(k, v) }
#[verifier::external_body]
fn vt_tree_remove<V>(m: &mut BTreeMap<Vec<usize>, V>, k: &Vec<usize>) -> (r: Option<V>)
    ensures nodes(*final(m)) == nodes(*old(m)).remove(k@), r == looked_up(nodes(*old(m)), k@)
{ m.remove(k) }
#[verifier::external_body]
fn vt_tree_append<V>(m: &mut BTreeMap<Vec<usize>, V>, o: &mut BTreeMap<Vec<usize>, V>)
    ensures nodes(*final(m)) == nodes(*old(m)).union_prefer_right(nodes(*old(o))), nodes(*final(o)) == Map::<Seq<usize>, V>::empty()
{ m.append(o) }
#[verifier::external_body]
fn vt_tree_split<V>(m: &mut BTreeMap<Vec<usize>, V>, k: &Vec<usize>) -> (r: BTreeMap<Vec<usize>, V>)
    ensures
        part(nodes(*old(m)), |p: Seq<usize>| before(p, k@), nodes(*final(m))),
        part(nodes(*old(m)), |p: Seq<usize>| !before(p, k@), nodes(r)),
{ m.split_off(k) }
#[verifier::external_body]
fn vt_tree_len<V>(m: &BTreeMap<Vec<usize>, V>) -> (r: usize) ensures r == nodes(*m).dom().len() { m.len() }
#[verifier::external_body]
fn vt_tree_empty<V>(m: &BTreeMap<Vec<usize>, V>) -> (r: bool) ensures r == (nodes(*m) == Map::<Seq<usize>, V>::empty()) { m.is_empty() }
// equality of maps whose values have a lawful equality
#[verifier::external_body]
fn vt_tree_eq<V: PartialEq>(m: &BTreeMap<Vec<usize>, V>, o: &BTreeMap<Vec<usize>, V>) -> (r: bool) ensures lawful::<V>() ==> r == (nodes(*m) == nodes(*o)) { m.eq(o) }
#[verifier::external_body]
fn vt_tree_into<V>(m: BTreeMap<Vec<usize>, V>) -> (r: Vec<(Vec<usize>, V)>) ensures lists(shown(r@), nodes(m)) { m.into_iter().collect() }
#[verifier::external_body]
fn vt_tree_iter<V>(m: &BTreeMap<Vec<usize>, V>) -> (r: Vec<(&Vec<usize>, &V)>) ensures lists(shown_refs(r@), nodes(*m)) { m.iter().collect() }
fn vt_tree_keys<V>(m: &BTreeMap<Vec<usize>, V>) -> (r: Vec<&Vec<usize>>)
    ensures keys_of(r@, nodes(*m))
{
    let v = vt_tree_iter(m);
    let mut r: Vec<&Vec<usize>> = Vec::new();
    let ghost s = shown_refs(v@);
    for e in it: v
        invariant it.seq() == v@, r@.len() == it.index@, s == shown_refs(v@), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i])@ == s[i].0
    { r.push(e.0); }
    r
}
fn vt_tree_values<V>(m: &BTreeMap<Vec<usize>, V>) -> (r: Vec<&V>)
    ensures values_of(r@, nodes(*m))
{
    let v = vt_tree_iter(m);
    let mut r: Vec<&V> = Vec::new();
    let ghost s = shown_refs(v@);
    for e in it: v
        invariant it.seq() == v@, r@.len() == it.index@, s == shown_refs(v@), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == s[i].1
    { r.push(e.1); }
    r
}
fn vt_tree_from<V>(v: Vec<(Vec<usize>, V)>) -> (m: BTreeMap<Vec<usize>, V>)
    ensures nodes(m) == inserted(Map::empty(), shown(v@))
{
    let mut m = vt_tree_new();
    for e in it: v
        invariant it.seq() == v@, nodes(m) == inserted(Map::empty(), shown(v@).take(it.index@))
    {
        proof { let a = shown(v@).take(it.index@ + 1); assert(a.drop_last() =~= shown(v@).take(it.index@)); assert(a.last() == (e.0@, e.1)); }
        vt_tree_insert(&mut m, e.0, e.1);
    }
    proof { assert(shown(v@).take(v@.len() as int) =~= shown(v@)); }
    m
}

//@@ type src/util/tree.rs GornTree
//@ derives
//@@ end
spec fn at<V>(t: GornTree<V>) -> Map<Seq<usize>, V> { nodes(t.map) }
//@@ fn src/util/tree.rs GornTree::new
//@ ret r
//@ mappath BTreeMap::new vt_tree_new
//@ ensures at(r) == Map::<Seq<usize>, V>::empty()
//@@ end
//@@ fn src/util/tree.rs GornTree::get
//@ params key
//@ dropgeneric K
//@ dropbound Borrow
//@ newparams &self, key: &Vec<usize>
//@ mapmethod get vt_tree_get &
//@ ret r
//@ ensures match r { Some(x) => at(*self).contains_key(key@) && *x == at(*self)[key@], None => !at(*self).contains_key(key@) }
//@@ end
//@@ fn src/util/tree.rs GornTree::insert
//@ params key value
//@ mapmethod insert vt_tree_insert &mut
//@ ret r
//@ ensures at(*final(self)) == at(*old(self)).insert(key@, value), r == looked_up(at(*old(self)), key@)
//@@ end
//@@ fn src/util/tree.rs <IntoIterator~for~&'aGornTree<V>>::into_iter as entries
//@ ret r
//@ newret Vec<(&'a Vec<usize>, &'a V)>
//@ mapmethod iter vt_tree_iter &
//@ ensures lists(shown_refs(r@), at(*self))
//@@ end
//@@ fn src/util/tree.rs <IntoIterator~for~GornTree<V>>::into_iter as into_entries
//@ ret r
//@ newret Vec<(Vec<usize>, V)>
//@ mapmethod into_iter vt_tree_into
//@ ensures lists(shown(r@), at(self))
//@@ end
