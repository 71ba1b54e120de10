// ---- lib/hash.rs: taking hash tables apart (assumed): each entry once, in some order ----
// es lists the entries of m
spec fn entries_of<K, V>(es: Seq<(K, V)>, m: Map<K, V>) -> bool {
    &&& es.len() == m.len()
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0 != (#[trigger] es[j]).0
    &&& forall|i: int| 0 <= i < es.len() ==> m.contains_key((#[trigger] es[i]).0) && m[es[i].0] == es[i].1
    &&& forall|k: K| #[trigger] m.contains_key(k) ==> exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == k
}
spec fn elements_of<K>(v: Seq<K>, s: Set<K>) -> bool {
    &&& v.len() == s.len()
    &&& forall|i: int, j: int| 0 <= i < j < v.len() ==> #[trigger] v[i] != #[trigger] v[j]
    &&& forall|k: K| #[trigger] s.contains(k) <==> v.contains(k)
}
broadcast proof fn no_elements<K>(v: Seq<K>, s: Set<K>)
    requires #[trigger] elements_of(v, s), v.len() == 0
    ensures v == Seq::<K>::empty()
{ assert(v =~= Seq::empty()); }
#[verifier::external_body]
fn vt_entries<K: Eq + std::hash::Hash, V>(m: HashMap<K, V>) -> (v: Vec<(K, V)>)
    ensures entries_of(v@, m@)
{ m.into_iter().collect() }
#[verifier::external_body]
fn vt_elements<K: Eq + std::hash::Hash>(s: HashSet<K>) -> (v: Vec<K>)
    ensures elements_of(v@, s@)
{ s.into_iter().collect() }
// `collect`/`from_iter` into a set: inserting the elements one after the other
fn vt_set<K: Eq + std::hash::Hash>(v: Vec<K>) -> (s: HashSet<K>)
    requires vstd::std_specs::hash::obeys_key_model::<K>()
    ensures s@ == v@.to_set()
{
    broadcast use vstd::std_specs::hash::group_hash_axioms;
    let mut s: HashSet<K> = HashSet::new();
    proof { assert(s@ =~= v@.take(0).to_set()); }
    for x in it: v
        invariant vstd::std_specs::hash::obeys_key_model::<K>(), it.seq() == v@, s@ == v@.take(it.index@).to_set()
    {
        broadcast use vstd::std_specs::hash::group_hash_axioms;
        let ghost w = v@.take(it.index@);
        let ghost before = s@;
        proof { assert(v@.take(it.index@ + 1) =~= w.push(x)); }
        s.insert(x);
        proof {
            assert forall|k: K| w.push(x).to_set().contains(k) <==> before.insert(x).contains(k) by {
                if w.contains(k) { let i = choose|i: int| 0 <= i < w.len() && w[i] == k; assert(w.push(x)[i] == k); }
                if k == x { assert(w.push(x)[w.len() as int] == k); }
            }
            assert(w.push(x).to_set() =~= before.insert(x));
        }
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    s
}
