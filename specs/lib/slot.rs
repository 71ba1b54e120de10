// ---- lib/slot.rs: entries of hash tables ----
struct VtEntry<'m, K, V> { m: &'m mut HashMap<K, V>, k: K }
fn vt_entry<'m, K: Eq + Hash, V>(m: &'m mut HashMap<K, V>, k: K) -> (r: VtEntry<'m, K, V>)
    ensures r.k == k, r.m@ == old(m)@, final(r.m)@ == final(m)@
{ VtEntry { m, k } }
impl<'m, K: Eq + Hash, V> VtEntry<'m, K, V> {
    fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> (r: &'m mut V)
        requires obeys_key_model::<K>(), call_requires(f, ())
        ensures
            old(self.m)@.contains_key(self.k) ==> *r == old(self.m)@[self.k],
            !old(self.m)@.contains_key(self.k) ==> call_ensures(f, (), *r),
            final(self.m)@ == old(self.m)@.insert(self.k, *final(r)),
    { match self.m.entry(self.k) { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(f()) } }
    fn or_insert(self, d: V) -> (r: &'m mut V)
        requires obeys_key_model::<K>()
        ensures
            *r == (if old(self.m)@.contains_key(self.k) { old(self.m)@[self.k] } else { d }),
            final(self.m)@ == old(self.m)@.insert(self.k, *final(r)),
    { match self.m.entry(self.k) { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(v) => v.insert(d) } }
}
