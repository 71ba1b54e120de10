// ---- lib/entry.rs: hash tables keyed by references: a reference hashes and compares as its referent ----
//@@ include lib/slot.rs
fn vt_knows<'a, N: Eq + Hash, V>(m: &HashMap<&'a N, V>, n: &'a N) -> (r: bool)
    requires obeys_key_model::<&'a N>()
    ensures r == m@.contains_key(n)
{ m.contains_key(&n) }
fn vt_at<'a, 'm, N: Eq + Hash, V>(m: &'m HashMap<&'a N, V>, n: &'a N) -> (r: &'m V)
    requires obeys_key_model::<&'a N>(), m@.contains_key(n)
    ensures *r == m@[n]
{ match m.get(&n) { Some(v) => v, None => vt_panic() } }
fn vt_lookup<'a, 'm, N: Eq + Hash, V>(m: &'m HashMap<&'a N, V>, n: &'a N) -> (r: Option<&'m V>)
    requires obeys_key_model::<&'a N>()
    ensures match r { Some(v) => m@.contains_key(n) && *v == m@[n], None => !m@.contains_key(n) }
{ m.get(&n) }
