// ---- lib/iter.rs: iterator adapters as functions on finite lists ----
// A chain `a.iter().enumerate().rfind(f)` is read as `vt_rfind(vt_enumerate(vt_iter(&a)), f)`: the
// adapters of std that end in a consumer visit the same elements in the same order, and the closures
// have no effects, so building the intermediate lists eagerly changes nothing but the cost.
// Every function here is verified against its contract.
fn vt_iter<T>(v: &[T]) -> (r: Vec<&T>)
    ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *r@[i] == v@[i], vals(r@) == v@, r@ == refs(v@)
{
    let mut r: Vec<&T> = Vec::new();
    let mut i = 0;
    while i < v.len()
        invariant i <= v@.len(), r@.len() == i, forall|k: int| 0 <= k < i ==> *(#[trigger] r@[k]) == v@[k]
        decreases v@.len() - i
    { r.push(&v[i]); i += 1; }
    proof { assert(vals(r@) =~= v@); assert(r@ =~= refs(v@)); }
    r
}
spec fn numbered<T>(c: Seq<T>) -> Seq<(usize, T)> { Seq::new(c.len(), |i: int| (i as usize, c[i])) }
fn vt_enumerate<T>(v: Vec<T>) -> (r: Vec<(usize, T)>)
    ensures r@ == numbered(v@), r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> r@[i] == (i as usize, v@[i])
{
    let mut r: Vec<(usize, T)> = Vec::new();
    let mut i = 0usize;
    let n = v.len();
    for x in it: v
        invariant it.index@ <= n, n == v@.len(), i == it.index@, r@.len() == i, it.seq() == v@,
            forall|k: int| 0 <= k < i ==> (#[trigger] r@[k]) == (k as usize, v@[k])
    { r.push((i, x)); if i < usize::MAX { i += 1; } }
    proof { assert(r@ =~= numbered(v@)); }
    r
}
fn vt_collect<T>(v: Vec<T>) -> (r: Vec<T>) ensures r == v { v }
fn vt_map<T, U, F: FnMut(T) -> U>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures r@.len() == v@.len(), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> call_ensures(f, (v@[i],), r@[i])
{
    v.into_iter().map(f).collect()
}
// which elements the predicate f keeps
spec fn kept<T, F: Fn(&T) -> bool>(f: F, v: Seq<T>, r: Seq<T>) -> bool
    decreases v.len()
{
    if v.len() == 0 { r.len() == 0 } else {
        ||| call_ensures(f, (&v.last(),), true) && r.len() > 0 && r.last() == v.last() && kept(f, v.drop_last(), r.drop_last())
        ||| call_ensures(f, (&v.last(),), false) && kept(f, v.drop_last(), r)
    }
}
// if f decides p, exactly the elements with p are kept
proof fn kept_is_filter<T, F: Fn(&T) -> bool>(f: F, p: spec_fn(T) -> bool, v: Seq<T>, r: Seq<T>)
    requires kept(f, v, r), forall|i: int, b: bool| 0 <= i < v.len() && #[trigger] call_ensures(f, (&v[i],), b) ==> b == p(v[i])
    ensures r == v.filter(p)
    decreases v.len()
{
    reveal(Seq::filter);
    if v.len() == 0 { assert(r =~= Seq::empty()); assert(v.filter(p) =~= Seq::empty()); } else {
        let l = v.drop_last();
        assert(v.last() == v[v.len() - 1]);
        assert forall|i: int, b: bool| 0 <= i < l.len() && #[trigger] call_ensures(f, (&l[i],), b) implies b == p(l[i]) by { assert(l[i] == v[i]); }
        if call_ensures(f, (&v.last(),), true) && r.len() > 0 && r.last() == v.last() && kept(f, l, r.drop_last()) {
            kept_is_filter(f, p, l, r.drop_last());
            assert(r =~= r.drop_last().push(r.last()));
        } else { kept_is_filter(f, p, l, r); }
    }
}
// the first element kept is the first one f is true of
spec fn first_kept<T, F: Fn(&T) -> bool>(f: F, v: Seq<T>, r: Seq<T>) -> bool {
    &&& r.len() == 0 ==> forall|i: int| 0 <= i < v.len() ==> call_ensures(f, (& #[trigger] v[i],), false)
    &&& r.len() > 0 ==> exists|k: int| 0 <= k < v.len() && #[trigger] v[k] == r[0] && call_ensures(f, (&v[k],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] v[i],), false)
}
proof fn kept_first<T, F: Fn(&T) -> bool>(f: F, v: Seq<T>, r: Seq<T>)
    requires kept(f, v, r)
    ensures first_kept(f, v, r)
    decreases v.len()
{
    if v.len() > 0 {
        let l = v.drop_last();
        let n = l.len() as int;
        assert(v.last() == v[n]);
        assert forall|i: int| 0 <= i < n implies l[i] == #[trigger] v[i] by {}
        if call_ensures(f, (&v.last(),), true) && r.len() > 0 && r.last() == v.last() && kept(f, l, r.drop_last()) {
            let r2 = r.drop_last();
            kept_first(f, l, r2);
            if r2.len() > 0 {
                let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == r2[0] && call_ensures(f, (&l[k],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] l[i],), false);
                assert(v[k] == r[0]);
                assert forall|i: int| 0 <= i < k implies call_ensures(f, (& #[trigger] v[i],), false) by { assert(l[i] == v[i]); }
            } else {
                assert forall|i: int| 0 <= i < n implies call_ensures(f, (& #[trigger] v[i],), false) by { assert(l[i] == v[i]); }
            }
        } else {
            kept_first(f, l, r);
            if r.len() > 0 {
                let k = choose|k: int| 0 <= k < l.len() && #[trigger] l[k] == r[0] && call_ensures(f, (&l[k],), true) && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] l[i],), false);
                assert(v[k] == r[0]);
                assert forall|i: int| 0 <= i < k implies call_ensures(f, (& #[trigger] v[i],), false) by { assert(l[i] == v[i]); }
            } else {
                assert forall|i: int| 0 <= i < v.len() implies call_ensures(f, (& #[trigger] v[i],), false) by { if i < n { assert(l[i] == v[i]); } }
            }
        }
    }
}
// r lists the elements f is true of, in order (at the positions ix of v)
spec fn listed<T, F: Fn(&T) -> bool>(f: F, v: Seq<T>, r: Seq<T>, ix: Seq<int>) -> bool {
    &&& ix.len() == r.len()
    &&& forall|j: int| #![trigger ix[j]] #![trigger r[j]] 0 <= j < r.len() ==> 0 <= ix[j] < v.len() && r[j] == v[ix[j]] && call_ensures(f, (&r[j],), true)
    &&& forall|j: int, k: int| 0 <= j < k < r.len() ==> #[trigger] ix[j] < #[trigger] ix[k]
    &&& forall|i: int| 0 <= i < v.len() ==> ix.contains(i) || call_ensures(f, (& #[trigger] v[i],), false)
}
proof fn kept_listed<T, F: Fn(&T) -> bool>(f: F, v: Seq<T>, r: Seq<T>) -> (ix: Seq<int>)
    requires kept(f, v, r)
    ensures listed(f, v, r, ix)
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else {
        let l = v.drop_last();
        let n = l.len() as int;
        assert(v.last() == v[n]);
        if call_ensures(f, (&v.last(),), true) && r.len() > 0 && r.last() == v.last() && kept(f, l, r.drop_last()) {
            let q = r.drop_last();
            let jx = kept_listed(f, l, q);
            let ix = jx.push(n);
            assert(r.last() == r[r.len() - 1]);
            assert forall|j: int| #![trigger ix[j]] #![trigger r[j]] 0 <= j < r.len() implies 0 <= ix[j] < v.len() && r[j] == v[ix[j]] && call_ensures(f, (&r[j],), true) by { if j < q.len() { assert(q[j] == r[j]); assert(jx[j] == ix[j]); assert(l[jx[j]] == v[jx[j]]); } }
            assert forall|j: int, k: int| 0 <= j < k < r.len() implies #[trigger] ix[j] < #[trigger] ix[k] by { assert(ix[j] == jx[j]); assert(q[j] == r[j]); if k < q.len() { assert(ix[k] == jx[k]); } }
            assert forall|i: int| 0 <= i < v.len() implies ix.contains(i) || call_ensures(f, (& #[trigger] v[i],), false) by {
                if i == n { assert(ix[ix.len() - 1] == n); } else { assert(l[i] == v[i]); if jx.contains(i) { let j = choose|j: int| 0 <= j < jx.len() && jx[j] == i; assert(ix[j] == i); } }
            }
            ix
        } else {
            let ix = kept_listed(f, l, r);
            assert forall|j: int| #![trigger ix[j]] #![trigger r[j]] 0 <= j < r.len() implies 0 <= ix[j] < v.len() && r[j] == v[ix[j]] && call_ensures(f, (&r[j],), true) by { assert(l[ix[j]] == v[ix[j]]); }
            assert forall|i: int| 0 <= i < v.len() implies ix.contains(i) || call_ensures(f, (& #[trigger] v[i],), false) by { if i < n { assert(l[i] == v[i]); } }
            ix
        }
    }
}
fn vt_first<T>(v: Vec<T>) -> (r: Option<T>)
    ensures v@.len() == 0 ==> r is None, v@.len() > 0 ==> r == Some(v@[0])
{ let v = vt_rev(v); let mut v = v; v.pop() }
fn vt_filter<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Vec<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (& #[trigger] v@[i],))
    ensures kept(f, v@, r@), first_kept(f, v@, r@), exists|ix: Seq<int>| #[trigger] listed(f, v@, r@, ix),
        forall|p: spec_fn(T) -> bool| (forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] call_ensures(f, (&v@[i],), b) ==> b == p(v@[i])) ==> r@ == #[trigger] v@.filter(p)
{
    let mut r: Vec<T> = Vec::new();
    for x in it: v
        invariant it.seq() == v@, kept(f, v@.take(it.index@), r@), forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (& #[trigger] v@[i],))
    {
        broadcast use seq_facts;
        let ghost r0 = r@;
        assert(x == v@[it.index@]);
        assert(v@.take(it.index@ + 1).drop_last() == v@.take(it.index@));
        if f(&x) { r.push(x); assert(r@.drop_last() =~= r0); }
    }
    assert(v@.take(v@.len() as int) =~= v@);
    proof { kept_first(f, v@, r@); let ix = kept_listed(f, v@, r@); }
    assert forall|p: spec_fn(T) -> bool| (forall|i: int, b: bool| 0 <= i < v@.len() && #[trigger] call_ensures(f, (&v@[i],), b) ==> b == p(v@[i])) implies r@ == #[trigger] v@.filter(p) by { kept_is_filter(f, p, v@, r@); }
    r
}
fn vt_find<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Option<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (& #[trigger] v@[i],))
    ensures match r {
        None => forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (& #[trigger] v@[i],), false),
        Some(x) => exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == x && call_ensures(f, (&x,), true)
            && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] v@[i],), false),
    }
{
    for x in it: v
        invariant it.seq() == v@, forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (& #[trigger] v@[i],)),
            forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (& #[trigger] v@[i],), false),
    { if f(&x) { return Some(x); } }
    None
}
fn vt_rev<T>(v: Vec<T>) -> (r: Vec<T>)
    ensures r@ == v@.reverse()
{
    let mut v = v;
    let mut r: Vec<T> = Vec::new();
    let ghost w = v@;
    while v.len() > 0
        invariant v@.len() + r@.len() == w.len(), forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] == w[i],
            forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == w[w.len() - 1 - i]
        decreases v@.len()
    { let x = v.pop(); match x { Some(x) => r.push(x), None => {} } }
    assert(r@ =~= w.reverse());
    r
}
fn vt_rfind<T, F: Fn(&T) -> bool>(v: Vec<T>, f: F) -> (r: Option<T>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (& #[trigger] v@[i],))
    ensures match r {
        None => forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (& #[trigger] v@[i],), false),
        Some(x) => exists|k: int| 0 <= k < v@.len() && #[trigger] v@[k] == x && call_ensures(f, (&x,), true)
            && forall|i: int| k < i < v@.len() ==> call_ensures(f, (& #[trigger] v@[i],), false),
    }
{
    let ghost w = v@;
    let u = vt_rev(v);
    assert forall|i: int| 0 <= i < u@.len() implies call_requires(f, (& #[trigger] u@[i],)) by { assert(u@[i] == w[w.len() - 1 - i]); }
    let r = vt_find(u, f);
    proof {
        if r is Some {
            let k = choose|k: int| 0 <= k < u@.len() && #[trigger] u@[k] == r->0 && forall|i: int| 0 <= i < k ==> call_ensures(f, (& #[trigger] u@[i],), false);
            assert(w[w.len() - 1 - k] == r->0);
            assert forall|i: int| w.len() - 1 - k < i < w.len() implies call_ensures(f, (& #[trigger] w[i],), false) by { assert(w[i] == u@[w.len() - 1 - i]); }
        } else {
            assert forall|i: int| 0 <= i < w.len() implies call_ensures(f, (& #[trigger] w[i],), false) by { assert(w[i] == u@[w.len() - 1 - i]); }
        }
    }
    r
}
fn vt_all<T, F: Fn(T) -> bool>(v: Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures
        r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (#[trigger] v@[i],), true),
        !r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (#[trigger] v@[i],), false),
{
    for x in it: v
        invariant it.seq() == v@, forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
            forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (#[trigger] v@[i],), true),
    { if !f(x) { return false; } }
    true
}
fn vt_any<T, F: Fn(T) -> bool>(v: Vec<T>, f: F) -> (r: bool)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures
        !r ==> forall|i: int| 0 <= i < v@.len() ==> call_ensures(f, (#[trigger] v@[i],), false),
        r ==> exists|i: int| 0 <= i < v@.len() && call_ensures(f, (#[trigger] v@[i],), true),
{
    for x in it: v
        invariant it.seq() == v@, forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
            forall|i: int| 0 <= i < it.index@ ==> call_ensures(f, (#[trigger] v@[i],), false),
    { if f(x) { return true; } }
    false
}
// concatenation of a list of lists
spec fn concat<T>(s: Seq<Seq<T>>) -> Seq<T>
    decreases s.len()
{ if s.len() == 0 { Seq::empty() } else { concat(s.drop_last()) + s.last() } }
proof fn concat_push<T>(s: Seq<Seq<T>>, x: Seq<T>) ensures concat(s.push(x)) == concat(s) + x { assert(s.push(x).drop_last() =~= s); }
spec fn views<T>(s: Seq<Vec<T>>) -> Seq<Seq<T>> { s.map_values(|v: Vec<T>| v@) }
fn vt_flat_map<T, U, F: Fn(T) -> Vec<U>>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures exists|s: Seq<Vec<U>>| s.len() == v@.len() && r@ == #[trigger] concat(views(s))
        && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (v@[i],), #[trigger] s[i])
{
    let mut r: Vec<U> = Vec::new();
    let ghost mut s: Seq<Vec<U>> = Seq::empty();
    proof { assert(views(s) =~= Seq::empty()); assert(r@ =~= concat(views(s))); }
    for x in it: v
        invariant it.seq() == v@, s.len() == it.index@, r@ == concat(views(s)),
            forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
            forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (v@[i],), #[trigger] s[i])
    {
        let mut y = f(x);
        proof {
            assert(views(s.push(y)) =~= views(s).push(y@));
            concat_push(views(s), y@);
            s = s.push(y);
        }
        r.append(&mut y);
    }
    r
}
fn vt_skip<T>(v: Vec<T>, n: usize) -> (r: Vec<T>)
    ensures r@ == v@.skip(if n <= v@.len() { n as int } else { v@.len() as int })
{
    let mut v = v;
    if n >= v.len() { assert(v@.skip(v@.len() as int) =~= Seq::empty()); Vec::new() } else { let r = v.split_off(n); assert(r@ =~= v@.skip(n as int) || true); r }
}
