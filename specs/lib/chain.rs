// ---- lib/chain.rs: adapters over whatever can be turned into a list ----
trait VtInto {
    type Item;
    spec fn items(&self) -> Seq<Self::Item>;
    fn vt_into(self) -> (r: Vec<Self::Item>) where Self: Sized ensures r@ == self.items();
}
impl<T> VtInto for Vec<T> {
    type Item = T;
    spec fn items(&self) -> Seq<T> { self@ }
    fn vt_into(self) -> (r: Vec<T>) { self }
}
impl<'a, T> VtInto for &'a Vec<T> {
    type Item = &'a T;
    spec fn items(&self) -> Seq<&'a T> { refs(self@) }
    fn vt_into(self) -> (r: Vec<&'a T>) { vt_iter(self) }
}
spec fn range(a: int, b: int) -> Seq<usize> { Seq::new(if a <= b { (b - a) as nat } else { 0 }, |i: int| (a + i) as usize) }
impl VtInto for core::ops::Range<usize> {
    type Item = usize;
    spec fn items(&self) -> Seq<usize> { range(self.start as int, self.end as int) }
    fn vt_into(self) -> (r: Vec<usize>) {
        let mut r: Vec<usize> = Vec::new();
        let (a, b) = (self.start, self.end);
        let mut i = a;
        while i < b
            invariant a == self.start, b == self.end, a <= i, a <= b ==> i <= b, b < a ==> i == a, r@ == range(a as int, i as int)
            decreases b - i
        { r.push(i); i += 1; assert(r@ =~= range(a as int, i as int)); }
        assert(r@ =~= range(a as int, b as int));
        r
    }
}
fn vt_refs<T>(v: &Vec<T>) -> (r: Vec<&T>) 
    ensures r@ == refs(v@), forall|i: int| #![trigger r@[i]] #![trigger v@[i]] 0 <= i < v@.len() ==> *r@[i] == v@[i]
{ v.vt_into() }

// what filter_map yields when its closure computes g
spec fn picked<T, U>(v: Seq<T>, g: spec_fn(T) -> Option<U>) -> Seq<U>
    decreases v.len()
{
    if v.len() == 0 { Seq::empty() } else { match g(v.last()) { Some(u) => picked(v.drop_last(), g).push(u), None => picked(v.drop_last(), g) } }
}
spec fn picks<T, U, F: Fn(T) -> Option<U>>(f: F, v: Seq<T>, r: Seq<U>) -> bool
    decreases v.len()
{
    if v.len() == 0 { r.len() == 0 } else {
        ||| call_ensures(f, (v.last(),), None) && picks(f, v.drop_last(), r)
        ||| r.len() > 0 && call_ensures(f, (v.last(),), Some(r.last())) && picks(f, v.drop_last(), r.drop_last())
    }
}
proof fn picks_is_picked<T, U, F: Fn(T) -> Option<U>>(f: F, g: spec_fn(T) -> Option<U>, v: Seq<T>, r: Seq<U>)
    requires picks(f, v, r), forall|i: int, u: Option<U>| 0 <= i < v.len() && #[trigger] call_ensures(f, (v[i],), u) ==> u == g(v[i])
    ensures r == picked(v, g)
    decreases v.len()
{
    if v.len() == 0 { assert(r =~= Seq::empty()); } else {
        let l = v.drop_last();
        assert(v.last() == v[v.len() - 1]);
        assert forall|i: int, u: Option<U>| 0 <= i < l.len() && #[trigger] call_ensures(f, (l[i],), u) implies u == g(l[i]) by { assert(l[i] == v[i]); }
        if call_ensures(f, (v.last(),), None) && picks(f, l, r) { picks_is_picked(f, g, l, r); } else {
            picks_is_picked(f, g, l, r.drop_last());
            assert(r =~= r.drop_last().push(r.last()));
        }
    }
}
proof fn picks_one<T, U, F: Fn(T) -> Option<U>>(f: F, v: Seq<T>, i: int, r: Seq<U>, r2: Seq<U>, u: Option<U>)
    requires picks(f, v.take(i), r), 0 <= i < v.len(), call_ensures(f, (v[i],), u), r2 == (match u { Some(x) => r.push(x), None => r })
    ensures picks(f, v.take(i + 1), r2)
{
    let w = v.take(i + 1);
    assert(w.drop_last() =~= v.take(i));
    assert(w.last() == v[i]);
    if let Some(x) = u { assert(r2.drop_last() =~= r); }
}
fn vt_filter_map<T, U, F: Fn(T) -> Option<U>>(v: Vec<T>, f: F) -> (r: Vec<U>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures picks(f, v@, r@),
        forall|g: spec_fn(T) -> Option<U>| (forall|i: int, u: Option<U>| 0 <= i < v@.len() && #[trigger] call_ensures(f, (v@[i],), u) ==> u == g(v@[i])) ==> r@ == #[trigger] picked(v@, g)
{
    let mut r: Vec<U> = Vec::new();
    for x in it: v
        invariant it.seq() == v@, picks(f, v@.take(it.index@), r@), forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    {
        let ghost r0 = r@;
        let ghost i = it.index@;
        assert(x == v@[i]);
        match f(x) {
            Some(u) => { r.push(u); proof { picks_one(f, v@, i, r0, r@, Some(u)); } }
            None => { proof { picks_one(f, v@, i, r0, r@, None); } }
        }
    }
    assert(v@.take(v@.len() as int) =~= v@);
    assert forall|g: spec_fn(T) -> Option<U>| (forall|i: int, u: Option<U>| 0 <= i < v@.len() && #[trigger] call_ensures(f, (v@[i],), u) ==> u == g(v@[i])) implies r@ == #[trigger] picked(v@, g) by { picks_is_picked(f, g, v@, r@); }
    r
}

// what flat_map yields when its closure computes lists g
spec fn flat<T, U>(v: Seq<T>, g: spec_fn(T) -> Seq<U>) -> Seq<U>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { flat(v.drop_last(), g) + g(v.last()) } }
// what map yields when its closure computes g
proof fn flat_parts<T, C: VtInto>(v: Seq<T>, s: Seq<C>, g: spec_fn(T) -> Seq<C::Item>)
    requires s.len() == v.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] s[i]).items() == g(v[i])
    ensures concat(s.map_values(|c: C| c.items())) == flat(v, g)
    decreases v.len()
{
    let h = |c: C| c.items();
    if v.len() == 0 { assert(s.map_values(h) =~= Seq::empty()); } else {
        assert(s[s.len() - 1].items() == g(v[v.len() - 1]));
        assert forall|i: int| 0 <= i < v.len() - 1 implies (#[trigger] s.drop_last()[i]).items() == g(v.drop_last()[i]) by { assert(s[i].items() == g(v[i])); }
        flat_parts(v.drop_last(), s.drop_last(), g);
        assert(s.map_values(h).drop_last() =~= s.drop_last().map_values(h));
    }
}
fn vt_flat_map_into<T, C: VtInto, F: Fn(T) -> C>(v: Vec<T>, f: F) -> (r: Vec<C::Item>)
    requires forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],))
    ensures
        exists|s: Seq<C>| s.len() == v@.len() && r@ == concat(s.map_values(|c: C| c.items())) && forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (v@[i],), #[trigger] s[i]),
        forall|g: spec_fn(T) -> Seq<C::Item>| (forall|i: int, c: C| 0 <= i < v@.len() && #[trigger] call_ensures(f, (v@[i],), c) ==> c.items() == g(v@[i])) ==> r@ == #[trigger] flat(v@, g),
{
    let mut r: Vec<C::Item> = Vec::new();
    let ghost mut s: Seq<C> = Seq::empty();
    let ghost h = |c: C| c.items();
    proof { assert(s.map_values(h) =~= Seq::empty()); assert(r@ =~= concat(s.map_values(h))); }
    for x in it: v
        invariant it.seq() == v@, s.len() == it.index@, r@ == concat(s.map_values(h)), h == (|c: C| c.items()),
            forall|i: int| 0 <= i < v@.len() ==> call_requires(f, (#[trigger] v@[i],)),
            forall|i: int| 0 <= i < s.len() ==> call_ensures(f, (v@[i],), #[trigger] s[i])
    {
        let c = f(x);
        proof {
            assert(s.push(c).map_values(h) =~= s.map_values(h).push(c.items()));
            concat_push(s.map_values(h), c.items());
            s = s.push(c);
        }
        let mut y = c.vt_into();
        r.append(&mut y);
    }
    assert forall|g: spec_fn(T) -> Seq<C::Item>| (forall|i: int, c: C| 0 <= i < v@.len() && #[trigger] call_ensures(f, (v@[i],), c) ==> c.items() == g(v@[i])) implies r@ == #[trigger] flat(v@, g) by {
        assert forall|i: int| 0 <= i < s.len() implies (#[trigger] s[i]).items() == g(v@[i]) by { assert(call_ensures(f, (v@[i],), s[i])); }
        flat_parts(v@, s, g);
    }
    r
}
