// ---- lib/treestack_map.rs: mapping tree stacks; needs lib/treestack.rs, lib/namer.rs ----
spec fn opt<A, B>(rel: spec_fn(A, B) -> bool, a: Option<A>, b: Option<B>) -> bool { match (a, b) { (None, None) => true, (Some(x), Some(y)) => rel(x, y), _ => false } }
spec fn like_above<A, B>(rel: spec_fn(A, B) -> bool, t: TreeStack<A>, r: TreeStack<B>) -> bool { forall|p: Seq<usize>| #![trigger above(t, p)] #![trigger above(r, p)] opt(rel, above(t, p), above(r, p)) }
spec fn like_tree<A, B>(rel: spec_fn(A, B) -> bool, t: TreeStack<A>, r: TreeStack<B>) -> bool { forall|p: Seq<usize>| #![trigger node(t, p)] #![trigger node(r, p)] opt(rel, node(t, p), node(r, p)) }
// r is t with other labels
spec fn like<A, B>(rel: spec_fn(A, B) -> bool, t: TreeStack<A>, r: TreeStack<B>) -> bool {
    pointer(t) == pointer(r) && wf(t) == wf(r) && rooted(t) == rooted(r) && like_above(rel, t, r) && like_tree(rel, t, r)
}
spec fn like_kid<A, B>(rel: spec_fn(A, B) -> bool, c: Option<Rc<TreeStack<A>>>, d: Option<Rc<TreeStack<B>>>) -> bool { match (c, d) { (None, None) => true, (Some(x), Some(y)) => like_above(rel, *x, *y) && (x.parent is None <==> y.parent is None) && rooted(*x) == rooted(*y), _ => false } }
spec fn like_kids<A, B>(rel: spec_fn(A, B) -> bool, c: Seq<Option<Rc<TreeStack<A>>>>, d: Seq<Option<Rc<TreeStack<B>>>>) -> bool { d.len() <= c.len() && forall|k: int| 0 <= k < d.len() ==> like_kid(rel, c[k], #[trigger] d[k]) }
spec fn like_parent<A, B>(rel: spec_fn(A, B) -> bool, p: Option<(usize, Rc<TreeStack<A>>)>, q: Option<(usize, Rc<TreeStack<B>>)>) -> bool { match (p, q) { (None, None) => true, (Some((m, x)), Some((n, y))) => m == n && like(rel, *x, *y), _ => false } }
spec fn parent_fits<A, B>(c: Seq<Option<Rc<TreeStack<A>>>>, d: Seq<Option<Rc<TreeStack<B>>>>) -> bool { c.len() == d.len() && forall|k: int| 0 <= k < d.len() ==> (c[k] is None <==> #[trigger] d[k] is None) }
spec fn within<A, B>(rel: spec_fn(A, B) -> bool, wider: spec_fn(A, B) -> bool) -> bool { forall|a: A, b: B| #[trigger] rel(a, b) ==> wider(a, b) }
proof fn like_wider<A, B>(rel: spec_fn(A, B) -> bool, wider: spec_fn(A, B) -> bool)
    requires within(rel, wider)
    ensures
        forall|t: TreeStack<A>, r: TreeStack<B>| #[trigger] like(rel, t, r) ==> like(wider, t, r),
        forall|c: Option<Rc<TreeStack<A>>>, d: Option<Rc<TreeStack<B>>>| #[trigger] like_kid(rel, c, d) ==> like_kid(wider, c, d),
        forall|c: Seq<Option<Rc<TreeStack<A>>>>, d: Seq<Option<Rc<TreeStack<B>>>>| #[trigger] like_kids(rel, c, d) ==> like_kids(wider, c, d),
        forall|p: Option<(usize, Rc<TreeStack<A>>)>, q: Option<(usize, Rc<TreeStack<B>>)>| #[trigger] like_parent(rel, p, q) ==> like_parent(wider, p, q),
{
    assert forall|t: TreeStack<A>, r: TreeStack<B>| #[trigger] like_above(rel, t, r) implies like_above(wider, t, r) by { assert forall|p: Seq<usize>| opt(wider, #[trigger] above(t, p), above(r, p)) by { assert(opt(rel, above(t, p), above(r, p))); } }
    assert forall|t: TreeStack<A>, r: TreeStack<B>| #[trigger] like_tree(rel, t, r) implies like_tree(wider, t, r) by { assert forall|p: Seq<usize>| opt(wider, #[trigger] node(t, p), node(r, p)) by { assert(opt(rel, node(t, p), node(r, p))); } }
}
proof fn like_rooted<A, B>(rel: spec_fn(A, B) -> bool, t: TreeStack<A>, r: TreeStack<B>)
    requires like_kids(rel, t.children@, r.children@), t.children@.len() == r.children@.len()
    ensures rooted(t) == rooted(r)
{
    rooted_kids(t); rooted_kids(r);
    assert forall|n: int| good_kid(#[trigger] kid(t, n)) == good_kid(kid(r, n)) by { if 0 <= n < t.children@.len() { assert(like_kid(rel, t.children@[n], r.children@[n])); } }
    if rooted(t) { assert forall|n: int| good_kid(#[trigger] kid(r, n)) by { assert(good_kid(kid(t, n)) == good_kid(kid(r, n))); } }
    if rooted(r) { assert forall|n: int| good_kid(#[trigger] kid(t, n)) by { assert(good_kid(kid(t, n)) == good_kid(kid(r, n))); } }
}
// a node and its surroundings
proof fn like_whole<A, B>(rel: spec_fn(A, B) -> bool, t: TreeStack<A>, r: TreeStack<B>)
    requires rel(t.value, r.value), like_parent(rel, t.parent, r.parent), like_kids(rel, t.children@, r.children@), t.children@.len() == r.children@.len(), parents_fit(t, r)
    ensures like(rel, t, r)
{
    assert forall|p: Seq<usize>| opt(rel, #[trigger] above(t, p), above(r, p)) by {
        if p.len() > 0 {
            let k = p[0] as int;
            if k < t.children@.len() { assert(like_kid(rel, t.children@[k], r.children@[k])); if t.children@[k] is Some { assert(opt(rel, above(*t.children@[k]->0, p.skip(1)), above(*r.children@[k]->0, p.skip(1)))); } }
        }
    }
    assert(like_above(rel, t, r));
    like_rooted(rel, t, r);
    assert(pointer(t) == pointer(r));
    assert forall|p: Seq<usize>| opt(rel, #[trigger] node(t, p), node(r, p)) by {
        let q = p.skip(pointer(t).len() as int);
        assert(opt(rel, above(t, q), above(r, q)));
        if let (Some((m, x)), Some((n, y))) = (t.parent, r.parent) { assert(opt(rel, node(*x, p), node(*y, p))); }
    }
}
// positions that are vacant below are vacant below
spec fn parents_fit<A, B>(t: TreeStack<A>, r: TreeStack<B>) -> bool { match (t.parent, r.parent) { (Some((m, x)), Some((n, y))) => parent_fits(x.children@, y.children@), _ => true } }
// every node that is stored has a label of this kind
spec fn can_label<A>(ask: spec_fn(A) -> bool, t: TreeStack<A>) -> bool
    decreases t
{
    &&& ask(t.value)
    &&& match t.parent { Some((n, q)) => can_label(ask, *q), None => true }
    &&& forall|n: int| 0 <= n < t.children.len() ==> match #[trigger] t.children@[n] { Some(c) => can_label(ask, *c), None => true }
}
proof fn can_still<A>(ask: spec_fn(A) -> bool, wider: spec_fn(A) -> bool, t: TreeStack<A>)
    requires can_label(ask, t), forall|a: A| #[trigger] ask(a) ==> wider(a)
    ensures can_label(wider, t)
    decreases t
{
    if t.parent is Some { let q = *(t.parent->0).1; can_still(ask, wider, q); }
    assert forall|n: int| 0 <= n < t.children.len() implies match #[trigger] t.children@[n] { Some(c) => can_label(wider, *c), None => true } by { if let Some(c) = t.children@[n] { can_still(ask, wider, *c); } }
}
proof fn can_above<A>(ask: spec_fn(A) -> bool, t: TreeStack<A>)
    requires rooted(t), forall|p: Seq<usize>| (#[trigger] above(t, p)) is Some ==> ask(above(t, p)->0)
    ensures t.parent is None ==> can_label(ask, t), ask(t.value), forall|n: int| 0 <= n < t.children.len() ==> match #[trigger] t.children@[n] { Some(c) => can_label(ask, *c), None => true }
    decreases t
{
    assert(above(t, Seq::<usize>::empty()) == Some(t.value));
    assert(t.children.len() == t.children@.len());
    assert forall|n: int| 0 <= n < t.children.len() implies match #[trigger] t.children@[n] { Some(c) => can_label(ask, *c), None => true } by {
        if let Some(c) = t.children@[n] {
            assert forall|p: Seq<usize>| (#[trigger] above(*c, p)) is Some implies ask(above(*c, p)->0) by {
                let q = seq![n as usize].add(p);
                assert(q.skip(1) =~= p);
                assert(kid(t, q[0] as int) == Some(*c));
                assert(above(t, q) == above(*c, p));
            }
            can_above(ask, *c);
        }
    }
}
// labels in the tree are all the labels
proof fn can_all<A>(ask: spec_fn(A) -> bool, t: TreeStack<A>)
    requires wf(t), forall|p: Seq<usize>| (#[trigger] node(t, p)) is Some ==> ask(node(t, p)->0)
    ensures can_label(ask, t)
    decreases t
{
    let q = pointer(t);
    assert forall|p: Seq<usize>| (#[trigger] above(t, p)) is Some implies ask(above(t, p)->0) by {
        let r = q.add(p);
        assert(r.take(q.len() as int) =~= q);
        assert(r.skip(q.len() as int) =~= p);
        assert(node(t, r) == above(t, p));
    }
    can_above(ask, t);
    if t.parent is Some {
        let s = (t.parent->0).1;
        assert forall|p: Seq<usize>| (#[trigger] node(*s, p)) is Some implies ask(node(*s, p)->0) by {
            let l = pointer(*s).len() as int;
            if starts(q, p) {
                assert(p.take(l) =~= p.take(q.len() as int).take(l));
                assert(q.take(l) =~= pointer(*s));
                assert(p.skip(l)[0] == p.take(q.len() as int)[l]);
                assert(kid(*s, p.skip(l)[0] as int) is None);
            } else { assert(node(t, p) == node(*s, p)); }
        }
        let u = *(t.parent->0).1;
        can_all(ask, u);
    }
}
proof fn still_can<A, B, F: Namer<A, B>>(k: Seq<F::V>, l: Seq<F::V>, t: TreeStack<A>)
    requires begun(k, l), can_label(can_ask::<A, B, F>(k), t)
    ensures can_label(can_ask::<A, B, F>(l), t)
{
    let (p, q) = (can_ask::<A, B, F>(k), can_ask::<A, B, F>(l));
    assert forall|a: A| #[trigger] p(a) implies q(a) by { F::laws(k, l, a, arbitrary()); }
    can_still(p, q, t);
}
proof fn kid_like<A, B>(rel: spec_fn(A, B) -> bool, x: Option<Rc<TreeStack<A>>>, y: Option<Rc<TreeStack<B>>>)
    requires x is None <==> y is None, x is Some ==> like(rel, *x->0, *y->0)
    ensures like_kid(rel, x, y)
{ if x is Some { assert(pointer(*x->0).len() == 0 <==> (*x->0).parent is None); assert(pointer(*y->0).len() == 0 <==> (*y->0).parent is None); } }
proof fn can_any<A>(ask: spec_fn(A) -> bool, t: TreeStack<A>)
    requires forall|a: A| #[trigger] ask(a)
    ensures can_label(ask, t)
    decreases t
{
    if t.parent is Some { let q = *(t.parent->0).1; can_any(ask, q); }
    assert forall|n: int| 0 <= n < t.children.len() implies match #[trigger] t.children@[n] { Some(c) => can_label(ask, *c), None => true } by { if let Some(c) = t.children@[n] { can_any(ask, *c); } }
}
