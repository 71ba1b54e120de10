// ---- lib/treestack.rs: tree stacks as trees with a pointer, every operation under contract ----
//@@ type src/automata/tree_stack_automaton/tree_stack.rs TreeStack
//@ derives Clone
//@ public
//@@ end
// what deriving Clone gives
impl<A: Clone> Clone for TreeStack<A> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<A>() ==> same_stack(*self, r)
    { proof { ts_clones::<A>(); } TreeStack { parent: self.parent.clone(), value: self.value.clone(), children: self.children.clone() } }
}
proof fn ts_clones<A>()
    ensures faithful::<Rc<TreeStack<A>>>(), faithful::<Option<Rc<TreeStack<A>>>>(), faithful::<(usize, Rc<TreeStack<A>>)>(), faithful::<Option<(usize, Rc<TreeStack<A>>)>>()
{ rc_faithful::<TreeStack<A>>(); pair_faithful::<usize, Rc<TreeStack<A>>>(); }
// the same stack, the lists of children element by element
pub open spec fn same_stack<A>(t: TreeStack<A>, r: TreeStack<A>) -> bool { r.value == t.value && r.parent == t.parent && r.children@ == t.children@ }

pub open spec fn kid<A>(t: TreeStack<A>, n: int) -> Option<TreeStack<A>> {
    if 0 <= n < t.children@.len() { match t.children@[n] { Some(c) => Some(*c), None => None } } else { None }
}
// the label at path p above the node t points to
pub open spec fn above<A>(t: TreeStack<A>, p: Seq<usize>) -> Option<A>
    decreases p.len()
{ if p.len() == 0 { Some(t.value) } else { match kid(t, p[0] as int) { Some(c) => above(c, p.skip(1)), None => None } } }
// the address of the node t points to
pub open spec fn pointer<A>(t: TreeStack<A>) -> Seq<usize>
    decreases t
{ match t.parent { Some((n, q)) => pointer(*q).push(n), None => Seq::empty() } }
pub open spec fn starts(q: Seq<usize>, p: Seq<usize>) -> bool { q.len() <= p.len() && p.take(q.len() as int) == q }
// the label of the whole tree at address p, if there is such a node
pub open spec fn node<A>(t: TreeStack<A>, p: Seq<usize>) -> Option<A>
    decreases t
{
    if starts(pointer(t), p) { above(t, p.skip(pointer(t).len() as int)) } else { match t.parent { Some((n, q)) => node(*q, p), None => None } }
}
// the nodes above t know of no parents
pub open spec fn rooted<A>(t: TreeStack<A>) -> bool
    decreases t
{ forall|n: int| 0 <= n < t.children.len() ==> match #[trigger] t.children@[n] { Some(c) => c.parent is None && rooted(*c), None => true } }
pub open spec fn good_kid<A>(o: Option<TreeStack<A>>) -> bool { match o { Some(c) => c.parent is None && rooted(c), None => true } }
proof fn rooted_kids<A>(t: TreeStack<A>)
    ensures rooted(t) <==> forall|n: int| good_kid(#[trigger] kid(t, n))
{
    assert(t.children.len() == t.children@.len());
    if forall|n: int| good_kid(#[trigger] kid(t, n)) { assert forall|n: int| 0 <= n < t.children.len() implies match #[trigger] t.children@[n] { Some(c) => c.parent is None && rooted(*c), None => true } by { assert(good_kid(kid(t, n))); } }
}
// the child position t came from is vacant in the stack below, all the way down
pub open spec fn wf<A>(t: TreeStack<A>) -> bool
    decreases t
{ rooted(t) && match t.parent { Some((n, q)) => n < q.children@.len() && q.children@[n as int] is None && wf(*q), None => true } }
// one tree
pub open spec fn same_tree<A>(t: TreeStack<A>, u: TreeStack<A>) -> bool { forall|p: Seq<usize>| #![trigger node(t, p)] #![trigger node(u, p)] node(t, p) == node(u, p) }
// the tree of t with label a at address q
pub open spec fn with<A>(t: TreeStack<A>, q: Seq<usize>, a: A, u: TreeStack<A>) -> bool { forall|p: Seq<usize>| #![trigger node(u, p)] #![trigger node(t, p)] node(u, p) == if p == q { Some(a) } else { node(t, p) } }
pub open spec fn child_of<A>(t: TreeStack<A>, n: usize) -> Option<A> { node(t, pointer(t).push(n)) }

proof fn at_child<A>(t: TreeStack<A>, n: usize)
    ensures node(t, pointer(t)) == Some(t.value), child_of(t, n) is Some <==> kid(t, n as int) is Some, kid(t, n as int) is Some ==> child_of(t, n) == Some(kid(t, n as int)->0.value)
{
    let q = pointer(t);
    assert(q.take(q.len() as int) =~= q);
    assert(q.skip(q.len() as int) =~= Seq::empty());
    let p = q.push(n);
    assert(p.take(q.len() as int) =~= q);
    assert(p.skip(q.len() as int) =~= seq![n]);
    assert(seq![n].skip(1) =~= Seq::empty());
    if kid(t, n as int) is Some { assert(above(kid(t, n as int)->0, seq![n].skip(1)) == Some(kid(t, n as int)->0.value)); }
    assert(above(t, seq![n]) == match kid(t, n as int) { Some(c) => above(c, seq![n].skip(1)), None => None });
}
// labels above depend on the label and the children only
proof fn above_same<A>(t: TreeStack<A>, u: TreeStack<A>, p: Seq<usize>)
    requires t.value == u.value, forall|n: int| #[trigger] kid(t, n) == kid(u, n)
    ensures above(t, p) == above(u, p)
{ if p.len() > 0 { assert(kid(t, p[0] as int) == kid(u, p[0] as int)); } }
proof fn pointer_same<A>(t: TreeStack<A>, u: TreeStack<A>)
    requires t.parent == u.parent
    ensures pointer(t) == pointer(u), rooted(t) == rooted(u) ==> wf(t) == wf(u)
{ }
proof fn rooted_same<A>(t: TreeStack<A>, u: TreeStack<A>)
    requires forall|n: int| #[trigger] kid(t, n) == kid(u, n)
    ensures rooted(t) == rooted(u)
{
    rooted_kids(t); rooted_kids(u);
    assert((forall|n: int| good_kid(#[trigger] kid(t, n))) ==> forall|n: int| good_kid(#[trigger] kid(u, n))) by { assert forall|n: int| (forall|n: int| good_kid(#[trigger] kid(t, n))) implies good_kid(#[trigger] kid(u, n)) by { assert(good_kid(kid(t, n))); } }
    assert((forall|n: int| good_kid(#[trigger] kid(u, n))) ==> forall|n: int| good_kid(#[trigger] kid(t, n))) by { assert forall|n: int| (forall|n: int| good_kid(#[trigger] kid(u, n))) implies good_kid(#[trigger] kid(t, n)) by { assert(good_kid(kid(u, n))); } }
}
// s is t without its n-th child
proof fn rooted_without<A>(t: TreeStack<A>, n: usize, s: TreeStack<A>)
    requires without(t, n, s)
    ensures rooted(t) <==> rooted(s) && good_kid(kid(t, n as int))
{
    rooted_kids(t); rooted_kids(s);
    if rooted(t) { assert forall|i: int| good_kid(#[trigger] kid(s, i)) by { assert(good_kid(kid(t, i))); } assert(good_kid(kid(t, n as int))); }
    if rooted(s) && good_kid(kid(t, n as int)) { assert forall|i: int| good_kid(#[trigger] kid(t, i)) by { assert(good_kid(kid(s, i))); } }
}
// lists of children that show the same children
proof fn node_same<A>(t: TreeStack<A>, u: TreeStack<A>)
    requires t.value == u.value, t.parent == u.parent, forall|n: int| #[trigger] kid(t, n) == kid(u, n)
    ensures same_tree(t, u), pointer(t) == pointer(u), wf(t) == wf(u)
{
    pointer_same(t, u);
    rooted_same(t, u);
    assert forall|p: Seq<usize>| #[trigger] node(t, p) == node(u, p) by { above_same(t, u, p.skip(pointer(t).len() as int)); }
}
pub broadcast proof fn node_same_stack<A>(t: TreeStack<A>, u: TreeStack<A>)
    requires #[trigger] same_stack(t, u)
    ensures same_tree(t, u), pointer(t) == pointer(u), wf(t) == wf(u)
{ assert forall|n: int| #[trigger] kid(t, n) == kid(u, n) by {} node_same(t, u); }
// a new label at the pointer
proof fn node_set<A>(t: TreeStack<A>, u: TreeStack<A>, a: A)
    requires u.value == a, t.parent == u.parent, t.children == u.children
    ensures with(t, pointer(t), a, u), pointer(t) == pointer(u), wf(t) == wf(u)
{
    pointer_same(t, u);
    assert forall|n: int| #[trigger] kid(t, n) == kid(u, n) by {}
    rooted_same(t, u);
    let q = pointer(t);
    assert(q.take(q.len() as int) =~= q);
    assert(q.skip(q.len() as int) =~= Seq::empty());
    assert forall|p: Seq<usize>| #[trigger] node(u, p) == if p == q { Some(a) } else { node(t, p) } by {
        if starts(q, p) && p != q {
            let r = p.skip(q.len() as int);
            if r.len() == 0 { assert(p =~= q); }
            assert(kid(t, r[0] as int) == kid(u, r[0] as int));
        }
    }
}
// s is t without its n-th child
pub open spec fn without<A>(t: TreeStack<A>, n: usize, s: TreeStack<A>) -> bool {
    &&& s.value == t.value && s.parent == t.parent
    &&& forall|i: int| i != n ==> #[trigger] kid(s, i) == kid(t, i)
    &&& n < s.children@.len() && s.children@[n as int] is None
}
// u is what t looks like from its n-th child c
proof fn node_moved<A>(t: TreeStack<A>, n: usize, c: TreeStack<A>, u: TreeStack<A>)
    requires
        u.parent matches Some((m, s)) && m == n && without(t, n, *s),
        kid(t, n as int) == Some(c), c.value == u.value, c.children@ == u.children@,
    ensures same_tree(t, u), pointer(u) == pointer(t).push(n), wf(t) ==> wf(u), c.parent is None && wf(u) ==> wf(t)
{
    let s = *(u.parent->0).1;
    pointer_same(t, s);
    rooted_without(t, n, s);
    assert forall|i: int| #[trigger] kid(c, i) == kid(u, i) by {}
    rooted_same(c, u);
    let q = pointer(t);
    let q2 = pointer(u);
    assert(q2 == q.push(n));
    assert forall|p: Seq<usize>| #[trigger] node(t, p) == node(u, p) by {
        let r = p.skip(q.len() as int);
        if starts(q2, p) {
            assert(p.take(q.len() as int) =~= p.take(q2.len() as int).take(q.len() as int));
            assert(q2.take(q.len() as int) =~= q);
            assert(r[0] == p.take(q2.len() as int)[q.len() as int]);
            assert(r.skip(1) =~= p.skip(q2.len() as int));
            assert forall|i: int| #[trigger] kid(c, i) == kid(u, i) by {}
            above_same(c, u, r.skip(1));
        } else {
            assert(node(u, p) == node(s, p));
            if starts(q, p) {
                if r.len() > 0 {
                    if r[0] == n { assert(p.take(q2.len() as int) =~= q2); }
                    assert(kid(s, r[0] as int) == kid(t, r[0] as int));
                }
            }
        }
    }
}
// u is t with a new childless node at its n-th child position, and points there
proof fn node_pushed<A>(t: TreeStack<A>, n: usize, a: A, u: TreeStack<A>)
    requires
        kid(t, n as int) is None, u.value == a, u.children@.len() == 0,
        u.parent matches Some((m, s)) && m == n && without(t, n, *s),
    ensures with(t, pointer(t).push(n), a, u), pointer(u) == pointer(t).push(n), wf(u) == wf(t)
{
    let s = *(u.parent->0).1;
    pointer_same(t, s);
    rooted_without(t, n, s);
    rooted_kids(u);
    let q = pointer(t);
    let q2 = pointer(u);
    assert(q2 == q.push(n));
    assert forall|p: Seq<usize>| #[trigger] node(u, p) == if p == q2 { Some(a) } else { node(t, p) } by {
        let r = p.skip(q.len() as int);
        if starts(q2, p) {
            assert(p.take(q.len() as int) =~= p.take(q2.len() as int).take(q.len() as int));
            assert(q2.take(q.len() as int) =~= q);
            assert(r[0] == p.take(q2.len() as int)[q.len() as int]);
            assert(p.take(q2.len() as int).len() == q2.len());
            if p == q2 { assert(p.skip(q2.len() as int) =~= Seq::empty()); } else { if p.skip(q2.len() as int).len() == 0 { assert(p =~= p.take(q2.len() as int)); } }
        } else {
            assert(q2.take(q2.len() as int) =~= q2);
            assert(node(u, p) == node(s, p));
            if starts(q, p) {
                if r.len() > 0 {
                    if r[0] == n { assert(p.take(q2.len() as int) =~= q2); }
                    assert(kid(s, r[0] as int) == kid(t, r[0] as int));
                }
            }
        }
    }
}
// what the ways to write to a child position end with
proof fn after_push<A>(t: TreeStack<A>, n: usize, r: Result<TreeStack<A>, TreeStack<A>>)
    requires
        r matches Ok(u) ==> kid(t, n as int) is None && u.children@.len() == 0 && (u.parent matches Some((m, s)) && m == n && without(t, n, *s)),
        r matches Err(u) ==> kid(t, n as int) is Some && same_stack(t, u),
    ensures
        r is Ok <==> child_of(t, n) is None,
        r matches Ok(u) ==> wf(u) == wf(t) && pointer(u) == pointer(t).push(n) && with(t, pointer(t).push(n), u.value, u),
        r matches Err(u) ==> wf(u) == wf(t) && pointer(u) == pointer(t) && same_tree(t, u),
{
    at_child(t, n);
    match r {
        Ok(u) => { node_pushed(t, n, u.value, u); }
        Err(u) => { node_same_stack(t, u); }
    }
}
// the occupied child positions, in order
pub open spec fn occupied<T>(c: Seq<Option<T>>) -> Seq<usize>
    decreases c.len()
{ if c.len() == 0 { Seq::empty() } else if c.last() is Some { occupied(c.drop_last()).push((c.len() - 1) as usize) } else { occupied(c.drop_last()) } }

//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::new
//@ params a
//@ ret r
//@ ensures wf(r), pointer(r) == Seq::<usize>::empty(), r.value == a, r.children@.len() == 0
//@@ end
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::is_at_bottom
//@ ret r
//@ ensures r == (pointer(*self).len() == 0)
//@@ end
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::current_symbol
//@ ret r
//@ ensures *r == self.value
//@@ end
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::set
//@ params a
//@ ret r
//@ requires wf(self)
//@ ensures wf(r), pointer(r) == pointer(self), with(self, pointer(self), a, r), r.value == a
//@ tail
    proof { node_set(self, result__, a); }
//@@ end
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::push
//@ params n, a
//@ ret r
//@ requires wf(self), n < usize::MAX
//@ ensures
    r is Ok <==> child_of(self, n) is None,
    r matches Ok(u) ==> wf(u) && pointer(u) == pointer(self).push(n) && u.value == a && u.children@.len() == 0 && with(self, pointer(self).push(n), a, u),
    r matches Err(u) ==> wf(u) && pointer(u) == pointer(self) && same_tree(self, u),
//@ tail
    proof { after_push(self, n, result__); }
//@@ end
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::push_with
//@ params n, a
//@ ret r
//@ requires wf(self), n < usize::MAX, child_of(self, n) is None ==> call_requires(a, ())
//@ ensures
    r is Ok <==> child_of(self, n) is None,
    r matches Ok(u) ==> wf(u) && pointer(u) == pointer(self).push(n) && call_ensures(a, (), u.value) && u.children@.len() == 0 && with(self, pointer(self).push(n), u.value, u),
    r matches Err(u) ==> wf(u) && pointer(u) == pointer(self) && same_tree(self, u),
//@ start
    proof { at_child(self, n); }
//@ tail
    proof { after_push(self, n, result__); }
//@@ end
// the first vacant child position
pub open spec fn vacant<A>(t: TreeStack<A>, n: int) -> bool {
    0 <= n <= t.children@.len() && kid(t, n) is None && forall|i: int| 0 <= i < n ==> #[trigger] kid(t, i) is Some
}
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::push_next
//@ params a
//@ ret r
//@ local index 0
//@ mapmethod iter vt_iter &
//@ mapmethod enumerate vt_enumerate
//@ mapmethod filter vt_filter
//@ mapmethod next vt_first
//@ closure 0 (x: &(usize, &Option<Rc<TreeStack<A>>>)) -> (r: bool)
    ensures r == (*x.1 is None)
//@ requires wf(self), self.children@.len() < usize::MAX
//@ ensures
    wf(r), r.value == a, r.children@.len() == 0,
    pushed_next(self, a, r),
//@ afterlet 0
    proof { assert(vacant(self, index as int)); at_child(self, index); }
//@@ end
// a is pushed to the first vacant child position
pub open spec fn pushed_next<A>(t: TreeStack<A>, a: A, r: TreeStack<A>) -> bool {
    exists|n: usize| #[trigger] vacant(t, n as int) && pointer(r) == pointer(t).push(n) && with(t, pointer(t).push(n), a, r)
}
proof fn after_up<A>(t: TreeStack<A>, n: usize, r: Result<TreeStack<A>, TreeStack<A>>)
    requires
        r matches Ok(u) ==> kid(t, n as int) is Some && (u.parent matches Some((m, s)) && m == n && without(t, n, *s)) && kid(t, n as int)->0.value == u.value && kid(t, n as int)->0.children@ == u.children@,
        r matches Err(u) ==> kid(t, n as int) is None && u.value == t.value && u.parent == t.parent && forall|i: int| #[trigger] kid(t, i) == kid(u, i),
    ensures
        r is Ok <==> child_of(t, n) is Some,
        r matches Ok(u) ==> (wf(t) ==> wf(u)) && pointer(u) == pointer(t).push(n) && same_tree(t, u),
        r matches Err(u) ==> wf(u) == wf(t) && pointer(u) == pointer(t) && same_tree(t, u),
{
    at_child(t, n);
    match r {
        Ok(u) => { node_moved(t, n, kid(t, n as int)->0, u); }
        Err(u) => { node_same(t, u); }
    }
}
proof fn after_down<A>(t: TreeStack<A>, r: Result<TreeStack<A>, TreeStack<A>>)
    requires
        wf(t),
        r matches Ok(u) ==> (t.parent matches Some((n, s)) && without(u, n, *s) && kid(u, n as int) is Some && kid(u, n as int)->0.parent is None && kid(u, n as int)->0.value == t.value && kid(u, n as int)->0.children@ == t.children@),
        r matches Err(u) ==> t.parent is None && u.value == t.value && u.parent == t.parent && forall|i: int| #[trigger] kid(t, i) == kid(u, i),
    ensures
        r is Ok <==> pointer(t).len() > 0,
        r matches Ok(u) ==> wf(u) && pointer(t) == pointer(u).push(pointer(t).last()) && same_tree(t, u),
        r matches Err(u) ==> wf(u) && pointer(u) == pointer(t) && same_tree(t, u),
{
    match r {
        Ok(u) => { let n = (t.parent->0).0; node_moved(u, n, kid(u, n as int)->0, t); }
        Err(u) => { node_same(t, u); }
    }
}
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::up
//@ params n
//@ ret r
//@ requires wf(self), faithful::<A>()
//@ ensures
    r is Ok <==> child_of(self, n) is Some,
    r matches Ok(u) ==> wf(u) && pointer(u) == pointer(self).push(n) && same_tree(self, u),
    r matches Err(u) ==> wf(u) && pointer(u) == pointer(self) && same_tree(self, u),
//@ start
    proof { ts_clones::<A>(); }
//@ tail
    proof { after_up(self, n, result__); }
//@@ end
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::down
//@ ret r
//@ local new_pch 0
//@ requires wf(self), faithful::<A>()
//@ ensures
    r is Ok <==> pointer(self).len() > 0,
    r matches Ok(u) ==> wf(u) && pointer(self) == pointer(u).push(pointer(self).last()) && same_tree(self, u),
    r matches Err(u) ==> wf(u) && pointer(u) == pointer(self) && same_tree(self, u),
//@ start
    proof { ts_clones::<A>(); }
//@ tail
    proof { after_down(self, result__); }
//@@ end
// the stacks in r are t moved up to its children, each once, in order
pub open spec fn moved_up<A>(t: TreeStack<A>, r: Seq<TreeStack<A>>, ix: Seq<int>) -> bool {
    &&& forall|j: int| #![trigger ix[j]] #![trigger r[j]] 0 <= j < r.len() ==> 0 <= ix[j] <= usize::MAX && child_of(t, ix[j] as usize) is Some && pointer(r[j]) == pointer(t).push(ix[j] as usize) && same_tree(t, r[j]) && wf(r[j])
    &&& forall|j: int, k: int| 0 <= j < k < r.len() ==> #[trigger] ix[j] < #[trigger] ix[k]
    &&& forall|n: usize| (#[trigger] child_of(t, n)) is Some ==> ix.contains(n as int)
}
pub open spec fn came<A>(u: TreeStack<A>) -> usize { pointer(u).last() }
// u is t moved up to a child
pub open spec fn entered<A>(t: TreeStack<A>, u: TreeStack<A>) -> bool { child_of(t, came(u)) is Some && pointer(u) == pointer(t).push(came(u)) && same_tree(t, u) && wf(u) }
pub open spec fn all_up<A>(t: TreeStack<A>, r: Seq<TreeStack<A>>) -> bool {
    &&& forall|j: int| 0 <= j < r.len() ==> entered(t, #[trigger] r[j])
    &&& forall|j: int, k: int| 0 <= j < k < r.len() ==> came(#[trigger] r[j]) < came(#[trigger] r[k])
    &&& forall|n: usize| (#[trigger] child_of(t, n)) is Some ==> exists|j: int| 0 <= j < r.len() && came(#[trigger] r[j]) == n
}
proof fn listed_up<A>(t: TreeStack<A>, r: Seq<TreeStack<A>>, ix: Seq<int>)
    requires ix.len() == r.len(), moved_up(t, r, ix)
    ensures all_up(t, r)
{
    assert forall|j: int| 0 <= j < r.len() implies entered(t, #[trigger] r[j]) && came(r[j]) == ix[j] by {}
    assert forall|n: usize| (#[trigger] child_of(t, n)) is Some implies exists|j: int| 0 <= j < r.len() && came(#[trigger] r[j]) == n by {
        let j = choose|j: int| 0 <= j < ix.len() && ix[j] == n as int;
        assert(came(r[j]) == n);
    }
}
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::ups
//@ ret r
//@ mapmethod iter vt_iter &
//@ mapmethod enumerate vt_enumerate
//@ mapmethod filter vt_filter
//@ mapmethod map vt_map
//@ mapmethod collect vt_collect
//@ closure 0 (x: &(usize, &Option<Rc<TreeStack<A>>>)) -> (r: bool)
    ensures r == (*x.1 is Some)
//@ closure 1 (x: (usize, &Option<Rc<TreeStack<A>>>)) -> (r: TreeStack<A>)
    requires child_of(self, x.0) is Some, wf(self), faithful::<A>()
    ensures wf(r), pointer(r) == pointer(self).push(x.0), same_tree(self, r)
//@ requires wf(self), faithful::<A>()
//@ ensures all_up(self, r@)
//@ tail
    proof { listed_up(self, result__@, choose|ix: Seq<int>| (#[trigger] ix.len()) == result__@.len() && moved_up(self, result__@, ix)); }
//@ start
    broadcast use node_same_stack;
    proof { children_at(self); }
//@ closurestart 1
    broadcast use node_same_stack;
//@@ end
proof fn children_at<A>(t: TreeStack<A>)
    ensures forall|n: usize| #![trigger child_of(t, n)] #![trigger t.children@[n as int]] child_of(t, n) is Some <==> kid(t, n as int) is Some
{ assert forall|n: usize| #![trigger child_of(t, n)] #![trigger t.children@[n as int]] child_of(t, n) is Some <==> kid(t, n as int) is Some by { at_child(t, n); } }
pub broadcast proof fn push_drop(p: Seq<usize>, n: usize)
    ensures (#[trigger] p.push(n)).drop_last() == p
{ assert(p.push(n).drop_last() =~= p); }
pub broadcast proof fn labelled<A>(t: TreeStack<A>)
    requires #[trigger] wf(t)
    ensures node(t, pointer(t)) == Some(t.value)
{ at_child(t, 0); }
