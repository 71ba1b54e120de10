// ---- lib/md.rs: the instructions of multiple Dyck automata; needs lib/treestack.rs ----
//@@ type src/dyck/multiple/automaton/instruction.rs MDTreeElem
//@ derives Clone
//@ attr
#[verifier::reject_recursive_types(T)]
//@@ end
// what deriving Clone gives
impl<T: Clone> Clone for MDTreeElem<T> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<T>() && faithful::<BTreeSet<T>>() ==> r == *self
    { match self { MDTreeElem::Root => MDTreeElem::Root, MDTreeElem::Node(s, c) => MDTreeElem::Node(s.clone(), c.clone()) } }
}
//@@ type src/dyck/multiple/automaton/instruction.rs MultipleDyckInstruction
//@ attr
#[verifier::reject_recursive_types(T)]
//@@ end

// a node labelled with the open symbol a, expecting c afterwards
spec fn opened<T>(e: MDTreeElem<T>, a: T, c: Set<T>) -> bool { e matches MDTreeElem::Node(Some(b), d) && b == a && d@ == c }
// a closed node that still expects a
spec fn awaits<T>(e: MDTreeElem<T>, a: T) -> bool { e matches MDTreeElem::Node(None, d) && d@.contains(a) }
spec fn expects<T>(e: MDTreeElem<T>) -> Set<T> { match e { MDTreeElem::Node(_, d) => d@, MDTreeElem::Root => Set::empty() } }
// u is t with a new node opened for a at child n
spec fn freshly<T>(t: TreeStack<MDTreeElem<T>>, n: usize, a: T, c: Set<T>, u: TreeStack<MDTreeElem<T>>) -> bool {
    &&& child_of(t, n) is None
    &&& wf(u) && pointer(u) == pointer(t).push(n) && with(t, pointer(t).push(n), u.value, u)
    &&& opened(u.value, a, c.remove(a))
}
// u is t with its closed child n opened again for a
spec fn again<T>(t: TreeStack<MDTreeElem<T>>, n: usize, a: T, u: TreeStack<MDTreeElem<T>>) -> bool {
    &&& child_of(t, n) is Some && awaits(child_of(t, n)->0, a)
    &&& wf(u) && pointer(u) == pointer(t).push(n) && with(t, pointer(t).push(n), u.value, u)
    &&& opened(u.value, a, expects(child_of(t, n)->0).remove(a))
}
// u is t with its current node closed, pointing below
spec fn closed<T>(t: TreeStack<MDTreeElem<T>>, u: TreeStack<MDTreeElem<T>>) -> bool {
    &&& pointer(t).len() > 0
    &&& wf(u) && pointer(u) == pointer(t).drop_last()
    &&& forall|p: Seq<usize>| p != pointer(t) ==> #[trigger] node(u, p) == node(t, p)
    &&& node(u, pointer(t)) matches Some(MDTreeElem::Node(None, d)) && d@ == expects(t.value)
}
spec fn may_close<T>(t: TreeStack<MDTreeElem<T>>, a: T) -> bool { pointer(t).len() > 0 && (t.value matches MDTreeElem::Node(Some(b), _) && b == a) }

//@@ fn src/dyck/multiple/automaton/instruction.rs MDTreeElem::is_empty
//@ ret r
//@ ensures r == (*self is Root || (*self matches MDTreeElem::Node(None, d) && d@ == Set::<T>::empty()))
//@@ end
spec fn all_results<T: Ord>(i: MultipleDyckInstruction<T>, t: TreeStack<MDTreeElem<T>>, r: Seq<TreeStack<MDTreeElem<T>>>) -> bool {
    match i {
        MultipleDyckInstruction::Up(a, c) => exists|at: Seq<usize>| (#[trigger] at.len()) == r.len() && all_ways_up(t, a, c@, r, at),
        MultipleDyckInstruction::UpAt(n, a, c) => r.len() <= 1
            && (r.len() == 1 <==> (child_of(t, n) is None || awaits(child_of(t, n)->0, a)))
            && (r.len() == 1 ==> freshly(t, n, a, c@, r[0]) || again(t, n, a, r[0])),
        MultipleDyckInstruction::Down(a) => r.len() <= 1 && (r.len() == 1 <==> may_close(t, a)) && (r.len() == 1 ==> closed(t, r[0])),
    }
}
// r is one way to open a new child and every way to open a child again, at the positions at
spec fn all_ways_up<T: Ord>(t: TreeStack<MDTreeElem<T>>, a: T, c: Set<T>, r: Seq<TreeStack<MDTreeElem<T>>>, at: Seq<usize>) -> bool {
    &&& at.no_duplicates()
    &&& forall|j: int| 0 <= j < r.len() ==> freshly(t, #[trigger] at[j], a, c, r[j]) || again(t, at[j], a, r[j])
    &&& forall|n: usize| (#[trigger] child_of(t, n)) is Some && awaits(child_of(t, n)->0, a) ==> at.contains(n)
    &&& exists|j: int| 0 <= j < r.len() && child_of(t, #[trigger] at[j]) is None
    &&& forall|j: int, k: int| 0 <= j < r.len() && 0 <= k < r.len() && child_of(t, #[trigger] at[j]) is None && child_of(t, #[trigger] at[k]) is None ==> j == k
}
spec fn room<T: Ord>(t: TreeStack<MDTreeElem<T>>, i: MultipleDyckInstruction<T>) -> bool {
    t.children@.len() < usize::MAX && (i matches MultipleDyckInstruction::UpAt(n, _, _) ==> n < usize::MAX)
}
