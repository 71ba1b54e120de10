// ---- lib/treestack_instr.rs: instructions on tree stacks; needs lib/treestack.rs ----
//@@ type src/automata/tree_stack_automaton/tree_stack_instruction.rs TreeStackInstruction
//@ public
//@@ end
fn vt_result_list<T, E>(o: Result<T, E>) -> (r: Vec<T>)
    ensures o is Err ==> r@.len() == 0, o matches Ok(x) ==> r@ == seq![x]
{ let mut r = Vec::new(); if let Ok(x) = o { r.push(x); } r }
spec fn label<A>(t: TreeStack<A>) -> Option<A> { node(t, pointer(t)) }
spec fn room<A>(t: TreeStack<A>, i: TreeStackInstruction<A>) -> bool { i matches TreeStackInstruction::Push { n, .. } ==> n < usize::MAX }
// the address an instruction leads to, and the label it must find there (none: the place must be vacant)
spec fn target<A>(i: TreeStackInstruction<A>, t: TreeStack<A>) -> Seq<usize> {
    match i { TreeStackInstruction::Up { n, .. } => pointer(t).push(n), TreeStackInstruction::Push { n, .. } => pointer(t).push(n), TreeStackInstruction::Down { .. } => pointer(t).drop_last() }
}
spec fn expected<A>(i: TreeStackInstruction<A>) -> Option<A> {
    match i { TreeStackInstruction::Up { old_val, .. } => Some(old_val), TreeStackInstruction::Push { .. } => None, TreeStackInstruction::Down { old_val, .. } => Some(old_val) }
}
spec fn written<A>(i: TreeStackInstruction<A>) -> A {
    match i { TreeStackInstruction::Up { new_val, .. } => new_val, TreeStackInstruction::Push { new_val, .. } => new_val, TreeStackInstruction::Down { new_val, .. } => new_val }
}
spec fn current<A>(i: TreeStackInstruction<A>) -> A {
    match i { TreeStackInstruction::Up { current_val, .. } => current_val, TreeStackInstruction::Push { current_val, .. } => current_val, TreeStackInstruction::Down { current_val, .. } => current_val }
}
spec fn possible<A>(i: TreeStackInstruction<A>, t: TreeStack<A>) -> bool {
    &&& label(t) == Some(current(i))
    &&& i is Down ==> pointer(t).len() > 0
    &&& node(t, target(i, t)) == expected(i)
}
//@@ fn src/automata/tree_stack_automaton/tree_stack_instruction.rs <Instruction~for~TreeStackInstruction>::apply
//@ implhead impl<A: Ord + PartialEq + Clone> TreeStackInstruction<A>
//@ params t
//@ ret r
//@ mapmethod into_iter vt_result_list
//@ mapmethod collect vt_collect
//@ requires wf(t), room(t, *self), lawful::<A>(), faithful::<A>()
//@ ensures
    !possible(*self, t) ==> r@.len() == 0,
    possible(*self, t) ==> r@.len() == 1 && wf(r@[0]) && pointer(r@[0]) == target(*self, t) && with(t, target(*self, t), written(*self), r@[0]),
//@ start
    broadcast use {node_same_stack, labelled, push_drop};
//@@ end
