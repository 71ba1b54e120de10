// C14: tree stacks.
use vstd::prelude::*;
use std::rc::Rc;
use vstd::std_specs::cmp::*;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ include lib/treestack.rs
//@@ include lib/treestack_instr.rs
//@@ fn src/automata/tree_stack_automaton/tree_stack_instruction.rs TreeStackInstruction::map
//@ params f
//@ ret r
//@ requires forall|g: F, a: A| call_requires(g, (&a,))
//@ ensures
    match (*self, r) {
        (TreeStackInstruction::Up { n, current_val, old_val, new_val }, TreeStackInstruction::Up { n: n2, current_val: c2, old_val: o2, new_val: w2 }) => n == n2 && an_answer::<A, B, F>(current_val, c2) && an_answer::<A, B, F>(old_val, o2) && an_answer::<A, B, F>(new_val, w2),
        (TreeStackInstruction::Push { n, current_val, new_val }, TreeStackInstruction::Push { n: n2, current_val: c2, new_val: w2 }) => n == n2 && an_answer::<A, B, F>(current_val, c2) && an_answer::<A, B, F>(new_val, w2),
        (TreeStackInstruction::Down { current_val, old_val, new_val }, TreeStackInstruction::Down { current_val: c2, old_val: o2, new_val: w2 }) => an_answer::<A, B, F>(current_val, c2) && an_answer::<A, B, F>(old_val, o2) && an_answer::<A, B, F>(new_val, w2),
        _ => false,
    }
//@@ end
// some state of the function answers y on x
spec fn an_answer<A, B, F: FnMut(&A) -> B>(x: A, y: B) -> bool { exists|g: F| #[trigger] call_ensures(g, (&x,), y) }
//@@ include lib/treestack_all.rs
} // verus!
