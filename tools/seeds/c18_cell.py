ID="c18_cell"; PROPERTY="C18"
NEEDS="a cell of at least three symbols whose node is opened a third time"
BREAKS="A child that is entered again expects the instruction's cell without the symbol, so symbols that were consumed before are expected again."
EDITS=[("src/dyck/multiple/automaton/instruction.rs","                            let mut succset = subset.clone();\n","                            let mut succset = cell.clone();\n")]
DEMO="""
use rustomata::automata::tree_stack_automaton::TreeStack;
use rustomata::dyck::multiple::automaton::{MDTreeElem, MultipleDyckInstruction};
use rustomata::recognisable::Instruction;
use std::collections::BTreeSet;
fn main() {
    let cell: BTreeSet<u32> = vec![1, 2, 3].into_iter().collect();
    let mut states = vec![TreeStack::new(MDTreeElem::Root)];
    for x in vec![1, 2, 3] {
        let up = MultipleDyckInstruction::Up(x, cell.clone());
        let down = MultipleDyckInstruction::Down(x);
        states = states.into_iter().flat_map(|s| up.apply(s)).flat_map(|s| down.apply(s)).collect();
    }
    let done = |s: &TreeStack<MDTreeElem<u32>>| s.all(&|e: &MDTreeElem<u32>| e.is_empty());
    assert_eq!(states.iter().filter(|s| done(s)).count(), 1);
    let again = MultipleDyckInstruction::Up(1, cell);
    for s in states.iter().filter(|s| done(s)) {
        assert_eq!(again.apply(s.clone()).len(), 1);
    }
}
"""
PUBLISH="s/^mod automaton;/pub mod automaton;/\n"
