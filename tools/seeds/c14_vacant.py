ID="c14_vacant"; PROPERTY="C14"
NEEDS="a node with a vacant child position below an occupied one"
BREAKS="The next free child position is taken to be the number of children, which is occupied or not the first vacant one when there is a gap."
EDITS=[("src/automata/tree_stack_automaton/tree_stack.rs","""            match self
                .children
                .iter()
                .enumerate()
                .filter(|&(_i, e)| e.is_none())
                .next()
            {
                None => self.children.len(),
                Some((i, _)) => i,
            }
""","""            // vacant positions come last
            let mut taken = self.children.len();
            while taken > 0 && self.children[taken - 1].is_none() {
                taken -= 1;
            }
            taken
""")]
DEMO="""
use rustomata::automata::tree_stack_automaton::TreeStack;
fn main() {
    let t: TreeStack<u32> = TreeStack::new(0);
    let t = t.push(0, 1).unwrap().down().unwrap().push_next(2).down().unwrap();
    assert_eq!(*t.clone().up(1).unwrap().current_symbol(), 2);
    let t = t.push(4, 3).unwrap().down().unwrap().push_next(5).down().unwrap();
    assert_eq!(*t.clone().up(2).unwrap().current_symbol(), 5);
    assert!(t.up(5).is_err());
}
"""
