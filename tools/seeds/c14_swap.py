ID="c14_swap"; PROPERTY="C14"
NEEDS="moving up to a child that is not the last one and down again"
BREAKS="Moving up to a child moves its last sibling to the child's position in the tree that is kept below."
EDITS=[("src/automata/tree_stack_automaton/tree_stack.rs","""                self.children.push(None);
                self.children.swap_remove(n)
""","""                let child = self.children.swap_remove(n);
                self.children.push(None);
                child
""")]
DEMO="""
use rustomata::automata::tree_stack_automaton::TreeStack;
fn main() {
    let mut t: TreeStack<u32> = TreeStack::new(0);
    for i in 0..3 {
        t = t.push(i, 10 + i as u32).unwrap().down().unwrap();
    }
    for i in 0..3 {
        let u = t.clone().up(i).unwrap();
        assert_eq!(*u.current_symbol(), 10 + i as u32);
        let v = u.down().unwrap();
        let labels: Vec<u32> = v.ups().iter().map(|c| *c.current_symbol()).collect();
        assert_eq!(labels, vec![10, 11, 12]);
    }
}
"""
