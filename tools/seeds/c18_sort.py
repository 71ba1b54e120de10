ID="c18_sort"; PROPERTY="C18"
NEEDS="a sorted multiple Dyck language whose sort is not the same for all symbols of a cell"
BREAKS="The position of an opening instruction is computed once for a cell, from its first symbol, so the other symbols are opened at its position."
S=open("/repo/src/dyck/multiple/automaton/mod.rs").read()
a,b=S.split("    pub fn sorted<F>",1)
b=b.replace("""        for cell in partition.collapse() {
            for symbol in cell {
""","""        for cell in partition.collapse() {
            let position = cell.iter().next().map(|symbol| sort(symbol));
            for symbol in cell {
""",1).replace("""                        sort(symbol),
""","""                        position.unwrap_or_else(|| sort(symbol)),
""",1)
EDITS=[("src/dyck/multiple/automaton/mod.rs",S,a+"    pub fn sorted<F>"+b)]
DEMO="""
use rustomata::dyck::multiple::{Bracket::*, MultipleDyckLanguage};
use rustomata::util::partition::Partition;
fn main() {
    let p = || Partition::new(vec![vec![1u32, 2].into_iter().collect()]).unwrap();
    let word = vec![Open(1), Close(1), Open(2), Close(2)];
    assert!(MultipleDyckLanguage::sorted(p(), |_| 1).recognize(&word));
    // 1 and 2 are at different positions, so they never make up a cell
    assert!(!MultipleDyckLanguage::sorted(p(), |x| *x as usize).recognize(&word));
}
"""
