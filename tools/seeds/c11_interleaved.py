ID="c11_interleaved"; PROPERTY="C11"
NEEDS="two cells whose symbols interleave in the order of the alphabet"
BREAKS="Listing the cells repeats a cell when symbols of another cell lie between its own."
EDITS=[("src/util/partition.rs","            if !alphabet.contains(sigma) {","            if !cells.last().map_or(false, |cell| cell.contains(sigma)) {")]
DEMO="""
use rustomata::util::partition::Partition;
use std::collections::BTreeSet;
fn main() {
    let c = |v: Vec<u32>| v.into_iter().collect::<BTreeSet<_>>();
    let p = Partition::new(vec![c(vec![1, 3]), c(vec![2, 4])]).unwrap();
    assert_eq!(p.collapse(), vec![&c(vec![1, 3]), &c(vec![2, 4])]);
}
"""
