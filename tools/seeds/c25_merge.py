ID="c25_merge"; PROPERTY="C25"
NEEDS="two trees that share an address, the appended one with more nodes"
BREAKS="Appending merges the smaller tree into the larger one, so on shared addresses the value of the smaller tree wins instead of the appended one's."
EDITS=[("src/util/tree.rs","""        self.map.append(&mut other.map)
""","""        if self.map.len() < other.map.len() {
            ::std::mem::swap(&mut self.map, &mut other.map);
        }
        self.map.append(&mut other.map)
""")]
DEMO="""
use rustomata::util::tree::GornTree;
fn main() {
    for extra in 0..4 {
        let mut t: GornTree<u32> = GornTree::new();
        t.insert(vec![1], 1);
        let mut o: GornTree<u32> = GornTree::new();
        o.insert(vec![1], 2);
        for i in 0..extra {
            o.insert(vec![1, i], 3);
        }
        t.append(&mut o);
        assert_eq!(t.get(&vec![1]), Some(&2));
        assert_eq!((t.len(), o.len()), (extra + 1, 0));
    }
}
"""
