ID="c02_repush"; PROPERTY="C02"
NEEDS="an item is popped while others are still held, and pushed again before the queue runs empty"
BREAKS="An item can be pushed again only once the queue has been emptied: pop forgets the items lazily."
EDITS=[("unique-heap/src/lib.rs","""            self.current_items.remove(&item);
            Some((item, weight))""","""            // most items are never seen again: forget them all at once
            if self.heap.is_empty() {
                self.current_items.clear();
            }
            Some((item, weight))""")]
DEMO="""
use unique_heap::UniqueHeap;
fn main() {
    let mut h: UniqueHeap<u32, u32> = UniqueHeap::default();
    assert!(h.push(1, 10));
    assert!(h.push(2, 5));
    assert_eq!(h.pop(), Some((1, 10)));
    assert!(h.push(1, 3));
    assert_eq!(h.len(), 2);
}
"""
