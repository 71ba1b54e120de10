ID="c12_shared"; PROPERTY="C12"
NEEDS="a pushdown whose lower part is shared with another pushdown that is still alive"
BREAKS="Taking the top element off loses everything below it when the lower part is shared."
EDITS=[("src/util/push_down.rs","            Pushdown::Cons { value, below } => Ok((below.deref().clone(), value)),\n","""            Pushdown::Cons { value, below } => {
                // no copy is needed if nobody else uses the lower part
                Ok((Rc::try_unwrap(below).unwrap_or_default(), value))
            }
""")]
DEMO="""
use rustomata::util::push_down::Pushdown;
fn main() {
    let p: Pushdown<u32> = Pushdown::from(&[1, 2, 3][..]);
    let (q, x) = p.pop().unwrap();
    assert_eq!((q.to_vec(), x), (vec![1, 2], 3));
    let shared = q.clone();
    let (r, y) = q.pop().unwrap();
    assert_eq!((r.to_vec(), y), (vec![1], 2));
    assert_eq!(shared.to_vec(), vec![1, 2]);
}
"""
