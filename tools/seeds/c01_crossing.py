ID="c01_crossing"; PROPERTY="C01"
NEEDS="a word in which two brackets of different annotation cross and a third, enclosing one is open"
BREAKS="A closing bracket is matched with the most recent open bracket of its annotation instead of the most recent open bracket, so crossing words are accepted."
EDITS=[("src/dyck/mod.rs","""            Bracket::Close(ref symbol) => match stack.pop() {
                None => return false,
                Some(symbol_) => {
                    if symbol != symbol_ {
                        return false;
                    }
                }
            },""","""            Bracket::Close(ref symbol) => {
                // look below the top only within the innermost pair of open brackets
                let from = stack.len().saturating_sub(2);
                let here = if stack.len() > 2 { from } else { stack.len().saturating_sub(1) };
                match stack[here..].iter().rposition(|s| *s == symbol) {
                    None => return false,
                    Some(k) => {
                        stack.remove(here + k);
                    }
                }
            }""")]
DEMO="""
use rustomata::dyck::{recognize, Bracket::*};
fn main() {
    // a [ b ( c < ... crossing of the two inner ones
    assert!(!recognize(&[Open(1), Open(2), Open(3), Close(2), Close(3), Close(1)]));
    assert!(recognize(&[Open(1), Open(2), Open(3), Close(3), Close(2), Close(1)]));
}
"""
