// C12: the persistent pushdown as a stack.
use vstd::prelude::*;
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
use vstd::std_specs::cmp::*;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ include lib/pushdown.rs
// equal pushdowns are those holding the same elements
proof fn items_determine<A>(p: &Pushdown<A>, q: &Pushdown<A>)
    ensures held(*p) == held(*q) <==> same_shape(*p, *q)
    decreases *p
{
    broadcast use items_step;
    match (p, q) {
        (Pushdown::Cons { value: a, below: b }, Pushdown::Cons { value: c, below: d }) => { items_determine(&**b, &**d); }
        _ => {}
    }
}
spec fn same_shape<A>(p: Pushdown<A>, q: Pushdown<A>) -> bool
    decreases p
{
    match (p, q) {
        (Pushdown::Empty, Pushdown::Empty) => true,
        (Pushdown::Cons { value: a, below: b }, Pushdown::Cons { value: c, below: d }) => a == c && same_shape(*b, *d),
        _ => false,
    }
}
// pointers to one place (assumed: they show the same value)
#[verifier::external_body]
fn vt_ptr_eq<T>(a: &Rc<T>, b: &Rc<T>) -> (r: bool) ensures r ==> **a == **b { Rc::ptr_eq(a, b) }

//@@ fn src/util/push_down.rs Pushdown::set
//@ params a
//@ ret r
//@ ensures
    held(self).len() == 0 ==> r is Err && held(r->Err_0) == held(self),
    held(self).len() > 0 ==> r is Ok && held(r->Ok_0) == held(self).drop_last().push(a)
//@ start
    broadcast use items_step;
//@@ end
//@@ fn src/util/push_down.rs Pushdown::is_empty
//@ ret r
//@ ensures r == (held(*self).len() == 0)
//@@ end
// some state of the function answers y on x
spec fn an_answer<A, B, F: FnMut(&A) -> B>(x: A, y: B) -> bool { exists|g: F| #[trigger] call_ensures(g, (&x,), y) }
//@@ fn src/util/push_down.rs Pushdown::map
//@ params f
//@ ret r
//@ requires forall|g: F, i: int| 0 <= i < held(*self).len() ==> call_requires(g, (& #[trigger] held(*self)[i],))
//@ ensures
    held(r).len() == held(*self).len(),
    held(r).len() > 0 ==> call_ensures(*old(f), (&held(*self).last(),), held(r).last()),
    forall|i: int| 0 <= i < held(r).len() ==> an_answer::<A, B, F>(held(*self)[i], #[trigger] held(r)[i]),
//@ decreases *self
//@ start
    proof {
        if let Pushdown::Cons { value, below } = self {
            
            assert forall|g: F, i: int| 0 <= i < held(**below).len() implies call_requires(g, (& #[trigger] held(**below)[i],)) by { assert(held(*self)[i] == held(**below)[i]); }
            assert(held(*self)[held(*self).len() - 1] == *value);
        }
    }
//@ tail
    proof {
        broadcast use items_step;
        if let (Pushdown::Cons { value: a, below: b }, Pushdown::Cons { value: c, below: d }) = (self, &result__) {
            assert forall|i: int| 0 <= i < held(result__).len() implies an_answer::<A, B, F>(held(*self)[i], #[trigger] held(result__)[i]) by {
                if i < held(**b).len() { assert(held(*self)[i] == held(**b)[i]); assert(held(result__)[i] == held(**d)[i]); }
                else { assert(held(*self)[i] == *a); assert(held(result__)[i] == *c); }
            }
        }
    }
//@@ end
//@@ fn src/util/push_down.rs Pushdown::pop
//@ ret r
//@ mapmethod deref vt_rc_deref &
//@ requires faithful::<A>()
//@ ensures
    held(self).len() == 0 ==> r is Err && held(r->Err_0) == held(self),
    held(self).len() > 0 ==> r is Ok && held(r->Ok_0.0) == held(self).drop_last() && r->Ok_0.1 == held(self).last()
//@ start
    broadcast use items_step;
//@@ end
//@@ fn src/util/push_down.rs Pushdown::peek_ref
//@ ret r
//@ ensures held(*self).len() == 0 ==> r is None, held(*self).len() > 0 ==> r is Some && *r->0 == held(*self).last()
//@@ end
//@@ fn src/util/push_down.rs Pushdown::peek
//@ ret r
//@ requires faithful::<A>()
//@ ensures held(*self).len() == 0 ==> r is None, held(*self).len() > 0 ==> r is Some && r->0 == held(*self).last()
//@@ end
//@@ fn src/util/push_down.rs <Default~for~Pushdown>::default
//@ implhead impl<A> Pushdown<A>
//@ ret r
//@ ensures held(r) == Seq::<A>::empty()
//@@ end
//@@ include lib/pushdown_conv.rs
//@@ fn src/util/push_down.rs <PartialEq~for~Pushdown>::eq
//@ implhead impl<A: PartialEq> Pushdown<A>
//@ params other
//@ ret r
//@ mappath Rc::ptr_eq vt_ptr_eq
//@ subst b1 == b2 =>> b1.eq(b2)
//@ requires A::obeys_eq_spec(), forall|a: A, b: A| #[trigger] a.eq_spec(&b) <==> (a == b)
//@ ensures r == (held(*self) == held(*other))
//@ decreases *self
//@ start
    broadcast use items_step;
    proof { items_determine(self, other); }
//@@ end
} // verus!
