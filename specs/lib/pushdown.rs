// ---- lib/pushdown.rs: persistent pushdowns and what they hold; needs lib/std.rs ----
//@@ type src/util/push_down.rs Pushdown
//@ derives Clone
//@ public
//@@ end

// what a pushdown holds, bottom first
spec fn held<A>(p: Pushdown<A>) -> Seq<A>
    decreases p
{ match p { Pushdown::Empty => Seq::empty(), Pushdown::Cons { value, below } => held(*below).push(value) } }
broadcast proof fn items_step<A>(p: Pushdown<A>)
    ensures match p {
        Pushdown::Empty => (#[trigger] held(p)).len() == 0,
        Pushdown::Cons { value, below } => held(p).len() > 0 && held(p).drop_last() == held(*below) && held(p).last() == value,
    }
{ if let Pushdown::Cons { below, .. } = &p { assert(held(p).drop_last() =~= held(**below)); } }
proof fn one_down<A>(c: Seq<A>, r: Seq<A>)
    requires c.len() > 0
    ensures c.drop_last() + r.push(c.last()).reverse() == c + r.reverse()
{ assert(c.drop_last() + r.push(c.last()).reverse() =~= c + r.reverse()); }
// what deriving Clone gives
impl<A: Clone> Clone for Pushdown<A> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<A>() ==> r == *self
    {
        match self {
            Pushdown::Empty => Pushdown::Empty,
            Pushdown::Cons { value, below } => Pushdown::Cons { value: value.clone(), below: below.clone() },
        }
    }
}
fn vt_rc_deref<T>(r: &Rc<T>) -> (x: &T) ensures *x == **r { &**r }
//@@ fn src/util/push_down.rs Pushdown::new
//@ ret r
//@ ensures held(r) == Seq::<A>::empty()
//@@ end
//@@ fn src/util/push_down.rs Pushdown::push
//@ params a
//@ ret r
//@ ensures held(r) == held(self).push(a)
//@@ end
//@@ fn src/util/push_down.rs Pushdown::to_vec
//@ ret r
//@ local current 0
//@ local res 1
//@ requires faithful::<A>()
//@ ensures r@ == held(*self)
//@ loop 0 loop
    invariant faithful::<A>(), held(*current) + res@.reverse() == held(*self)
    ensures held(*current).len() == 0
    decreases *current
//@ loopstart 0
    broadcast use items_step;
    let ghost (c0, r0) = (*current, res@);
//@ loopend 0
    proof { one_down(held(c0), r0); }
//@@ end
//@@ fn src/util/push_down.rs Pushdown::iter
//@ ret r
//@ requires faithful::<A>()
//@ ensures r.remaining() == held(*self)
//@@ end
