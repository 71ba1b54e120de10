// ---- lib/std.rs: assumed contracts of std functions that vstd does not specify ----
pub assume_specification<T>[<[T]>::reverse](v: &mut [T])
    ensures final(v)@ == old(v)@.reverse();
// clones show the value they were made from
pub open spec fn faithful<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
pub assume_specification<T: Clone>[<[T]>::to_vec](v: &[T]) -> (r: Vec<T>)
    ensures faithful::<T>() ==> r@ == v@;
// equality decides being the same value
pub open spec fn lawful<T: PartialEq>() -> bool { T::obeys_eq_spec() && forall|a: T, b: T| #[trigger] a.eq_spec(&b) <==> (a == b) }
// clones of reference-counted pointers point to the same value, clones of pairs are pairs of clones (assumed)
#[verifier::external_body]
pub proof fn rc_faithful<A>() ensures faithful::<std::rc::Rc<A>>() {}
#[verifier::external_body]
pub proof fn pair_faithful<A: Clone, B: Clone>() requires faithful::<A>(), faithful::<B>() ensures faithful::<(A, B)>() {}
pub assume_specification<T: PartialEq>[<[T]>::contains](v: &[T], x: &T) -> (r: bool)
    ensures lawful::<T>() ==> r == v@.contains(*x);
