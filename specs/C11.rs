// C11: partitions.
use vstd::prelude::*;
use std::collections::{BTreeMap, BTreeSet, btree_map::Keys};
use std::rc::Rc;
verus! {
broadcast use vstd::std_specs::btree::group_btree_axioms;

//@@ include lib/seq.rs
//@@ include lib/ord.rs
//@@ include lib/btree.rs
spec fn faithful<T: Clone>() -> bool { forall|a: T, b: T| #[trigger] call_ensures(T::clone, (&a,), b) ==> a == b }
fn vt_cloned<T: Clone>(v: Vec<&T>) -> (r: Vec<T>)
    ensures faithful::<T>() ==> r@ == vals(v@)
{
    let mut r: Vec<T> = Vec::new();
    proof { assert(r@ =~= vals(v@.take(0))); }
    for x in it: v
        invariant it.seq() == v@, faithful::<T>() ==> r@ == vals(v@.take(it.index@))
    {
        proof { broadcast use seq_facts; assert(v@.take(it.index@ + 1) =~= v@.take(it.index@).push(x)); }
        r.push(x.clone());
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
    r
}

//@@ include lib/partition.rs
} // verus!
