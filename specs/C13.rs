// C13: replace instructions on pushdown stores.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::iter::IteratorSpec;
use std::slice::Iter;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ include lib/pushdown_store.rs
//@@ include lib/pushdown_mut.rs
} // verus!
