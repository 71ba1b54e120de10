// C04: graph search.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use std::collections::{BTreeSet, BinaryHeap, VecDeque};
use std::cmp::Ordering;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/ord.rs
//@@ include lib/heap.rs
//@@ include lib/agenda.rs
//@@ include lib/agenda_std.rs
//@@ include lib/agenda_weighted.rs

//@@ include lib/search.rs
use binary_heap::weighted::vt_weighted;
//@@ fn search/src/search.rs self::Search::weighted
//@ params initials successors
//@ newparams initials: Vec<I>, successors: S
//@ dropgeneric II2
//@ implhead impl<I: Weighted, S: FnMut(&I) -> Vec<I>> Search<binary_heap::weighted::BinaryHeap<I>, S> where I::Weight: Ord
//@ mapmethod into_iter vt_collect
//@ mapmethod collect vt_weighted
//@ ret r
//@ requires lawful_ord::<I::Weight>(), I::weighable()
//@ ensures r.agenda.ok(), r.agenda.held() == initials@.to_multiset(), r.successors == successors
//@@ end

} // verus!
