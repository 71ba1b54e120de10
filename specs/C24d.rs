// C24, fourth part: push-down automata.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque, hash_map::Entry};
use std::cmp::Ordering;
use std::hash::Hash;
use std::ops::{Add, AddAssign, Mul, MulAssign};
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use std::slice::Iter;
use vstd::std_specs::iter::IteratorSpec;
verus! {

//@@ include lib/pda.rs
//@@ include lib/pda_once.rs
} // verus!
