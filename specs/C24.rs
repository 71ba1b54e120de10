// C24: recognition with weighted automata.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque};
use std::cmp::Ordering;
use std::hash::Hash;
use std::ops::{Mul, MulAssign};
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {

//@@ include lib/recognition.rs
//@@ fn src/recognisable/automaton.rs recognise_beam
//@ params a beam word
//@ mappath LimitedHeap::with_capacity limited_heap::weighted::LimitedHeap::with_capacity
//@ mapmethod extend vt_extend_with &mut
//@ newret impl Handing<Item = Item<<A::I as Instruction>::Storage, A::I, T, W>> + 'a
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ mapmethod map . vt_map_by
//@ mapmethod get vt_lookup &
//@ mapmethod flat_map vt_flat_map
//@ mapmethod filter vt_filtered
//@ mapmethod into_iter vt_collect
//@ ret r
//@ requires lawful_automaton(*a)
//@ ensures
    r.ready(),
    forall|out: Seq<ShownOf<A, T, W>>, ended: bool| #[trigger] r.hands(out, ended) ==> reports(*a, word@, out, false),
//@ afterlet 0
    proof {
        assert forall|v: Seq<Option<A::TInt>>| v.len() == word@.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == a.letter(word@[i])) && #[trigger] <Option<Vec<A::TInt>> as VtFrom<Option<A::TInt>>>::made(v, the_words) implies (match the_words { Some(l) => words(*a, word@) == Some(l@), None => words(*a, word@) is None }) by { words_made(*a, word@, v, the_words); }
    }
//@ afterlet 1
    proof { roots_of_items(*a, word@, init_confs.items()); }
//@ afterlet 2
    let ghost empty = agenda;
    proof {
        broadcast use group_multiset_axioms;
        assert forall|g: limited_heap::weighted::LimitedHeap<ItemOf<A, T, W>>| #[trigger] extended(empty, init_confs.items(), g) implies seen(g.held()).subset_of(roots(*a, word@)) by {
            extend_law(empty, init_confs.items(), g);
            items_len(empty.entries());
            assert(empty.held() =~= Multiset::empty());
            assert(g.held().subset_of(init_confs.items().to_multiset())) by { assert forall|y: ItemOf<A, T, W>| g.held().count(y) <= init_confs.items().to_multiset().count(y) by { assert(g.held().count(y) <= empty.held().add(init_confs.items().to_multiset()).count(y)); } }
            seen_less(g.held(), init_confs.items().to_multiset());
        }
    }
//@ tail
    proof {
        recognition_ready(*a, word@, result__);
        assert forall|out: Seq<ShownOf<A, T, W>>, ended: bool| #[trigger] result__.hands(out, ended) implies reports(*a, word@, out, false) by { recognised(*a, word@, result__, out, ended); }
    }
//@ closure 0 (t: &T) -> (n: Option<A::TInt>)
    ensures n == a.letter(*t)
//@ closure 1 (the_word: Vec<A::TInt>) -> (x: ItemOf<A, T, W>)
    ensures nv(x) == (Node { conf: Conf { word: the_word@, storage: a.start(), weight: W::unit() }, run: Seq::empty() })
//@ closure 2 (x: &ItemOf<A, T, W>) -> (y: Vec<ItemOf<A, T, W>>)
    ensures fanned(*a, *x, y@)
//@ closure 3 (r: &Transition<A::IInt, A::TInt, W>) -> (y: Vec<ItemOf<A, T, W>>)
    requires a.at(A::key(nv(*x).conf)).contains(*r)
    ensures nodes(y@) == continued(nv(*x), *r)
//@ closurestart 3
    proof {
        assert forall|cs: Seq<Configuration<<A::IInt as Instruction>::Storage, A::TInt, W>>, z: Seq<ItemOf<A, T, W>>|
            #![trigger applied(*r, *conf, cs), nodes(z)]
            applied(*r, *conf, cs) && z.len() == cs.len() && (forall|i: int| 0 <= i < z.len() ==> nv(#[trigger] z[i]) == (Node { conf: cv(cs[i]), run: held(*run).push(*r) })) implies nodes(z) == continued(nv(*x), *r)
        by { continued_by(*x, *r, cs, z); }
    }
//@ closure 4 (conf1: Configuration<<A::IInt as Instruction>::Storage, A::TInt, W>) -> (z: ItemOf<A, T, W>)
    ensures nv(z) == (Node { conf: cv(conf1), run: held(*run).push(*r) })
//@ closure 5 (x: &ItemOf<A, T, W>) -> (b: bool)
    ensures b == a.accepting(nv(*x).conf)
//@ closure 6 (i: ItemOf<A, T, W>) -> (y: ShownOf<A, T, W>)
    requires a.showable(nv(i))
    ensures a.shown(i, y)
//@@ end
} // verus!
