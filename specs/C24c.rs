// C24, third part: tree stack automata.
#![feature(allocator_api)]
use vstd::prelude::*;
use vstd::multiset::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use vstd::std_specs::hash::*;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, HashMap, VecDeque, hash_map::Entry};
use std::cmp::Ordering;
use std::hash::Hash;
use std::ops::{Mul, MulAssign};
use std::rc::Rc;
use std::ops::Deref;
use std::vec::IntoIter;
use vstd::std_specs::iter::IteratorSpec;
verus! {

//@@ include lib/tsa.rs
//@@ include lib/once.rs Filed<=>TsTrans<
proof fn ts_codes<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone>(i: Seq<T>, j: Seq<A>)
    requires distinct(i), distinct(j)
    ensures one_code::<TreeStackInstruction<A>, TreeStackInstruction<usize>, T, W>(i, j)
{
    assert forall|t: TsTrans<A, T, W>, c: TsTrans<usize, usize, W>, d: TsTrans<usize, usize, W>| #[trigger] t.stands(i, j, c) && #[trigger] t.stands(i, j, d) implies c == d by {
        spelt_back(i, t.word@, c.word@, d.word@);
        same_list(c.word, d.word);
        assert(instr_like(by_number(j), t.instruction, c.instruction) && instr_like(by_number(j), t.instruction, d.instruction));
        assert(c.instruction == d.instruction);
    }
}
proof fn ts_singly<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: TreeStackAutomaton<A, T, W>, ts: Seq<TsTrans<A, T, W>>, initial: TreeStack<A>, w: Seq<T>)
    requires a.made_of(ts, initial), wf(initial), ts_fit(ts), lawful::<A>(), faithful::<A>(), forall|p: int, q: int| 0 <= p < q < ts.len() ==> #[trigger] ts[p] != #[trigger] ts[q]
    ensures singly(a), slim(a, w)
{
    let (i, j) = (a.symbols(), a.labels());
    ts_renders(a, ts, initial);
    let cs = choose|cs: Seq<TsTrans<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread((*a.transitions)@, cs);
    filed_singly(i, j, ts, cs);
    assert forall|k: usize, c: TsTrans<usize, usize, W>| #[trigger] a.at(k).count(c) <= 1 by {
        assert(among_at((*a.transitions)@, k) == cs.filter(leaves::<usize, W>(k)).to_multiset());
        filter_few(cs, leaves::<usize, W>(k), c);
    }
    assert(lawful::<usize>() && faithful::<usize>());
    assert forall|n: nat, x: Node<TreeStack<usize>, TreeStackInstruction<usize>, usize, W>, c: TsTrans<usize, usize, W>| #![trigger runs(a, w, n).contains(x), a.at(TreeStackAutomaton::<A, T, W>::key(x.conf)).contains(c)] runs(a, w, n).contains(x) && a.at(TreeStackAutomaton::<A, T, W>::key(x.conf)).contains(c) implies continued(x, c).len() <= 1 by {
        let y = runs_are_runs(a, i, j, ts, initial, ts_same(j), w, n, x);
        assert(from_one(i, j, ts, c));
        let l = choose|l: int| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, c);
        leads(c.instruction, x.conf.storage);
    }
}
// recognise hands out each accepting run once, if no two transitions are the same
proof fn ts_once<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: TreeStackAutomaton<A, T, W>, ts: Seq<TsTrans<A, T, W>>, initial: TreeStack<A>, w: Seq<T>, out: Seq<Item<TreeStack<A>, TreeStackInstruction<A>, T, W>>, all: bool)
    requires a.made_of(ts, initial), wf(initial), ts_fit(ts), lawful::<A>(), faithful::<A>(), reports(a, w, out, all), forall|p: int, q: int| 0 <= p < q < ts.len() ==> #[trigger] ts[p] != #[trigger] ts[q]
    ensures each_run_once(out)
{
    ts_renders(a, ts, initial);
    ts_singly(a, ts, initial, w);
    ts_codes::<A, T, W>(a.symbols(), a.labels());
    reported_once(a, a.symbols(), a.labels(), ts, initial, ts_same(a.labels()), ts_equal(), w, out, all);
}
} // verus!
