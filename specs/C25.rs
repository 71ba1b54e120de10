// C25: trees by address.
#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;
use vstd::std_specs::ops::*;
use vstd::std_specs::cmp::*;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/chain.rs
//@@ include lib/std.rs
//@@ include lib/ord.rs
//@@ include lib/btree.rs
//@@ include lib/gather.rs
//@@ include lib/gorn.rs

//@@ fn src/util/tree.rs GornTree::clear
//@ mapmethod clear vt_tree_clear &mut
//@ ensures at(*final(self)) == Map::<Seq<usize>, V>::empty()
//@@ end
//@@ fn src/util/tree.rs GornTree::contains_key
//@ params key
//@ dropgeneric K
//@ dropbound Borrow
//@ newparams &self, key: &Vec<usize>
//@ mapmethod contains_key vt_tree_has &
//@ ret r
//@ ensures r == at(*self).contains_key(key@)
//@@ end
//@@ fn src/util/tree.rs GornTree::get_mut
//@ params key
//@ dropgeneric K
//@ dropbound Borrow
//@ newparams &mut self, key: &Vec<usize>
//@ mapmethod get_mut vt_tree_get_mut &mut
//@ ret r
//@ ensures match r {
        Some(x) => at(*old(self)).contains_key(key@) && *x == at(*old(self))[key@] && at(*final(self)) == at(*old(self)).insert(key@, *final(x)),
        None => !at(*old(self)).contains_key(key@) && at(*final(self)) == at(*old(self)),
    }
//@@ end
//@@ fn src/util/tree.rs GornTree::remove
//@ params key
//@ dropgeneric K
//@ dropbound Borrow
//@ newparams &mut self, key: &Vec<usize>
//@ mapmethod remove vt_tree_remove &mut
//@ ret r
//@ ensures at(*final(self)) == at(*old(self)).remove(key@), r == looked_up(at(*old(self)), key@)
//@@ end
//@@ fn src/util/tree.rs GornTree::append
//@ params other
//@ mapmethod append vt_tree_append &mut
//@ ensures at(*final(self)) == at(*old(self)).union_prefer_right(at(*old(other))), at(*final(other)) == Map::<Seq<usize>, V>::empty()
//@@ end
//@@ fn src/util/tree.rs GornTree::split_off
//@ params key
//@ dropgeneric K
//@ dropbound Borrow
//@ newparams &mut self, key: &Vec<usize>
//@ mapmethod split_off vt_tree_split &mut
//@ ret r
//@ ensures
    part(at(*old(self)), |p: Seq<usize>| before(p, key@), at(*final(self))),
    part(at(*old(self)), |p: Seq<usize>| !before(p, key@), at(r)),
//@@ end
//@@ fn src/util/tree.rs GornTree::keys
//@ newret Vec<&'a Vec<usize>>
//@ mapmethod keys vt_tree_keys &
//@ ret r
//@ ensures keys_of(r@, at(*self))
//@@ end
//@@ fn src/util/tree.rs GornTree::values
//@ newret Vec<&'a V>
//@ mapmethod values vt_tree_values &
//@ ret r
//@ ensures values_of(r@, at(*self))
//@@ end
//@@ fn src/util/tree.rs GornTree::len
//@ mapmethod len vt_tree_len &
//@ ret r
//@ ensures r == at(*self).dom().len()
//@@ end
//@@ fn src/util/tree.rs GornTree::is_empty
//@ mapmethod is_empty vt_tree_empty &
//@ ret r
//@ ensures r == (at(*self) == Map::<Seq<usize>, V>::empty())
//@@ end
//@@ fn src/util/tree.rs <PartialEq~for~GornTree>::eq as eq_
//@ params other
//@ mapmethod eq vt_tree_eq &
//@ ret r
//@ ensures lawful::<V>() ==> r == (at(*self) == at(*other))
//@@ end
//@@ fn src/util/tree.rs <FromIterator<(Vec<usize>,V)>~for~GornTree>::from_iter as from_entries
//@ params iter
//@ dropgeneric T
//@ dropbound IntoIterator
//@ newparams iter: Vec<(Vec<usize>, V)>
//@ mapmethod into_iter vt_collect
//@ mapmethod collect vt_tree_from
//@ ret r
//@ ensures at(r) == inserted(Map::empty(), shown(iter@))
//@@ end

proof fn relisted_to<V>(v: Seq<(Seq<usize>, V)>, k: int)
    requires in_order(v.map_values(|e: (Seq<usize>, V)| e.0)), 0 <= k <= v.len()
    ensures ({
        let m = inserted(Map::empty(), v.take(k));
        &&& forall|p: Seq<usize>| #[trigger] m.contains_key(p) <==> exists|i: int| 0 <= i < k && (#[trigger] v[i]).0 == p
        &&& forall|i: int| 0 <= i < k ==> m[(#[trigger] v[i]).0] == v[i].1
    })
    decreases k
{
    let m = inserted(Map::empty(), v.take(k));
    if k > 0 {
        let w = inserted(Map::empty(), v.take(k - 1));
        relisted_to(v, k - 1);
        assert(v.take(k).drop_last() =~= v.take(k - 1));
        assert(m == w.insert(v[k - 1].0, v[k - 1].1));
        let a = v.map_values(|e: (Seq<usize>, V)| e.0);
        assert forall|i: int| 0 <= i < k - 1 implies (#[trigger] v[i]).0 != v[k - 1].0 by { assert(before(a[i], a[k - 1])); never_twice(a[i], a[i]); }
        assert forall|p: Seq<usize>| #[trigger] m.contains_key(p) <==> exists|i: int| 0 <= i < k && (#[trigger] v[i]).0 == p by {
            if m.contains_key(p) && p != v[k - 1].0 { assert(w.contains_key(p)); let i = choose|i: int| 0 <= i < k - 1 && (#[trigger] v[i]).0 == p; assert(v[i].0 == p); }
            if exists|i: int| 0 <= i < k && (#[trigger] v[i]).0 == p { let i = choose|i: int| 0 <= i < k && (#[trigger] v[i]).0 == p; if i < k - 1 { assert(w.contains_key(p)); } }
        }
    }
}
proof fn relisted<V>(v: Seq<(Seq<usize>, V)>, m: Map<Seq<usize>, V>)
    requires lists(v, m)
    ensures inserted(Map::empty(), v) == m
{
    relisted_to(v, v.len() as int);
    assert(v.take(v.len() as int) =~= v);
    let w = inserted(Map::empty(), v);
    assert(w.dom() =~= m.dom());
    assert forall|p: Seq<usize>| m.contains_key(p) implies w[p] == m[p] by { let i = choose|i: int| 0 <= i < v.len() && (#[trigger] v[i]).0 == p; assert(w[v[i].0] == v[i].1); }
    assert(w =~= m);
}
impl<V> VtFrom<(Vec<usize>, V)> for GornTree<V> {
    spec fn made(v: Seq<(Vec<usize>, V)>, r: GornTree<V>) -> bool { at(r) == inserted(Map::empty(), shown(v)) }
    fn vt_from(v: Vec<(Vec<usize>, V)>) -> (r: GornTree<V>) { GornTree::from_entries(v) }
}
spec fn unref<V>(m: Map<Seq<usize>, &V>) -> Map<Seq<usize>, V> { m.map_values(|x: &V| *x) }
proof fn cloned_list<V>(v: Seq<(Vec<usize>, &V)>, w: Seq<(Vec<usize>, V)>, m: Map<Seq<usize>, &V>)
    requires lists(shown(v), m), v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> (#[trigger] w[i]).0@ == v[i].0@ && w[i].1 == *v[i].1
    ensures inserted(Map::empty(), shown(w)) == unref(m)
{
    let (a, b) = (shown(v), shown(w));
    assert(unref(m).dom() =~= m.dom());
    assert(b.map_values(|e: (Seq<usize>, V)| e.0) =~= a.map_values(|e: (Seq<usize>, &V)| e.0));
    assert forall|i: int| 0 <= i < b.len() implies unref(m).contains_key((#[trigger] b[i]).0) && unref(m)[b[i].0] == b[i].1 by { assert(m.contains_key(a[i].0) && m[a[i].0] == a[i].1); }
    assert forall|p: Seq<usize>| #[trigger] unref(m).contains_key(p) implies exists|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0 == p by {
        assert(m.contains_key(p));
        let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0 == p;
        assert(b[i].0 == p);
    }
    relisted(b, unref(m));
}
//@@ fn src/util/tree.rs GornTree::cloned
//@ ret r
//@ mapmethod into_iter . into_entries
//@ mapmethod map vt_map
//@ mapmethod collect vt_gather
//@ ensures faithful::<V>() ==> at(r) == unref(at(self))
//@ closure 0 (e: (Vec<usize>, &'a V)) -> (u: (Vec<usize>, V))
    ensures u.0 == e.0, call_ensures(V::clone, (e.1,), u.1)
//@ start
    let ghost m = at(self);
    proof {
        assert forall|v: Seq<(Vec<usize>, &V)>, w: Seq<(Vec<usize>, V)>| #![trigger lists(shown(v), m), shown(w)] lists(shown(v), m) && v.len() == w.len() && (forall|i: int| #![trigger w[i]] #![trigger v[i]] 0 <= i < v.len() ==> w[i].0 == v[i].0 && w[i].1 == *v[i].1)
            implies inserted(Map::empty(), shown(w)) == unref(m) by { cloned_list(v, w, m); }
    }
//@@ end
// parents are listed before their children, siblings in order
proof fn parents_first(p: Seq<usize>, n: usize)
    ensures before(p, p.push(n))
    decreases p.len()
{ if p.len() > 0 { parents_first(p.skip(1), n); assert(p.push(n).skip(1) =~= p.skip(1).push(n)); } }
proof fn siblings_in_order(p: Seq<usize>, m: usize, n: usize)
    requires m < n
    ensures before(p.push(m), p.push(n))
    decreases p.len()
{ if p.len() > 0 { siblings_in_order(p.skip(1), m, n); assert(p.push(n).skip(1) =~= p.skip(1).push(n)); assert(p.push(m).skip(1) =~= p.skip(1).push(m)); } }
proof fn never_twice(p: Seq<usize>, q: Seq<usize>)
    ensures !(before(p, q) && before(q, p)), !before(p, p)
    decreases p.len()
{ if p.len() > 0 { never_twice(p.skip(1), q.skip(1)); never_twice(p.skip(1), p.skip(1)); } }
} // verus!
