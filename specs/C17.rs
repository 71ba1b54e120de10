// C17: equivalence relations.
use vstd::prelude::*;
use vstd::std_specs::hash::*;
use vstd::std_specs::cmp::PartialEqSpec;
use std::collections::{HashMap, HashSet, hash_map::Entry};
use std::hash::Hash;
verus! {
broadcast use group_hash_axioms;

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/hash.rs

// what the tables rely on: lawful equality and hashes; clones equal to their originals
spec fn lawful<A: Eq + Hash, B: Eq + Hash + Clone>() -> bool {
    obeys_key_model::<A>() && obeys_key_model::<B>() && B::obeys_eq_spec() && (forall|a: B, b: B| #[trigger] a.eq_spec(&b) <==> a == b) && faithful::<B>()
}
spec fn faithful<B: Clone>() -> bool { forall|a: B, b: B| #[trigger] call_ensures(B::clone, (&a,), b) ==> a == b }

//@@ type src/approximation/equivalence_classes.rs EquivalenceRelation
//@ attr
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@@ end
//@@ type src/approximation/equivalence_classes.rs EquivalenceClass
//@ attr
#[verifier::reject_recursive_types(A)] #[verifier::reject_recursive_types(B)]
//@@ end

// the class of label b lists the value a
spec fn lists<A: Eq + Hash, B>(map: Map<B, HashSet<A>>, b: B, a: A) -> bool { map.contains_key(b) && map[b]@.contains(a) }
spec fn disjoint<A: Eq + Hash, B>(map: Map<B, HashSet<A>>) -> bool {
    forall|a: A, b: B, c: B| #[trigger] lists(map, b, a) && #[trigger] lists(map, c, a) ==> b == c
}
spec fn class_of<A: Eq + Hash, B>(map: Map<B, HashSet<A>>, default: B, a: A) -> B {
    if exists|b: B| lists(map, b, a) { choose|b: B| lists(map, b, a) } else { default }
}
impl<A: Eq + Hash, B> EquivalenceRelation<A, B> {
    // the label of a's class
    spec fn label_of(&self, a: A) -> B { if self.map@.contains_key(a) { self.map@[a] } else { self.default } }
}

spec fn has<A: Eq + Hash, B>(es: Seq<(B, HashSet<A>)>, j: int, a: A) -> bool { es[j].1@.contains(a) }
// r maps the elements of the first k classes, and those of w in the next one
spec fn filled<A: Eq + Hash, B>(r: Map<A, B>, es: Seq<(B, HashSet<A>)>, k: int, w: Seq<A>) -> bool {
    &&& forall|a: A| #[trigger] r.contains_key(a) ==> w.contains(a) || exists|j: int| 0 <= j < k && #[trigger] has(es, j, a)
    &&& forall|a: A, j: int| 0 <= j < k && #[trigger] has(es, j, a) ==> r.contains_key(a) && r[a] == es[j].0
    &&& forall|a: A| #[trigger] w.contains(a) ==> r.contains_key(a) && r[a] == es[k].0
}
proof fn filled_clash<A: Eq + Hash, B>(r: Map<A, B>, es: Seq<(B, HashSet<A>)>, k: int, w: Seq<A>, v: Seq<A>, x: A, m: Map<B, HashSet<A>>)
    requires entries_of(es, m), 0 <= k < es.len(), elements_of(v, es[k].1@), w.len() < v.len(), w == v.take(w.len() as int), x == v[w.len() as int], filled(r, es, k, w), r.contains_key(x)
    ensures !disjoint(m)
{
    assert(v.contains(x));
    if w.contains(x) {
        let i = choose|i: int| 0 <= i < w.len() && w[i] == x;
        assert(v[i] == v[w.len() as int]);
    } else {
        let j = choose|j: int| 0 <= j < k && #[trigger] has(es, j, x);
        assert(lists(m, es[j].0, x) && lists(m, es[k].0, x));
    }
}
proof fn filled_more<A: Eq + Hash, B>(r: Map<A, B>, es: Seq<(B, HashSet<A>)>, k: int, w: Seq<A>, x: A)
    requires filled(r, es, k, w), !r.contains_key(x)
    ensures filled(r.insert(x, es[k].0), es, k, w.push(x))
{
    let q = r.insert(x, es[k].0);
    assert forall|a: A| w.push(x).contains(a) <==> w.contains(a) || a == x by {
        if w.contains(a) { let i = choose|i: int| 0 <= i < w.len() && w[i] == a; assert(w.push(x)[i] == a); }
        if a == x { assert(w.push(x)[w.len() as int] == a); }
    }
    assert forall|a: A| #[trigger] q.contains_key(a) implies w.push(x).contains(a) || exists|j: int| 0 <= j < k && #[trigger] has(es, j, a) by { if a != x { assert(r.contains_key(a)); } }
    assert forall|a: A, j: int| 0 <= j < k && #[trigger] has(es, j, a) implies q.contains_key(a) && q[a] == es[j].0 by { assert(r.contains_key(a)); }
    assert forall|a: A| #[trigger] w.push(x).contains(a) implies q.contains_key(a) && q[a] == es[k].0 by { if a != x { assert(w.contains(a)); } }
}
proof fn filled_next<A: Eq + Hash, B>(r: Map<A, B>, es: Seq<(B, HashSet<A>)>, k: int, w: Seq<A>)
    requires filled(r, es, k, w), 0 <= k < es.len(), elements_of(w, es[k].1@)
    ensures filled(r, es, k + 1, Seq::empty())
{
    assert forall|a: A| #[trigger] r.contains_key(a) implies exists|j: int| 0 <= j < k + 1 && #[trigger] has(es, j, a) by { if w.contains(a) { assert(has(es, k, a)); } }
    assert forall|a: A, j: int| 0 <= j < k + 1 && #[trigger] has(es, j, a) implies r.contains_key(a) && r[a] == es[j].0 by { if j == k { assert(w.contains(a)); } }
}
proof fn filled_done<A: Eq + Hash, B>(r: Map<A, B>, es: Seq<(B, HashSet<A>)>, m: Map<B, HashSet<A>>)
    requires filled(r, es, es.len() as int, Seq::empty()), entries_of(es, m)
    ensures
        disjoint(m),
        forall|a: A, b: B| #[trigger] lists(m, b, a) ==> r.contains_key(a) && r[a] == b,
        forall|a: A| #[trigger] r.contains_key(a) ==> exists|b: B| lists(m, b, a),
{
    assert forall|a: A, b: B| #[trigger] lists(m, b, a) implies r.contains_key(a) && r[a] == b by {
        let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0 == b;
        assert(has(es, i, a));
    }
    assert forall|a: A| #[trigger] r.contains_key(a) implies exists|b: B| lists(m, b, a) by {
        let j = choose|j: int| 0 <= j < es.len() && #[trigger] has(es, j, a);
        assert(lists(m, es[j].0, a));
    }
}

//@@ fn src/approximation/equivalence_classes.rs EquivalenceRelation::new_safe
//@ params map default
//@ ret r
//@ requires lawful::<A, B>()
//@ ensures
    match r {
        Ok(rel) => !map@.contains_key(default) && disjoint(map@)
            && (forall|a: A, b: B| #[trigger] lists(map@, b, a) ==> rel.label_of(a) == b)
            && (forall|a: A| (forall|b: B| !lists(map@, b, a)) ==> #[trigger] rel.label_of(a) == default),
        Err(_) => map@.contains_key(default) || !disjoint(map@),
    },
//@ texts
//@ local relation_map 0
//@ foriter 0 vt_entries
//@ foriter 1 vt_elements
//@ forpat 0 class_name members
//@ forpat 1 value
//@ before 0
    broadcast use group_hash_axioms;
    let ghost m = map@;
//@ loop 0 for it
    invariant
        lawful::<A, B>(), m == map@,
        entries_of(it.seq(), m),
        filled(relation_map@, it.seq(), it.index@, Seq::empty()),
        it.index@ == it.seq().len() ==> exists|es: Seq<(B, HashSet<A>)>| #[trigger] entries_of(es, m) && filled(relation_map@, es, es.len() as int, Seq::empty()),
        forall|i: int| 0 <= i < it.index@ ==> (#[trigger] it.seq()[i]).0 != default,
//@ loopstart 0
    let ghost es = it.seq();
    let ghost k = it.index@;
    proof { assert(es[k] == (class_name, members)); assert(m.contains_key(class_name)); }
//@ before 1
    broadcast use no_elements;
//@ loop 1 for it2
    invariant
        lawful::<A, B>(), entries_of(es, m), 0 <= k < es.len(), es[k] == (class_name, members),
        elements_of(it2.seq(), es[k].1@),
        filled(relation_map@, es, k, it2.seq().take(it2.index@)),
        forall|i: int| 0 <= i <= k ==> (#[trigger] es[i]).0 != default,
        it2.index@ == it2.seq().len() ==> exists|w: Seq<A>| #[trigger] elements_of(w, es[k].1@) && filled(relation_map@, es, k, w),
        m == map@,
//@ loopstart 1
    let ghost w = it2.seq().take(it2.index@);
    let ghost before = relation_map@;
    proof {
        assert(value == it2.seq()[it2.index@]);
        assert(it2.seq().take(it2.index@ + 1) =~= w.push(value));
        if before.contains_key(value) {
            filled_clash(before, es, k, w, it2.seq(), value, m);
        }
    }
//@ loopend 1
    proof { assert(relation_map@ =~= before.insert(value, class_name)); filled_more(before, es, k, w, value); assert(it2.seq().take(it2.seq().len() as int) =~= it2.seq()); }
//@ after 1
    proof { filled_next(relation_map@, es, k, choose|w: Seq<A>| #[trigger] elements_of(w, es[k].1@) && filled(relation_map@, es, k, w)); }
//@ after 0
    proof { filled_done(relation_map@, choose|es: Seq<(B, HashSet<A>)>| #[trigger] entries_of(es, m) && filled(relation_map@, es, es.len() as int, Seq::empty()), m); }
//@@ end

//@@ fn src/approximation/equivalence_classes.rs EquivalenceRelation::new
//@ params map default
//@ ret rel
//@ requires lawful::<A, B>(), !map@.contains_key(default), disjoint(map@)
//@ ensures
    forall|a: A, b: B| #[trigger] lists(map@, b, a) ==> rel.label_of(a) == b,
    forall|a: A| (forall|b: B| !lists(map@, b, a)) ==> #[trigger] rel.label_of(a) == default,
//@@ end

//@@ fn src/approximation/equivalence_classes.rs EquivalenceRelation::project
//@ params key
//@ ret r
//@ requires lawful::<A, B>()
//@ ensures r == self.label_of(*key)
//@ start
    broadcast use group_hash_axioms;
//@@ end

// ---- from a list of classes; the one without a set is the default ----
spec fn label_in<A: Eq + Hash, B>(cs: Seq<EquivalenceClass<A, B>>, a: A) -> Option<B>
    decreases cs.len()
{
    if cs.len() == 0 { None } else if (cs.last().set matches Some(s) && s@.contains(a)) { Some(cs.last().label) } else { label_in(cs.drop_last(), a) }
}
spec fn default_in<A: Eq + Hash, B>(cs: Seq<EquivalenceClass<A, B>>) -> Option<B>
    decreases cs.len()
{ if cs.len() == 0 { None } else if cs.last().set is None { Some(cs.last().label) } else { default_in(cs.drop_last()) } }
spec fn read<A: Eq + Hash, B>(r: Map<A, B>, cs: Seq<EquivalenceClass<A, B>>) -> bool {
    forall|a: A| (#[trigger] r.contains_key(a) <==> label_in(cs, a) is Some) && (r.contains_key(a) ==> r[a] == label_in(cs, a)->0)
}
// disjoint classes: each value is mapped to the one that lists it
proof fn listed_once<A: Eq + Hash, B>(cs: Seq<EquivalenceClass<A, B>>, k: int, a: A)
    requires
        0 <= k < cs.len(), cs[k].set matches Some(s) && s@.contains(a),
        forall|j: int| 0 <= j < cs.len() && j != k ==> !((#[trigger] cs[j]).set matches Some(s) && s@.contains(a)),
    ensures label_in(cs, a) == Some(cs[k].label)
    decreases cs.len()
{
    assert(cs.last() == cs[cs.len() - 1]);
    if k < cs.len() - 1 {
        assert forall|j: int| 0 <= j < cs.len() - 1 && j != k implies !((#[trigger] cs.drop_last()[j]).set matches Some(s) && s@.contains(a)) by { assert(cs[j] == cs.drop_last()[j]); }
        listed_once(cs.drop_last(), k, a);
    }
}

//@@ fn src/approximation/equivalence_classes.rs <From~for~EquivalenceRelation>::from
//@ implhead impl<A: Eq + Hash, B: Clone + Eq + Hash> EquivalenceRelation<A, B>
//@ params classes
//@ ret r
//@ requires lawful::<A, B>(), default_in(classes@) is Some
//@ ensures
    r.default == default_in(classes@)->0,
    forall|a: A| #[trigger] r.label_of(a) == match label_in(classes@, a) { Some(b) => b, None => r.default },
//@ local map 0
//@ local default 1
//@ foriter 1 vt_elements
//@ forpat 1 element
//@ before 0
    broadcast use group_hash_axioms;
//@ loop 0 for it
    invariant
        lawful::<A, B>(), it.seq() == classes@,
        read(map@, classes@.take(it.index@)), default == default_in(classes@.take(it.index@)),
//@ loopstart 0
    let ghost cs = classes@.take(it.index@);
    let ghost cs2 = classes@.take(it.index@ + 1);
    let ghost old_map = map@;
    proof { assert(cs2.drop_last() =~= cs); assert(cs2.last() == classes@[it.index@]); assert(cs2.last().label == label && cs2.last().set == set); }
//@ loop 1 for it2
    invariant
        lawful::<A, B>(), elements_of(it2.seq(), elements@),
        forall|a: A| #[trigger] it2.seq().take(it2.index@).contains(a) ==> map@.contains_key(a) && map@[a] == label,
        forall|a: A| !it2.seq().take(it2.index@).contains(a) ==> (#[trigger] map@.contains_key(a) <==> old_map.contains_key(a)) && (map@.contains_key(a) ==> map@[a] == old_map[a]),
        it2.index@ == it2.seq().len() ==> over(map@, old_map, elements@, label),
//@ before 1
    broadcast use no_elements;
//@ loopstart 1
    let ghost w = it2.seq().take(it2.index@);
    let ghost before = map@;
    proof {
        assert(element == it2.seq()[it2.index@]);
        assert(it2.seq().take(it2.index@ + 1) =~= w.push(element));
        assert(it2.seq().take(it2.seq().len() as int) =~= it2.seq());
        assert forall|a: A| #[trigger] w.push(element).contains(a) <==> w.contains(a) || a == element by {
            if w.contains(a) { let i = choose|i: int| 0 <= i < w.len() && w[i] == a; assert(w.push(element)[i] == a); }
            if a == element { assert(w.push(element)[w.len() as int] == a); }
        }
    }
//@ loopend 1
    proof { assert(map@ =~= before.insert(element, label)); }
//@ loopend 0
    proof {
        assert forall|a: A| (#[trigger] map@.contains_key(a) <==> label_in(cs2, a) is Some) && (map@.contains_key(a) ==> map@[a] == label_in(cs2, a)->0) by {
            assert(old_map.contains_key(a) <==> label_in(cs, a) is Some);
        }
    }
//@ after 0
    proof { assert(classes@.take(classes@.len() as int) =~= classes@); }
//@@ end
// r is m with the elements of s mapped to b
spec fn over<A, B>(r: Map<A, B>, m: Map<A, B>, s: Set<A>, b: B) -> bool {
    forall|a: A| if s.contains(a) { #[trigger] r.contains_key(a) && r[a] == b } else { (r.contains_key(a) <==> m.contains_key(a)) && (r.contains_key(a) ==> r[a] == m[a]) }
}

//@@ fn src/approximation/equivalence_classes.rs <From~for~EquivalenceClass>::from
//@ implhead impl<A: Eq + Hash, B> EquivalenceClass<A, B>
//@ ret r
//@ requires obeys_key_model::<A>()
//@ ensures r.label == arg_0.0, match arg_0.1 { None => r.set is None, Some(v) => r.set matches Some(s) && s@ == v@.to_set() }
//@ mappath HashSet::from_iter vt_set
//@ closure 0 (elements: Vec<A>) -> (s: Option<HashSet<A>>)
    requires obeys_key_model::<A>()
    ensures s matches Some(t) && t@ == elements@.to_set()
//@@ end
} // verus!
