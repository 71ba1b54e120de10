// ---- lib/recognition.rs: recognise over the verified search; what automata must be like ----
//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ include lib/ord.rs
//@@ include lib/heap.rs
//@@ include lib/chain.rs
//@@ include lib/btree.rs
//@@ include lib/gather.rs
//@@ include lib/bind.rs
//@@ include lib/agenda.rs
//@@ include lib/agenda_std.rs
//@@ include lib/agenda_weighted.rs faithful<W=>faithful_clone<W
//@@ include lib/agenda_limited.rs
//@@ include lib/search.rs FnMut=>Fn //+=>
//@@ include lib/handed.rs
//@@ include lib/handing.rs
//@@ trait src/recognisable/mod.rs Instruction apply
pub trait Instruction: Sized {
    type Storage;
    // the types involved can be compared and cloned; what the instruction makes of a storage
    spec fn works() -> bool;
    spec fn outcomes(&self, s: Self::Storage) -> Seq<Self::Storage>;
    fn apply(&self, s: Self::Storage) -> (r: Vec<Self::Storage>) requires Self::works() ensures r@ == self.outcomes(s);
}
//@@ include lib/transition.rs
//@@ include lib/pushdown.rs
impl<I: Clone, T: Clone, W: Clone> Clone for Transition<I, T, W> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<I>() && faithful::<T>() && faithful::<W>() ==> r == *self
    { proof { vec_faithful::<T>(); } Transition { word: self.word.clone(), weight: self.weight.clone(), instruction: self.instruction.clone() } }
}
// assumed: the clone of a list is the list of the clones (and lists are their contents)
#[verifier::external_body]
proof fn vec_faithful<T: Clone>() ensures faithful::<T>() ==> faithful::<Vec<T>>() {}
//@@ type src/recognisable/mod.rs Item
//@ public
//@@ end
//@@ impl src/recognisable/mod.rs <Weighted~for~Item> get_weight
impl<S, I: Instruction<Storage = S>, T, W: Clone> Weighted for Item<S, I, T, W> {
    type Weight = W;
    open spec fn weighable() -> bool { faithful::<W>() }
    open spec fn weight(&self) -> W { self.0.weight }
//@@ method src/recognisable/mod.rs <Weighted~for~Item>::get_weight
//@ ret r
//@@ end
}
// transitions are kept in heaps, in an order nothing is known about
#[verifier::external] impl<I, T, W> PartialEq for Transition<I, T, W> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<I, T, W> Eq for Transition<I, T, W> {}
#[verifier::external] impl<I, T, W> PartialOrd for Transition<I, T, W> { fn partial_cmp(&self, o: &Self) -> Option<Ordering> { unimplemented!() } }
#[verifier::external] impl<I, T, W> Ord for Transition<I, T, W> { fn cmp(&self, o: &Self) -> Ordering { unimplemented!() } }

// the trait of the crate num-traits (signature as used here)
pub trait One: Sized + Mul<Self, Output = Self> { spec fn unit() -> Self; fn one() -> (r: Self) ensures r == Self::unit(); }

// ---- what an item stands for ----
pub ghost struct Conf<S, T, W> { pub word: Seq<T>, pub storage: S, pub weight: W }
pub ghost struct Node<S, I, T, W> { pub conf: Conf<S, T, W>, pub run: Seq<Transition<I, T, W>> }
pub open spec fn cv<S, T, W>(c: Configuration<S, T, W>) -> Conf<S, T, W> { Conf { word: c.word@, storage: c.storage, weight: c.weight } }
pub closed spec fn nv<S, I, T, W>(x: Item<S, I, T, W>) -> Node<S, I, T, W> { Node { conf: cv(x.0), run: held(x.1) } }
spec fn nodes<S, I, T, W>(s: Seq<Item<S, I, T, W>>) -> Seq<Node<S, I, T, W>> { s.map_values(|x: Item<S, I, T, W>| nv(x)) }

pub type TransitionMap<K, I, T, W> = HashMap<K, BinaryHeap<Transition<I, T, W>>>;
//@@ trait src/recognisable/automaton.rs Automaton from_transitions transitions initial item_map terminal_to_int extract_key is_terminal transition_map initial_int check_run
pub trait Automaton<T: Clone, W: Clone + MulAssign + One>: Sized {
    type Key: Eq + Hash;
    type I: Clone + Instruction;
    type IInt: Clone + Eq + Instruction;
    type TInt;
    // what the automaton's functions rely on
    spec fn usable(&self) -> bool;
    // the transitions at a key, the initial storage, the numbers of the terminals, what is accepted
    spec fn at(&self, k: Self::Key) -> Multiset<Transition<Self::IInt, Self::TInt, W>>;
    spec fn start(&self) -> <Self::IInt as Instruction>::Storage;
    spec fn letter(&self, t: T) -> Option<Self::TInt>;
    spec fn key(c: Conf<<Self::IInt as Instruction>::Storage, Self::TInt, W>) -> Self::Key;
    spec fn accepting(&self, c: Conf<<Self::IInt as Instruction>::Storage, Self::TInt, W>) -> bool;
    // items that item_map can translate, and how
    spec fn showable(&self, n: Node<<Self::IInt as Instruction>::Storage, Self::IInt, Self::TInt, W>) -> bool;
    spec fn shown(&self, n: Item<<Self::IInt as Instruction>::Storage, Self::IInt, Self::TInt, W>, r: Item<<Self::I as Instruction>::Storage, Self::I, T, W>) -> bool;
    fn item_map(&self, i: &Item<<Self::IInt as Instruction>::Storage, Self::IInt, Self::TInt, W>) -> (r: Item<<Self::I as Instruction>::Storage, Self::I, T, W>)
        requires self.usable(), self.showable(nv(*i))
        ensures self.shown(*i, r);
    fn terminal_to_int(&self, t: &T) -> (r: Option<Self::TInt>)
        requires self.usable()
        ensures r == self.letter(*t);
    fn extract_key(c: &Configuration<<Self::IInt as Instruction>::Storage, Self::TInt, W>) -> (r: &Self::Key)
        ensures *r == Self::key(cv(*c));
    fn is_terminal(&self, c: &Configuration<<Self::IInt as Instruction>::Storage, Self::TInt, W>) -> (r: bool)
        requires self.usable()
        ensures r == self.accepting(cv(*c));
    fn transition_map(&self) -> (r: Rc<TransitionMap<Self::Key, Self::IInt, Self::TInt, W>>)
        requires self.usable()
        ensures forall|k: Self::Key| #[trigger] self.at(k) == (if (*r)@.contains_key(k) { heap_els((*r)@[k]) } else { Multiset::empty() });
    fn initial_int(&self) -> (r: <Self::IInt as Instruction>::Storage)
        requires self.usable()
        ensures r == self.start();
}

// ---- what is recognised ----
// weights can be multiplied by those of the transitions
spec fn weighs<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A) -> bool {
    W::obeys_mul_spec() && forall|k: A::Key, t: Transition<A::IInt, A::TInt, W>, w: W| #![trigger a.at(k).contains(t), w.mul_req(t.weight)] a.at(k).contains(t) ==> w.mul_req(t.weight)
}
// the configurations a transition leads to
spec fn moves<I: Instruction, T, W: Mul<Output = W>>(t: Transition<I, T, W>, c: Conf<I::Storage, T, W>) -> Seq<Conf<I::Storage, T, W>> {
    if begins(c.word, t.word@) {
        t.instruction.outcomes(c.storage).map_values(|s: I::Storage| Conf { word: c.word.skip(t.word@.len() as int), storage: s, weight: c.weight.mul_spec(t.weight) })
    } else { Seq::empty() }
}
// one step of a run
spec fn continued<I: Instruction, T, W: Mul<Output = W>>(x: Node<I::Storage, I, T, W>, t: Transition<I, T, W>) -> Seq<Node<I::Storage, I, T, W>> {
    moves(t, x.conf).map_values(|c: Conf<I::Storage, T, W>| Node { conf: c, run: x.run.push(t) })
}
proof fn continued_by<I: Instruction, T, W: Mul<Output = W> + Copy>(x: Item<I::Storage, I, T, W>, t: Transition<I, T, W>, cs: Seq<Configuration<I::Storage, T, W>>, y: Seq<Item<I::Storage, I, T, W>>)
    requires W::obeys_mul_spec(), I::works(), applied(t, x.0, cs), y.len() == cs.len(), forall|i: int| 0 <= i < y.len() ==> nv(#[trigger] y[i]) == (Node { conf: cv(cs[i]), run: held(x.1).push(t) })
    ensures nodes(y) == continued(nv(x), t)
{
    if begins(x.0.word@, t.word@) {
        let ss = choose|ss: Seq<I::Storage>| #[trigger] yields(t.instruction, x.0.storage, ss) && after(t, x.0, ss, cs);
        assert(ss == t.instruction.outcomes(x.0.storage));
        assert forall|i: int| 0 <= i < y.len() implies nodes(y)[i] == continued(nv(x), t)[i] by { assert(nv(y[i]).conf == cv(cs[i])); assert(one_after(t, x.0, ss[i], cs[i])); assert(cs[i].word@ == nv(x).conf.word.skip(t.word@.len() as int)); }
        assert(nodes(y) =~= continued(nv(x), t));
    } else { assert(nodes(y) =~= continued(nv(x), t)); }
}
type NodeOf<A, T, W> = Node<<<A as Automaton<T, W>>::IInt as Instruction>::Storage, <A as Automaton<T, W>>::IInt, <A as Automaton<T, W>>::TInt, W>;
type ItemOf<A, T, W> = Item<<<A as Automaton<T, W>>::IInt as Instruction>::Storage, <A as Automaton<T, W>>::IInt, <A as Automaton<T, W>>::TInt, W>;
type ShownOf<A, T, W> = Item<<<A as Automaton<T, W>>::I as Instruction>::Storage, <A as Automaton<T, W>>::I, T, W>;
spec fn follow<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A) -> spec_fn(NodeOf<A, T, W>) -> Multiset<NodeOf<A, T, W>> {
    |x: NodeOf<A, T, W>| bind(a.at(A::key(x.conf)), |t: Transition<A::IInt, A::TInt, W>| continued(x, t).to_multiset())
}
spec fn letters<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>) -> Seq<Option<A::TInt>> { w.map_values(|t: T| a.letter(t)) }
// the beginnings of runs: one, if the automaton knows the word's symbols
spec fn roots<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>) -> Multiset<NodeOf<A, T, W>> {
    if forall|i: int| 0 <= i < w.len() ==> a.letter(#[trigger] w[i]) is Some {
        Multiset::singleton(Node { conf: Conf { word: somes(letters(a, w)), storage: a.start(), weight: W::unit() }, run: Seq::empty() })
    } else { Multiset::empty() }
}
// the runs of n transitions
spec fn runs<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, n: nat) -> Multiset<NodeOf<A, T, W>>
    decreases n
{ if n == 0 { roots(a, w) } else { bind(runs(a, w, (n - 1) as nat), follow(a)) } }
// what the closure that computes the successors answers
spec fn fanned<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, x: ItemOf<A, T, W>, r: Seq<ItemOf<A, T, W>>) -> bool {
    exists|v: Seq<&Transition<A::IInt, A::TInt, W>>, s: Seq<Vec<ItemOf<A, T, W>>>|
        #![trigger vals(v), concat(views(s))]
        vals(v).to_multiset() == a.at(A::key(nv(x).conf)) && r == concat(views(s)) && s.len() == v.len()
            && forall|i: int| 0 <= i < s.len() ==> nodes((#[trigger] s[i])@) == continued(nv(x), *v[i])
}
// item_map can translate whatever recognise meets
spec fn legible<T: Clone, W: Clone + Copy + MulAssign + One + Ord, A: Automaton<T, W>>(a: A) -> bool {
    forall|w: Seq<T>, n: nat, y: NodeOf<A, T, W>| #[trigger] runs(a, w, n).contains(y) ==> a.showable(y)
}
spec fn lawful_automaton<T: Clone, W: Clone + Copy + MulAssign + One + Ord, A: Automaton<T, W>>(a: A) -> bool where A::TInt: Clone + PartialEq, <A::IInt as Instruction>::Storage: Clone {
    &&& lawful::<A::TInt>() && faithful::<A::TInt>() && faithful::<A::IInt>() && faithful::<<A::IInt as Instruction>::Storage>() && faithful::<W>()
    &&& obeys_key_model::<A::Key>() && builds_valid_hashers::<std::hash::RandomState>()
    &&& lawful_ord::<W>() && weighs(a) && a.usable() && A::IInt::works() && legible(a)
}
fn vt_lookup<'a, K: Eq + Hash, V>(m: &'a Rc<HashMap<K, V>>, k: &K) -> (r: Option<&'a V>)
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::hash::RandomState>()
    ensures match r { Some(v) => (**m)@.contains_key(*k) && (**m)@[*k] == *v, None => !(**m)@.contains_key(*k) }
{ broadcast use group_hash_axioms; (**m).get(k) }
pub assume_specification<'a, T>[<std::collections::binary_heap::Iter::<'a, T> as Iterator>::next](h: &mut std::collections::binary_heap::Iter<'a, T>) -> (r: Option<&'a T>)
    ensures match r {
        None => iter_els(*old(h)).len() == 0 && iter_els(*final(h)) == iter_els(*old(h)),
        Some(x) => iter_els(*old(h)).contains(*x) && iter_els(*final(h)) == iter_els(*old(h)).remove(*x),
    };
impl<'a, T: 'a> VtTree<'a> for BinaryHeap<T> {
    type Item = &'a T;
    spec fn listed_as(&self, v: Seq<&'a T>) -> bool { vals(v).to_multiset() == heap_els(*self) && forall|i: int| 0 <= i < v.len() ==> heap_els(*self).contains(*#[trigger] v[i]) }
    fn vt_items(&'a self) -> (v: Vec<&'a T>) {
        broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
        let mut it = self.iter();
        let mut v: Vec<&'a T> = Vec::new();
        proof { assert(vals(v@).to_multiset() =~= Multiset::empty()); }
        loop
            invariant vals(v@).to_multiset().add(iter_els(it)) == heap_els(*self), forall|i: int| 0 <= i < v@.len() ==> heap_els(*self).contains(*#[trigger] v@[i])
            decreases iter_els(it).len()
        {
            broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
            let ghost (v0, it0) = (v@, it);
            match it.next() {
                None => { assert(vals(v@).to_multiset() =~= heap_els(*self)); return v; }
                Some(x) => {
                    v.push(x);
                    proof {
                        assert(heap_els(*self).count(*x) >= iter_els(it0).count(*x));
                        vals_push(v0, x);
                        assert(vals(v@).to_multiset() =~= vals(v0).to_multiset().insert(*x));
                        assert(vals(v@).to_multiset().add(iter_els(it)) =~= vals(v0).to_multiset().add(iter_els(it0)));
                    }
                }
            }
        }
    }
}
impl<T> VtInto for Option<T> {
    type Item = T;
    spec fn items(&self) -> Seq<T> { match *self { Some(x) => seq![x], None => Seq::empty() } }
    fn vt_into(self) -> (r: Vec<T>) { let mut r: Vec<T> = Vec::new(); if let Some(x) = self { r.push(x); assert(r@ =~= self.items()); } else { assert(r@ =~= self.items()); } r }
}
use binary_heap::weighted::vt_weighted;
//@@ fn search/src/search.rs self::Search::weighted
//@ params initials successors
//@ newparams initials: C, successors: S
//@ dropgeneric II2
//@ addgeneric C: VtInto<Item = I>
//@ implhead impl<I: Weighted, S: Fn(&I) -> Vec<I>> Search<binary_heap::weighted::BinaryHeap<I>, S> where I::Weight: Ord
//@ mapmethod into_iter vt_gather
//@ mapmethod collect vt_weighted
//@ ret r
//@ requires lawful_ord::<I::Weight>(), I::weighable()
//@ ensures r.agenda.ok(), r.agenda.held() == initials.items().to_multiset(), r.successors == successors
//@@ end

fn vt_extend_with<G: Agenda, C: VtInto<Item = G::Item>>(g: &mut G, c: C)
    requires old(g).ok()
    ensures final(g).ok(), extended(*old(g), c.items(), *final(g))
{ vt_extend(g, c.vt_into()) }
// ---- what a client of `recognise` sees ----
// each run that is reported is an accepting run on w, reported at most as often as there are runs of this kind;
// if `all`, every accepting run is reported; the weights do not increase when no transition's weight increases weights
spec fn shrinking<T: Clone, W: Clone + MulAssign + One + Ord, A: Automaton<T, W>>(a: A) -> bool {
    forall|k: A::Key, t: Transition<A::IInt, A::TInt, W>, w: W| #![trigger a.at(k).contains(t), w.mul_spec(t.weight)] a.at(k).contains(t) ==> ord_le(w.mul_spec(t.weight), w)
}
spec fn accepted<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, y: NodeOf<A, T, W>) -> nat {
    if a.accepting(y.conf) { runs(a, w, y.run.len()).count(y) } else { 0 }
}
spec fn chosen<T: Clone, W: Clone + MulAssign + One + Ord, A: Automaton<T, W>>(a: A, w: Seq<T>, pre: Seq<ItemOf<A, T, W>>, all: bool) -> bool {
    &&& forall|y: NodeOf<A, T, W>| #[trigger] nodes(pre).to_multiset().count(y) <= accepted(a, w, y)
    &&& all ==> forall|y: NodeOf<A, T, W>| #[trigger] nodes(pre).to_multiset().count(y) == accepted(a, w, y)
    &&& shrinking(a) ==> falling(pre)
}
spec fn falling<S, I, T, W: Ord>(s: Seq<Item<S, I, T, W>>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> ord_le((#[trigger] s[j]).0.weight, (#[trigger] s[i]).0.weight) }
spec fn reports<T: Clone, W: Clone + MulAssign + One + Ord, A: Automaton<T, W>>(a: A, w: Seq<T>, out: Seq<ShownOf<A, T, W>>, all: bool) -> bool {
    exists|pre: Seq<ItemOf<A, T, W>>| #[trigger] chosen(a, w, pre, all) && shown_as(a, pre, out)
}
spec fn shown_as<T: Clone, W: Clone + MulAssign + One + Ord, A: Automaton<T, W>>(a: A, pre: Seq<ItemOf<A, T, W>>, out: Seq<ShownOf<A, T, W>>) -> bool {
    pre.len() == out.len() && forall|i: int| 0 <= i < out.len() ==> a.shown(#[trigger] pre[i], out[i])
}

// ---- agendas that answer with an item of greatest weight ----
trait Best: Agenda where Self::Item: Weighted, <Self::Item as Weighted>::Weight: Ord {
    proof fn best_law(&self, post: &Self)
        requires self.ok(), self.popped(post)
        ensures match self.first() { None => true, Some(x) => forall|y: Self::Item| #[trigger] self.held().contains(y) ==> ord_le(y.weight(), x.weight()) };
}
proof fn items_has<I: Weighted>(m: Multiset<WeightedItem<I, I::Weight>>, y: I)
    requires weighed(m), items(m).contains(y)
    ensures m.contains(entry(y))
    decreases m.len()
{
    broadcast use group_multiset_axioms;
    if m.len() > 0 {
        let x = m.choose();
        assert(m.contains(x));
        if x.0 != y { weighed_laws(m); items_has(m.remove(x), y); }
    }
}
impl<I: Weighted> Best for binary_heap::weighted::BinaryHeap<I> where I::Weight: Ord {
    proof fn best_law(&self, post: &Self) {
        if let Some(x) = self.first() { assert forall|y: I| #[trigger] self.held().contains(y) implies ord_le(y.weight(), x.weight()) by { items_has(self.entries(), y); } }
    }
}
impl<I: Weighted> Best for limited_heap::weighted::LimitedHeap<I> where I::Weight: Ord {
    proof fn best_law(&self, post: &Self) {
        if let Some(x) = self.first() { assert forall|y: I| #[trigger] self.held().contains(y) implies ord_le(y.weight(), x.weight()) by { items_has(self.entries(), y); } }
    }
}

// ---- the search visits the runs ----
spec fn fans<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>, S: Fn(&ItemOf<A, T, W>) -> Vec<ItemOf<A, T, W>>>(a: A, f: S) -> bool {
    forall|x: ItemOf<A, T, W>, r: Vec<ItemOf<A, T, W>>| #[trigger] call_ensures(f, (&x,), r) ==> fanned(a, x, r@)
}
spec fn seen<S, I, T, W>(m: Multiset<Item<S, I, T, W>>) -> Multiset<Node<S, I, T, W>> { image(m, |x: Item<S, I, T, W>| nv(x)) }
proof fn fanned_follows<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, x: ItemOf<A, T, W>, r: Seq<ItemOf<A, T, W>>)
    requires fanned(a, x, r)
    ensures nodes(r).to_multiset() == follow(a)(nv(x)), seen(r.to_multiset()) == follow(a)(nv(x))
{
    let (v, s) = choose|v: Seq<&Transition<A::IInt, A::TInt, W>>, s: Seq<Vec<ItemOf<A, T, W>>>|
        #![trigger vals(v), concat(views(s))]
        vals(v).to_multiset() == a.at(A::key(nv(x).conf)) && r == concat(views(s)) && s.len() == v.len()
            && forall|i: int| 0 <= i < s.len() ==> nodes((#[trigger] s[i])@) == continued(nv(x), *v[i]);
    let g = |q: Vec<ItemOf<A, T, W>>| nodes(q@);
    let parts = s.map_values(g);
    nodes_concat(s);
    let f = |t: Transition<A::IInt, A::TInt, W>| continued(nv(x), t).to_multiset();
    assert forall|i: int| 0 <= i < vals(v).len() implies (#[trigger] parts[i]).to_multiset() == f(vals(v)[i]) by { assert(nodes(s[i]@) == continued(nv(x), *v[i])); }
    bind_concat(vals(v), parts, f);
    image_seq(r, |x: ItemOf<A, T, W>| nv(x));
}
proof fn nodes_concat<S, I, T, W>(s: Seq<Vec<Item<S, I, T, W>>>)
    ensures nodes(concat(views(s))) == concat(s.map_values(|q: Vec<Item<S, I, T, W>>| nodes(q@)))
    decreases s.len()
{
    let g = |q: Vec<Item<S, I, T, W>>| nodes(q@);
    if s.len() == 0 { assert(views(s) =~= Seq::empty()); assert(s.map_values(g) =~= Seq::empty()); assert(nodes(concat(views(s))) =~= Seq::empty()); } else {
        nodes_concat(s.drop_last());
        assert(views(s).drop_last() =~= views(s.drop_last()));
        assert(s.map_values(g).drop_last() =~= s.drop_last().map_values(g));
        assert(nodes(concat(views(s.drop_last())) + s.last()@) =~= nodes(concat(views(s.drop_last()))) + nodes(s.last()@));
    }
}
// the runs handed out and those waiting are the beginnings and the continuations of those handed out
spec fn balanced<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, out: Seq<ItemOf<A, T, W>>, held: Multiset<ItemOf<A, T, W>>, exact: bool) -> bool {
    let (l, r) = (nodes(out).to_multiset().add(seen(held)), roots(a, w).add(bind(nodes(out).to_multiset(), follow(a))));
    l.subset_of(r) && (exact ==> l == r)
}
proof fn seen_less<S, I, T, W>(m: Multiset<Item<S, I, T, W>>, n: Multiset<Item<S, I, T, W>>)
    requires m.subset_of(n)
    ensures seen(m).subset_of(seen(n))
{ image_less(m, n, |x: Item<S, I, T, W>| nv(x)); }
proof fn seen_add<S, I, T, W>(m: Multiset<Item<S, I, T, W>>, n: Multiset<Item<S, I, T, W>>)
    ensures seen(m.add(n)) == seen(m).add(seen(n))
{ image_add(m, n, |x: Item<S, I, T, W>| nv(x)); }
proof fn step_exactly<G: Agenda>(a: G, x: G::Item, succ: Seq<G::Item>, b: G)
    requires a.ok(), step(a, x, succ, b)
    ensures a.held().contains(x), b.held().subset_of(a.held().remove(x).add(succ.to_multiset())), G::lossless() ==> b.held() == a.held().remove(x).add(succ.to_multiset())
{
    let m = choose|m: G| #[trigger] extended(m, succ, b) && m.ok() && a.popped(&m);
    a.pop_law(&m);
    extend_law(m, succ, b);
}
proof fn answer_balances<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>, G: Agenda<Item = ItemOf<A, T, W>>>(a: A, w: Seq<T>, out: Seq<ItemOf<A, T, W>>, g: G, x: ItemOf<A, T, W>, succ: Seq<ItemOf<A, T, W>>, h: G, exact: bool)
    requires balanced(a, w, out, g.held(), exact), g.ok(), step(g, x, succ, h), fanned(a, x, succ), exact ==> G::lossless()
    ensures balanced(a, w, out.push(x), h.held(), exact)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    step_exactly(g, x, succ, h);
    fanned_follows(a, x, succ);
    let rest = g.held().remove(x);
    seen_less(h.held(), rest.add(succ.to_multiset()));
    seen_add(rest, succ.to_multiset());
    image_remove(g.held(), |x: ItemOf<A, T, W>| nv(x), x);
    let o = nodes(out).to_multiset();
    assert(nodes(out.push(x)) =~= nodes(out).push(nv(x)));
    assert(nodes(out.push(x)).to_multiset() =~= o.insert(nv(x)));
    bind_insert(o, follow(a), nv(x));
    let r0 = roots(a, w).add(bind(o, follow(a)));
    let r1 = roots(a, w).add(bind(o.insert(nv(x)), follow(a)));
    assert(r1 =~= r0.add(follow(a)(nv(x))));
    let l0 = o.add(seen(g.held()));
    let lx = o.insert(nv(x)).add(seen(rest.add(succ.to_multiset())));
    assert(lx =~= l0.add(follow(a)(nv(x))));
    assert(lx.subset_of(r1)) by { assert forall|y: NodeOf<A, T, W>| lx.count(y) <= r1.count(y) by { assert(l0.count(y) <= r0.count(y)); } }
    let l1 = o.insert(nv(x)).add(seen(h.held()));
    assert forall|y: NodeOf<A, T, W>| l1.count(y) <= r1.count(y) by { assert(seen(h.held()).count(y) <= seen(rest.add(succ.to_multiset())).count(y)); assert(lx.count(y) <= r1.count(y)); }
    assert(l1.subset_of(r1));
}
proof fn search_balances<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>, G: Agenda<Item = ItemOf<A, T, W>>, S: Fn(&ItemOf<A, T, W>) -> Vec<ItemOf<A, T, W>>>(a: A, w: Seq<T>, t: Seq<G>, f: S, out: Seq<ItemOf<A, T, W>>, exact: bool)
    requires searched(t, f, out, false), fans(a, f), t[0].ok(), balanced(a, w, Seq::empty(), t[0].held(), exact), exact ==> G::lossless()
    ensures balanced(a, w, out, t.last().held(), exact), t.last().ok()
    decreases out.len()
{
    if out.len() == 0 { assert(out =~= Seq::empty()); assert(t.last() == t[0]); } else {
        let (u, o) = (t.drop_last(), out.drop_last());
        let n = o.len() as int;
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] answered(u, f, o, i) by { assert(answered(t, f, out, i)); assert(o[i] == out[i] && u[i] == t[i] && u[i + 1] == t[i + 1]); }
        search_balances(a, w, u, f, o, exact);
        assert(answered(t, f, out, n));
        let succ = choose|succ: Vec<ItemOf<A, T, W>>| #[trigger] call_ensures(f, (&out[n],), succ) && step(t[n], out[n], succ@, t[n + 1]);
        answer_balances(a, w, o, t[n], out[n], succ@, t[n + 1], exact);
        assert(out =~= o.push(out[n]));
        assert(t.last() == t[n + 1] && u.last() == t[n]);
    }
}
// ---- balanced histories and the runs of the automaton ----
proof fn follow_longer<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, x: NodeOf<A, T, W>, y: NodeOf<A, T, W>)
    requires follow(a)(x).contains(y)
    ensures y.run.len() == x.run.len() + 1,
        exists|t: Transition<A::IInt, A::TInt, W>| #[trigger] a.at(A::key(x.conf)).contains(t) && continued(x, t).contains(y),
        shrinking_at(a, x, y)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let f = |t: Transition<A::IInt, A::TInt, W>| continued(x, t).to_multiset();
    bind_has(a.at(A::key(x.conf)), f, y);
    let t = choose|t: Transition<A::IInt, A::TInt, W>| #[trigger] a.at(A::key(x.conf)).contains(t) && f(t).contains(y);
    assert(continued(x, t).contains(y));
    let i = choose|i: int| 0 <= i < continued(x, t).len() && continued(x, t)[i] == y;
    assert(y.run == x.run.push(t));
    assert(y.conf == moves(t, x.conf)[i]);
    assert(y.conf.weight == x.conf.weight.mul_spec(t.weight));
}
spec fn shrinking_at<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, x: NodeOf<A, T, W>, y: NodeOf<A, T, W>) -> bool {
    exists|t: Transition<A::IInt, A::TInt, W>| #[trigger] a.at(A::key(x.conf)).contains(t) && y.conf.weight == x.conf.weight.mul_spec(t.weight)
}
spec fn of_length<S, I, T, W>(n: nat) -> spec_fn(Node<S, I, T, W>) -> bool { |x: Node<S, I, T, W>| x.run.len() == n }
proof fn runs_length<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, n: nat, y: NodeOf<A, T, W>)
    requires runs(a, w, n).contains(y)
    ensures y.run.len() == n
    decreases n
{
    broadcast use group_multiset_axioms;
    if n > 0 {
        bind_has(runs(a, w, (n - 1) as nat), follow(a), y);
        let x = choose|x: NodeOf<A, T, W>| #[trigger] runs(a, w, (n - 1) as nat).contains(x) && follow(a)(x).contains(y);
        runs_length(a, w, (n - 1) as nat, x);
        follow_longer(a, x, y);
    }
}
proof fn history_is_runs<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, o: Multiset<NodeOf<A, T, W>>, n: nat, exact: bool)
    requires o.subset_of(roots(a, w).add(bind(o, follow(a)))), exact ==> o == roots(a, w).add(bind(o, follow(a)))
    ensures o.filter(of_length(n)).subset_of(runs(a, w, n)), exact ==> o.filter(of_length(n)) == runs(a, w, n)
    decreases n
{
    broadcast use group_multiset_axioms;
    let b = bind(o, follow(a));
    let r = roots(a, w).add(b);
    assert forall|y: NodeOf<A, T, W>| #[trigger] o.count(y) <= r.count(y) by {}
    if n == 0 {
        assert forall|y: NodeOf<A, T, W>| #[trigger] o.filter(of_length(n)).count(y) <= runs(a, w, n).count(y) && (exact ==> o.filter(of_length(n)).count(y) == runs(a, w, n).count(y)) by {
            if y.run.len() == 0 {
                bind_has(o, follow(a), y);
                if b.contains(y) { let x = choose|x: NodeOf<A, T, W>| #[trigger] o.contains(x) && follow(a)(x).contains(y); follow_longer(a, x, y); }
                assert(o.count(y) <= r.count(y));
            } else if runs(a, w, n).contains(y) { runs_length(a, w, n, y); }
        }
    } else {
        let p = (n - 1) as nat;
        history_is_runs(a, w, o, p, exact);
        let op = o.filter(of_length(p));
        bind_less(op, runs(a, w, p), follow(a));
        assert forall|y: NodeOf<A, T, W>| #[trigger] o.filter(of_length(n)).count(y) <= runs(a, w, n).count(y) && (exact ==> o.filter(of_length(n)).count(y) == runs(a, w, n).count(y)) by {
            if y.run.len() == n {
                assert forall|x: NodeOf<A, T, W>| #[trigger] o.contains(x) && follow(a)(x).contains(y) implies of_length(p)(x) by { follow_longer(a, x, y); }
                bind_only(o, follow(a), of_length(p), y);
                assert(o.count(y) <= r.count(y));
                assert(bind(op, follow(a)).count(y) <= bind(runs(a, w, p), follow(a)).count(y));
            } else if runs(a, w, n).contains(y) { runs_length(a, w, n, y); }
        }
    }
    if exact { assert(o.filter(of_length(n)) =~= runs(a, w, n)); }
}
proof fn balanced_counts<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, out: Seq<ItemOf<A, T, W>>, held: Multiset<ItemOf<A, T, W>>, y: NodeOf<A, T, W>, exact: bool)
    requires balanced(a, w, out, held, exact), exact ==> held.len() == 0
    ensures nodes(out).to_multiset().count(y) <= runs(a, w, y.run.len()).count(y), exact ==> nodes(out).to_multiset().count(y) == runs(a, w, y.run.len()).count(y)
{
    broadcast use group_multiset_axioms;
    let o = nodes(out).to_multiset();
    let r = roots(a, w).add(bind(o, follow(a)));
    assert forall|y: NodeOf<A, T, W>| #[trigger] o.count(y) <= r.count(y) by { assert(o.add(seen(held)).count(y) <= r.count(y)); }
    assert(o.subset_of(r));
    if exact { assert(held =~= Multiset::empty()); bind_none(|x: ItemOf<A, T, W>| Multiset::singleton(nv(x))); assert(o.add(seen(held)) =~= o); }
    history_is_runs(a, w, o, y.run.len(), exact);
    assert(o.filter(of_length(y.run.len())).count(y) == o.count(y));
}

// ---- order ----
spec fn below_all<S, I, T, W: Ord>(m: Multiset<Item<S, I, T, W>>, x: Item<S, I, T, W>) -> bool { forall|y: Item<S, I, T, W>| #[trigger] m.contains(y) ==> ord_le(y.0.weight, x.0.weight) }
proof fn search_falls<T: Clone, W: Clone + MulAssign + One + Ord, A: Automaton<T, W>, G: Best<Item = ItemOf<A, T, W>>, S: Fn(&ItemOf<A, T, W>) -> Vec<ItemOf<A, T, W>>>(a: A, t: Seq<G>, f: S, out: Seq<ItemOf<A, T, W>>)
    requires searched(t, f, out, false), fans(a, f), t[0].ok(), shrinking(a), lawful_ord::<W>()
    ensures falling(out), t.last().ok(), out.len() > 0 ==> below_all(t.last().held(), out.last())
    decreases out.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    if out.len() == 0 { assert(t.last() == t[0]); } else {
        let (u, o) = (t.drop_last(), out.drop_last());
        let n = o.len() as int;
        assert forall|i: int| 0 <= i < o.len() implies #[trigger] answered(u, f, o, i) by { assert(answered(t, f, out, i)); assert(o[i] == out[i] && u[i] == t[i] && u[i + 1] == t[i + 1]); }
        search_falls(a, u, f, o);
        assert(answered(t, f, out, n));
        let x = out[n];
        let (g, h) = (t[n], t[n + 1]);
        let succ = choose|succ: Vec<ItemOf<A, T, W>>| #[trigger] call_ensures(f, (&x,), succ) && step(g, x, succ@, h);
        assert(t.last() == h && u.last() == g);
        step_exactly(g, x, succ@, h);
        let m = choose|m: G| #[trigger] extended(m, succ@, h) && m.ok() && g.popped(&m);
        g.best_law(&m);
        fanned_follows(a, x, succ@);
        assert forall|y: ItemOf<A, T, W>| #[trigger] h.held().contains(y) implies ord_le(y.0.weight, x.0.weight) by {
            assert(h.held().count(y) <= g.held().remove(x).add(succ@.to_multiset()).count(y));
            if g.held().contains(y) { assert(ord_le(y.weight(), x.weight())); } else {
                assert(succ@.to_multiset().contains(y));
                assert(succ@.contains(y));
                let k = choose|k: int| 0 <= k < succ@.len() && succ@[k] == y;
                assert(nodes(succ@)[k] == nv(y));
                assert(nodes(succ@).contains(nv(y)));
                follow_longer(a, nv(x), nv(y));
            }
        }
        assert forall|i: int, j: int| 0 <= i < j < out.len() implies ord_le((#[trigger] out[j]).0.weight, (#[trigger] out[i]).0.weight) by {
            if j < n { assert(o[i] == out[i] && o[j] == out[j]); } else {
                assert(g.held().contains(x));
                assert(ord_le(x.0.weight, o.last().0.weight));
                assert(o[i] == out[i]);
                if i < n - 1 { assert(ord_le(o[n - 1].0.weight, o[i].0.weight)); }
            }
        }
    }
}
// ---- of all runs, the accepting ones ----
proof fn filter_falls<S, I, T, W: Ord, F: Fn(&Item<S, I, T, W>) -> bool>(f: F, raw: Seq<Item<S, I, T, W>>, pre: Seq<Item<S, I, T, W>>)
    requires kept(f, raw, pre), falling(raw)
    ensures falling(pre)
{ let ix = kept_listed(f, raw, pre); assert forall|i: int, j: int| 0 <= i < j < pre.len() implies ord_le((#[trigger] pre[j]).0.weight, (#[trigger] pre[i]).0.weight) by { assert(ix[i] < ix[j]); assert(raw[ix[i]] == pre[i] && raw[ix[j]] == pre[j]); } }
proof fn filter_counts<S, I, T, W>(p: spec_fn(Item<S, I, T, W>) -> bool, q: spec_fn(Node<S, I, T, W>) -> bool, raw: Seq<Item<S, I, T, W>>, y: Node<S, I, T, W>)
    requires forall|x: Item<S, I, T, W>| #[trigger] p(x) <==> q(nv(x))
    ensures nodes(raw.filter(p)).to_multiset().count(y) == if q(y) { nodes(raw).to_multiset().count(y) } else { 0 }
    decreases raw.len()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    reveal(Seq::filter);
    if raw.len() == 0 { assert(raw.filter(p) =~= Seq::empty()); assert(nodes(raw) =~= Seq::empty()); assert(nodes(raw).to_multiset() =~= Multiset::empty()); assert(nodes(raw.filter(p)) =~= Seq::empty()); } else {
        let (r, x) = (raw.drop_last(), raw.last());
        filter_counts(p, q, r, y);
        assert(nodes(raw) =~= nodes(r).push(nv(x)));
        assert(nodes(raw).to_multiset() =~= nodes(r).to_multiset().insert(nv(x)));
        if p(x) {
            assert(raw.filter(p) =~= r.filter(p).push(x));
            assert(nodes(raw.filter(p)) =~= nodes(r.filter(p)).push(nv(x)));
            assert(nodes(raw.filter(p)).to_multiset() =~= nodes(r.filter(p)).to_multiset().insert(nv(x)));
        } else { assert(raw.filter(p) =~= r.filter(p)); }
    }
}
proof fn recognised<T: Clone, W: Clone + MulAssign + One + Ord, A: Automaton<T, W>, G: Best<Item = ItemOf<A, T, W>>, S: Fn(&ItemOf<A, T, W>) -> Vec<ItemOf<A, T, W>>, F: Fn(&ItemOf<A, T, W>) -> bool, H: Fn(ItemOf<A, T, W>) -> ShownOf<A, T, W>>(a: A, w: Seq<T>, m: Mapped<Filtered<Search<G, S>, F>, H>, out: Seq<ShownOf<A, T, W>>, ended: bool)
    requires
        m.hands(out, ended), lawful_ord::<W>(),
        fans(a, m.inner.inner.successors),
        m.inner.inner.agenda.ok(), seen(m.inner.inner.agenda.held()).subset_of(roots(a, w)), G::lossless() ==> seen(m.inner.inner.agenda.held()) == roots(a, w),
        forall|x: ItemOf<A, T, W>, b: bool| #[trigger] call_ensures(m.inner.keep, (&x,), b) ==> b == a.accepting(nv(x).conf),
        forall|x: ItemOf<A, T, W>, y: ShownOf<A, T, W>| #[trigger] call_ensures(m.show, (x,), y) ==> a.shown(x, y),
    ensures reports(a, w, out, ended && G::lossless())
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let (fi, se) = (m.inner, m.inner.inner);
    let pre = choose|pre: Seq<ItemOf<A, T, W>>| #[trigger] m.inner.hands(pre, ended) && all_shown(m.show, pre, out);
    let raw = choose|raw: Seq<ItemOf<A, T, W>>| #[trigger] fi.inner.hands(raw, ended) && kept(fi.keep, raw, pre);
    let t = choose|t: Seq<G>| #[trigger] searched(t, se.successors, raw, ended) && t[0] == se.agenda;
    assert(searched(t, se.successors, raw, false));
    let exact = ended && G::lossless();
    begins_balanced(a, w, se.agenda.held(), exact);
    search_balances(a, w, t, se.successors, raw, exact);
    let p = |x: ItemOf<A, T, W>| a.accepting(nv(x).conf);
    let q = |y: NodeOf<A, T, W>| a.accepting(y.conf);
    kept_is_filter(fi.keep, p, raw, pre);
    assert forall|y: NodeOf<A, T, W>| #[trigger] nodes(pre).to_multiset().count(y) <= accepted(a, w, y) && (exact ==> nodes(pre).to_multiset().count(y) == accepted(a, w, y)) by {
        filter_counts(p, q, raw, y);
        balanced_counts(a, w, raw, t.last().held(), y, exact);
    }
    if shrinking(a) { search_falls(a, t, se.successors, raw); filter_falls(fi.keep, raw, pre); }
    assert(chosen(a, w, pre, exact));
    assert(shown_as(a, pre, out));
}
proof fn recognition_ready<T: Clone, W: Clone + Copy + MulAssign + One + Ord, A: Automaton<T, W>, G: Best<Item = ItemOf<A, T, W>>, S: Fn(&ItemOf<A, T, W>) -> Vec<ItemOf<A, T, W>>, F: Fn(&ItemOf<A, T, W>) -> bool, H: Fn(ItemOf<A, T, W>) -> ShownOf<A, T, W>>(a: A, w: Seq<T>, m: Mapped<Filtered<Search<G, S>, F>, H>)
    requires
        m.inner.ready(), legible(a), fans(a, m.inner.inner.successors), seen(m.inner.inner.agenda.held()).subset_of(roots(a, w)),
        forall|x: ItemOf<A, T, W>| #![trigger nv(x)] a.showable(nv(x)) ==> call_requires(m.show, (x,)),
    ensures m.ready()
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let (fi, se) = (m.inner, m.inner.inner);
    assert forall|out: Seq<ItemOf<A, T, W>>, ended: bool, i: int| #![trigger m.inner.hands(out, ended), out[i]] m.inner.hands(out, ended) && 0 <= i < out.len() implies call_requires(m.show, (out[i],)) by {
        let raw = choose|raw: Seq<ItemOf<A, T, W>>| #[trigger] fi.inner.hands(raw, ended) && kept(fi.keep, raw, out);
        let t = choose|t: Seq<G>| #[trigger] searched(t, se.successors, raw, ended) && t[0] == se.agenda;
        assert(searched(t, se.successors, raw, false));
        begins_balanced(a, w, se.agenda.held(), false);
        search_balances(a, w, t, se.successors, raw, false);
        let ix = kept_listed(fi.keep, raw, out);
        let y = nv(out[i]);
        assert(raw[ix[i]] == out[i]);
        assert(nodes(raw)[ix[i]] == y);
        assert(nodes(raw).contains(y));
        balanced_counts(a, w, raw, t.last().held(), y, false);
        assert(runs(a, w, y.run.len()).contains(y));
    }
}
proof fn begins_balanced<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, held: Multiset<ItemOf<A, T, W>>, exact: bool)
    requires seen(held).subset_of(roots(a, w)), exact ==> seen(held) == roots(a, w)
    ensures balanced(a, w, Seq::empty(), held, exact)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    let none = Seq::<ItemOf<A, T, W>>::empty();
    assert(nodes(none) =~= Seq::empty());
    assert(nodes(none).to_multiset() =~= Multiset::empty());
    bind_none(follow(a));
    assert(nodes(none).to_multiset().add(seen(held)) =~= seen(held));
    assert(roots(a, w).add(bind(nodes(none).to_multiset(), follow(a))) =~= roots(a, w));
}
proof fn roots_of_items<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, s: Seq<ItemOf<A, T, W>>)
    requires
        match words(a, w) { None => s.len() == 0, Some(l) => s.len() == 1 && nv(s[0]) == (Node::<_, A::IInt, _, _> { conf: Conf { word: l, storage: a.start(), weight: W::unit() }, run: Seq::empty() }) }
    ensures seen(s.to_multiset()) == roots(a, w)
{
    broadcast use {group_multiset_axioms, vstd::seq_lib::group_to_multiset_ensures};
    image_seq(s, |x: ItemOf<A, T, W>| nv(x));
    if words(a, w) is Some { assert(nodes(s) =~= Seq::empty().push(nv(s[0]))); assert(nodes(s).to_multiset() =~= Multiset::singleton(nv(s[0]))); }
    else { assert(nodes(s) =~= Seq::empty()); assert(nodes(s).to_multiset() =~= Multiset::empty()); }
}
spec fn words<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>) -> Option<Seq<A::TInt>> {
    if forall|i: int| 0 <= i < w.len() ==> a.letter(#[trigger] w[i]) is Some { Some(somes(letters(a, w))) } else { None }
}
proof fn words_made<T: Clone, W: Clone + MulAssign + One, A: Automaton<T, W>>(a: A, w: Seq<T>, v: Seq<Option<A::TInt>>, r: Option<Vec<A::TInt>>)
    requires v.len() == w.len(), forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == a.letter(w[i]), <Option<Vec<A::TInt>> as VtFrom<Option<A::TInt>>>::made(v, r)
    ensures match r { Some(l) => words(a, w) == Some(l@), None => words(a, w) is None }
{
    assert(v =~= letters(a, w));
    if r is None { let i = choose|i: int| 0 <= i < v.len() && #[trigger] v[i] is None; assert(a.letter(w[i]) is None); }
    else { assert forall|i: int| 0 <= i < w.len() implies a.letter(#[trigger] w[i]) is Some by { assert(v[i] is Some); } }
}

//@@ fn src/recognisable/automaton.rs recognise
//@ params a word
//@ newret impl Handing<Item = Item<<A::I as Instruction>::Storage, A::I, T, W>> + 'a
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ mapmethod map . vt_map_by
//@ mapmethod get vt_lookup &
//@ mapmethod flat_map vt_flat_map
//@ mapmethod filter vt_filtered
//@ mapmethod into_iter vt_collect
//@ ret r
//@ requires lawful_automaton(*a)
//@ ensures
    r.ready(),
    forall|out: Seq<ShownOf<A, T, W>>, ended: bool| #[trigger] r.hands(out, ended) ==> reports(*a, word@, out, ended),
//@ afterlet 0
    proof {
        assert forall|v: Seq<Option<A::TInt>>| v.len() == word@.len() && (forall|i: int| 0 <= i < v.len() ==> #[trigger] v[i] == a.letter(word@[i])) && #[trigger] <Option<Vec<A::TInt>> as VtFrom<Option<A::TInt>>>::made(v, the_words) implies (match the_words { Some(l) => words(*a, word@) == Some(l@), None => words(*a, word@) is None }) by { words_made(*a, word@, v, the_words); }
    }
//@ afterlet 1
    proof { roots_of_items(*a, word@, init_confs.items()); }
//@ tail
    proof {
        recognition_ready(*a, word@, result__);
        assert forall|out: Seq<ShownOf<A, T, W>>, ended: bool| #[trigger] result__.hands(out, ended) implies reports(*a, word@, out, ended) by { recognised(*a, word@, result__, out, ended); }
    }
//@ closure 0 (t: &T) -> (n: Option<A::TInt>)
    ensures n == a.letter(*t)
//@ closure 1 (the_word: Vec<A::TInt>) -> (x: ItemOf<A, T, W>)
    ensures nv(x) == (Node { conf: Conf { word: the_word@, storage: a.start(), weight: W::unit() }, run: Seq::empty() })
//@ closure 2 (x: &ItemOf<A, T, W>) -> (y: Vec<ItemOf<A, T, W>>)
    ensures fanned(*a, *x, y@)
//@ closure 3 (r: &Transition<A::IInt, A::TInt, W>) -> (y: Vec<ItemOf<A, T, W>>)
    requires a.at(A::key(nv(*x).conf)).contains(*r)
    ensures nodes(y@) == continued(nv(*x), *r)
//@ closurestart 3
    proof {
        assert forall|cs: Seq<Configuration<<A::IInt as Instruction>::Storage, A::TInt, W>>, z: Seq<ItemOf<A, T, W>>|
            #![trigger applied(*r, *conf, cs), nodes(z)]
            applied(*r, *conf, cs) && z.len() == cs.len() && (forall|i: int| 0 <= i < z.len() ==> nv(#[trigger] z[i]) == (Node { conf: cv(cs[i]), run: held(*run).push(*r) })) implies nodes(z) == continued(nv(*x), *r)
        by { continued_by(*x, *r, cs, z); }
    }
//@ closure 4 (conf1: Configuration<<A::IInt as Instruction>::Storage, A::TInt, W>) -> (z: ItemOf<A, T, W>)
    ensures nv(z) == (Node { conf: cv(conf1), run: held(*run).push(*r) })
//@ closure 5 (x: &ItemOf<A, T, W>) -> (b: bool)
    ensures b == a.accepting(nv(*x).conf)
//@ closure 6 (i: ItemOf<A, T, W>) -> (y: ShownOf<A, T, W>)
    requires a.showable(nv(i))
    ensures a.shown(i, y)
//@@ end
