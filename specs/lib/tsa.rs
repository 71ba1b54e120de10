// ---- lib/tsa.rs: tree stack automata, their recognition and what they tell ----
//@@ include lib/recognition.rs
//@@ include lib/slot.rs
//@@ include lib/numbers.rs
//@@ include lib/pushdown_conv.rs
//@@ include lib/numbered_runs.rs
//@@ include lib/treestack.rs
//@@ include lib/namer.rs
//@@ include lib/treestack_map.rs
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs TreeStack::map
//@ params f
//@ ret r
//@ dropbound FnMut
//@ dropgeneric F
//@ addgeneric F: Namer<A, B>
//@ callmap f vt_call
//@ optmap 1
//@ eachmap 0
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ requires F::able(), can_label(can_ask::<A, B, F>(old(f).known()), *self)
//@ ensures like(named_in::<A, B, F>(final(f).known()), *self, r), moved_on(*old(f), *final(f)), parent_fits(self.children@, r.children@)
//@ decreases *self
//@ start
    let ghost f0 = *f;
    proof { f.tied_on_itself(); }
//@ afterlet 0
    let ghost f1 = *f;
    proof { still_can::<A, B, F>(f0.known(), f1.known(), *self); assert(named_in::<A, B, F>(f1.known())(self.value, new_value)); }
//@ afterlet 1
    let ghost f2 = *f;
    proof {
        still_can::<A, B, F>(f1.known(), f2.known(), *self);
        still_named::<A, B, F>(f1.known(), f2.known());
        assert(like_parent(named_in::<A, B, F>(f2.known()), self.parent, new_parent));
        f2.tied_on_itself();
    }
//@ loop 0 for it
    invariant
        F::able(), vals(it.seq()) == self.children@, vt_out@.len() == it.index@, moved_on(f2, *f),
        like_kids(named_in::<A, B, F>(f.known()), self.children@, vt_out@),
        can_label(can_ask::<A, B, F>(f.known()), *self),
//@ loopstart 0
    let ghost (f3, outs) = (*f, vt_out@);
    assert(vals(it.seq())[it.index@] == *o);
    proof { ts_clones::<A>(); f3.tied_on_itself(); }
//@ loopend 0
    proof {
        moves_on(f2, f3, *f);
        still_can::<A, B, F>(f3.known(), f.known(), *self);
        still_named::<A, B, F>(f3.known(), f.known());
        like_wider(named_in::<A, B, F>(f3.known()), named_in::<A, B, F>(f.known()));
        assert(vt_out@.drop_last() =~= outs);
        assert(self.children@[it.index@] == *o);
        assert(o is None <==> vt_out@.last() is None);
        assert(o is Some ==> like(named_in::<A, B, F>(f.known()), *(*o)->0, *vt_out@.last()->0));
        kid_like(named_in::<A, B, F>(f.known()), self.children@[it.index@], vt_out@.last());
        assert(like_kid(named_in::<A, B, F>(f.known()), self.children@[it.index@], vt_out@.last()));
    }
//@ afterlet 2
    proof {
        still_named::<A, B, F>(f2.known(), f.known());
        like_wider(named_in::<A, B, F>(f2.known()), named_in::<A, B, F>(f.known()));
        still_named::<A, B, F>(f1.known(), f.known());
        moves_on(f0, f1, f2);
        moves_on(f0, f2, *f);
    }
//@ tail
    proof {
        like_whole(named_in::<A, B, F>(f.known()), *self, result__);
    }
//@@ end

//@@ include lib/numbering.rs SOURCE=>src/automata/tree_stack_automaton/tree_stack.rs OWNER=>TreeStack Numbering=>StackNumbering
//@@ include lib/naming.rs SOURCE=>src/automata/tree_stack_automaton/tree_stack.rs OWNER=>TreeStack Naming=>StackNaming
//@@ include lib/numbering.rs SOURCE=>src/automata/tree_stack_automaton/tree_stack_instruction.rs OWNER=>TreeStackInstruction Numbering=>InstrNumbering
//@@ include lib/naming.rs SOURCE=>src/automata/tree_stack_automaton/tree_stack_instruction.rs OWNER=>TreeStackInstruction Naming=>InstrNaming
// t in numbers
spec fn ts_same<A>(j: Seq<A>) -> spec_fn(TreeStack<A>, TreeStack<usize>) -> bool { |t: TreeStack<A>, m: TreeStack<usize>| wf(t) && wf(m) && like(by_number(j), t, m) }
spec fn by_number<A>(j: Seq<A>) -> spec_fn(A, usize) -> bool { |a: A, n: usize| numbers(j, a, n) }
proof fn numbered_like<A: Clone + Eq + Hash>(k: Seq<A>)
    ensures forall|t: TreeStack<A>, r: TreeStack<usize>| #[trigger] like(named_in::<A, usize, StackNumbering<'_, A>>(k), t, r) ==> like(by_number(k), t, r)
{ like_wider(named_in::<A, usize, StackNumbering<'_, A>>(k), by_number(k)); }
proof fn named_like<A: Clone + Eq + Hash>(k: Seq<A>)
    ensures forall|t: TreeStack<usize>, r: TreeStack<A>| #[trigger] like(named_in::<usize, A, StackNaming<'_, A>>(k), t, r) ==> like(by_number(k), r, t)
{
    let rel = named_in::<usize, A, StackNaming<'_, A>>(k);
    assert forall|t: TreeStack<usize>, r: TreeStack<A>| #[trigger] like(rel, t, r) implies like(by_number(k), r, t) by {
        assert forall|p: Seq<usize>| opt(by_number(k), #[trigger] above(r, p), above(t, p)) by { assert(opt(rel, above(t, p), above(r, p))); }
        assert forall|p: Seq<usize>| opt(by_number(k), #[trigger] node(r, p), node(t, p)) by { assert(opt(rel, node(t, p), node(r, p))); }
    }
}
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs <Integerisable1~for~TreeStack>::integerise
//@ implhead impl<A: Clone + Eq + Hash> TreeStack<A>
//@ params integeriser
//@ newparams &self, integeriser: &mut HashIntegeriser<A>
//@ newret TreeStack<usize>
//@ lift 0 StackNumbering { integeriser }
//@ ret r
//@ requires HashIntegeriser::<A>::countable()
//@ ensures like(by_number(final(integeriser).known()), *self, r), begun(old(integeriser).known(), final(integeriser).known()), distinct(old(integeriser).known()) ==> distinct(final(integeriser).known())
//@ start
    proof { can_any(can_ask::<A, usize, StackNumbering<'_, A>>(integeriser.known()), *self); }
//@ tail
    proof { numbered_like(integeriser.known()); }
//@@ end
//@@ fn src/automata/tree_stack_automaton/tree_stack.rs <Integerisable1~for~TreeStack>::un_integerise
//@ implhead impl<A: Clone + Eq + Hash> TreeStack<A>
//@ params aint integeriser
//@ newparams aint: &TreeStack<usize>, integeriser: &HashIntegeriser<A>
//@ newret TreeStack<A>
//@ lift 0 StackNaming { integeriser }
//@ ret r
//@ requires HashIntegeriser::<A>::countable(), can_name(integeriser.known(), *aint)
//@ ensures like(by_number(integeriser.known()), r, *aint)
//@ start
    proof { can_all(can_ask::<usize, A, StackNaming<'_, A>>(integeriser.known()), *aint); }
//@ tail
    proof { named_like(integeriser.known()); }
//@@ end
spec fn can_name<A>(k: Seq<A>, t: TreeStack<usize>) -> bool { wf(t) && forall|p: Seq<usize>| (#[trigger] node(t, p)) is Some ==> node(t, p)->0 < k.len() }

//@@ include lib/treestack_instr.rs
// the same instruction with other labels
spec fn instr_like<A, B>(rel: spec_fn(A, B) -> bool, x: TreeStackInstruction<A>, y: TreeStackInstruction<B>) -> bool {
    match (x, y) {
        (TreeStackInstruction::Up { n, current_val, old_val, new_val }, TreeStackInstruction::Up { n: n2, current_val: c2, old_val: o2, new_val: w2 }) => n == n2 && rel(current_val, c2) && rel(old_val, o2) && rel(new_val, w2),
        (TreeStackInstruction::Push { n, current_val, new_val }, TreeStackInstruction::Push { n: n2, current_val: c2, new_val: w2 }) => n == n2 && rel(current_val, c2) && rel(new_val, w2),
        (TreeStackInstruction::Down { current_val, old_val, new_val }, TreeStackInstruction::Down { current_val: c2, old_val: o2, new_val: w2 }) => rel(current_val, c2) && rel(old_val, o2) && rel(new_val, w2),
        _ => false,
    }
}
spec fn can_instr<A>(ask: spec_fn(A) -> bool, x: TreeStackInstruction<A>) -> bool {
    match x {
        TreeStackInstruction::Up { n, current_val, old_val, new_val } => ask(current_val) && ask(old_val) && ask(new_val),
        TreeStackInstruction::Push { n, current_val, new_val } => ask(current_val) && ask(new_val),
        TreeStackInstruction::Down { current_val, old_val, new_val } => ask(current_val) && ask(old_val) && ask(new_val),
    }
}
//@@ fn src/automata/tree_stack_automaton/tree_stack_instruction.rs TreeStackInstruction::map
//@ params f
//@ newparams &self, f: &mut F
//@ dropbound FnMut
//@ dropgeneric F
//@ addgeneric F: Namer<A, B>
//@ callmap f vt_call
//@ ret r
//@ requires F::able(), can_instr(can_ask::<A, B, F>(old(f).known()), *self)
//@ ensures instr_like(named_in::<A, B, F>(final(f).known()), *self, r), moved_on(*old(f), *final(f))
//@ start
    proof { step_on::<A, B, F>(); f.tied_on_itself(); }
//@@ end
proof fn step_on<A, B, F: Namer<A, B>>()
    ensures
        forall|k: Seq<F::V>, l: Seq<F::V>, a: A, b: B| begun(k, l) && #[trigger] F::named(k, a, b) ==> #[trigger] F::named(l, a, b),
        forall|k: Seq<F::V>, l: Seq<F::V>, a: A| begun(k, l) && #[trigger] F::askable(k, a) ==> #[trigger] F::askable(l, a),
        forall|f: F, g: F, h: F| #[trigger] f.tied(&g) && #[trigger] g.tied(&h) ==> f.tied(&h),
{
    assert forall|k: Seq<F::V>, l: Seq<F::V>, a: A, b: B| begun(k, l) && #[trigger] F::named(k, a, b) implies #[trigger] F::named(l, a, b) by { F::laws(k, l, a, b); }
    assert forall|k: Seq<F::V>, l: Seq<F::V>, a: A| begun(k, l) && #[trigger] F::askable(k, a) implies #[trigger] F::askable(l, a) by { F::laws(k, l, a, arbitrary()); }
    assert forall|f: F, g: F, h: F| #[trigger] f.tied(&g) && #[trigger] g.tied(&h) implies f.tied(&h) by { f.tied_on(&g, &h); }
}

#[verifier::external] impl<A: PartialEq> PartialEq for TreeStackInstruction<A> { fn eq(&self, o: &Self) -> bool { unimplemented!() } }
#[verifier::external] impl<A: Eq> Eq for TreeStackInstruction<A> {  }
// what deriving Clone gives
impl<A: Clone> Clone for TreeStackInstruction<A> {
    fn clone(&self) -> (r: Self)
        ensures faithful::<A>() ==> r == *self
    {
        match self {
            TreeStackInstruction::Up { n, current_val, old_val, new_val } => TreeStackInstruction::Up { n: *n, current_val: current_val.clone(), old_val: old_val.clone(), new_val: new_val.clone() },
            TreeStackInstruction::Push { n, current_val, new_val } => TreeStackInstruction::Push { n: *n, current_val: current_val.clone(), new_val: new_val.clone() },
            TreeStackInstruction::Down { current_val, old_val, new_val } => TreeStackInstruction::Down { current_val: current_val.clone(), old_val: old_val.clone(), new_val: new_val.clone() },
        }
    }
}
// what `apply` answers, as a function of instruction and storage (assumed: lists and shared nodes have no identity);
// that it is what `applied` below says is the contract `apply` is verified against above
impl<A: Ord + Clone + Hash> Instruction for TreeStackInstruction<A> {
    type Storage = TreeStack<A>;
    closed spec fn works() -> bool { lawful::<A>() && faithful::<A>() }
    uninterp spec fn outcomes(&self, s: TreeStack<A>) -> Seq<TreeStack<A>>;
    #[verifier::external_body]
    fn apply(&self, s: TreeStack<A>) -> (r: Vec<TreeStack<A>>) { unimplemented!() }
}
spec fn led<A>(i: TreeStackInstruction<A>, t: TreeStack<A>, r: Seq<TreeStack<A>>) -> bool {
    &&& !possible(i, t) ==> r.len() == 0
    &&& possible(i, t) ==> r.len() == 1 && wf(r[0]) && pointer(r[0]) == target(i, t) && with(t, target(i, t), written(i), r[0])
}
#[verifier::external_body]
proof fn leads<A: Ord + Clone + Hash>(i: TreeStackInstruction<A>, t: TreeStack<A>)
    requires wf(t), room(t, i), lawful::<A>(), faithful::<A>()
    ensures led(i, t, i.outcomes(t))
{}
//@@ impl src/automata/tree_stack_automaton/tree_stack_instruction.rs <Integerisable1~for~TreeStackInstruction> integerise un_integerise
impl<A: Clone + Eq + Hash> Integerisable1 for TreeStackInstruction<A> {
    type AInt = TreeStackInstruction<usize>;
    type I = HashIntegeriser<A>;
    closed spec fn codable() -> bool { HashIntegeriser::<A>::countable() }
    closed spec fn stands(&self, i: Seq<A>, n: TreeStackInstruction<usize>) -> bool { instr_like(by_number(i), *self, n) }
    proof fn still_stands(&self, i: Seq<A>, j: Seq<A>, n: TreeStackInstruction<usize>) {}
    proof fn one_stands(&self, o: &Self, i: Seq<A>, n: TreeStackInstruction<usize>) {}
//@@ method src/automata/tree_stack_automaton/tree_stack_instruction.rs <Integerisable1~for~TreeStackInstruction>::integerise
//@ params integeriser
//@ lift 0 &mut InstrNumbering { integeriser }
//@ ret r
//@@ end
//@@ method src/automata/tree_stack_automaton/tree_stack_instruction.rs <Integerisable1~for~TreeStackInstruction>::un_integerise
//@ params v integeriser
//@ lift 0 &mut InstrNaming { integeriser }
//@ ret r
//@@ end
}
type TsTrans<Q, T, W> = Transition<TreeStackInstruction<Q>, T, W>;
spec fn source_of<A>(i: TreeStackInstruction<A>) -> A { current(i) }
//@@ include lib/filed.rs Filed<=>TsTrans<
//@@ include lib/decodable.rs
//@@ include lib/listing.rs Filed<=>TsTrans<
type TsMap<A, T, W> = HashMap<A, BinaryHeap<TsTrans<A, T, W>>>;
//@@ type src/automata/tree_stack_automaton/mod.rs TreeStackAutomaton
//@ subst Rc<TransitionMap<usize, usize, W>> =>> Rc<TsMap<usize, usize, W>>
//@ attr
#[verifier::reject_recursive_types(A)]
#[verifier::reject_recursive_types(T)]
#[verifier::reject_recursive_types(W)]
//@@ end
impl<A: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> TreeStackAutomaton<A, T, W> {
    spec fn labels(&self) -> Seq<A> { self.a_integeriser.known() }
    spec fn symbols(&self) -> Seq<T> { self.t_integeriser.known() }
    // the automaton made of these transitions and this initial storage
    spec fn made_of(&self, ts: Seq<TsTrans<A, T, W>>, initial: TreeStack<A>) -> bool {
        &&& distinct(self.labels()) && distinct(self.symbols())
        &&& like(by_number(self.labels()), initial, self.initial)
        &&& filed(self.symbols(), self.labels(), ts, (*self.transitions)@)
    }
}
// HashMap::get_mut (assumed)
#[verifier::external_body]
fn vt_hash_get_mut<'m, K: Eq + Hash, V>(m: &'m mut HashMap<K, V>, k: &K) -> (r: Option<&'m mut V>)
    requires obeys_key_model::<K>(), builds_valid_hashers::<std::hash::RandomState>()
    ensures match r {
        Some(v) => old(m)@.contains_key(*k) && *v == old(m)@[*k] && final(m)@ == old(m)@.insert(*k, *final(v)),
        None => !old(m)@.contains_key(*k) && final(m)@ == old(m)@,
    }
{ m.get_mut(k) }
//@@ fn src/automata/tree_stack_automaton/mod.rs TreeStackAutomaton::new
//@ params transitions initial
//@ newparams transitions: It, initial: TreeStack<A>
//@ dropgeneric It
//@ dropbound IntoIterator
//@ subst TransitionMap<usize, usize, W> =>> TsMap<usize, usize, W>
//@ addgeneric It: VtInto<Item = Transition<TreeStackInstruction<A>, T, W>>
//@ ret r
//@ eachmap 0
//@ mapmethod into_iter . vt_into
//@ mapmethod get_mut vt_hash_get_mut &mut
//@ requires obeys_key_model::<A>(), obeys_key_model::<T>(), faithful::<A>(), faithful::<T>(), faithful::<W>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<TsTrans<usize, usize, W>>()
//@ ensures r.made_of(transitions.items(), initial)
//@ loop 1 for it
    invariant
        TsTrans::<A, T, W>::codable(), distinct(a_inter.known()), distinct(t_inter.known()), begun(q0, a_inter.known()),
        it.seq() == transitions.items(), coded(t_inter.known(), a_inter.known(), it.seq().take(it.index@), vt_out@),
        it.index@ == it.seq().len() ==> coded(t_inter.known(), a_inter.known(), transitions.items(), vt_out@),
//@ loopstart 1
    let ghost (t1, q1, outs) = (t_inter.known(), a_inter.known(), vt_out@);
//@ loopend 1
    proof { assert(vt_out@.drop_last() =~= outs); coded_more(t1, t_inter.known(), q1, a_inter.known(), it.seq(), it.index@, outs, vt_out@); }
//@ before 1
    proof { coded_none(t_inter.known(), a_inter.known(), transitions.items()); }
//@ afterlet 2
    let ghost q0 = a_inter.known();
//@ before 0
    proof { filed_none(transitions.items(), transition_map@); }
//@ loop 0 for it
    invariant
        obeys_key_model::<usize>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<TsTrans<usize, usize, W>>(),
        coded(t_inter.known(), a_inter.known(), transitions.items(), it.seq()), spread(transition_map@, it.seq().take(it.index@)),
        it.index@ == it.seq().len() ==> filed(t_inter.known(), a_inter.known(), transitions.items(), transition_map@),
//@ loopstart 0
    let ghost m = transition_map@;
//@ loopend 0
    proof {
        let key = source_of(it.seq()[it.index@].instruction);
        assert(transition_map@ =~= m.insert(key, transition_map@[key]));
        assert(heap_els(transition_map@[key]) =~= among_at(m, key).insert(it.seq()[it.index@]));
    }
    proof { filed_more(t_inter.known(), a_inter.known(), transitions.items(), m, transition_map@, it.seq(), it.index@); }
//@ after 0
    proof { still_like(q0, a_inter.known(), initial, init); }
//@@ end
proof fn still_like<A>(i: Seq<A>, j: Seq<A>, t: TreeStack<A>, r: TreeStack<usize>)
    requires begun(i, j), like(by_number(i), t, r)
    ensures like(by_number(j), t, r)
{ like_wider(by_number(i), by_number(j)); }
fn vt_none<T>(v: &Vec<T>) -> (r: bool) ensures r == (v@.len() == 0) { v.len() == 0 }
//@@ include lib/list_transitions.rs SOURCE=>src/automata/tree_stack_automaton/mod.rs OWNER=>TreeStackAutomaton Filed<=>TsTrans< Filed::=>TsTrans:: INSTR=>TreeStackInstruction LABELTABLE=>a_integeriser LABELS=>labels LABEL=>A
//@@ include lib/naming.rs <Integerisable1~for~OWNER>::un_integerise=><Automaton~for~TreeStackAutomaton>::initial integeriser=1=> integeriser=>a_integeriser SOURCE=>src/automata/tree_stack_automaton/mod.rs OWNER=>TreeStackAutomaton Naming=>StartNaming
proof fn start_like<A: Clone + Eq + Hash>(k: Seq<A>)
    ensures forall|t: TreeStack<usize>, r: TreeStack<A>| #[trigger] like(named_in::<usize, A, StartNaming<'_, A>>(k), t, r) ==> like(by_number(k), r, t)
{
    let rel = named_in::<usize, A, StartNaming<'_, A>>(k);
    assert forall|t: TreeStack<usize>, r: TreeStack<A>| #[trigger] like(rel, t, r) implies like(by_number(k), r, t) by {
        assert forall|p: Seq<usize>| opt(by_number(k), #[trigger] above(r, p), above(t, p)) by { assert(opt(rel, above(t, p), above(r, p))); }
        assert forall|p: Seq<usize>| opt(by_number(k), #[trigger] node(r, p), node(t, p)) by { assert(opt(rel, node(t, p), node(r, p))); }
    }
}
//@@ fn src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::initial
//@ implhead impl<A: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> TreeStackAutomaton<A, T, W>
//@ lift 0 StartNaming { a_integeriser: &self.a_integeriser }
//@ ret r
//@ requires HashIntegeriser::<A>::countable(), can_name(self.labels(), self.initial)
//@ ensures like(by_number(self.labels()), r, self.initial)
//@ start
    proof { can_all(can_ask::<usize, A, StartNaming<'_, A>>(self.labels()), self.initial); start_like::<A>(self.labels()); }
//@@ end
//@@ fn src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::from_transitions
//@ implhead impl<A: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> TreeStackAutomaton<A, T, W>
//@ params transitions initial
//@ newparams transitions: It, initial: TreeStack<A>
//@ newret TreeStackAutomaton<A, T, W>
//@ dropgeneric It
//@ dropbound IntoIterator
//@ addgeneric It: VtInto<Item = Transition<TreeStackInstruction<A>, T, W>>
//@ ret r
//@ requires obeys_key_model::<A>(), obeys_key_model::<T>(), faithful::<A>(), faithful::<T>(), faithful::<W>(), builds_valid_hashers::<std::hash::RandomState>(), lawful_ord::<TsTrans<usize, usize, W>>()
//@ ensures r.made_of(transitions.items(), initial)
//@@ end
// what the automaton tells about itself is what it was made of
proof fn ts_tells<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord>(a: TreeStackAutomaton<A, T, W>, ts: Seq<TsTrans<A, T, W>>, initial: TreeStack<A>)
    requires a.made_of(ts, initial), wf(initial)
    ensures
        is_filed::<A, T, W>(a.symbols(), a.labels(), (*a.transitions)@), can_name(a.labels(), a.initial),
        forall|r: Seq<TsTrans<A, T, W>>| #[trigger] lists_all(a.symbols(), a.labels(), (*a.transitions)@, r) ==> r.to_multiset() == ts.to_multiset(),
        forall|t: TreeStack<A>| #[trigger] like(by_number(a.labels()), t, a.initial) ==> ts_equal()(t, initial),
{
    ts_nameable(a.labels(), initial, a.initial);
    assert forall|t: TreeStack<A>| #[trigger] like(by_number(a.labels()), t, a.initial) implies ts_equal()(t, initial) by { ts_shown_once(a.labels(), initial, t, a.initial); }
}
//@@ impl src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton> from_transitions is_terminal transitions initial item_map terminal_to_int extract_key transition_map initial_int
impl<A: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + Eq + MulAssign + One + Ord> Automaton<T, W> for TreeStackAutomaton<A, T, W> {
    type Key = usize;
    type I = TreeStackInstruction<A>;
    type IInt = TreeStackInstruction<usize>;
    type TInt = usize;
    closed spec fn usable(&self) -> bool { TsTrans::<A, T, W>::codable() && builds_valid_hashers::<std::hash::RandomState>() && distinct(self.labels()) && distinct(self.symbols()) }
    closed spec fn at(&self, k: usize) -> Multiset<TsTrans<usize, usize, W>> { among_at((*self.transitions)@, k) }
    closed spec fn start(&self) -> TreeStack<usize> { self.initial }
    closed spec fn letter(&self, t: T) -> Option<usize> { number_of(self.symbols(), t) }
    closed spec fn key(c: Conf<TreeStack<usize>, usize, W>) -> usize { c.storage.value }
    closed spec fn accepting(&self, c: Conf<TreeStack<usize>, usize, W>) -> bool { c.word.len() == 0 && pointer(c.storage).len() == 0 }
    closed spec fn showable(&self, n: Node<TreeStack<usize>, TreeStackInstruction<usize>, usize, W>) -> bool {
        known_word(self.symbols(), n.conf.word) && can_name(self.labels(), n.conf.storage) && all_decodable::<TreeStackInstruction<A>, T, W>(self.symbols(), self.labels(), n.run)
    }
    closed spec fn shown(&self, n: Item<TreeStack<usize>, TreeStackInstruction<usize>, usize, W>, r: Item<TreeStack<A>, TreeStackInstruction<A>, T, W>) -> bool {
        &&& spelt(self.symbols(), r.0.word@, n.0.word@) && like(by_number(self.labels()), r.0.storage, n.0.storage) && r.0.weight == n.0.weight
        &&& coded(self.symbols(), self.labels(), held(r.1), held(n.1))
    }
//@@ method src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::item_map
//@ params i
//@ ret r
//@ mappath Integerisable1::un_integerise TreeStack::un_integerise
//@ mapmethod iter . vt_items
//@ mapmethod collect vt_gather
//@ mapmethod map vt_map
//@ afterlet 0
    proof {
        assert(faithful::<TsTrans<usize, usize, W>>());
        assert(pd_vec@ == held(*pd));
        assert(all_decodable::<TreeStackInstruction<A>, T, W>(self.symbols(), self.labels(), pd_vec@));
        assert forall|k: int| 0 <= k < pd_vec@.len() implies decodable::<TreeStackInstruction<A>, T, W>(self.symbols(), self.labels(), #[trigger] pd_vec@[k]) by { one_decodable::<TreeStackInstruction<A>, T, W>(self.symbols(), self.labels(), pd_vec@, k); }
        assert forall|k: int| 0 <= k < pd_vec@.len() implies *#[trigger] refs::<TsTrans<usize, usize, W>>(pd_vec@)[k] == pd_vec@[k] && decodable::<TreeStackInstruction<A>, T, W>(self.symbols(), self.labels(), pd_vec@[k]) by { assert(pd_vec@[k] == nv(*i).run[k]); }
        assert forall|k: int| 0 <= k < word@.len() implies *#[trigger] refs::<usize>(word@)[k] == word@[k] && word@[k] < self.symbols().len() by { assert(word@[k] == nv(*i).conf.word[k]); }
    }
//@ closure 0 (t: &TsTrans<usize, usize, W>) -> (x: TsTrans<A, T, W>)
    requires TsTrans::<A, T, W>::codable(), decodable::<TreeStackInstruction<A>, T, W>(self.symbols(), self.labels(), *t)
    ensures x.stands(self.symbols(), self.labels(), *t)
//@ closurestart 0
    let ghost x0 = choose|x: TsTrans<A, T, W>| #[trigger] x.stands(self.symbols(), self.labels(), *t);
    proof { witness::<TsTrans<A, T, W>>(x0, &self.t_integeriser, &self.a_integeriser, t); }
//@ closure 1 (t: &usize) -> (x: T)
    requires TsTrans::<A, T, W>::codable(), *t < self.symbols().len()
    ensures numbers(self.symbols(), x, *t)
//@@ end
//@@ method src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::terminal_to_int
//@ params t
//@ ret r
//@ tail
    proof { number_is(self.symbols(), *t, result__); }
//@@ end
//@@ method src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::extract_key
//@ params c
//@ ret r
//@@ end
//@@ method src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::is_terminal
//@ params c
//@ ret r
//@ mapmethod is_empty vt_none &
//@@ end
//@@ method src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::transition_map
//@ ret r
//@ newret Rc<TsMap<usize, usize, W>>
//@@ end
//@@ method src/automata/tree_stack_automaton/mod.rs <Automaton~for~TreeStackAutomaton>::initial_int
//@ ret r
//@ start
    proof { ts_faithful::<usize>(); }
//@@ end
}
// a copy is the same (lists of children with the same elements are the same: assumed, see same_list)
proof fn ts_faithful<A: Clone>()
    ensures faithful::<A>() ==> faithful::<TreeStack<A>>()
{
    if faithful::<A>() {
        assert forall|t: TreeStack<A>, r: TreeStack<A>| #[trigger] call_ensures(TreeStack::<A>::clone, (&t,), r) implies t == r by {
            assert(same_stack(t, r));
            same_list(t.children, r.children);
        }
    }
}
// one stack: nothing that can be asked of it tells them apart
spec fn ts_equal<A>() -> spec_fn(TreeStack<A>, TreeStack<A>) -> bool { |t: TreeStack<A>, u: TreeStack<A>| wf(t) && wf(u) && pointer(t) == pointer(u) && same_tree(t, u) }
spec fn ts_end<A>() -> spec_fn(TreeStack<A>) -> bool { |t: TreeStack<A>| pointer(t).len() == 0 }
spec fn ts_fit<A, T, W>(ts: Seq<TsTrans<A, T, W>>) -> bool { forall|l: int| 0 <= l < ts.len() ==> match (#[trigger] ts[l]).instruction { TreeStackInstruction::Push { n, .. } => n < usize::MAX, _ => true } }
proof fn same_number<A>(j: Seq<A>, a: A, n: usize, b: A, m: usize)
    requires distinct(j), numbers(j, a, n), numbers(j, b, m)
    ensures a == b <==> n == m
{}
proof fn above_node<A>(t: TreeStack<A>, p: Seq<usize>)
    ensures above(t, p) == node(t, pointer(t).add(p))
{
    let q = pointer(t);
    assert(q.add(p).take(q.len() as int) =~= q);
    assert(q.add(p).skip(q.len() as int) =~= p);
}
// trees that agree are like each other
proof fn like_of_tree<A, B>(rel: spec_fn(A, B) -> bool, t: TreeStack<A>, r: TreeStack<B>)
    requires wf(t), wf(r), pointer(t) == pointer(r), like_tree(rel, t, r)
    ensures like(rel, t, r)
{
    assert forall|p: Seq<usize>| opt(rel, #[trigger] above(t, p), above(r, p)) by {
        above_node(t, p); above_node(r, p);
        assert(opt(rel, node(t, pointer(t).add(p)), node(r, pointer(r).add(p))));
    }
    assert forall|p: Seq<usize>| opt(rel, above(t, p), #[trigger] above(r, p)) by { assert(opt(rel, above(t, p), above(r, p))); }
}
proof fn like_at<A, B>(rel: spec_fn(A, B) -> bool, t: TreeStack<A>, r: TreeStack<B>, p: Seq<usize>)
    requires like(rel, t, r)
    ensures opt(rel, node(t, p), node(r, p)), pointer(t) == pointer(r)
{}
// instructions do on numbers what they do on labels
proof fn possible_in_numbers<A>(j: Seq<A>, i: TreeStackInstruction<A>, c: TreeStackInstruction<usize>, t: TreeStack<A>, m: TreeStack<usize>)
    requires distinct(j), instr_like(by_number(j), i, c), like(by_number(j), t, m)
    ensures possible(i, t) <==> possible(c, m), target(i, t) == target(c, m), by_number(j)(written(i), written(c)), by_number(j)(current(i), current(c))
{
    like_at(by_number(j), t, m, pointer(t));
    like_at(by_number(j), t, m, target(i, t));
    assert(target(i, t) == target(c, m));
    at_child(t, 0); at_child(m, 0);
    same_number(j, t.value, m.value, current(i), current(c));
    if let (Some(a), Some(n), Some(b), Some(k)) = (node(t, target(i, t)), node(m, target(c, m)), expected(i), expected(c)) { same_number(j, a, n, b, k); }
}
proof fn led_in_numbers<A>(j: Seq<A>, i: TreeStackInstruction<A>, c: TreeStackInstruction<usize>, t: TreeStack<A>, m: TreeStack<usize>, r: Seq<TreeStack<A>>, s: Seq<TreeStack<usize>>)
    requires distinct(j), instr_like(by_number(j), i, c), ts_same(j)(t, m), led(i, t, r), led(c, m, s)
    ensures pairwise(ts_same(j), r, s)
{
    let rel = by_number(j);
    possible_in_numbers(j, i, c, t, m);
    if possible(i, t) {
        let q = target(i, t);
        assert forall|p: Seq<usize>| opt(rel, #[trigger] node(r[0], p), node(s[0], p)) by { like_at(rel, t, m, p); }
        assert forall|p: Seq<usize>| opt(rel, node(r[0], p), #[trigger] node(s[0], p)) by { assert(opt(rel, node(r[0], p), node(s[0], p))); }
        like_of_tree(rel, r[0], s[0]);
        assert(ts_same(j)(r[0], s[0]));
    }
}
proof fn ts_shown_once<A>(j: Seq<A>, t: TreeStack<A>, u: TreeStack<A>, m: TreeStack<usize>)
    requires ts_same(j)(t, m), like(by_number(j), u, m)
    ensures ts_equal()(u, t)
{
    let rel = by_number(j);
    assert forall|p: Seq<usize>| #![trigger node(u, p)] #![trigger node(t, p)] node(u, p) == node(t, p) by { like_at(rel, t, m, p); like_at(rel, u, m, p); }
}
proof fn ts_nameable<A>(j: Seq<A>, t: TreeStack<A>, m: TreeStack<usize>)
    requires ts_same(j)(t, m)
    ensures can_name(j, m)
{
    let rel = by_number(j);
    assert forall|p: Seq<usize>| (#[trigger] node(m, p)) is Some implies node(m, p)->0 < j.len() by { like_at(rel, t, m, p); }
}
proof fn ts_renders<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: TreeStackAutomaton<A, T, W>, ts: Seq<TsTrans<A, T, W>>, initial: TreeStack<A>)
    requires a.made_of(ts, initial), wf(initial), ts_fit(ts), lawful::<A>(), faithful::<A>()
    ensures
        renders(a, a.symbols(), a.labels(), ts, initial, ts_same(a.labels())),
        shows(a, a.symbols(), a.labels(), ts_same(a.labels()), ts_equal()),
        accepts_as(a, a.symbols(), a.labels(), ts_same(a.labels()), ts_end()),
        forall|w: Seq<T>, n: nat, y: Node<TreeStack<usize>, TreeStackInstruction<usize>, usize, W>| #[trigger] runs(a, w, n).contains(y) ==> a.showable(y),
{
    let (i, j) = (a.symbols(), a.labels());
    let same = ts_same(j);
    let cs = choose|cs: Seq<TsTrans<usize, usize, W>>| #[trigger] coded(i, j, ts, cs) && spread((*a.transitions)@, cs);
    let m = (*a.transitions)@;
    assert(lawful::<usize>() && faithful::<usize>());
    assert forall|k: usize, c: TsTrans<usize, usize, W>| #[trigger] a.at(k).contains(c) implies from_one(i, j, ts, c) by {
        spread_at(m, cs, k, c);
        let l = choose|l: int| 0 <= l < cs.len() && cs[l] == c;
        assert(stands_for(i, j, ts, cs, l));
    }
    assert forall|l: int| 0 <= l < ts.len() implies stood_for(i, j, #[trigger] ts[l]) by { assert(stands_for(i, j, ts, cs, l)); }
    assert forall|l: int, c: TsTrans<usize, usize, W>, p: TreeStack<A>, q: TreeStack<usize>| 0 <= l < ts.len() && (#[trigger] ts[l]).stands(i, j, c) && same(p, q) implies pairwise(same, #[trigger] ts[l].instruction.outcomes(p), #[trigger] c.instruction.outcomes(q)) by {
        leads(ts[l].instruction, p);
        leads(c.instruction, q);
        led_in_numbers(j, ts[l].instruction, c.instruction, p, q, ts[l].instruction.outcomes(p), c.instruction.outcomes(q));
    }
    assert forall|l: int, p: TreeStack<A>, z: Conf<TreeStack<usize>, usize, W>| 0 <= l < ts.len() && same(p, z.storage) && #[trigger] ts[l].instruction.outcomes(p).len() > 0 implies as_one(i, j, ts[l], #[trigger] a.at(TreeStackAutomaton::<A, T, W>::key(z))) by {
        assert(stands_for(i, j, ts, cs, l));
        let c = cs[l];
        leads(ts[l].instruction, p);
        possible_in_numbers(j, ts[l].instruction, c.instruction, p, z.storage);
        at_child(z.storage, 0);
        assert(cs.contains(c));
        spread_at(m, cs, z.storage.value, c);
    }
    assert(renders(a, i, j, ts, initial, same));
    assert forall|y: Node<TreeStack<A>, TreeStackInstruction<A>, T, W>, n: Item<TreeStack<usize>, TreeStackInstruction<usize>, usize, W>, r: Item<TreeStack<A>, TreeStackInstruction<A>, T, W>| in_numbers(i, j, same, y, #[trigger] nv(n)) && #[trigger] a.shown(n, r) implies #[trigger] same_node(ts_equal(), nv(r), y) by {
        spelt_one(i, y.conf.word, r.0.word@, n.0.word@);
        coded_one(i, j, y.run, held(r.1), held(n.1));
        ts_shown_once(j, y.conf.storage, r.0.storage, n.0.storage);
    }
    assert forall|w: Seq<T>, n: nat, z: Node<TreeStack<usize>, TreeStackInstruction<usize>, usize, W>| #[trigger] runs(a, w, n).contains(z) implies a.showable(z) by {
        let y = runs_are_runs(a, i, j, ts, initial, same, w, n, z);
        assert forall|k: int| 0 <= k < z.conf.word.len() implies #[trigger] z.conf.word[k] < i.len() by { assert(numbers(i, y.conf.word[k], z.conf.word[k])); }
        coded_decodable(i, j, y.run, z.run);
        ts_nameable(j, y.conf.storage, z.conf.storage);
    }
}
// recognise can be used with an automaton that `new` made
proof fn ts_lawful<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: TreeStackAutomaton<A, T, W>, ts: Seq<TsTrans<A, T, W>>, initial: TreeStack<A>)
    requires
        a.made_of(ts, initial), wf(initial), ts_fit(ts), lawful::<A>(), can_weigh(ts), lawful_ord::<W>(), faithful::<W>(), faithful::<A>(), faithful::<T>(),
        obeys_key_model::<A>(), obeys_key_model::<T>(), builds_valid_hashers::<std::hash::RandomState>(),
    ensures lawful_automaton(a)
{
    ts_renders(a, ts, initial);
    weights_rendered(a, a.symbols(), a.labels(), ts, initial, ts_same(a.labels()));
    assert(lawful::<usize>());
    broadcast use group_hash_axioms;
    ts_faithful::<usize>();
}
// what recognise hands out for a tree stack automaton: accepting runs of its transitions, and in the end all of them
proof fn ts_recognised<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Copy + MulAssign + One + Ord>(a: TreeStackAutomaton<A, T, W>, ts: Seq<TsTrans<A, T, W>>, initial: TreeStack<A>, w: Seq<T>, out: Seq<Item<TreeStack<A>, TreeStackInstruction<A>, T, W>>, all: bool)
    requires a.made_of(ts, initial), wf(initial), ts_fit(ts), lawful::<A>(), faithful::<A>(), reports(a, w, out, all)
    ensures
        forall|k: int| 0 <= k < out.len() ==> accepted_as(ts_equal(), ts, initial, ts_end(), w, nv(#[trigger] out[k])),
        all ==> forall|y: Node<TreeStack<A>, TreeStackInstruction<A>, T, W>| #[trigger] accepted_run(ts, initial, ts_end(), w, y) ==> found_as(ts_equal(), out, y),
        none_heavier(ts) ==> forall|k: int, l: int| 0 <= k < l < out.len() ==> ord_le((#[trigger] out[l]).0.weight, (#[trigger] out[k]).0.weight),
{
    ts_renders(a, ts, initial);
    weights_rendered(a, a.symbols(), a.labels(), ts, initial, ts_same(a.labels()));
    reported_runs(a, a.symbols(), a.labels(), ts, initial, ts_same(a.labels()), ts_equal(), ts_end(), w, out, all);
}
