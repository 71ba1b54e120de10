// ---- lib/pda_once.rs: recognition with push-down automata hands out each run once ----
//@@ include lib/once.rs Filed<=>PdTrans<
proof fn pd_codes<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone>(i: Seq<T>, j: Seq<A>)
    requires distinct(i), distinct(j)
    ensures one_code::<PushDownInstruction<A>, PushDownInstruction<usize>, T, W>(i, j)
{
    assert forall|t: PdTrans<A, T, W>, c: PdTrans<usize, usize, W>, d: PdTrans<usize, usize, W>| #[trigger] t.stands(i, j, c) && #[trigger] t.stands(i, j, d) implies c == d by {
        spelt_back(i, t.word@, c.word@, d.word@);
        same_list(c.word, d.word);
        match (t.instruction, c.instruction, d.instruction) { (PushDownInstruction::Replace { current_val: a, new_val: b }, PushDownInstruction::Replace { current_val: a1, new_val: b1 }, PushDownInstruction::Replace { current_val: a2, new_val: b2 }) => {
            spelt_back(j, a@, a1@, a2@); spelt_back(j, b@, b1@, b2@);
            same_list(a1, a2); same_list(b1, b2);
        } }
    }
}
proof fn pd_singly<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: AddAssign + Clone + Copy + MulAssign + One + Ord + Zero>(a: PushDownAutomaton<A, T, W>, ms: Seq<PdTrans<A, T, W>>, initial: PushDown<A>)
    requires a.holds(ms, initial), unmixed(ms)
    ensures singly(a), forall|w: Seq<T>| #[trigger] slim(a, w)
{
    let (i, j) = (a.symbols(), a.labels());
    let cs = choose|cs: Seq<PdTrans<usize, usize, W>>| #[trigger] coded(i, j, ms, cs) && spread((*a.transitions)@, cs);
    filed_singly(i, j, ms, cs);
    assert forall|x: Node<PushDown<usize>, PushDownInstruction<usize>, usize, W>, c: PdTrans<usize, usize, W>| (#[trigger] continued(x, c)).len() <= 1 by { assert(c.instruction.outcomes(x.conf.storage).len() <= 1); }
    assert forall|k: usize, c: PdTrans<usize, usize, W>| #[trigger] a.at(k).count(c) <= 1 by {
        assert(among_at((*a.transitions)@, k) == cs.filter(leaves::<usize, W>(k)).to_multiset());
        filter_few(cs, leaves::<usize, W>(k), c);
    }
}
// recognise hands out each accepting run once
proof fn pd_once<A: Clone + Hash + Ord, T: Clone + Eq + Hash + Ord, W: AddAssign + Clone + Copy + MulAssign + One + Ord + Zero>(a: PushDownAutomaton<A, T, W>, ts: Seq<PdTrans<A, T, W>>, initial: PushDown<A>, w: Seq<T>, out: Seq<Item<PushDown<A>, PushDownInstruction<A>, T, W>>, all: bool)
    requires a.holds(merged(ts), initial), all_rooted(ts), lawful::<A>(), faithful::<A>(), reports(a, w, out, all)
    ensures each_run_once(out)
{
    let ms = merged(ts);
    merged_rooted(ts);
    merged_unmixed(ts);
    pd_renders(a, ms, initial);
    pd_singly(a, ms, initial);
    pd_codes::<A, T, W>(a.symbols(), a.labels());
    reported_once(a, a.symbols(), a.labels(), ms, initial, pd_same(a.labels()), pd_equal(), w, out, all);
}
