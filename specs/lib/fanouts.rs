// ---- lib/fanouts.rs: the number of components of each nonterminal; needs lib/rule.rs, lib/eq.rs, lib/entry.rs ----
spec fn fan<N, T, W>(r: PMCFGRule<N, T, W>) -> int { comp(r).len() as int }
spec fn consistent<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>) -> bool {
    forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs.len() && (#[trigger] rs[i]).head == (#[trigger] rs[j]).head ==> fan(rs[i]) == fan(rs[j])
}
// nonterminal n has a rule; one with k components
spec fn has_rule<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).head == n }
spec fn has_fan<N, T, W>(rs: Seq<PMCFGRule<N, T, W>>, n: N, k: int) -> bool { exists|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).head == n && fan(rs[i]) == k }
// m holds the number of components of each nonterminal with a rule
spec fn fans_of<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>) -> bool {
    &&& forall|n: &N| #[trigger] m.contains_key(n) <==> has_rule(rs, *n)
    &&& forall|k: int| 0 <= k < rs.len() ==> m[&(#[trigger] rs[k]).head] == fan(rs[k])
}
proof fn fans_more<N, T, W>(m: Map<&N, usize>, m2: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, r: PMCFGRule<N, T, W>)
    requires fans_of(m, rs), m.contains_key(&r.head) ==> m[&r.head] == fan(r), m2 == m.insert(&r.head, fan(r) as usize), fan(r) <= usize::MAX
    ensures fans_of(m2, rs.push(r))
{
    let t = rs.push(r);
    assert forall|n: &N| #[trigger] m2.contains_key(n) <==> has_rule(t, *n) by {
        if has_rule(rs, *n) { let k = choose|k: int| 0 <= k < rs.len() && (#[trigger] rs[k]).head == *n; assert(t[k].head == *n); }
        if *n == r.head { assert(t[rs.len() as int].head == *n); }
        if has_rule(t, *n) { let k = choose|k: int| 0 <= k < t.len() && (#[trigger] t[k]).head == *n; if k < rs.len() { assert(rs[k].head == *n); } }
    }
    assert forall|k: int| 0 <= k < t.len() implies m2[&(#[trigger] t[k]).head] == fan(t[k]) by {
        if k < rs.len() { assert(t[k] == rs[k]); assert(has_rule(rs, rs[k].head)); assert(m.contains_key(&rs[k].head)); }
    }
}
proof fn fans_clash<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>, k: int)
    requires 0 <= k < rs.len(), fans_of(m, rs.take(k)), m.contains_key(&rs[k].head), m[&rs[k].head] != fan(rs[k])
    ensures !consistent(rs)
{
    let t = rs.take(k);
    let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).head == rs[k].head;
    assert(m[&t[i].head] == fan(t[i]));
    assert(rs[i] == t[i]);
    assert(rs[i].head == rs[k].head);
}
proof fn fans_consistent<N, T, W>(m: Map<&N, usize>, rs: Seq<PMCFGRule<N, T, W>>)
    requires fans_of(m, rs)
    ensures consistent(rs), forall|n: N, k: usize| #[trigger] has_fan(rs, n, k as int) <==> m.contains_key(&n) && m[&n] == k
{
    assert forall|i: int, j: int| 0 <= i < rs.len() && 0 <= j < rs.len() && (#[trigger] rs[i]).head == (#[trigger] rs[j]).head implies fan(rs[i]) == fan(rs[j]) by { assert(m[&rs[i].head] == fan(rs[i])); assert(m[&rs[j].head] == fan(rs[j])); }
    assert forall|n: N, k: usize| #[trigger] has_fan(rs, n, k as int) <==> m.contains_key(&n) && m[&n] == k by {
        if has_fan(rs, n, k as int) { let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).head == n && fan(rs[i]) == k; assert(has_rule(rs, n)); assert(m.contains_key(&n)); assert(m[&rs[i].head] == fan(rs[i])); }
        if m.contains_key(&n) && m[&n] == k { assert(has_rule(rs, n)); let i = choose|i: int| 0 <= i < rs.len() && (#[trigger] rs[i]).head == n; assert(m[&rs[i].head] == fan(rs[i])); }
    }
}

//@@ fn src/grammars/lcfrs/mod.rs read_fanouts
//@ params rules
//@ dropgeneric R
//@ dropbound IntoIterator
//@ newparams rules: &'a Vec<PMCFGRule<N, T, W>>
//@ ret r
//@ requires obeys_key_model::<&'a N>()
//@ ensures
    match r { Some(m) => fans_of(m@, rules@), None => !consistent(rules@) },
//@ local fanouts 0
//@ forpat 0 rule
//@ foriter 0 vt_iter
//@ mapmethod entry vt_entry & mut
//@ eqs
//@ closure 0 () -> (n: usize)
    ensures n == comp(*rule).len()
//@ loop 0 for it
    invariant
        obeys_key_model::<&'a N>(), it.seq() == refs(rules@), fans_of(fanouts@, rules@.take(it.index@)),
//@ loopstart 0
    let ghost k = it.index@;
    let ghost before = fanouts@;
    proof {
        assert(*rule == rules@[k]);
        assert(rules@.take(k + 1) =~= rules@.take(k).push(*rule));
        if before.contains_key(&rule.head) && before[&rule.head] != fan(*rule) { fans_clash(before, rules@, k); }
    }
//@ loopend 0
    proof { assert(fanouts@ =~= before.insert(&rule.head, fan(*rule) as usize)); fans_more(before, fanouts@, rules@.take(k), *rule); }
//@ after 0
    proof { assert(rules@.take(rules@.len() as int) =~= rules@); }
//@@ end
spec fn known<N>(m: Map<&N, usize>, ns: Seq<N>) -> bool { forall|i: int| 0 <= i < ns.len() ==> m.contains_key(&#[trigger] ns[i]) }
spec fn fs_of<N>(m: Map<&N, usize>, ns: Seq<N>) -> Seq<usize> { ns.map_values(|n: N| m[&n]) }
