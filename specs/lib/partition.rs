// ---- lib/partition.rs: partitions; needs lib/seq.rs, lib/ord.rs, lib/btree.rs, faithful and vt_cloned ----
// the keys, in increasing order (assumed)
#[verifier::external_body]
fn vt_keys<K: Ord, V>(m: &BTreeMap<K, V>) -> (r: Vec<&K>)
    requires lawful_keys::<K>()
    ensures listing(vals(r@), m@.dom())
{ m.keys().collect() }

//@@ type src/util/partition.rs Partition
//@ attr
#[verifier::reject_recursive_types(T)]
//@@ end

// no symbol is in two cells
spec fn disjoint<T: Ord>(cs: Seq<BTreeSet<T>>) -> bool { forall|i: int, j: int, a: T| 0 <= i < j < cs.len() && #[trigger] within(cs, i, a) ==> !(#[trigger] within(cs, j, a)) }
spec fn within<T: Ord>(cs: Seq<BTreeSet<T>>, i: int, a: T) -> bool { cs[i]@.contains(a) }
spec fn in_cells<T: Ord>(cs: Seq<BTreeSet<T>>, k: int, a: T) -> bool { exists|i: int| 0 <= i < k && #[trigger] within(cs, i, a) }
// p maps the symbols of the first k cells to their cells, and those of w to cell k
spec fn filled<T: Ord>(p: Map<T, Rc<BTreeSet<T>>>, cs: Seq<BTreeSet<T>>, k: int, w: Seq<T>) -> bool {
    &&& forall|a: T| #[trigger] p.contains_key(a) <==> w.contains(a) || in_cells(cs, k, a)
    &&& forall|i: int, a: T| 0 <= i < k && #[trigger] within(cs, i, a) ==> *p[a] == cs[i]
    &&& forall|a: T| #[trigger] w.contains(a) ==> *p[a] == cs[k]
    &&& forall|a: T| #[trigger] w.contains(a) ==> !in_cells(cs, k, a)
    &&& disjoint(cs.take(k))
}
proof fn filled_clash<T: Ord>(p: Map<T, Rc<BTreeSet<T>>>, cs: Seq<BTreeSet<T>>, k: int, v: Seq<T>, n: int)
    requires filled(p, cs, k, v.take(n)), 0 <= k < cs.len(), 0 <= n < v.len(), lawful_ord::<T>(), listing(v, cs[k]@), p.contains_key(v[n])
    ensures !disjoint(cs)
{
    let a = v[n];
    assert(v.contains(a));
    assert(within(cs, k, a));
    if v.take(n).contains(a) {
        let i = choose|i: int| 0 <= i < n && v.take(n)[i] == a;
        assert(below(v[i], v[n]));
        assert(false);
    }
    let i = choose|i: int| 0 <= i < k && #[trigger] within(cs, i, a);
    assert(within(cs, i, a) && within(cs, k, a));
}
proof fn filled_more<T: Ord>(p: Map<T, Rc<BTreeSet<T>>>, cs: Seq<BTreeSet<T>>, k: int, w: Seq<T>, a: T, c: Rc<BTreeSet<T>>)
    requires filled(p, cs, k, w), 0 <= k < cs.len(), !p.contains_key(a), *c == cs[k], cs[k]@.contains(a)
    ensures filled(p.insert(a, c), cs, k, w.push(a))
{
    assert forall|b: T| w.push(a).contains(b) <==> w.contains(b) || b == a by {
        if w.contains(b) { let i = choose|i: int| 0 <= i < w.len() && w[i] == b; assert(w.push(a)[i] == b); }
        if b == a { assert(w.push(a)[w.len() as int] == b); }
    }
    assert forall|i: int, b: T| 0 <= i < k && #[trigger] within(cs, i, b) implies *p.insert(a, c)[b] == cs[i] by { assert(in_cells(cs, k, b)); assert(p.contains_key(b)); }
    let q = p.insert(a, c);
    assert forall|b: T| #[trigger] q.contains_key(b) <==> w.push(a).contains(b) || in_cells(cs, k, b) by { assert(q.contains_key(b) <==> b == a || p.contains_key(b)); }
    assert forall|b: T| #[trigger] w.push(a).contains(b) implies *q[b] == cs[k] && !in_cells(cs, k, b) by { if b != a { assert(w.contains(b)); assert(p.contains_key(b)); assert(q[b] == p[b]); } }
}
proof fn filled_next<T: Ord>(p: Map<T, Rc<BTreeSet<T>>>, cs: Seq<BTreeSet<T>>, k: int, w: Seq<T>)
    requires filled(p, cs, k, w), 0 <= k < cs.len(), listing(w, cs[k]@)
    ensures filled(p, cs, k + 1, Seq::empty())
{
    assert forall|a: T| #[trigger] p.contains_key(a) <==> in_cells(cs, k + 1, a) by {
        if w.contains(a) { assert(within(cs, k, a)); }
        if in_cells(cs, k, a) { let i = choose|i: int| 0 <= i < k && #[trigger] within(cs, i, a); assert(within(cs, i, a)); }
        if in_cells(cs, k + 1, a) { let i = choose|i: int| 0 <= i < k + 1 && #[trigger] within(cs, i, a); if i < k { assert(in_cells(cs, k, a)); } else { assert(w.contains(a)); } }
    }
    assert forall|i: int, a: T| 0 <= i < k + 1 && #[trigger] within(cs, i, a) implies *p[a] == cs[i] by { if i == k { assert(w.contains(a)); } }
    let t = cs.take(k + 1);
    assert forall|i: int, j: int, a: T| 0 <= i < j < t.len() && #[trigger] within(t, i, a) implies !(#[trigger] within(t, j, a)) by {
        assert(within(cs, i, a));
        assert(in_cells(cs, k, a));
        if j < k { let u = cs.take(k); assert(within(u, i, a)); assert(!within(u, j, a)); } else { if within(t, j, a) { assert(w.contains(a)); } }
    }
}

impl<T: Ord> Partition<T> {
    // every symbol is mapped to a cell that contains it; all symbols of a cell to the same one
    spec fn is_partition(&self) -> bool {
        &&& forall|a: T| #[trigger] self.0@.contains_key(a) ==> self.0@[a]@.contains(a)
        &&& forall|a: T, b: T| #[trigger] self.0@.contains_key(a) && #[trigger] self.0@[a]@.contains(b) ==> self.0@.contains_key(b) && *self.0@[b] == *self.0@[a]
    }
}

//@@ fn src/util/partition.rs Partition::new
//@ params cells
//@ ret r
//@ requires lawful_keys::<T>(), faithful::<T>()
//@ ensures
    match r {
        Some(p) => disjoint(cells@) && p.is_partition()
            && (forall|a: T| #[trigger] p.0@.contains_key(a) <==> in_cells(cells@, cells@.len() as int, a))
            && (forall|i: int, a: T| 0 <= i < cells@.len() && #[trigger] within(cells@, i, a) ==> *p.0@[a] == cells@[i]),
        None => !disjoint(cells@),
    },
//@ local partition 0
//@ local ptr 1
//@ forpat 0 cell
//@ forpat 1 symbol
//@ mapmethod iter . vt_items
//@ mapmethod cloned vt_cloned
//@ loop 0 for it
    invariant
        lawful_keys::<T>(), faithful::<T>(), it.seq() == cells@,
        filled(partition@, cells@, it.index@, Seq::empty()),
//@ loopstart 0
    let ghost k = it.index@;
    proof { assert(cell == cells@[k]); }
//@ before 1
    assert(*ptr == cells@[k]);
    proof { assert forall|v: Seq<T>| #[trigger] listing(v, cells@[k]@) && v.len() == 0 implies v == Seq::<T>::empty() by { assert(v =~= Seq::empty()); } }
//@ loop 1 for it2
    invariant
        lawful_keys::<T>(), faithful::<T>(), 0 <= k < cells@.len(), *ptr == cells@[k],
        listing(it2.seq(), cells@[k]@),
        filled(partition@, cells@, k, it2.seq().take(it2.index@)),
        it2.index@ == it2.seq().len() ==> exists|w: Seq<T>| #[trigger] listing(w, cells@[k]@) && filled(partition@, cells@, k, w),
//@ loopstart 1
    let ghost before = partition@;
    let ghost n = it2.index@;
    proof {
        assert(symbol == it2.seq()[n]);
        assert(it2.seq().take(n + 1) =~= it2.seq().take(n).push(symbol));
        assert(it2.seq().take(it2.seq().len() as int) =~= it2.seq());
        assert(it2.seq().contains(symbol));
        if before.contains_key(symbol) { filled_clash(before, cells@, k, it2.seq(), n); } else { filled_more(before, cells@, k, it2.seq().take(n), symbol, ptr); }
    }
//@ loopend 1
    proof { assert(partition@ =~= before.insert(symbol, ptr)); }
//@ after 1
    proof { filled_next(partition@, cells@, k, choose|w: Seq<T>| #[trigger] listing(w, cells@[k]@) && filled(partition@, cells@, k, w)); }
//@ after 0
    proof {
        assert(cells@.take(cells@.len() as int) =~= cells@);
        assert forall|a: T| #[trigger] partition@.contains_key(a) implies partition@[a]@.contains(a) by {
            let i = choose|i: int| 0 <= i < cells@.len() && #[trigger] within(cells@, i, a);
            assert(within(cells@, i, a));
        }
        assert forall|a: T, b: T| #[trigger] partition@.contains_key(a) && #[trigger] partition@[a]@.contains(b) implies partition@.contains_key(b) && *partition@[b] == *partition@[a] by {
            let i = choose|i: int| 0 <= i < cells@.len() && #[trigger] within(cells@, i, a);
            assert(within(cells@, i, b));
        }
    }
//@@ end

//@@ fn src/util/partition.rs Partition::get_cell
//@ params elem
//@ ret r
//@ requires lawful_keys::<T>()
//@ ensures match r { Some(c) => self.0@.contains_key(*elem) && *c == *self.0@[*elem], None => !self.0@.contains_key(*elem) }
//@ mapmethod deref vt_shared
//@@ end

// the cells r are those of p, each once, ordered by least symbol
spec fn collapsed<T: Ord>(r: Seq<&BTreeSet<T>>, p: Map<T, Rc<BTreeSet<T>>>) -> bool {
    &&& forall|i: int| 0 <= i < r.len() ==> is_cell(*#[trigger] r[i], p)
    &&& forall|a: T| #[trigger] p.contains_key(a) ==> among(*p[a], r)
    &&& forall|i: int, j: int| 0 <= i < j < r.len() ==> ahead(*#[trigger] r[i], *#[trigger] r[j])
}
spec fn is_cell<T: Ord>(c: BTreeSet<T>, p: Map<T, Rc<BTreeSet<T>>>) -> bool { exists|a: T| #[trigger] p.contains_key(a) && *p[a] == c }
spec fn among<T: Ord>(c: BTreeSet<T>, r: Seq<&BTreeSet<T>>) -> bool { exists|i: int| 0 <= i < r.len() && *#[trigger] r[i] == c }
// some symbol of a is less than all of b
spec fn ahead<T: Ord>(a: BTreeSet<T>, b: BTreeSet<T>) -> bool { exists|x: T| #[trigger] a@.contains(x) && forall|y: T| #[trigger] b@.contains(y) ==> below(x, y) }
// insert all the references
fn vt_add_refs<'a, T: Ord>(s: &mut BTreeSet<&'a T>, v: Vec<&'a T>)
    requires lawful_keys::<T>()
    ensures forall|a: &'a T| #[trigger] final(s)@.contains(a) <==> old(s)@.contains(a) || vals(v@).contains(*a)
{
    for x in it: v
        invariant lawful_keys::<T>(), it.seq() == v@, forall|a: &'a T| #[trigger] s@.contains(a) <==> old(s)@.contains(a) || vals(v@.take(it.index@)).contains(*a)
    {
        let ghost w = vals(v@.take(it.index@));
        proof {
            broadcast use seq_facts;
            assert(v@.take(it.index@ + 1) =~= v@.take(it.index@).push(x));
            assert forall|a: &'a T| w.push(*x).contains(*a) <==> w.contains(*a) || a == x by {
                if w.contains(*a) { let i = choose|i: int| 0 <= i < w.len() && w[i] == *a; assert(w.push(*x)[i] == *a); }
                if a == x { assert(w.push(*x)[w.len() as int] == *a); }
            }
        }
        s.insert(x);
    }
    proof { assert(v@.take(v@.len() as int) =~= v@); }
}
fn vt_has<T: Ord>(s: &BTreeSet<&T>, x: &T) -> (r: bool)
    requires lawful_keys::<T>()
    ensures r == s@.contains(x)
{ s.contains(&x) }

// state after n of the symbols ks: the cells found, the positions f of their least symbols
spec fn found<T: Ord>(cells: Seq<&BTreeSet<T>>, seen: Set<&T>, p: Map<T, Rc<BTreeSet<T>>>, ks: Seq<T>, n: int, f: Seq<int>) -> bool {
    &&& f.len() == cells.len()
    &&& forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < n && *cells[i] == *p[ks[f[i]]]
    &&& forall|i: int, j: int| 0 <= i < j < f.len() ==> #[trigger] f[i] < #[trigger] f[j]
    &&& forall|i: int, q: int| 0 <= i < f.len() && 0 <= q < ks.len() && cells[i]@.contains(#[trigger] ks[q]) ==> #[trigger] f[i] <= q
    &&& forall|a: &T| #[trigger] seen.contains(a) <==> exists|i: int| 0 <= i < cells.len() && (#[trigger] cells[i])@.contains(*a)
    &&& forall|q: int| 0 <= q < n ==> seen.contains(&#[trigger] ks[q])
}
proof fn found_done<T: Ord>(cells: Seq<&BTreeSet<T>>, seen: Set<&T>, p: Partition<T>, ks: Seq<T>, f: Seq<int>)
    requires found(cells, seen, p.0@, ks, ks.len() as int, f), listing(ks, p.0@.dom()), p.is_partition()
    ensures collapsed(cells, p.0@)
{
    let m = p.0@;
    assert forall|i: int| 0 <= i < cells.len() implies is_cell(*#[trigger] cells[i], m) by {
        assert(f[i] < ks.len()); assert(ks.contains(ks[f[i]])); assert(m.dom().contains(ks[f[i]]));
    }
    assert forall|a: T| #[trigger] m.contains_key(a) implies among(*m[a], cells) by {
        assert(ks.contains(a));
        let q = choose|q: int| 0 <= q < ks.len() && ks[q] == a;
        assert(seen.contains(&ks[q]));
        let i = choose|i: int| 0 <= i < cells.len() && (#[trigger] cells[i])@.contains(a);
        assert(f[i] < ks.len()); assert(ks.contains(ks[f[i]])); assert(m.contains_key(ks[f[i]]));
        assert(m[ks[f[i]]]@.contains(a));
        assert(*cells[i] == *m[a]);
    }
    assert forall|i: int, j: int| 0 <= i < j < cells.len() implies ahead(*#[trigger] cells[i], *#[trigger] cells[j]) by {
        let x = ks[f[i]];
        assert(f[i] < f[j]);
        assert(ks.contains(x)); assert(m.contains_key(x)); assert(cells[i]@.contains(x));
        assert forall|y: T| #[trigger] cells[j]@.contains(y) implies below(x, y) by {
            let z = ks[f[j]];
            assert(ks.contains(z)); assert(m.contains_key(z)); assert(m[z]@.contains(y)); assert(m.contains_key(y)); assert(ks.contains(y));
            let q = choose|q: int| 0 <= q < ks.len() && ks[q] == y;
            assert(f[j] <= q);
            assert(below(ks[f[i]], ks[q]));
        }
    }
}

proof fn found_step<T: Ord>(cells0: Seq<&BTreeSet<T>>, cells: Seq<&BTreeSet<T>>, seen0: Set<&T>, seen: Set<&T>, p: Partition<T>, ks: Seq<T>, n: int, f0: Seq<int>, f: Seq<int>)
    requires
        found(cells0, seen0, p.0@, ks, n, f0), listing(ks, p.0@.dom()), p.is_partition(), 0 <= n < ks.len(),
        seen0.contains(&ks[n]) ==> cells == cells0 && seen == seen0 && f == f0,
        !seen0.contains(&ks[n]) ==> cells == cells0.push(&*p.0@[ks[n]]) && f == f0.push(n)
            && forall|a: &T| #[trigger] seen.contains(a) <==> seen0.contains(a) || p.0@[ks[n]]@.contains(*a),
    ensures found(cells, seen, p.0@, ks, n + 1, f), n + 1 == ks.len() ==> collapsed(cells, p.0@)
{
    let m = p.0@;
    let s = ks[n];
    assert(ks.contains(s));
    assert(m.contains_key(s));
    if !seen0.contains(&s) {
        assert forall|i: int, q: int| 0 <= i < f.len() && 0 <= q < ks.len() && cells[i]@.contains(#[trigger] ks[q]) implies #[trigger] f[i] <= q by {
            if i < f0.len() { assert(f0[i] <= q); } else if q < n {
                assert(seen0.contains(&ks[q]));
                let j = choose|j: int| 0 <= j < cells0.len() && (#[trigger] cells0[j])@.contains(ks[q]);
                assert(f0[j] < n);
                let z = ks[f0[j]];
                assert(ks.contains(z)); assert(m.contains_key(z)); assert(m[z]@.contains(ks[q]));
                assert(m[s]@.contains(ks[q]));
                assert(cells0[j]@.contains(s));
            }
        }
        assert forall|a: &T| #[trigger] seen.contains(a) <==> exists|i: int| 0 <= i < cells.len() && (#[trigger] cells[i])@.contains(*a) by {
            if seen0.contains(a) { let i = choose|i: int| 0 <= i < cells0.len() && (#[trigger] cells0[i])@.contains(*a); assert(cells[i]@.contains(*a)); }
            if m[s]@.contains(*a) { assert(cells[cells0.len() as int]@.contains(*a)); }
            if exists|i: int| 0 <= i < cells.len() && (#[trigger] cells[i])@.contains(*a) {
                let i = choose|i: int| 0 <= i < cells.len() && (#[trigger] cells[i])@.contains(*a);
                if i < cells0.len() { assert(cells0[i]@.contains(*a)); }
            }
        }
    }
    if n + 1 == ks.len() { found_done(cells, seen, p, ks, f); }
}

//@@ fn src/util/partition.rs Partition::collapse
//@ ret r
//@ requires lawful_keys::<T>(), self.is_partition()
//@ ensures collapsed(r@, self.0@)
//@ local cells 1
//@ local alphabet 2
//@ forpat 0 sigma ptr
//@ mapmethod deref vt_shared
//@ mapmethod iter . vt_items
//@ mapmethod extend vt_add_refs & mut
//@ mapmethod contains vt_has &
//@ before 0
    let ghost m = self.0@;
    let ghost mut f: Seq<int> = Seq::empty();
//@ loop 0 for it
    invariant
        lawful_keys::<T>(), self.is_partition(), m == self.0@,
        self.0.listed_as(it.seq()),
        found(cells@, alphabet@, m, it.seq().map_values(|e: (&T, &Rc<BTreeSet<T>>)| *e.0), it.index@, f),
        it.index@ == it.seq().len() ==> collapsed(cells@, m),
//@ loopstart 0
    let ghost ks = it.seq().map_values(|e: (&T, &Rc<BTreeSet<T>>)| *e.0);
    let ghost n = it.index@;
    let ghost cells0 = cells@;
    let ghost seen0 = alphabet@;
    let ghost f0 = f;
    proof {
        assert(ks[n] == *sigma);
        assert(it.seq()[n] == (sigma, ptr));
        assert(m[*sigma] == *ptr);
    }
//@ loopend 0
    proof { if !seen0.contains(sigma) { f = f0.push(n); } }
    proof { found_step(cells0, cells@, seen0, alphabet@, *self, ks, n, f0, f); }
//@ after 0
    proof { assert(cells@.len() == 0 && m.len() == 0 ==> collapsed(cells@, m)); }
//@@ end

//@@ fn src/util/partition.rs Partition::alphabet
//@ ret r
//@ requires lawful_keys::<T>()
//@ ensures listing(vals(r@), self.0@.dom())
//@ newret Vec<&T>
//@ mapmethod keys vt_keys
//@@ end
