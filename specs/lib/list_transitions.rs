// ---- lib/list_transitions.rs: an automaton lists its transitions, and is made from some; needs lib/listing.rs, with SOURCE, OWNER, Filed<, INSTR, LABEL, LABELS, LABELTABLE ----
//@@ fn SOURCE OWNER::list_transitions
//@ ret r
//@ newret Vec<Filed<LABEL, T, W>>
//@ mappath Box::new vt_collect
//@ mapmethod values vt_values &
//@ mapmethod flat_map vt_undo_each
//@ mapmethod iter . vt_items
//@ mapmethod map vt_map
//@ requires Filed::<LABEL, T, W>::codable(), builds_valid_hashers::<std::hash::RandomState>(), is_filed::<LABEL, T, W>(self.symbols(), self.LABELS(), (*self.transitions)@)
//@ ensures lists_all(self.symbols(), self.LABELS(), (*self.transitions)@, r@)
//@ start
    proof {
        assert(asked(self.symbols(), self.LABELS()));
        assert forall|v: Seq<&BinaryHeap<Filed<usize, usize, W>>>| #[trigger] valued((*self.transitions)@, v) implies (forall|k: int| 0 <= k < v.len() ==> heap_known::<LABEL, T, W>(self.symbols(), self.LABELS(), heap_els(*#[trigger] v[k]))) && forall|r: Seq<Filed<LABEL, T, W>>| #[trigger] undone(self.symbols(), self.LABELS(), all_of(vals(v)), r) ==> lists_all(self.symbols(), self.LABELS(), (*self.transitions)@, r) by {
            valued_listed::<LABEL, T, W>(self.symbols(), self.LABELS(), (*self.transitions)@, v);
        }
    }
//@ closure 0 (h: &BinaryHeap<Filed<usize, usize, W>>) -> (ts: Vec<Filed<LABEL, T, W>>)
    requires Filed::<LABEL, T, W>::codable(), heap_known::<LABEL, T, W>(self.symbols(), self.LABELS(), heap_els(*h))
    ensures undone(self.symbols(), self.LABELS(), heap_els(*h), ts@)
//@ closurestart 0
    proof {
        assert forall|v: Seq<&Filed<usize, usize, W>>, r: Seq<Filed<LABEL, T, W>>| #[trigger] vals(v).to_multiset() == heap_els(*h) && r.len() == v.len() && (forall|k: int| 0 <= k < v.len() ==> (#[trigger] r[k]).stands(self.symbols(), self.LABELS(), *v[k])) implies #[trigger] undone(self.symbols(), self.LABELS(), heap_els(*h), r) by {
            undone_each(self.symbols(), self.LABELS(), heap_els(*h), v, r);
        }
    }
//@ closure 1 (t: &Filed<usize, usize, W>) -> (x: Filed<LABEL, T, W>)
    requires Filed::<LABEL, T, W>::codable(), decodable::<INSTR<LABEL>, T, W>(self.symbols(), self.LABELS(), *t)
    ensures x.stands(self.symbols(), self.LABELS(), *t)
//@ closurestart 1
    let ghost x0 = choose|x: Filed<LABEL, T, W>| #[trigger] x.stands(self.symbols(), self.LABELS(), *t);
    proof { witness::<Filed<LABEL, T, W>>(x0, &self.t_integeriser, &self.LABELTABLE, t); }
//@@ end
//@@ fn SOURCE <Automaton~for~OWNER>::transitions
//@ implhead impl<LABEL: Clone + Eq + Hash + Ord, T: Clone + Eq + Hash + Ord, W: Clone + Ord> OWNER<LABEL, T, W>
//@ ret r
//@ newret Vec<Filed<LABEL, T, W>>
//@ requires Filed::<LABEL, T, W>::codable(), builds_valid_hashers::<std::hash::RandomState>(), is_filed::<LABEL, T, W>(self.symbols(), self.LABELS(), (*self.transitions)@)
//@ ensures lists_all(self.symbols(), self.LABELS(), (*self.transitions)@, r@)
//@@ end
