// ---- lib/pushdown_store.rs: pushdowns as lists of symbols, and replace instructions; needs lib/iter.rs, lib/std.rs ----
//@@ type src/automata/push_down_automaton/mod.rs PushDownInstruction
//@@ end
//@@ type src/automata/push_down_automaton/mod.rs PushDown
//@@ end

// the topmost symbols of s, read from the top, are cur
pub open spec fn on_top<A>(s: Seq<A>, cur: Seq<A>) -> bool { cur.len() <= s.len() && forall|i: int| 0 <= i < cur.len() ==> s[s.len() - 1 - i] == #[trigger] cur[i] }
// s with its n topmost symbols replaced
pub open spec fn replaced<A>(s: Seq<A>, n: int, new: Seq<A>) -> Seq<A> { s.take(s.len() - n) + new }
fn vt_ends_with<T: PartialEq>(v: &[T], w: &[T]) -> (r: bool)
    requires lawful::<T>()
    ensures r == on_top(v@, w@.reverse())
{
    let r = v.ends_with(w);
    proof {
        let k = v@.len() - w@.len();
        if r {
            assert forall|i: int| 0 <= i < w@.len() implies v@[v@.len() - 1 - i] == #[trigger] w@.reverse()[i] by {
                let j = w@.len() - 1 - i;
                assert(v@[k + j].eq_spec(&w@[j]));
            }
        }
        if on_top(v@, w@.reverse()) {
            assert forall|i: int| 0 <= i < w@.len() implies v@[k + i].eq_spec(& #[trigger] w@[i]) by {
                let j = w@.len() - 1 - i;
                assert(v@[v@.len() - 1 - j] == w@.reverse()[j]);
            }
        }
    }
    r
}
// what turning an option into an iterator yields
fn vt_option_list<T>(o: Option<T>) -> (r: Vec<T>)
    ensures o is None ==> r@.len() == 0, o is Some ==> r@ == seq![o->0]
{ let mut r = Vec::new(); if let Some(x) = o { r.push(x); } r }

//@@ fn src/automata/push_down_automaton/mod.rs PushDown::empty
//@ ret r
//@ requires self.elements@.len() > 0
//@ ensures *r == self.elements@.first()
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::current_symbol
//@ ret r
//@ requires self.elements@.len() > 0
//@ ensures *r == self.elements@.last()
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::is_bottom
//@ ret r
//@ ensures r == (self.elements@.len() == 1)
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::iter
//@ ret r
//@ ensures r.remaining() == refs(self.elements@)
//@ tail
    assert(result__.remaining() =~= refs(self.elements@));
//@@ end
spec fn maps<A, B, F: Fn(&A) -> B>(f: F, s: Seq<A>, r: Seq<B>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> call_ensures(f, (&s[i],), #[trigger] r[i]) }
spec fn takes<A, B, F: Fn(&A) -> B>(f: F, s: Seq<A>) -> bool { forall|i: int| 0 <= i < s.len() ==> call_requires(f, (& #[trigger] s[i],)) }
// mapping with a borrowed function (first element first)
trait VtFun<A, B> { 
    spec fn ok(&self, s: Seq<A>) -> bool;
    spec fn gives(&self, s: Seq<A>, r: Seq<B>) -> bool;
    fn vt_each<'a>(self, v: Vec<&'a A>) -> (r: Vec<B>) where Self: Sized requires self.ok(vals(v@)) ensures self.gives(vals(v@), r@);
}
impl<'f, A, B, F: Fn(&A) -> B> VtFun<A, B> for &'f F {
    spec fn ok(&self, s: Seq<A>) -> bool { forall|i: int| 0 <= i < s.len() ==> call_requires(**self, (& #[trigger] s[i],)) }
    spec fn gives(&self, s: Seq<A>, r: Seq<B>) -> bool { maps(**self, s, r) }
    fn vt_each<'a>(self, v: Vec<&'a A>) -> (r: Vec<B>) {
        let mut r: Vec<B> = Vec::new();
        for x in it: v
            invariant it.seq() == v@, r@.len() == it.index@, self.ok(vals(v@)), forall|i: int| 0 <= i < r@.len() ==> call_ensures(*self, (&vals(v@)[i],), #[trigger] r@[i])
        { assert(*x == vals(v@)[it.index@]); r.push(self(x)); }
        r
    }
}
fn vt_map_by<A, B, G: VtFun<A, B>>(v: Vec<&A>, f: G) -> (r: Vec<B>)
    requires f.ok(vals(v@))
    ensures f.gives(vals(v@), r@)
{ f.vt_each(v) }
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::map
//@ params f
//@ ret r
//@ mapmethod iter vt_iter &
//@ mapmethod map vt_map_by
//@ mapmethod collect vt_collect
//@ requires takes(*f, self.elements@)
//@ ensures maps(*f, self.elements@, r.elements@)
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDownInstruction::map
//@ params f
//@ ret r
//@ mapmethod iter vt_iter &
//@ mapmethod map vt_map_by
//@ mapmethod collect vt_collect
//@ requires match *self { PushDownInstruction::Replace { current_val, new_val } => takes(*f, current_val@) && takes(*f, new_val@) }
//@ ensures match (*self, r) { (PushDownInstruction::Replace { current_val: c, new_val: n }, PushDownInstruction::Replace { current_val: d, new_val: m }) => maps(*f, c@, d@) && maps(*f, n@, m@) }
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::new
//@ params empty, initial
//@ ret r
//@ ensures r.elements@ == seq![empty, initial]
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs <From~for~PushDown>::from
//@ implhead impl<A> PushDown<A>
//@ params vec
//@ ret r
//@ ensures r.elements@ == vec@
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs PushDown::replace
//@ params cur_sym, new_sym
//@ ret r
//@ local new_cur_sym 0
//@ local n 1
//@ mapmethod ends_with vt_ends_with &
//@ requires lawful::<A>(), faithful::<A>()
//@ ensures
    r is Ok <==> on_top(self.elements@, cur_sym@),
    r is Ok ==> r->Ok_0.elements@ == replaced(self.elements@, cur_sym@.len() as int, new_sym@),
    r is Err ==> r->Err_0.elements@ == self.elements@,
//@ afterlet 0
    proof { assert(new_cur_sym@.reverse().reverse() =~= cur_sym@); }
//@@ end
//@@ fn src/automata/push_down_automaton/mod.rs <Instruction~for~PushDownInstruction>::apply
//@ implhead impl<A: Ord + PartialEq + Clone> PushDownInstruction<A>
//@ params p
//@ ret r
//@ mapmethod into_iter vt_option_list
//@ mapmethod collect vt_collect
//@ requires lawful::<A>(), faithful::<A>()
//@ ensures
    match *self {
        PushDownInstruction::Replace { current_val, new_val } =>
            if on_top(p.elements@, current_val@) { r@.len() == 1 && r@[0].elements@ == replaced(p.elements@, current_val@.len() as int, new_val@) } else { r@.len() == 0 },
    }
//@@ end
