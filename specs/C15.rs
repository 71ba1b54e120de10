// C15: transitions of automata with storage.
use vstd::prelude::*;
use vstd::std_specs::cmp::*;
use vstd::std_specs::ops::*;
use core::ops::Mul;
verus! {

//@@ include lib/seq.rs
//@@ include lib/iter.rs
//@@ include lib/std.rs
//@@ type src/automata/finite_state_automaton/mod.rs FiniteStateInstruction
//@@ end

//@@ trait src/recognisable/mod.rs Instruction apply
pub trait Instruction {
    type Storage;
    fn apply(&self, s: Self::Storage) -> Vec<Self::Storage>;
}

//@@ include lib/transition.rs
//@@ fn src/automata/finite_state_automaton/mod.rs <Instruction~for~FiniteStateInstruction>::apply
//@ implhead impl<Q: Eq + Clone> FiniteStateInstruction<Q>
//@ newparams &self, p: Q
//@ newret Vec<Q>
//@ ret r
//@ requires lawful::<Q>(), faithful::<Q>()
//@ ensures r@ == if p == self.source_state { seq![self.target_state] } else { Seq::<Q>::empty() }
//@@ end
} // verus!
