// ---- lib/strategy.rs: what instructions, automata and approximation strategies promise; lib/transition.rs follows ----
trait One: Sized + Mul<Self, Output = Self> { spec fn unit() -> Self; fn one() -> (r: Self) ensures r == Self::unit(); }
//@@ trait src/recognisable/mod.rs Instruction apply
trait Instruction {
    type Storage;
    // what instructions see of a storage
    type Shape;
    spec fn shape(s: Self::Storage) -> Self::Shape;
    spec fn sound(s: Self::Storage) -> bool;
    // what the instruction makes of a storage, each of the alternatives
    spec fn leads(&self, a: Self::Shape) -> Seq<Self::Shape>;
    spec fn room(&self) -> bool;
    // storages that automata accept with
    spec fn closing(a: Self::Shape) -> bool;
    fn apply(&self, s: Self::Storage) -> (r: Vec<Self::Storage>)
        requires Self::sound(s), self.room()
        ensures r@.len() == self.leads(Self::shape(s)).len(), forall|k: int| 0 <= k < r@.len() ==> Self::sound(#[trigger] r@[k]) && Self::shape(r@[k]) == self.leads(Self::shape(s))[k];
}
