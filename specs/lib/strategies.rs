// ---- lib/strategies.rs: what automata and approximation strategies promise; needs lib/transition.rs ----
//@@ trait src/recognisable/automaton.rs Automaton from_transitions transitions initial item_map terminal_to_int extract_key is_terminal transition_map initial_int check_run
trait Automaton<T, W>: Sized {
    type I: Instruction;
    spec fn rules(&self) -> Seq<Transition<Self::I, T, W>>;
    spec fn begin(&self) -> <Self::I as Instruction>::Storage;
    // the automaton with these transitions and this initial storage
    spec fn made_of(&self, ts: Seq<Transition<Self::I, T, W>>, s: <Self::I as Instruction>::Storage) -> bool;
    fn transitions(&self) -> (r: Vec<Transition<Self::I, T, W>>)
        ensures r@ == self.rules();
    fn initial(&self) -> (r: <Self::I as Instruction>::Storage)
        ensures r == self.begin();
    fn from_transitions(transitions: Vec<Transition<Self::I, T, W>>, initial: <Self::I as Instruction>::Storage) -> (r: Self)
        ensures r.made_of(transitions@, initial);
}
//@@ trait src/approximation/mod.rs ApproximationStrategy approximate_storage approximate_instruction approximate_automaton
trait ApproximationStrategy<T: Clone + Eq + Ord, W: Clone + MulAssign + One + Ord>: Sized {
    type I1: Clone + Eq + Instruction + Ord;
    type I2: Clone + Eq + Instruction + Ord;
    type A1: Automaton<T, W, I = Self::I1>;
    type A2: Automaton<T, W, I = Self::I2>;
    spec fn ready(&self) -> bool;
    spec fn like(&self, a: <Self::I1 as Instruction>::Shape, b: <Self::I2 as Instruction>::Shape) -> bool;
    spec fn image(&self, i: Self::I1, r: Self::I2) -> bool;
    fn approximate_storage(&self, s: <Self::I1 as Instruction>::Storage) -> (r: <Self::I2 as Instruction>::Storage)
        requires self.ready(), Self::I1::sound(s)
        ensures Self::I2::sound(r), self.like(Self::I1::shape(s), Self::I2::shape(r));
    fn approximate_instruction(&self, i: &Self::I1) -> (r: Self::I2)
        requires self.ready()
        ensures self.image(*i, r);
    // a step of the original is a step of the image of its instruction, on storages that are alike
    proof fn commutes(&self, i: Self::I1, j: Self::I2, a: <Self::I1 as Instruction>::Shape, b: <Self::I2 as Instruction>::Shape, k: int) -> (n: int)
        requires self.ready(), self.image(i, j), self.like(a, b), 0 <= k < i.leads(a).len()
        ensures 0 <= n < j.leads(b).len(), self.like(i.leads(a)[k], j.leads(b)[n]);
    // what accepts goes on to accept, and nothing else does
    proof fn closes(&self, a: <Self::I1 as Instruction>::Shape, b: <Self::I2 as Instruction>::Shape)
        requires self.ready(), self.like(a, b)
        ensures Self::I1::closing(a) <==> Self::I2::closing(b);
    // images have at most one outcome
    proof fn single(&self, j: Self::I2, b: <Self::I2 as Instruction>::Shape)
        ensures j.leads(b).len() <= 1;
}
