// C15: transitions of automata with storage.
use pk::*;
use rustomata::automata::finite_state_automaton::FiniteStateInstruction;
use rustomata::recognisable::{Configuration, Instruction, Transition};

/// an instruction given by its table: what it yields on each storage
#[derive(Clone, Debug, PartialEq)]
struct Table(Vec<Vec<u8>>);
impl Instruction for Table {
    type Storage = u8;
    fn apply(&self, s: u8) -> Vec<u8> {
        self.0[s as usize].clone()
    }
}
fn conf<S: Clone>(c: &Configuration<S, char, u64>) -> (Vec<char>, S, u64) {
    (c.word.clone(), c.storage.clone(), c.weight)
}
fn run(t: &Transition<Table, char, u64>, c: &Configuration<u8, char, u64>) -> Result<(), String> {
    let got: Vec<_> = t.apply(c).iter().map(conf).collect();
    let n = t.word.len();
    let want: Vec<_> = if c.word.len() >= n && c.word[..n] == t.word[..] {
        t.instruction.0[c.storage as usize].iter().map(|s| (c.word[n..].to_vec(), *s, c.weight * t.weight)).collect()
    } else {
        vec![]
    };
    same("configurations", got, want)
}
fn state(a: u8, b: u8, s: u8) -> Result<(), String> {
    let i: FiniteStateInstruction<u8> = format!("{} -> {}", a, b).parse()?;
    same("states", i.apply(s), if a == s { vec![b] } else { vec![] })
}
fn main() {
    let mut p = Probe::new("random transitions whose instruction is a table yielding 0 to 3 of 4 storages, words of up to 5 symbols read off the configuration's word of up to 7 symbols and sometimes changed; all finite-state instructions over 4 states; non-trivial: a word of two symbols and more than one storage");
    for k in 0..64u8 {
        let (a, b, s) = (k % 4, k / 4 % 4, k / 16);
        p.case(format!("state {} -> {} on {}", a, b, s), true, || state(a, b, s));
    }
    for _ in 0..p.rounds(30000, 30) {
        let r = &mut p.rng;
        let k = 1 + r.below(3);
        let abc = ['a', 'b', 'c'];
        let word: Vec<char> = (0..r.below(8)).map(|_| abc[r.below(k)]).collect();
        let mut u: Vec<char> = word.iter().cloned().take(r.below(6)).collect();
        match r.below(6) {
            0 => u = (0..r.below(4)).map(|_| abc[r.below(k)]).collect(),
            1 => u.push(abc[r.below(k)]),
            2 => u.reverse(),
            _ => {}
        }
        let t: Vec<Vec<u8>> = (0..4).map(|_| (0..r.below(4)).map(|_| r.below(4) as u8).collect()).collect();
        let storage = r.below(4) as u8;
        let non = u.len() > 1 && t[storage as usize].len() > 1;
        let t = Transition { word: u, weight: r.below(50) as u64, instruction: Table(t) };
        let c = Configuration { word, storage, weight: r.below(50) as u64 };
        p.case(format!("{:?} on {:?}", t, c), non, || run(&t, &c));
    }
    p.finish();
}
