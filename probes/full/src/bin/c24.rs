// C24: recognition against an exhaustive enumeration of runs.
#[path = "../runs.rs"]
mod runs;
use pk::*;
use runs::*;
use rustomata::automata::finite_state_automaton::{FiniteStateAutomaton, FiniteStateInstruction};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::automaton::{recognise, recognise_beam, Automaton, TransitionMap};
use rustomata::recognisable::{Configuration, Instruction, Item, Recognisable, Transition};
use std::collections::{BinaryHeap, HashMap};
use std::rc::Rc;

// ---- automata given by tables ----
/// leads from a storage to the listed ones
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
struct Jump(Vec<(u8, u8)>);
impl Instruction for Jump {
    type Storage = u8;
    fn apply(&self, s: u8) -> Vec<u8> {
        self.0.iter().filter(|(a, _)| *a == s).map(|(_, b)| *b).collect()
    }
}
#[derive(Debug)]
struct Table {
    map: Rc<TransitionMap<u8, Jump, char, Cost>>,
    finals: Vec<u8>,
}
impl Automaton<char, Cost> for Table {
    type Key = u8;
    type I = Jump;
    type IInt = Jump;
    type TInt = char;
    fn from_transitions<It: IntoIterator<Item = Tr<Jump>>>(_: It, _: u8) -> Self {
        unimplemented!()
    }
    fn transitions<'a>(&'a self) -> Box<dyn Iterator<Item = Tr<Jump>> + 'a> {
        unimplemented!()
    }
    fn initial(&self) -> u8 {
        0
    }
    fn item_map(&self, i: &Item<u8, Jump, char, Cost>) -> Item<u8, Jump, char, Cost> {
        i.clone()
    }
    fn terminal_to_int(&self, t: &char) -> Option<char> {
        if *t == 'z' { None } else { Some(*t) }
    }
    fn extract_key(c: &Configuration<u8, char, Cost>) -> &u8 {
        &c.storage
    }
    fn is_terminal(&self, c: &Configuration<u8, char, Cost>) -> bool {
        c.word.is_empty() && self.finals.contains(&c.storage)
    }
    fn transition_map(&self) -> Rc<TransitionMap<u8, Jump, char, Cost>> {
        self.map.clone()
    }
    fn initial_int(&self) -> u8 {
        0
    }
}
fn table(ts: &[Tr<Jump>], finals: &[u8], w: &[char], beam: usize) -> Result<(), String> {
    let mut map: HashMap<u8, BinaryHeap<Tr<Jump>>> = HashMap::new();
    for t in ts {
        let mut from: Vec<u8> = t.instruction.0.iter().map(|p| p.0).collect();
        from.dedup();
        for a in from {
            map.entry(a).or_insert_with(BinaryHeap::new).push(t.clone());
        }
    }
    let a = Table { map: Rc::new(map), finals: finals.to_vec() };
    let want = match if w.contains(&'z') { Some(vec![]) } else { all_runs(ts, 0u8, w, &|i: &Jump, s: &u8| i.apply(*s), &|s| finals.contains(s)) } {
        Some(v) => v,
        None => return Ok(()),
    };
    compare("runs", read(recognise(&a, w.to_vec()).collect(), ts, &|s: &u8| *s)?, &want, true)?;
    compare("runs in the beam", read(recognise_beam(&a, beam, w.to_vec()).collect(), ts, &|s: &u8| *s)?, &want, false)
}

// what an automaton tells about itself is what it was made of
fn told<A: Automaton<char, Cost>>(a: &A, ts: &[Tr<A::I>], init: &<A::I as Instruction>::Storage) -> Result<(), String>
where
    A::I: std::fmt::Debug,
    <A::I as Instruction>::Storage: std::fmt::Debug + PartialEq,
{
    let all = |mut v: Vec<String>| {
        v.sort();
        v
    };
    let got = all(a.transitions().map(|t| format!("{:?}", t)).collect());
    let want = all(ts.iter().map(|t| format!("{:?}", t)).collect());
    if got != want {
        return Err(format!("transitions told: got {:?}, expected {:?}", got, want));
    }
    if a.initial() != *init {
        return Err(format!("initial storage told: got {:?}, expected {:?}", a.initial(), init));
    }
    Ok(())
}
/// one transition for those alike but for their weights, which are added
fn made_one(ts: &[Tr<PdI>]) -> Vec<Tr<PdI>> {
    let mut v: Vec<Tr<PdI>> = vec![];
    for t in ts {
        match v.iter_mut().find(|u| u.word == t.word && u.instruction == t.instruction) {
            Some(u) => u.weight += t.weight,
            None => v.push(t.clone()),
        }
    }
    v
}

// ---- finite state automata ----
type FsI = FiniteStateInstruction<u8>;
fn arc(a: usize, b: usize) -> FsI {
    format!("{} -> {}", a, b).parse().unwrap()
}
fn finite(ts: &[Tr<FsI>], arcs: &[(u8, u8)], init: u8, finals: &[u8], w: &[char], beam: usize) -> Result<(), String> {
    let a = FiniteStateAutomaton::new(ts.to_vec(), init, finals.to_vec());
    told(&a, ts, &init)?;
    told(&<FiniteStateAutomaton<u8, char, Cost> as Automaton<char, Cost>>::from_transitions(ts.to_vec(), init), ts, &init)?;
    let step = |i: &FsI, s: &u8| {
        let (x, y) = *arcs.iter().find(|p| arc(p.0 as usize, p.1 as usize) == *i).unwrap();
        if x == *s { vec![y] } else { vec![] }
    };
    let want = match all_runs(ts, init, w, &step, &|s| finals.contains(s)) {
        Some(v) => v,
        None => return Ok(()),
    };
    compare("runs", read(recognise(&a, w.to_vec()).collect(), ts, &|s: &u8| *s)?, &want, true)?;
    compare("runs in the beam", read(recognise_beam(&a, beam, w.to_vec()).collect(), ts, &|s: &u8| *s)?, &want, false)
}

// ---- pushdown automata ----
fn pushdowns(ts: &[Tr<PdI>], init: &Vec<u8>, w: &[char], beam: usize) -> Result<(), String> {
    let a = PushDownAutomaton::new(ts.to_vec(), PushDown::from(init.clone()));
    let ts = &made_one(ts)[..];
    told(&a, ts, &PushDown::from(init.clone()))?;
    let b = <PushDownAutomaton<u8, char, Cost> as Automaton<char, Cost>>::from_transitions(a.transitions().collect::<Vec<_>>(), a.initial());
    told(&b, ts, &PushDown::from(init.clone()))?;
    let want = match all_runs(ts, init.clone(), w, &replace, &|s: &Vec<u8>| s.len() == 1) {
        Some(v) => v,
        None => return Ok(()),
    };
    compare("runs", read(a.recognise(w.to_vec()).collect(), ts, &elements)?, &want, true)?;
    compare("runs in the beam", read(a.recognise_beam_search(beam, w.to_vec()).collect(), ts, &elements)?, &want, false)
}

// ---- tree-stack automata ----
fn tree_stacks(ts: &[Tr<TsI>], w: &[char], beam: usize) -> Result<(), String> {
    let a = TreeStackAutomaton::new(ts.to_vec(), TreeStack::new(0));
    told(&a, ts, &TreeStack::new(0))?;
    told(&<TreeStackAutomaton<u8, char, Cost> as Automaton<char, Cost>>::from_transitions(ts.to_vec(), TreeStack::new(0)), ts, &TreeStack::new(0))?;
    let want = match all_runs(ts, tree(&TreeStack::new(0)), w, &walk, &|s: &Tree| s.1.is_empty()) {
        Some(v) => v,
        None => return Ok(()),
    };
    compare("runs", read(a.recognise(w.to_vec()).collect(), ts, &tree)?, &want, true)?;
    compare("runs in the beam", read(a.recognise_beam_search(beam, w.to_vec()).collect(), ts, &tree)?, &want, false)
}

// sometimes one of the transitions again, with another weight
fn twice(r: &mut Rng, mut ts: Vec<Tr<PdI>>) -> Vec<Tr<PdI>> {
    if !ts.is_empty() && r.chance(1, 3) {
        let mut t = ts[r.below(ts.len())].clone();
        t.weight = Cost(r.below(5) as u64);
        ts.push(t);
    }
    ts
}

fn main() {
    let mut p = Probe::new("random automata with up to 8 transitions, each reading one or two of up to 3 symbols (or, in tables, none while moving to a greater state), with costs up to 4 as weights: tables over 4 states with up to 2 targets, finite automata over 4 states, pushdowns over 3 symbols, tree stacks over 3 symbols with pushes, ups and downs; sometimes two that differ in their weights only (pushdowns: also two that are the same); words of up to 6 symbols, some of them unknown to the automaton; beams of 0 to 6; non-trivial: at least two transitions and a word of two symbols");
    for k in 0..p.rounds(24000, 30) {
        let r = &mut p.rng;
        let ab = 1 + r.below(3);
        let n = r.below(9);
        let mut w = {
            let l = r.below(7);
            word(r, ab, l)
        };
        if r.chance(1, 12) && !w.is_empty() {
            let i = r.below(w.len());
            w[i] = 'z';
        }
        let beam = r.below(7);
        let reads = |r: &mut Rng| {
            let l = if r.chance(1, 5) { 2 } else { 1 };
            word(r, ab, l)
        };
        let cost = |r: &mut Rng| Cost(r.below(5) as u64);
        let non = n > 1 && w.len() > 1;
        match k % 4 {
            3 => {
                let arcs: Vec<(u8, u8)> = (0..n).map(|_| (r.below(4) as u8, r.below(4) as u8)).collect();
                let ts: Vec<Tr<FsI>> = arcs.iter().map(|(a, b)| Transition { word: reads(r), weight: cost(r), instruction: arc(*a as usize, *b as usize) }).collect();
                let ts = different(r, ts);
                let finals: Vec<u8> = (0..5).filter(|_| r.chance(1, 2)).collect();
                let init = r.below(4) as u8;
                p.case(format!("finite {:?} from {} final {:?} on {:?}, beam {}", ts, init, finals, w, beam), non, || finite(&ts, &arcs, init, &finals, &w, beam));
            }
            0 => {
                let ts: Vec<Tr<Jump>> = (0..n)
                    .map(|_| {
                        let u = if r.chance(1, 5) { vec![] } else { reads(r) };
                        let a = r.below(4) as u8;
                        let b = if u.is_empty() { a + 1 } else { r.below(4) as u8 };
                        let mut ps = vec![(a, b)];
                        if r.chance(1, 4) {
                            ps.push((a, if u.is_empty() { b + 1 } else { r.below(4) as u8 }));
                        }
                        Transition { word: u, weight: cost(r), instruction: Jump(ps) }
                    })
                    .collect();
                let ts = different(r, ts);
                let finals: Vec<u8> = (0..6).filter(|_| r.chance(1, 2)).collect();
                p.case(format!("table {:?} final {:?} on {:?}, beam {}", ts, finals, w, beam), non, || table(&ts, &finals, &w, beam));
            }
            1 => {
                let init: Vec<u8> = (0..1 + r.below(3)).map(|_| r.below(3) as u8).collect();
                let ts: Vec<Tr<PdI>> = (0..n)
                    .map(|_| {
                        let cur: Vec<u8> = (0..if r.chance(1, 4) { 2 } else { 1 }).map(|_| r.below(3) as u8).collect();
                        // a pushdown never loses all its symbols
                        //
                        let new: Vec<u8> = (0..1 + r.below(3)).map(|_| r.below(3) as u8).collect();
                        Transition { word: reads(r), weight: cost(r), instruction: PushDownInstruction::Replace { current_val: cur, new_val: new } }
                    })
                    .collect();
                let ts = twice(r, ts);
                p.case(format!("pushdown {:?} from {:?} on {:?}, beam {}", ts, init, w, beam), non, || pushdowns(&ts, &init, &w, beam));
            }
            _ => {
                let ts = walks(r, ab, n);
                p.case(format!("tree stack {:?} on {:?}, beam {}", ts, w, beam), non, || tree_stacks(&ts, &w, beam));
            }
        }
    }
    p.finish();
}
