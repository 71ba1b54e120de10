// C26: coarse-to-fine recognition against an exhaustive enumeration of runs.
#[path = "../runs.rs"]
mod runs;
#[macro_use]
extern crate rustomata;
use pk::*;
use runs::*;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::ApproximationStrategy;
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::coarse_to_fine::CoarseToFineRecogniser;
use rustomata::recognisable::{Recognisable, Transition};
use std::rc::Rc;

/// what tree-stack instructions look like on the way from the root to the pointer
fn flat(i: &TsI) -> PdI {
    let (current_val, new_val) = match *i {
        TreeStackInstruction::Up { current_val, new_val, .. } | TreeStackInstruction::Push { current_val, new_val, .. } => (vec![current_val], vec![current_val, new_val]),
        TreeStackInstruction::Down { current_val, old_val, new_val } => (vec![current_val, old_val], vec![new_val]),
    };
    PushDownInstruction::Replace { current_val, new_val }
}
fn relabelled(i: &PdI, f: &dyn Fn(&u8) -> u8) -> PdI {
    let PushDownInstruction::Replace { current_val, new_val } = i;
    PushDownInstruction::Replace { current_val: current_val.iter().map(f).collect(), new_val: new_val.iter().map(f).collect() }
}
/// whether the approximation has few runs
fn few(ts: &[Tr<PdI>], init: Vec<u8>, w: &[char]) -> bool {
    all_runs(ts, init, w, &replace, &|s: &Vec<u8>| s.len() == 1).is_some()
}
fn changed<I, J>(ts: &[Tr<I>], f: &dyn Fn(&I) -> J) -> Vec<Tr<J>> {
    ts.iter().map(|t| Transition { word: t.word.clone(), weight: t.weight, instruction: f(&t.instruction) }).collect()
}
fn tree_stacks(ts: &[Tr<TsI>], w: &[char], classes: &[u8], twice: bool) -> Result<(), String> {
    let a = TreeStackAutomaton::new(ts.to_vec(), TreeStack::new(0));
    let f = |x: &u8| classes[*x as usize];
    let flat_ts = changed(ts, &flat);
    let coarse = changed(&flat_ts, &|i| relabelled(i, &f));
    if !few(&flat_ts, vec![0], w) || twice && !few(&coarse, vec![f(&0)], w) {
        return Ok(());
    }
    let want = match all_runs(ts, tree(&TreeStack::new(0)), w, &walk, &|s: &Tree| s.1.is_empty()) {
        Some(v) => v,
        None => return Ok(()),
    };
    if twice {
        let rec = coarse_to_fine_recogniser!(a; TTSElement::new(), RlbElement::new(&f));
        compare("runs", read(rec.recognise(w.to_vec()).collect(), ts, &tree)?, &want, true)
    } else {
        let rec = coarse_to_fine_recogniser!(a; TTSElement::new());
        compare("runs", read(rec.recognise(w.to_vec()).collect(), ts, &tree)?, &want, true)
    }
}
fn pushdowns(ts: &[Tr<PdI>], init: &Vec<u8>, w: &[char], classes: &[u8]) -> Result<(), String> {
    let a = PushDownAutomaton::new(ts.to_vec(), PushDown::from(init.clone()));
    let f = |x: &u8| classes[*x as usize];
    let coarse = changed(ts, &|i| relabelled(i, &f));
    if !few(&coarse, init.iter().map(&f).collect(), w) {
        return Ok(());
    }
    let want = match all_runs(ts, init.clone(), w, &replace, &|s: &Vec<u8>| s.len() == 1) {
        Some(v) => v,
        None => return Ok(()),
    };
    let rec = coarse_to_fine_recogniser!(a; RlbElement::new(&f));
    compare("runs", read(rec.recognise(w.to_vec()).collect(), ts, &elements)?, &want, true)
}
fn main() {
    let mut p = Probe::new("random automata with up to 8 transitions, each reading one or two of up to 3 symbols, with costs up to 4 as weights: pushdowns over 3 symbols approximated by merging symbols, tree stacks over 3 or 4 symbols (pushes, ups and downs; half of them leave the root and return on words (ab)^n; some transitions differ in their weights only) approximated by pushdowns and these by merging symbols; words of up to 6 symbols; non-trivial: at least two transitions and a word of two symbols");
    for k in 0..p.rounds(24000, 30) {
        let r = &mut p.rng;
        let ab = 1 + r.below(3);
        let n = r.below(9);
        let w = {
            let l = r.below(7);
            word(r, ab, l)
        };
        let reads = |r: &mut Rng| {
            let l = if r.chance(1, 5) { 2 } else { 1 };
            word(r, ab, l)
        };
        let cost = |r: &mut Rng| Cost(r.below(5) as u64);
        let non = n > 1 && w.len() > 1;
        let classes: Vec<u8> = (0..4).map(|_| r.below(3) as u8).collect();
        match k % 3 {
            0 => {
                let init: Vec<u8> = (0..1 + r.below(3)).map(|_| r.below(3) as u8).collect();
                let ts = distinct(
                    (0..n)
                        .map(|_| {
                            let current_val: Vec<u8> = (0..if r.chance(1, 4) { 2 } else { 1 }).map(|_| r.below(3) as u8).collect();
                            // a pushdown never loses all its symbols
                            let new_val: Vec<u8> = (0..1 + r.below(3)).map(|_| r.below(3) as u8).collect();
                            Transition { word: reads(r), weight: cost(r), instruction: PushDownInstruction::Replace { current_val, new_val } }
                        })
                        .collect(),
                );
                p.case(format!("pushdown {:?} from {:?} with classes {:?} on {:?}", ts, init, classes, w), non, || pushdowns(&ts, &init, &w, &classes));
            }
            _ => {
                let trip = r.chance(1, 2);
                let ts = if trip { trips(r, n) } else { walks(r, ab, n) };
                let w = if trip { back_and_forth(r) } else { w };
                p.case(format!("tree stack {:?} with classes {:?} on {:?}, {} levels", ts, classes, w, k % 3), non, || tree_stacks(&ts, &w, &classes, k % 3 == 2));
            }
        }
    }
    p.finish();
}
