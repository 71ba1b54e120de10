// C23: approximations of automata against enumerated runs.
#[path = "../runs.rs"]
mod runs;
use pk::*;
use runs::*;
use rustomata::approximation::relabel::RlbElement;
use rustomata::approximation::tts::TTSElement;
use rustomata::approximation::{ApproximationInstance, ApproximationStrategy};
use rustomata::automata::push_down_automaton::{PushDown, PushDownAutomaton, PushDownInstruction};
use rustomata::automata::tree_stack_automaton::{TreeStack, TreeStackAutomaton, TreeStackInstruction};
use rustomata::recognisable::automaton::Automaton;
use rustomata::recognisable::{Instruction, Transition};
use rustomata::util::push_down::Pushdown;
use std::fmt::Debug;

/// the labels on the way from the root to the pointer
fn way((g, p): &Tree) -> Vec<u8> {
    (0..=p.len()).map(|k| g[&p[..k].to_vec()]).collect()
}
fn flat(i: &TsI) -> PdI {
    let (current_val, new_val) = match *i {
        TreeStackInstruction::Up { current_val, new_val, .. } | TreeStackInstruction::Push { current_val, new_val, .. } => (vec![current_val], vec![current_val, new_val]),
        TreeStackInstruction::Down { current_val, old_val, new_val } => (vec![current_val, old_val], vec![new_val]),
    };
    PushDownInstruction::Replace { current_val, new_val }
}
fn relabelled(i: &PdI, f: &dyn Fn(&u8) -> u8) -> PdI {
    let PushDownInstruction::Replace { current_val, new_val } = i;
    PushDownInstruction::Replace { current_val: current_val.iter().map(f).collect(), new_val: new_val.iter().map(f).collect() }
}

/// the approximation of the automaton with the transitions `ts` has, for each accepting run in `runs`,
/// one on the transitions that approximate those of the run; and these lead back to it
fn automaton<S, A1>(s: S, a: &A1, ts: &[Tr<S::I1>], runs: &[Vec<usize>], image: &dyn Fn(&S::I1) -> PdI, init: Vec<u8>, w: &[char]) -> Result<(), String>
where
    S: ApproximationStrategy<char, Cost, I2 = PdI, A1 = A1, A2 = PushDownAutomaton<u8, char, Cost>>,
    A1: Automaton<char, Cost, I = S::I1>,
    S::I1: Instruction + Clone + Ord + Debug,
{
    let (b, inst) = s.approximate_automaton(a);
    same("initial storage", elements(&b.initial()), init.clone())?;
    let us: Vec<Tr<PdI>> = b.transitions().collect();
    let counterpart = |k: usize| -> Result<&Tr<PdI>, String> {
        let j = image(&ts[k].instruction);
        us.iter().filter(|u| u.word == ts[k].word && u.instruction == j).max_by_key(|u| u.weight).ok_or(format!("no counterpart of {:?}", ts[k]))
    };
    let origins = |u: &Tr<PdI>| -> Vec<usize> { (0..ts.len()).filter(|k| ts[*k].word == u.word && image(&ts[*k].instruction) == u.instruction).collect() };
    for k in 0..ts.len() {
        let u = counterpart(k)?;
        if u.weight < ts[k].weight {
            return Err(format!("{:?} is worse than {:?}", u, ts[k]));
        }
        let mut back: Vec<Tr<S::I1>> = inst.unapproximate_transition(u);
        back.sort();
        let mut want: Vec<Tr<S::I1>> = origins(u).into_iter().map(|k| ts[k].clone()).collect();
        want.sort();
        same("origins", back, want)?;
    }
    for u in &us {
        if origins(u).is_empty() {
            return Err(format!("{:?} approximates nothing", u));
        }
    }
    for run in runs {
        let run2 = run.iter().map(|k| counterpart(*k)).collect::<Result<Vec<_>, _>>()?;
        let mut storages = vec![b.initial()];
        for u in &run2 {
            storages = storages.into_iter().flat_map(|s| u.instruction.apply(s)).collect();
        }
        if !storages.iter().any(|s| elements(s).len() == 1) {
            return Err(format!("{:?} is not an accepting run", run2));
        }
        same("word", run2.iter().flat_map(|u| u.word.clone()).collect::<Vec<_>>(), w.to_vec())?;
        let choices = run2.iter().fold(vec![vec![]], |rs: Vec<Vec<usize>>, u| rs.iter().flat_map(|r| origins(u).into_iter().map(move |k| r.iter().cloned().chain(Some(k)).collect())).collect());
        if choices.len() > 500 {
            continue;
        }
        let pd = run2.into_iter().fold(Pushdown::new(), |p: Pushdown<Tr<PdI>>, u| p.push(u.clone()));
        let mut back: Vec<Vec<Tr<S::I1>>> = inst.unapproximate_run(pd).into_iter().map(|r| r.to_vec()).collect();
        back.sort();
        let mut want: Vec<Vec<Tr<S::I1>>> = choices.into_iter().map(|r| r.into_iter().map(|k| ts[k].clone()).collect()).collect();
        want.sort();
        same("runs", back, want)?;
    }
    Ok(())
}
fn tree_stacks(ts: &[Tr<TsI>], w: &[char]) -> Result<(), String> {
    let init = tree(&TreeStack::new(0));
    if let Some(runs) = all_runs(ts, init, w, &walk, &|s: &Tree| s.1.is_empty()) {
        let runs: Vec<Vec<usize>> = runs.into_iter().map(|r| r.0).collect();
        automaton(TTSElement::new(), &TreeStackAutomaton::new(ts.to_vec(), TreeStack::new(0)), ts, &runs, &flat, vec![0], w)?;
    }
    // steps on storages
    let s: TTSElement<u8> = TTSElement::new();
    let inst: ApproximationInstance<TTSElement<u8>, char, Cost> = ApproximationInstance::new(TTSElement::new());
    let mut storages = vec![TreeStack::new(0)];
    for _ in 0..4 {
        let mut next = vec![];
        for x in &storages {
            let pd = inst.approximate_storage(x.clone());
            same("storage", elements(&pd), way(&tree(x)))?;
            for t in ts {
                let j: PdI = <TTSElement<u8> as ApproximationStrategy<char, Cost>>::approximate_instruction(&s, &t.instruction);
                same("instruction", j.clone(), flat(&t.instruction))?;
                for y in t.instruction.apply(x.clone()) {
                    same("step", j.apply(pd.clone()).iter().map(elements).collect::<Vec<_>>(), vec![way(&tree(&y))])?;
                    next.push(y);
                }
            }
        }
        next.truncate(20);
        storages = next;
    }
    Ok(())
}
fn pushdowns(ts: &[Tr<PdI>], init: &Vec<u8>, w: &[char], classes: &[u8]) -> Result<(), String> {
    let f = |x: &u8| classes[*x as usize];
    if let Some(runs) = all_runs(ts, init.clone(), w, &replace, &|s: &Vec<u8>| s.len() == 1) {
        let runs: Vec<Vec<usize>> = runs.into_iter().map(|r| r.0).collect();
        let a = PushDownAutomaton::new(ts.to_vec(), PushDown::from(init.clone()));
        automaton(RlbElement::new(&f), &a, ts, &runs, &|i| relabelled(i, &f), init.iter().map(&f).collect(), w)?;
    }
    Ok(())
}
fn main() {
    let mut p = Probe::new("random automata with up to 8 transitions, each reading one or two of up to 3 symbols, with costs up to 4 as weights: pushdowns over 3 symbols approximated by merging symbols, tree stacks over 3 or 4 symbols approximated by pushdowns, some of whose transitions differ in their weights only; words of up to 6 symbols, all their accepting runs, and up to 20 storages in each of 4 steps; non-trivial: at least two transitions");
    for k in 0..p.rounds(24000, 30) {
        let r = &mut p.rng;
        let ab = 1 + r.below(3);
        let n = r.below(9);
        let w = {
            let l = r.below(7);
            word(r, ab, l)
        };
        let reads = |r: &mut Rng| {
            let l = if r.chance(1, 5) { 2 } else { 1 };
            word(r, ab, l)
        };
        let cost = |r: &mut Rng| Cost(r.below(5) as u64);
        if k % 2 == 0 {
            let classes: Vec<u8> = (0..3).map(|_| r.below(3) as u8).collect();
            let init: Vec<u8> = (0..1 + r.below(3)).map(|_| r.below(3) as u8).collect();
            let mut ts: Vec<Tr<PdI>> = vec![];
            for _ in 0..n {
                let current_val: Vec<u8> = (0..if r.chance(1, 4) { 2 } else { 1 }).map(|_| r.below(3) as u8).collect();
                let new_val: Vec<u8> = (0..1 + r.below(3)).map(|_| r.below(3) as u8).collect();
                let t = Transition { word: reads(r), weight: cost(r), instruction: PushDownInstruction::Replace { current_val, new_val } };
                // an automaton may merge transitions that only differ in their weights
                if !ts.iter().any(|u| u.word == t.word && u.instruction == t.instruction) {
                    ts.push(t);
                }
            }
            p.case(format!("pushdown {:?} from {:?} with classes {:?} on {:?}", ts, init, classes, w), n > 1, || pushdowns(&ts, &init, &w, &classes));
        } else {
            let trip = r.chance(1, 3);
            let ts = if trip { trips(r, n) } else { walks(r, ab, n) };
            let w = if trip { back_and_forth(r) } else { w };
            p.case(format!("tree stack {:?} on {:?}", ts, w), n > 1, || tree_stacks(&ts, &w));
        }
    }
    p.finish();
}
