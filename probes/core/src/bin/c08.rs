// C08: PMCFGs of fanout one as context-free grammars.
use pk::*;
use rustomata::grammars::cfg::{LetterT, CFG};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT, PMCFG};

type R = PMCFGRule<u8, char, u32>;
fn run(rules: &Vec<R>, initial: &Vec<u8>) -> Result<(), String> {
    let g: CFG<u8, char, u32> = PMCFG { initial: initial.clone(), rules: rules.clone() }.into();
    same("initial", g.initial, initial.clone())?;
    let got: Vec<_> = g.rules.iter().map(|r| (r.head, r.composition.composition.clone(), r.weight)).collect();
    let want: Vec<_> = rules
        .iter()
        .map(|r| {
            let c: Vec<LetterT<u8, char>> = r.composition.composition[0]
                .iter()
                .map(|s| match s {
                    VarT::T(t) => LetterT::Value(*t),
                    VarT::Var(i, _) => LetterT::Label(r.tail[*i]),
                })
                .collect();
            (r.head, c, r.weight)
        })
        .collect();
    same("rules", got, want)
}
fn main() {
    let mut p = Probe::new("random grammars with one component per rule, up to 4 rules with up to 4 successors and 8 symbols, equal and repeated rules; non-trivial: a variable and a terminal");
    for _ in 0..p.rounds(20000, 30) {
        let r = &mut p.rng;
        let (mut v, mut t) = (0, 0);
        let mut rules: Vec<R> = (0..r.below(4))
            .map(|_| {
                let tail: Vec<u8> = (0..r.below(5)).map(|_| r.below(4) as u8).collect();
                let c = (0..r.below(9))
                    .map(|_| {
                        if !tail.is_empty() && r.chance(1, 2) {
                            v += 1;
                            VarT::Var(r.below(tail.len()), 0)
                        } else {
                            t += 1;
                            VarT::T(*r.pick(&['a', 'b', 'c']))
                        }
                    })
                    .collect();
                PMCFGRule { head: r.below(4) as u8, tail, composition: Composition { composition: vec![c] }, weight: r.below(100) as u32 }
            })
            .collect();
        if !rules.is_empty() && r.chance(1, 4) {
            let k = r.below(rules.len());
            let mut d = rules[k].clone();
            if r.chance(1, 2) {
                d.weight += 1;
            }
            rules.push(d);
        }
        let initial: Vec<u8> = (0..r.below(4)).map(|_| r.below(4) as u8).collect();
        p.case(format!("rules {:?} initial {:?}", rules, initial), v > 0 && t > 0, || run(&rules, &initial));
    }
    p.finish();
}
