// C09: what derivations denote.
use pk::*;
use rustomata::grammars::pmcfg::{evaluate, evaluate_pos, separate_terminal_rules, to_term, Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
use std::collections::BTreeMap;

type R = PMCFGRule<String, String, u32>;
type Comp = Vec<Vec<VarT<String>>>;
type Nodes = BTreeMap<Vec<usize>, R>;

fn grow(rng: &mut Rng, at: Vec<usize>, fan: usize, room: usize, nodes: &mut Nodes) {
    let kids = if room == 0 { 0 } else { rng.below(4) };
    let fans: Vec<usize> = (0..kids).map(|_| rng.below(4)).collect();
    let names = ["S", "A", "B", "a", "aa", "b"];
    let letters = ["a", "b", "aa", "c"];
    let mut vars: Vec<VarT<String>> = Vec::new();
    for (i, f) in fans.iter().enumerate() {
        for j in 0..*f {
            if rng.chance(4, 5) {
                vars.push(VarT::Var(i, j));
            }
            if rng.chance(1, 8) {
                vars.push(VarT::Var(i, j));
            }
        }
    }
    let shape = rng.below(4);
    let ts = match shape {
        0 => 0,
        1 => 1,
        _ => rng.below(4),
    };
    if shape == 1 && rng.chance(1, 2) {
        vars.truncate(1);
    }
    for _ in 0..ts {
        vars.push(VarT::T(rng.pick(&letters).to_string()));
    }
    rng.shuffle(&mut vars);
    let mut c: Comp = vec![Vec::new(); fan];
    if fan > 0 {
        for v in vars {
            let k = rng.below(fan);
            c[k].push(v);
        }
    }
    let tail = (0..kids).map(|_| rng.pick(&names).to_string()).collect();
    nodes.insert(at.clone(), PMCFGRule { head: rng.pick(&names).to_string(), tail, composition: Composition::from(c), weight: rng.below(50) as u32 });
    for (i, f) in fans.iter().enumerate() {
        let mut b = at.clone();
        b.push(i);
        grow(rng, b, *f, room - 1, nodes);
    }
}
fn value(n: &Nodes, at: &Vec<usize>) -> Vec<Vec<VarT<String>>> {
    n[at]
        .composition
        .composition
        .iter()
        .map(|c| {
            let mut out = Vec::new();
            for s in c {
                match s {
                    VarT::T(t) => out.push(VarT::T(t.clone())),
                    VarT::Var(i, j) => {
                        let mut b = at.clone();
                        b.push(*i);
                        out.extend(value(n, &b)[*j].clone());
                    }
                }
            }
            out
        })
        .collect()
}
fn tree(n: &Nodes) -> GornTree<R> {
    let mut t = GornTree::new();
    for (k, v) in n {
        t.insert(k.clone(), v.clone());
    }
    t
}
fn nodes_of(t: GornTree<R>) -> Nodes {
    t.into_iter().collect()
}
fn check(n: &Nodes) -> Result<(), String> {
    let t = tree(n);
    let (comps, heads) = to_term(&t);
    let got: Vec<(Vec<usize>, Comp)> = comps.clone().into_iter().map(|(k, c)| (k, c.composition)).collect();
    let want: Vec<(Vec<usize>, Comp)> = n.iter().map(|(k, r)| (k.clone(), r.composition.composition.clone())).collect();
    same("compositions of to_term", got, want)?;
    let got: Vec<(Vec<usize>, String)> = heads.into_iter().collect();
    let want: Vec<(Vec<usize>, String)> = n.iter().map(|(k, r)| (k.clone(), r.head.clone())).collect();
    same("heads of to_term", got, want)?;
    same("evaluate", evaluate(&comps).composition, value(n, &Vec::new()))?;
    for k in n.keys() {
        same(&format!("evaluate_pos at {:?}", k), evaluate_pos(&comps, k.clone()).composition, value(n, k))?;
    }
    let sep = separate_terminal_rules(&t);
    same("value after separate_terminal_rules", evaluate(&to_term(&sep).0).composition, value(n, &Vec::new()))?;
    let sep = nodes_of(sep);
    let mut count = 0;
    for (k, r) in n {
        let s = sep.get(k).ok_or(format!("no node at {:?} after separate_terminal_rules", k))?;
        same(&format!("head at {:?}", k), &s.head, &r.head)?;
        same(&format!("weight at {:?}", k), s.weight, r.weight)?;
        let all: Vec<&VarT<String>> = r.composition.composition.iter().flatten().collect();
        count += 1;
        if all.len() == 1 && all[0].is_t() {
            same(&format!("composition at {:?}", k), &s.composition, &r.composition)?;
            same(&format!("successors at {:?}", k), &s.tail, &r.tail)?;
            continue;
        }
        let mut ts: Vec<String> = Vec::new();
        for x in all {
            if let VarT::T(t) = x {
                if !ts.contains(t) {
                    ts.push(t.clone());
                }
            }
        }
        let base = r.tail.len();
        let want: Comp = r.composition.composition.iter().map(|c| c.iter().map(|x| match x {
            VarT::T(t) => VarT::Var(base + ts.iter().position(|u| u == t).unwrap(), 0),
            v => v.clone(),
        }).collect()).collect();
        same(&format!("composition at {:?}", k), &s.composition.composition, &want)?;
        same(&format!("number of successors at {:?}", k), s.tail.len(), base + ts.len())?;
        same(&format!("successors at {:?}", k), &s.tail[..base], &r.tail[..])?;
        for (i, t) in ts.iter().enumerate() {
            let mut b = k.clone();
            b.push(base + i);
            let l = sep.get(&b).ok_or(format!("no node at {:?} after separate_terminal_rules", b))?;
            same(&format!("composition at {:?}", b), &l.composition.composition, &vec![vec![VarT::T(t.clone())]])?;
            same(&format!("head at {:?}", b), &l.head, &s.tail[base + i])?;
            same(&format!("number of successors at {:?}", b), l.tail.len(), 0)?;
            same(&format!("weight at {:?}", b), l.weight, r.weight)?;
            if n.values().any(|q| q.head == l.head) {
                return Err(format!("head {:?} of the new rule at {:?} is the head of an original rule", l.head, b));
            }
            count += 1;
        }
    }
    same("number of nodes after separate_terminal_rules", sep.len(), count)
}
fn main() {
    let mut p = Probe::new("random derivations of depth up to 4 with up to 3 children per node, fanouts 0..3, variables dropped or repeated, heads that are spelled like terminals; values and the separated derivation are compared with direct constructions; non-trivial: at least three nodes and a terminal");
    for _ in 0..p.rounds(8000, 30) {
        let mut n = Nodes::new();
        let (fan, room) = (1 + p.rng.below(3), p.rng.below(4));
        let mut rng = p.rng.clone();
        grow(&mut rng, Vec::new(), fan, room, &mut n);
        p.rng = rng;
        if n.len() > 60 {
            continue;
        }
        let hard = n.len() > 2 && n.values().any(|r| r.composition.composition.iter().flatten().any(|s| s.is_t()));
        p.case(format!("derivation {:?}", n), hard, || check(&n));
    }
    p.finish();
}
