// C21: exported derivations.
use pk::*;
use rustomata::grammars::pmcfg::negra::{meets_negra_criteria, noparse, to_negra, DumpMode};
use rustomata::grammars::pmcfg::{Composition, PMCFGRule, VarT};
use rustomata::util::tree::GornTree;
use std::collections::BTreeMap;

type R = PMCFGRule<String, String, u32>;
type Comp = Vec<Vec<VarT<String>>>;
type Nodes = BTreeMap<Vec<usize>, R>;

// a derivation whose rules have only variables or exactly one terminal; `odd` adds rules that may break this
fn grow(rng: &mut Rng, at: Vec<usize>, fan: usize, room: usize, odd: bool, nodes: &mut Nodes) {
    let names = ["S", "A", "B", "a", "aa", "b", "#500"];
    let letters = ["a", "b", "aa", "c", "S"];
    let leaf = !at.is_empty() && fan > 0 && (room == 0 || rng.chance(1, 3));
    let kids = if leaf || room == 0 { 0 } else { rng.below(4) };
    let fans: Vec<usize> = (0..kids).map(|_| if rng.chance(1, 8) { 0 } else { 1 + rng.below(3) }).collect();
    let mut vars: Vec<VarT<String>> = Vec::new();
    for (i, f) in fans.iter().enumerate() {
        for j in 0..*f {
            if rng.chance(7, 8) {
                vars.push(VarT::Var(i, j));
            }
            if rng.chance(1, 8) {
                vars.push(VarT::Var(i, j));
            }
        }
    }
    if leaf {
        vars = vec![VarT::T(rng.pick(&letters).to_string())];
    }
    if odd && rng.chance(1, 6) {
        vars.push(VarT::T(rng.pick(&letters).to_string()));
    }
    rng.shuffle(&mut vars);
    let mut c: Comp = vec![Vec::new(); fan];
    if fan > 0 {
        for v in vars {
            let k = rng.below(fan);
            c[k].push(v);
        }
    }
    let tail = (0..kids).map(|_| rng.pick(&names).to_string()).collect();
    nodes.insert(at.clone(), PMCFGRule { head: rng.pick(&names).to_string(), tail, composition: Composition::from(c), weight: rng.below(50) as u32 });
    for (i, f) in fans.iter().enumerate() {
        let mut b = at.clone();
        b.push(i);
        grow(rng, b, *f, room - 1, odd, nodes);
    }
}
// the terminals of the word and where they are
fn value(n: &Nodes, at: &Vec<usize>) -> Vec<Vec<(String, Vec<usize>)>> {
    let mut out = Vec::new();
    for c in &n[at].composition.composition {
        let mut v = Vec::new();
        for s in c {
            match s {
                VarT::T(t) => v.push((t.clone(), at.clone())),
                VarT::Var(i, j) => {
                    let mut b = at.clone();
                    b.push(*i);
                    v.extend(value(n, &b)[*j].clone());
                }
            }
        }
        out.push(v);
    }
    out
}
fn tree(n: &Nodes) -> GornTree<R> {
    let mut t = GornTree::new();
    for (k, v) in n {
        t.insert(k.clone(), v.clone());
    }
    t
}
fn parent(a: &Vec<usize>) -> Vec<usize> {
    a[..a.len() - 1].to_vec()
}
fn named(num: &mut BTreeMap<Vec<usize>, String>, a: Vec<usize>, x: &str) -> Result<(), String> {
    if num.iter().any(|(b, y)| *b != a && y == x) {
        return Err(format!("number {} for {:?} is that of another node: {:?}", x, a, num));
    }
    match num.insert(a.clone(), x.to_string()) {
        Some(ref y) if y != x => Err(format!("numbers {} and {} for {:?}", x, y, a)),
        _ => Ok(()),
    }
}
fn exported(n: &Nodes, id: usize, words: Option<Vec<String>>) -> Result<(), String> {
    let w: Vec<(String, Vec<usize>)> = value(n, &Vec::new()).concat();
    let mode = match &words {
        Some(v) => DumpMode::FromPos(v.clone()),
        None => DumpMode::Default,
    };
    let text = to_negra(&tree(n), id, mode);
    let lines: Vec<&str> = text.split('\n').collect();
    if lines.len() < 2 + w.len() {
        return Err(format!("{} lines for a word of length {}: {:?}", lines.len(), w.len(), text));
    }
    same("first line", lines[0].to_string(), format!("#BOS {}", id))?;
    same("last line", lines[lines.len() - 1].to_string(), format!("#EOS {}", id))?;
    let cells: Vec<Vec<&str>> = lines[1..lines.len() - 1].iter().map(|l| l.split('\t').collect()).collect();
    if cells.iter().any(|c| c.len() != 5 || c[2] != "--" || c[3] != "--") {
        return Err(format!("columns of {:?}", text));
    }
    let mut num: BTreeMap<Vec<usize>, String> = BTreeMap::new();
    num.insert(Vec::new(), "0".to_string());
    for (i, (t, a)) in w.iter().enumerate() {
        let x = match &words {
            Some(v) => &v[i],
            None => t,
        };
        same(&format!("word of line {}", i), cells[i][0], &x[..])?;
        same(&format!("label of line {}", i), cells[i][1], &n[a].head[..])?;
        named(&mut num, parent(a), cells[i][4])?;
    }
    // which nodes need a line, and which number each line has
    let mut inner: Vec<Vec<usize>> = Vec::new();
    for (_, a) in &w {
        for k in 1..a.len() {
            if !inner.contains(&a[..k].to_vec()) {
                inner.push(a[..k].to_vec());
            }
        }
    }
    same(&format!("number of lines of inner nodes in {:?}", text), cells.len() - w.len(), inner.len())?;
    for (k, c) in cells[w.len()..].iter().enumerate() {
        same(&format!("number of line {} of {:?}", w.len() + k, text), c[0].to_string(), format!("#{}", 500 + k))?;
    }
    // deepest first: their children are known by then
    inner.sort_by_key(|a| usize::max_value() - a.len());
    let mut todo = inner.clone();
    while !todo.is_empty() {
        let before = todo.len();
        let mut rest = Vec::new();
        for a in todo {
            match num.get(&a).cloned() {
                Some(x) => {
                    let k: usize = x.parse().map_err(|_| format!("parent {:?} in {:?}", x, text))?;
                    if k < 500 || k - 500 >= inner.len() {
                        return Err(format!("no line for {}, which is {:?}, in {:?}", x, a, text));
                    }
                    let c = &cells[w.len() + k - 500];
                    same(&format!("label of {} in {:?}", x, text), c[1], &n[&a].head[..])?;
                    named(&mut num, parent(&a), c[4])?;
                }
                None => rest.push(a),
            }
        }
        todo = rest;
        if todo.len() == before {
            return Err(format!("no line names {:?} as parent in {:?}", todo, text));
        }
    }
    Ok(())
}
fn criteria(n: &Nodes) -> bool {
    n.values().all(|r| {
        let all: Vec<&VarT<String>> = r.composition.composition.iter().flatten().collect();
        all.iter().all(|v| v.is_var()) || all.len() == 1
    })
}
fn without_parse(s: &Vec<String>, id: usize, words: Option<Vec<String>>) -> Result<(), String> {
    let mut want = format!("#BOS {}\n", id);
    for (i, x) in s.iter().enumerate() {
        want += &match &words {
            Some(v) => format!("{}\t{}", v[i], x),
            None => format!("{}\t--", x),
        };
        want += "\t--\t--\t500\n";
    }
    want += &format!("#500\tNOPARSE\t--\t--\t0\n#EOS {}", id);
    let mode = match words {
        Some(v) => DumpMode::FromPos(v),
        None => DumpMode::Default,
    };
    same("noparse", noparse(s, id, mode), want)
}
fn main() {
    let mut p = Probe::new("random derivations of depth up to 5 with up to 3 children per node whose rules have only variables or exactly one terminal, with empty and repeated components, with and without given words; each line's columns are compared with the derivation; non-trivial: at least two terminals and one inner node besides the root");
    for i in 0..p.rounds(6000, 30) {
        let mut n = Nodes::new();
        let (fan, room) = (1 + p.rng.below(2), 1 + p.rng.below(4));
        let odd = i % 5 == 4;
        grow(&mut p.rng, Vec::new(), fan, room, odd, &mut n);
        let id = p.rng.below(1000);
        let meets = criteria(&n);
        let rooted = n[&Vec::new()].composition.composition.iter().flatten().all(|v| v.is_var());
        let w: Vec<(String, Vec<usize>)> = value(&n, &Vec::new()).concat();
        if w.len() > 60 {
            continue;
        }
        let nt = w.len() > 1 && w.iter().any(|(_, a)| a.len() > 1);
        let words = if p.rng.chance(1, 2) { Some((0..w.len() + p.rng.below(2)).map(|i| format!("w{}", i)).collect::<Vec<String>>()) } else { None };
        p.case(format!("{} {:?} {:?}", id, words, n), nt, || {
            same("meets_negra_criteria", meets_negra_criteria(&tree(&n)), meets)?;
            if meets && rooted {
                exported(&n, id, words.clone())?;
            }
            if !meets {
                let mode = match &words {
                    Some(v) => DumpMode::FromPos(v.clone()),
                    None => DumpMode::Default,
                };
                if let Ok(x) = panics(|| to_negra(&tree(&n), id, mode)) {
                    return Err(format!("exported although a rule has terminals besides other things: {:?}", x));
                }
            }
            let s: Vec<String> = w.iter().map(|x| x.0.clone()).collect();
            without_parse(&s, id, words.clone())
        });
    }
    p.finish();
}
