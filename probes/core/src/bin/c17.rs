// C17: equivalence relations against the family of classes they are given by.
use pk::*;
use rustomata::approximation::equivalence_classes::{EquivalenceClass, EquivalenceRelation};
use std::collections::{HashMap, HashSet};

type Fam = Vec<(u16, Vec<u16>)>;
fn table(f: &Fam) -> HashMap<u16, HashSet<u16>> {
    f.iter().map(|(l, v)| (*l, v.iter().cloned().collect())).collect()
}
fn label(f: &Fam, d: u16, a: u16) -> u16 {
    f.iter().find(|(_, v)| v.contains(&a)).map_or(d, |x| x.0)
}
fn run(f: &Fam, d: u16, order: &[usize]) -> Result<(), String> {
    let mut all: Vec<u16> = Vec::new();
    let mut twice = false;
    for (_, v) in f {
        let s: HashSet<u16> = v.iter().cloned().collect();
        for a in s {
            twice |= all.contains(&a);
            all.push(a);
        }
    }
    let clash = f.iter().any(|(l, _)| *l == d);
    let r = EquivalenceRelation::new_safe(table(f), d);
    same("accepted", r.is_ok(), !twice && !clash)?;
    let values: Vec<u16> = (0..14).chain(vec![999, u16::max_value()]).collect();
    let check = |w: &str, r: &EquivalenceRelation<u16, u16>| -> Result<(), String> {
        for a in &values {
            same(&format!("{}: class of {}", w, a), r.project(a), label(f, d, *a))?;
        }
        Ok(())
    };
    match r {
        Ok(r) => check("new_safe", &r)?,
        Err(_) => {
            let loud = panics(|| EquivalenceRelation::new(table(f), d));
            return same("new panics", loud.is_err(), true);
        }
    }
    check("new", &EquivalenceRelation::new(table(f), d))?;
    // the other ways to give the same classes, in any order
    let mut cs: Vec<(u16, Option<Vec<u16>>)> = f.iter().map(|(l, v)| (*l, Some(v.clone()))).collect();
    cs.push((d, None));
    let cs: Vec<(u16, Option<Vec<u16>>)> = order.iter().map(|i| cs[*i].clone()).collect();
    let r2 = EquivalenceRelation::from(cs.iter().cloned().map(EquivalenceClass::from).collect::<Vec<_>>());
    check("from classes", &r2)?;
    same("same relation", r2 == EquivalenceRelation::new(table(f), d), true)?;
    same("other default", r2 == EquivalenceRelation::new(table(f), 60000), false)?;
    let text: Vec<String> = cs
        .iter()
        .map(|(l, s)| match s {
            None => format!("{} *", l),
            Some(v) => format!("{} [{}]", l, v.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(", ")),
        })
        .collect();
    match text.join("\n").parse::<EquivalenceRelation<u16, u16>>() {
        Ok(r3) => check("parsed", &r3),
        Err(e) => Err(format!("text {:?} is not read: {}", text, e)),
    }
}
fn main() {
    let mut p = Probe::new("random families of up to 5 classes over 14 values, default labels that clash or not, all three ways to give them; non-trivial: at least two non-empty classes");
    for _ in 0..p.rounds(6000, 30) {
        let n = p.rng.below(6);
        let mut f: Fam = Vec::new();
        let spread = 1 + p.rng.below(3);
        let disjoint = p.rng.chance(3, 4);
        for i in 0..n {
            let mut v = Vec::new();
            for a in 0..12u16 {
                let mine = if disjoint { a as usize % (n + spread) == i } else { p.rng.chance(1, 8) };
                if mine && p.rng.chance(4, 5) {
                    v.push(a);
                    if p.rng.chance(1, 10) {
                        v.push(a);
                    }
                }
            }
            if p.rng.chance(1, 6) {
                v.clear();
            }
            p.rng.shuffle(&mut v);
            f.push((i as u16 * 3, v));
        }
        let d = *p.rng.pick(&[1u16, 0, 3, 6, 7, 100, 12]);
        let mut order: Vec<usize> = (0..=n).collect();
        p.rng.shuffle(&mut order);
        p.case(format!("classes {:?} default {} order {:?}", f, d, order), f.iter().filter(|c| !c.1.is_empty()).count() > 1, || run(&f, d, &order));
    }
    p.finish();
}
