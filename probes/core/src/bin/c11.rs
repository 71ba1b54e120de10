// C11: partitions against the list of cells they are given by.
use pk::*;
use rustomata::util::partition::Partition;
use std::collections::BTreeSet;

fn run(cells: &Vec<Vec<u8>>) -> Result<(), String> {
    let cs: Vec<BTreeSet<u8>> = cells.iter().map(|c| c.iter().cloned().collect()).collect();
    let mut all: BTreeSet<u8> = BTreeSet::new();
    let mut twice = false;
    for c in &cs {
        for a in c {
            twice |= !all.insert(*a);
        }
    }
    let p = Partition::new(cs.clone());
    same("accepted", p.is_some(), !twice)?;
    let p = match p {
        None => return Ok(()),
        Some(p) => p,
    };
    for a in 0..=255u8 {
        same(&format!("cell of {}", a), p.get_cell(&a), cs.iter().find(|c| c.contains(&a)))?;
    }
    let mut want: Vec<&BTreeSet<u8>> = cs.iter().filter(|c| !c.is_empty()).collect();
    want.sort_by_key(|c| *c.iter().next().unwrap());
    same("cells", p.collapse(), want)?;
    same("alphabet", p.alphabet().cloned().collect::<Vec<_>>(), all.into_iter().collect::<Vec<_>>())
}
fn main() {
    let mut p = Probe::new("random lists of up to 6 cells over 20 symbols, disjoint or overlapping, with empty and equal cells; non-trivial: at least two non-empty cells");
    for _ in 0..p.rounds(8000, 30) {
        let n = p.rng.below(7);
        let mut cells: Vec<Vec<u8>> = vec![Vec::new(); n];
        if n > 0 {
            for a in 0..20u8 {
                if p.rng.chance(1, 2) {
                    let i = p.rng.below(n);
                    cells[i].push(a);
                    if p.rng.chance(1, 40) {
                        let i = p.rng.below(n);
                        cells[i].push(a);
                    }
                }
            }
            if p.rng.chance(1, 20) {
                let (i, j) = (p.rng.below(n), p.rng.below(n));
                cells[i] = cells[j].clone();
            }
            if p.rng.chance(1, 20) {
                let i = p.rng.below(n);
                cells[i] = vec![];
            }
        }
        p.case(format!("cells {:?}", cells), cells.iter().filter(|c| !c.is_empty()).count() > 1, || run(&cells));
    }
    p.finish();
}
