// C01: recognize against the grammar D -> eps | D <a D >a (dynamic programming over spans).
use pk::*;
use rustomata::dyck::{recognize, Bracket};

fn oracle<A: PartialEq>(w: &[Bracket<A>]) -> bool {
    let n = w.len();
    // d[i][j]: w[i..j] is derivable
    let mut d = vec![vec![false; n + 1]; n + 1];
    for i in 0..=n {
        d[i][i] = true;
    }
    for len in 1..=n {
        for i in 0..=n - len {
            let j = i + len;
            if let Bracket::Close(ref b) = w[j - 1] {
                for k in i..j - 1 {
                    if let Bracket::Open(ref a) = w[k] {
                        if a == b && d[i][k] && d[k + 1][j - 1] {
                            d[i][j] = true;
                        }
                    }
                }
            }
        }
    }
    d[0][n]
}

fn main() {
    let mut p = Probe::new("all words up to length 6 over two annotations; random words up to length 40 over up to 5 annotations, half of them made from well-nested words by at most two edits; non-trivial: at least one bracket");
    for len in 0..=6u32 {
        for code in 0..4u64.pow(len) {
            let mut c = code;
            let mut w = Vec::new();
            for _ in 0..len {
                let a = (c / 2) % 2;
                w.push(if c % 2 == 0 { Bracket::Open(a) } else { Bracket::Close(a) });
                c /= 4;
            }
            p.case(format!("{:?}", w), len > 0, || same("recognize", recognize(&w), oracle(&w)));
        }
    }
    for _ in 0..p.rounds(4000, 20) {
        let n = 1 + p.rng.below(5);
        let len = p.rng.below(41);
        let mut w: Vec<Bracket<String>> = Vec::new();
        if p.rng.chance(1, 2) {
            for _ in 0..len {
                let a = format!("s{}", p.rng.below(n));
                w.push(if p.rng.chance(1, 2) { Bracket::Open(a) } else { Bracket::Close(a) });
            }
        } else {
            let mut st: Vec<String> = Vec::new();
            for _ in 0..len {
                if st.is_empty() || p.rng.chance(1, 2) {
                    let a = format!("s{}", p.rng.below(n));
                    st.push(a.clone());
                    w.push(Bracket::Open(a));
                } else {
                    w.push(Bracket::Close(st.pop().unwrap()));
                }
            }
            while let Some(a) = st.pop() {
                w.push(Bracket::Close(a));
            }
            for _ in 0..p.rng.below(3) {
                if w.is_empty() {
                    break;
                }
                let i = p.rng.below(w.len());
                match p.rng.below(3) {
                    0 => {
                        w.remove(i);
                    }
                    1 => w[i] = Bracket::Close(format!("s{}", p.rng.below(n))),
                    _ => {
                        let j = p.rng.below(w.len());
                        w.swap(i, j)
                    }
                }
            }
        }
        p.case(format!("{:?}", w), !w.is_empty(), || same("recognize", recognize(&w), oracle(&w)));
    }
    // deep nesting
    for &n in &[1000usize, 20000] {
        let mut w: Vec<Bracket<usize>> = (0..n).map(Bracket::Open).collect();
        w.extend((0..n).rev().map(Bracket::Close));
        p.case(format!("nested {}", n), true, || same("recognize", recognize(&w), true));
        w.pop();
        p.case(format!("nested {} without last", n), true, || same("recognize", recognize(&w), false));
    }
    p.finish();
}
