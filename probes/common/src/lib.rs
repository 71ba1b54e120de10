//! Concrete-run harness: looks for failing inputs of a property on the real, compiled code.
//! `BIN --seed N --tier quick|thorough [--only CASE]`; prints one JSON line at the end.
//! Exit 0: nothing found; exit 1: a failing case (described after `FAIL`).
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

#[derive(Clone)]
pub struct Rng(u64);
impl Rng {
    pub fn new(s: u64) -> Rng {
        let mut r = Rng(s.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0xD1B5_4A32_D192_ED03);
        for _ in 0..8 {
            r.next();
        }
        r
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        (self.next() % (n as u64)) as usize
    }
    pub fn chance(&mut self, a: usize, b: usize) -> bool {
        self.below(b) < a
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        let k = self.below(v.len());
        &v[k]
    }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) {
        for i in (1..v.len()).rev() {
            let j = self.below(i + 1);
            v.swap(i, j);
        }
    }
}

struct Watch {
    case: u64,
    desc: String,
    since: Instant,
}

pub struct Probe {
    pub rng: Rng,
    pub thorough: bool,
    only: Option<u64>,
    n: u64,
    seen: HashSet<u64>,
    samples: Vec<String>,
    rule: String,
    start: Instant,
    watch: Arc<Mutex<Option<Watch>>>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl Probe {
    pub fn new(rule: &str) -> Probe {
        let a: Vec<String> = std::env::args().collect();
        let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
        let seed = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1u64);
        let thorough = get("--tier").map_or(false, |t| t == "thorough");
        let only = get("--only").and_then(|s| s.parse().ok());
        std::panic::set_hook(Box::new(|_| {}));
        let watch: Arc<Mutex<Option<Watch>>> = Arc::new(Mutex::new(None));
        let w2 = watch.clone();
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if let Some(w) = &*w2.lock().unwrap() {
                if w.since.elapsed() > Duration::from_secs(100) {
                    println!("FAIL case={}\ninput: {}\nobserved: no answer within 100 s", w.case, w.desc);
                    std::process::exit(1);
                }
            }
        });
        Probe { rng: Rng::new(seed), thorough, only, n: 0, seen: HashSet::new(), samples: Vec::new(), rule: rule.to_string(), start: Instant::now(), watch }
    }
    /// `quick` rounds in the quick tier, `k` times as many in the thorough tier.
    pub fn rounds(&self, quick: usize, k: usize) -> usize {
        if self.thorough {
            quick * k
        } else {
            quick
        }
    }
    /// One case. `f` runs the real code and compares with the oracle; a panic is a failure.
    pub fn case<F: FnOnce() -> Result<(), String>>(&mut self, desc: String, nontrivial: bool, f: F) {
        let k = self.n;
        self.n += 1;
        if let Some(o) = self.only {
            if o != k {
                return;
            }
        }
        if nontrivial {
            let mut h = std::collections::hash_map::DefaultHasher::new();
            desc.hash(&mut h);
            if self.seen.insert(h.finish()) && (self.samples.len() < 3 || (self.samples.len() < 8 && self.seen.len() % 997 == 0)) {
                self.samples.push(desc.clone());
            }
        }
        *self.watch.lock().unwrap() = Some(Watch { case: k, desc: desc.clone(), since: Instant::now() });
        let r = catch_unwind(AssertUnwindSafe(f));
        *self.watch.lock().unwrap() = None;
        let msg = match r {
            Ok(Ok(())) => return,
            Ok(Err(m)) => m,
            Err(p) => {
                let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                format!("panicked: {}", m)
            }
        };
        println!("FAIL case={}\ninput: {}\nobserved: {}", k, desc, msg);
        std::process::exit(1);
    }
    pub fn finish(self) {
        let s: Vec<String> = self.samples.iter().map(|s| esc(&s.chars().take(600).collect::<String>())).collect();
        println!(
            "{{\"evaluations\": {}, \"distinct_nontrivial\": {}, \"rule\": {}, \"samples\": [{}], \"probe_s\": {:.2}}}",
            self.n,
            self.seen.len(),
            esc(&self.rule),
            s.join(", "),
            self.start.elapsed().as_secs_f64()
        );
    }
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) -> Result<(), String> {
    if got == want {
        Ok(())
    } else {
        Err(format!("{}: got {:?}, expected {:?}", what, got, want))
    }
}
/// `Some(message)` if f panics
pub fn panics<T, F: FnOnce() -> T>(f: F) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|p| {
        let m = p.downcast_ref::<String>().cloned().or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        format!("panicked: {}", m)
    })
}
