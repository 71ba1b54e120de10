//! Mechanical extraction of functions and types from /repo into a Verus file.
//!
//! `xtract TEMPLATE REPO OUT [--vacuity]`
//!
//! The template is a Verus file with directive blocks (see /verif/DESIGN.md,
//! "Extraction"). Every executable line of an extracted function comes from the
//! current source in REPO; the template only adds specification.
//! Exit 0: written. Exit 3: an anchor was lost (message on stderr). Exit 2: usage.

mod emit;
mod norm;
mod template;

use std::collections::HashMap;
use std::process::exit;

pub struct Lost(pub String);
pub type Res<T> = Result<T, Lost>;
pub fn lost<T>(m: impl Into<String>) -> Res<T> {
    Err(Lost(m.into()))
}

pub struct Sources {
    pub repo: String,
    pub files: HashMap<String, syn::File>,
}
impl Sources {
    pub fn get(&mut self, f: &str) -> Res<&syn::File> {
        if !self.files.contains_key(f) {
            let p = format!("{}/{}", self.repo, f);
            let s = std::fs::read_to_string(&p).or_else(|e| lost(format!("cannot read {}: {}", f, e)))?;
            let t = syn::parse_file(&s).or_else(|e| lost(format!("cannot parse {}: {}", f, e)))?;
            self.files.insert(f.to_string(), t);
        }
        Ok(&self.files[f])
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() < 4 {
        eprintln!("usage: xtract TEMPLATE REPO OUT [--vacuity]");
        exit(2);
    }
    let vac = args.iter().any(|a| a == "--vacuity");
    let text = match std::fs::read_to_string(&args[1]) {
        Ok(t) => t,
        Err(e) => {
            eprintln!("{}: {}", args[1], e);
            exit(2)
        }
    };
    let incdir = std::path::Path::new(&args[1]).parent().map(|p| p.display().to_string()).unwrap_or_default();
    let mut src = Sources { repo: args[2].clone(), files: HashMap::new() };
    match template::process(&text, &mut src, vac, &incdir) {
        Ok(out) => {
            std::fs::write(&args[3], out).unwrap();
        }
        Err(Lost(m)) => {
            eprintln!("ANCHOR-LOST: {}", m);
            exit(3);
        }
    }
}
