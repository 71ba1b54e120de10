//! Template processing: directives are resolved against the current sources.
use crate::norm::*;
use crate::{emit, lost, Res, Sources};
use proc_macro2::{Ident, Span, TokenStream};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::visit::Visit;
use syn::visit_mut::VisitMut;
use syn::*;

struct Section {
    key: String,
    args: Vec<String>,
    line: String,
    text: String,
}

pub fn process(text: &str, src: &mut Sources, vac: bool, incdir: &str) -> Res<String> {
    let lines: Vec<&str> = text.lines().collect();
    let mut out = String::new();
    let mut i = 0;
    while i < lines.len() {
        let l = lines[i].trim();
        if let Some(d) = l.strip_prefix("//@@") {
            let head: Vec<String> = d.split_whitespace().map(|s| s.to_string()).collect();
            let mut secs: Vec<Section> = Vec::new();
            i += 1;
            let single = head.get(0).map_or(false, |s| ["include", "trait", "impl"].contains(&s.as_str()));
            if single {
                i -= 1;
            }
            while !single {
                if i >= lines.len() {
                    return lost(format!("unterminated block {}", d));
                }
                let m = lines[i].trim();
                if m.starts_with("//@@") {
                    break;
                }
                if let Some(s) = m.strip_prefix("//@ ") {
                    let mut parts = s.split_whitespace().map(|s| s.to_string());
                    let key = parts.next().unwrap_or_default();
                    let line = s.trim()[key.len()..].trim().to_string();
                    secs.push(Section { key, args: parts.collect(), line, text: String::new() });
                } else if let Some(s) = secs.last_mut() {
                    s.text.push_str(lines[i]);
                    s.text.push('\n');
                } else if !m.is_empty() {
                    return lost(format!("text before the first section in {}", d));
                }
                i += 1;
            }
            if !single && lines[i].trim() != "//@@ end" {
                return lost(format!("block {} does not end with //@@ end", d));
            }
            i += 1;
            match head.get(0).map(|s| s.as_str()) {
                Some("fn") | Some("method") | Some("lifted") => out.push_str(&function(&head, &secs, src, vac)?),
                Some("type") => out.push_str(&typ(&head, &secs, src)?),
                Some("include") => {
                    let p = format!("{}/{}", incdir, head[1]);
                    let t = std::fs::read_to_string(&p).or_else(|e| lost(format!("{}: {}", p, e)))?;
                    // `include FILE a=>b ..`: with every a in FILE's text replaced by b
                    let t = head[2..].iter().filter_map(|r| r.split_once("=>")).fold(t, |t, (a, b)| t.replace(a, b));
                    out.push_str(&process(&t, src, vac, incdir)?)
                }
                Some("fields") => check_fields(&head, &secs, src)?,
                Some("trait") => check_trait(&head, src)?,
                Some("impl") => check_impl(&head, src)?,
                _ => return lost(format!("unknown directive {}", d)),
            }
        } else {
            out.push_str(lines[i]);
            out.push('\n');
            i += 1;
        }
    }
    Ok(out)
}

/// Splits `<Trait for Type>::name`, `Type::name` or `name`.
fn parse_path(p: &str) -> Res<(Option<String>, Option<String>, String)> {
    if let Some(r) = p.strip_prefix('<') {
        if let Some(k) = r.rfind(">::") {
            let (h, n) = (&r[..k], &r[k + 3..]);
            if let Some(f) = h.find("~for~") {
                return Ok((Some(h[..f].into()), Some(h[f + 5..].into()), n.into()));
            }
        }
        return lost(format!("bad path {}", p));
    }
    match p.rfind("::") {
        Some(k) => Ok((None, Some(p[..k].into()), p[k + 2..].into())),
        None => Ok((None, None, p.into())),
    }
}

fn canon(ts: impl ToTokens) -> String {
    ts.to_token_stream().to_string().replace(' ', "")
}
fn type_matches(t: &Type, want: &str) -> bool {
    let mut t2 = t.clone();
    StripPaths.visit_type_mut(&mut t2);
    if canon(&t2) == want {
        return true;
    }
    let mut t = &t2;
    let mut want = want;
    while let (Type::Reference(r), Some(w)) = (t, want.strip_prefix('&')) {
        t = &r.elem;
        want = w;
    }
    if let Type::Path(p) = t {
        if let Some(s) = p.path.segments.last() {
            return s.ident == want;
        }
    }
    false
}
fn trait_matches(p: &Path, want: &str) -> bool {
    let mut p2 = p.clone();
    StripPaths.visit_path_mut(&mut p2);
    canon(&p2) == want || p2.segments.last().map_or(false, |s| s.ident == want || canon(s) == want)
}

fn items<'a>(f: &'a File, modpath: &Option<String>) -> Vec<&'a Item> {
    fn go<'a>(v: &'a [Item], at: &str, want: &Option<String>, out: &mut Vec<&'a Item>) {
        for i in v {
            if want.as_ref().map_or(true, |w| w == at) {
                out.push(i);
            }
            if let Item::Mod(m) = i {
                let test = m.attrs.iter().any(|a| canon(a).contains("cfg(test)"));
                if let (Some((_, c)), false) = (&m.content, test) {
                    let sub = if at == "self" { m.ident.to_string() } else { format!("{}::{}", at, m.ident) };
                    go(c, &sub, want, out);
                }
            }
        }
    }
    let mut out = Vec::new();
    go(&f.items, "self", modpath, &mut out);
    out
}
/// `weighted::BeamHeap` -> (module `weighted`, `BeamHeap`); `self::X` is the file's top level.
fn split_mod(ty: &str) -> (Option<String>, String) {
    let head = ty.split('<').next().unwrap_or("");
    match head.rfind("::") {
        Some(k) if head[..k].split("::").all(|s| s.chars().next().map_or(false, |c| c.is_lowercase())) => (Some(ty[..k].to_string()), ty[k + 2..].to_string()),
        _ => (None, ty.to_string()),
    }
}

struct Found {
    vis: Visibility,
    sig: Signature,
    block: Block,
    imp: Option<ItemImpl>,
}
fn find(file: &str, path: &str, src: &mut Sources) -> Res<Found> {
    let (tr, ty, name) = parse_path(path)?;
    let f = src.get(file)?;
    let (modpath, ty) = match ty {
        Some(t) => {
            let (m, t) = split_mod(&t);
            (m, Some(t))
        }
        None => (None, None),
    };
    let mut found: Vec<Found> = Vec::new();
    for it in items(f, &modpath) {
        match it {
            Item::Trait(t) if tr.is_none() && ty.as_ref().map_or(false, |w| t.ident == w) => {
                for i in t.items.iter() {
                    if let TraitItem::Fn(g) = i {
                        if let (true, Some(b)) = (g.sig.ident == name, &g.default) {
                            found.push(Found { vis: Visibility::Inherited, sig: g.sig.clone(), block: b.clone(), imp: None });
                        }
                    }
                }
            }
            Item::Fn(g) if ty.is_none() && g.sig.ident == name => {
                found.push(Found { vis: g.vis.clone(), sig: g.sig.clone(), block: (*g.block).clone(), imp: None })
            }
            Item::Impl(im) if ty.is_some() => {
                if !type_matches(&im.self_ty, ty.as_ref().unwrap()) {
                    continue;
                }
                match (&tr, &im.trait_) {
                    (None, None) => {}
                    (Some(w), Some((p, _))) if trait_matches(p, w) => {}
                    _ => continue,
                }
                for i in im.items.iter() {
                    if let ImplItem::Fn(g) = i {
                        if g.sig.ident == name {
                            found.push(Found { vis: g.vis.clone(), sig: g.sig.clone(), block: g.block.clone(), imp: Some(im.clone()) });
                        }
                    }
                }
            }
            _ => {}
        }
    }
    match found.len() {
        1 => Ok(found.pop().unwrap()),
        0 => lost(format!("{}: no function {}", file, path)),
        _ => lost(format!("{}: several functions {}", file, path)),
    }
}

struct PatIdents(Vec<String>);
impl<'a> Visit<'a> for PatIdents {
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.0.push(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
struct ForPats(Vec<Vec<String>>);
impl<'a> Visit<'a> for ForPats {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::ForLoop(f) => {
                let mut p = PatIdents(Vec::new());
                p.visit_pat(&f.pat);
                self.0.push(p.0);
            }
            Expr::While(_) | Expr::Loop(_) => self.0.push(Vec::new()),
            _ => {}
        }
        syn::visit::visit_expr(self, e);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}
struct ArmPats(Vec<Vec<String>>);
impl<'a> Visit<'a> for ArmPats {
    fn visit_arm(&mut self, a: &'a Arm) {
        let mut p = PatIdents(Vec::new());
        p.visit_pat(&a.pat);
        self.0.push(p.0.into_iter().filter(|s| s != "None").collect());
        syn::visit::visit_arm(self, a);
    }
    fn visit_expr_let(&mut self, l: &'a ExprLet) {
        let mut p = PatIdents(Vec::new());
        p.visit_pat(&l.pat);
        self.0.push(p.0);
        syn::visit::visit_expr_let(self, l);
    }
    fn visit_item(&mut self, _: &'a Item) {}
}

/// token-level replacement of a sequence
fn seq_replace(ts: TokenStream, from: &[String], to: &TokenStream, n: &mut usize) -> TokenStream {
    use proc_macro2::{Delimiter, Group, TokenTree};
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if i + from.len() <= v.len() && (0..from.len()).all(|k| v[i + k].to_string().replace(' ', "") == from[k]) {
            out.extend(to.clone());
            *n += 1;
            i += from.len();
            continue;
        }
        match &v[i] {
            TokenTree::Group(g) => {
                let d: Delimiter = g.delimiter();
                out.extend(std::iter::once(TokenTree::Group(Group::new(d, seq_replace(g.stream(), from, to, n)))))
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}
fn flat(ts: TokenStream) -> Vec<String> {
    ts.into_iter().map(|t| t.to_string().replace(' ', "")).collect()
}

fn function(head: &[String], secs: &[Section], src: &mut Sources, vac: bool) -> Res<String> {
    if head.len() < 3 {
        return lost("fn FILE PATH");
    }
    let (file, path) = (&head[1], &head[2]);
    let mut newname: Option<String> = None;
    let mut free = head[0] == "method" || head[0] == "lifted";
    let mut k = if head[0] == "lifted" { head.len() } else { 3 };
    while k < head.len() {
        match head[k].as_str() {
            "as" => {
                newname = head.get(k + 1).cloned();
                k += 2;
            }
            "free" => {
                free = true;
                k += 1;
            }
            x => return lost(format!("unknown option {}", x)),
        }
    }
    let Found { vis, mut sig, mut block, mut imp } = find(file, path, src)?;
    let ctx = |m: String| -> String { format!("{} {}: {}", file, path, m) };
    if head[0] == "lifted" {
        // `lifted FILE FN k CAPTURED..`: the k-th closure of the function as a method `vt_call` of a struct that holds
        // what the closure captures
        let n: usize = head.get(3).and_then(|x| x.parse().ok()).unwrap_or(0);
        let mut l = NthClosure { want: n, n: 0, found: None };
        l.visit_block(&block);
        let c = match l.found {
            Some(c) if c.inputs.len() == 1 => c,
            _ => return lost(ctx(format!("no closure {} with one parameter", n))),
        };
        let mut p = c.inputs[0].clone();
        if let Pat::Type(t) = &p {
            p = (*t.pat).clone();
        }
        let b = &c.body;
        block = match &p {
            Pat::Reference(r) => {
                let q = &r.pat;
                parse_quote!({ let #q = *vt_arg; #b })
            }
            q => parse_quote!({ let #q = vt_arg; #b }),
        };
        // `FIELD=n` is the n-th parameter of the function, held in FIELD
        let mut caps = Vec::new();
        for a in &head[4..] {
            caps.push(match a.split_once('=') {
                Some((f, n)) => {
                    let names: Vec<String> = sig
                        .inputs
                        .iter()
                        .filter_map(|a| match a {
                            FnArg::Typed(t) => Some(t.pat.to_token_stream().to_string()),
                            _ => None,
                        })
                        .collect();
                    match n.parse::<usize>().ok().and_then(|n| names.get(n).cloned()) {
                        Some(x) => (x, f.to_string()),
                        None => return lost(ctx(format!("no parameter {}", n))),
                    }
                }
                None => (a.clone(), a.clone()),
            });
        }
        Captured(caps).visit_block_mut(&mut block);
        sig = parse_quote!(fn vt_call(&mut self, vt_arg: &u8) -> u8);
        imp = None;
    }

    // positional renaming of annotation identifiers
    let mut map: HashMap<String, String> = HashMap::new();
    for s in secs {
        match s.key.as_str() {
            "params" => {
                let names: Vec<String> = sig
                    .inputs
                    .iter()
                    .filter_map(|a| match a {
                        FnArg::Typed(t) => Some(match &*t.pat {
                            Pat::Ident(i) => i.ident.to_string(),
                            _ => String::new(),
                        }),
                        _ => None,
                    })
                    .collect();
                if names.len() != s.args.len() {
                    return lost(ctx(format!("has {} parameters, contract names {}", names.len(), s.args.len())));
                }
                for (a, b) in s.args.iter().zip(names) {
                    if *a != b && !b.is_empty() && a != "_" {
                        map.insert(a.clone(), b);
                    }
                }
            }
            "local" => {
                let mut l = Lets(Vec::new());
                l.visit_block(&block);
                let n: usize = s.args[1].parse().unwrap_or(0);
                match l.0.get(n) {
                    Some(x) if !x.is_empty() => {
                        if *x != s.args[0] {
                            map.insert(s.args[0].clone(), x.clone());
                        }
                    }
                    _ => return lost(ctx(format!("no let {}", n))),
                }
            }
            "forpat" => {
                let mut l = ForPats(Vec::new());
                l.visit_block(&block);
                let n: usize = s.args[0].parse().unwrap_or(0);
                match l.0.get(n) {
                    Some(x) if x.len() == s.args.len() - 1 => {
                        for (a, b) in s.args[1..].iter().zip(x) {
                            if a != b {
                                map.insert(a.clone(), b.clone());
                            }
                        }
                    }
                    _ => return lost(ctx(format!("loop {} has another pattern", n))),
                }
            }
            "armpat" => {
                let mut l = ArmPats(Vec::new());
                l.visit_block(&block);
                let n: usize = s.args[0].parse().unwrap_or(0);
                match l.0.get(n) {
                    Some(x) if x.len() == s.args.len() - 1 => {
                        for (a, b) in s.args[1..].iter().zip(x) {
                            if a != b {
                                map.insert(a.clone(), b.clone());
                            }
                        }
                    }
                    x => return lost(ctx(format!("match arm {} has another pattern: {:?}", n, x))),
                }
            }
            _ => {}
        }
    }

    let mut al = AfterLet { at: BTreeMap::new(), n: 0, done: 0 };
    for s in secs.iter().filter(|s| s.key == "afterlet") {
        al.at.insert(s.args[0].parse().unwrap_or(0), rename(tokens(&s.text)?, &map));
    }
    al.visit_block_mut(&mut block);
    if al.done != al.at.len() {
        return lost(ctx("afterlet: no such let".into()));
    }

    // normalisation
    let keep = secs.iter().any(|s| s.key == "keeppaths");
    if !keep {
        StripPaths.visit_block_mut(&mut block);
        StripPaths.visit_signature_mut(&mut sig);
    }
    DropAttrs.visit_block_mut(&mut block);
    RefPats.visit_block_mut(&mut block);
    WhileLet.visit_block_mut(&mut block);
    Skips.visit_block_mut(&mut block);
    Normal.visit_block_mut(&mut block);
    if secs.iter().any(|s| s.key == "texts") {
        Texts.visit_block_mut(&mut block);
    }
    if secs.iter().any(|s| s.key == "formats") {
        Formats.visit_block_mut(&mut block);
    }

    // source-level rewrites
    let mut cm = CallMap { eqs: secs.iter().any(|s| s.key == "eqs"), ..CallMap::default() };
    let mut substs: Vec<(Vec<String>, TokenStream, bool)> = Vec::new();
    let mut dropb: Vec<String> = Vec::new();
    let mut addb: Vec<TokenStream> = Vec::new();
    let mut addp: Vec<TokenStream> = Vec::new();
    for s in secs {
        match s.key.as_str() {
            "mapmethod" => {
                cm.methods.insert(s.args[0].clone(), tokens(&s.args[1..].join(" "))?);
            }
            "mapindex" => {
                cm.index.insert(s.args[0].clone(), tokens(&s.args[1..].join(" "))?);
            }
            "mappath" => {
                cm.paths.insert(s.args[0].clone(), tokens(&s.args[1..].join(" "))?);
            }
            "subst" | "subst?" => {
                let (a, b) = match s.line.split_once("=>>") {
                    Some(x) => x,
                    None => return lost(ctx("bad subst".into())),
                };
                substs.push((flat(tokens(a)?), tokens(b)?, s.key == "subst"));
            }
            "foriter" => {
                // `for x in E` becomes `for x in FN(E)`
                let n: usize = s.args[0].parse().unwrap_or(0);
                let mut l = ForExprs { want: n, n: 0, f: tokens(&s.args[1..].join(" "))?, done: false };
                l.visit_block_mut(&mut block);
                if !l.done {
                    return lost(ctx(format!("no for loop {}", n)));
                }
            }
            "eachmap" => {
                let mut l = EachMap { want: s.args[0].parse().unwrap_or(0), n: 0, done: false };
                l.visit_block_mut(&mut block);
                if !l.done {
                    return lost(ctx(format!("no map {}", s.args[0])));
                }
            }
            "eachfn" => EachFn { name: s.args[0].clone() }.visit_block_mut(&mut block),
            "optmap" => {
                let mut l = OptMap { want: s.args[0].parse().unwrap_or(0), n: 0, done: false };
                l.visit_block_mut(&mut block);
                if !l.done {
                    return lost(ctx(format!("no map {}", s.args[0])));
                }
            }
            "callmap" => {
                let mut l = CallVar { name: s.args[0].clone(), f: tokens(&s.args[1])?, pre: tokens(&s.args[2..].join(" "))? };
                l.visit_block_mut(&mut block);
            }
            "lift" => {
                let mut l = Lift { want: s.args[0].parse().unwrap_or(0), n: 0, by: tokens(&s.args[1..].join(" "))?, done: false };
                l.visit_block_mut(&mut block);
                if !l.done {
                    return lost(ctx(format!("no closure {}", s.args[0])));
                }
            }
            "dropbound" => dropb.extend(s.args.iter().cloned()),
            "addwhere" => addb.push(tokens(&s.line)?),
            "addgeneric" => addp.push(tokens(&s.line)?),
            _ => {}
        }
    }
    cm.visit_block_mut(&mut block);

    // annotations
    let mut sp = Splice { loops: BTreeMap::new(), closures: BTreeMap::new(), nl: 0, nc: 0, vac, err: None };
    let mut ret: Option<String> = None;
    let (mut req, mut ens, mut dec, mut attr) = (quote!(), quote!(), quote!(), quote!());
    let mut start = quote!();
    let mut tail = quote!();
    let mut implhead: Option<TokenStream> = None;
    let mut newparams: Option<TokenStream> = None;
    let mut newret: Option<TokenStream> = None;
    let an = |t: &str, map: &HashMap<String, String>| -> Res<TokenStream> { Ok(rename(tokens(t)?, map)) };
    for s in secs {
        let body = format!("{}\n{}", "", s.text);
        match s.key.as_str() {
            "ret" => ret = Some(s.args[0].clone()),
            "requires" => {
                let t = an(&format!("{}\n{}", s.line, s.text), &map)?;
                req = quote!(requires #t);
            }
            "ensures" => {
                let t = an(&format!("{}\n{}", s.line, s.text), &map)?;
                ens = quote!(ensures #t);
            }
            "decreases" => {
                let t = an(&format!("{}\n{}", s.line, s.text), &map)?;
                dec = quote!(decreases #t);
            }
            "attr" => attr.extend(tokens(&format!("{}\n{}", s.line, s.text))?),
            "start" => start.extend(an(&body, &map)?),
            "tail" => tail.extend(an(&body, &map)?),
            "implhead" => implhead = Some(tokens(&s.line)?),
            "newparams" => newparams = Some(tokens(&s.line)?),
            "newret" => newret = Some(tokens(&s.line)?),
            "loop" => {
                let n: usize = s.args[0].parse().unwrap_or(0);
                let e = sp.loops.entry(n).or_default();
                e.kind = s.args[1].clone();
                e.iter = s.args.get(2).cloned();
                e.spec = an(&body, &map)?;
            }
            "loopstart" | "loopend" | "before" | "after" => {
                let n: usize = s.args[0].parse().unwrap_or(0);
                let t = an(&body, &map)?;
                let e = sp.loops.entry(n).or_default();
                match s.key.as_str() {
                    "loopstart" => e.start = t,
                    "loopend" => e.end = t,
                    "before" => e.before = t,
                    _ => e.after = t,
                }
            }
            "closure" => {
                // //@ closure k (params) -> (r: T)     followed by requires/ensures text
                let n: usize = s.args[0].parse().unwrap_or(0);
                let e = sp.closures.entry(n).or_default();
                let rest = s.line[s.args[0].len()..].trim();
                if rest.is_empty() {
                    continue;
                }
                let (p, r) = match rest.split_once("->") {
                    Some(x) => x,
                    None => return lost(ctx("bad closure".into())),
                };
                let p = p.trim().trim_start_matches('(').trim_end();
                let p = &p[..p.len() - 1];
                e.params = tokens(p)?;
                e.ret = tokens(r)?;
                e.spec = an(&body, &map)?;
            }
            "closurestart" => {
                let n: usize = s.args[0].parse().unwrap_or(0);
                sp.closures.entry(n).or_default().start = an(&body, &map)?;
            }
            "params" | "local" | "forpat" | "armpat" | "mapmethod" | "mappath" | "subst" | "subst?" | "dropbound" | "addwhere"
            | "addgeneric" | "dropgeneric" | "note" | "keeppaths" | "foriter" | "eachmap" | "eachfn" | "optmap" | "callmap" | "lift" | "texts" | "formats" | "eqs" | "afterlet" | "mapindex" => {}
            x => return lost(ctx(format!("unknown section {}", x))),
        }
    }
    sp.visit_block_mut(&mut block);
    if let Some(e) = sp.err {
        return lost(ctx(e));
    }
    if let Some(n) = sp.loops.keys().find(|n| **n >= sp.nl) {
        return lost(ctx(format!("no loop {}", n)));
    }
    if let Some(n) = sp.closures.keys().find(|n| **n >= sp.nc) {
        return lost(ctx(format!("no closure {}", n)));
    }

    // parameters: `mut` bindings move into the body
    let mut pre = quote!();
    let mut self_renamed = false;
    let mut narg = 0;
    for a in sig.inputs.iter_mut() {
        match a {
            FnArg::Receiver(r) => {
                r.attrs.clear();
                if r.mutability.is_some() && matches!(r.kind, ReceiverKind::Value) {
                    r.mutability = None;
                    pre.extend(quote!(let mut self_ = self;));
                    self_renamed = true;
                }
            }
            FnArg::Typed(t) => {
                t.attrs.clear();
                match &mut *t.pat {
                    Pat::Ident(i) if i.mutability.is_some() => {
                        i.mutability = None;
                        let n = &i.ident;
                        pre.extend(quote!(let mut #n = #n;));
                    }
                    Pat::Ident(_) => {}
                    // a parameter nothing uses gets a name
                    q @ Pat::Wild(_) => {
                        let n = Ident::new(&format!("unused_{}", narg), Span::call_site());
                        narg += 1;
                        *q = parse_quote!(#n);
                    }
                    q => {
                        // a pattern: bound at the start of the body
                        let n = Ident::new(&format!("arg_{}", narg), Span::call_site());
                        pre.extend(quote!(let #q = #n;));
                        narg += 1;
                        *q = parse_quote!(#n);
                    }
                }
            }
        }
    }
    let stmts = &block.stmts;
    let mut body = quote!(#(#stmts)*);
    for (k, t) in &al.at {
        let mut n = 0;
        body = seq_replace(body, &[format!("vt_after_let_{}", k), ";".into()], t, &mut n);
    }
    if self_renamed {
        let mut m = HashMap::new();
        m.insert("self".to_string(), "self_".to_string());
        body = rename(body, &m);
    }
    for (from, to, must) in substs {
        let mut n = 0;
        body = seq_replace(body, &from, &to, &mut n);
        if n == 0 && must {
            return lost(ctx(format!("`{}` does not occur", from.join(" "))));
        }
    }
    let vacs = if vac { vacuity_probe() } else { quote!() };
    let body = if tail.is_empty() { quote!({ #vacs #pre #start #body }) } else { quote!({ #vacs #pre #start let result__ = { #body }; #tail result__ }) };

    // signature
    let mut gens = sig.generics.clone();
    drop_bounds(&mut gens, &dropb);
    for s in secs.iter().filter(|s| s.key == "dropgeneric") {
        gens.params = gens
            .params
            .into_iter()
            .filter(|p| match p {
                GenericParam::Type(t) => !s.args.contains(&t.ident.to_string()),
                _ => true,
            })
            .collect();
    }
    let mut imp = imp;
    let mut assoc: HashMap<String, TokenStream> = HashMap::new();
    if let Some(im) = &mut imp {
        drop_bounds(&mut im.generics, &dropb);
        for i in &im.items {
            if let ImplItem::Type(t) = i {
                assoc.insert(t.ident.to_string(), t.ty.to_token_stream());
            }
        }
    }
    let name = Ident::new(newname.as_ref().unwrap_or(&sig.ident.to_string()), Span::call_site());
    // an impl for `&T` becomes one for `T`, with the receiver by reference
    let refself = match imp.as_ref().map(|im| &*im.self_ty) {
        Some(Type::Reference(r)) => Some(r.clone()),
        _ => None,
    };
    let inputs = sig.inputs.iter().map(|a| match (a, &refself) {
        (FnArg::Receiver(_), Some(r)) => {
            let (l, m) = (&r.lifetime, &r.mutability);
            quote!(&#l #m self)
        }
        _ => a.to_token_stream(),
    });
    let inputs = newparams.unwrap_or(quote!(#(#inputs),*));
    let out = match (&sig.output, &ret, newret) {
        (_, Some(r), Some(t)) => {
            let r = Ident::new(r, Span::call_site());
            quote!(-> (#r: #t))
        }
        (ReturnType::Default, _, _) => quote!(),
        (ReturnType::Type(_, t), Some(r), _) => {
            let r = Ident::new(r, Span::call_site());
            quote!(-> (#r: #t))
        }
        (ReturnType::Type(_, t), None, _) => quote!(-> #t),
    };
    let unsafety = &sig.safety;
    let gp = &gens.params;
    let gparams = if gens.params.is_empty() && addp.is_empty() { quote!() } else if addp.is_empty() { quote!(<#gp>) } else { let c = if gp.is_empty() || gp.trailing_punct() { quote!() } else { quote!(,) }; quote!(<#gp #c #(#addp),*>) };
    let wh = match &gens.where_clause {
        Some(w) => {
            let p = w.predicates.iter();
            if addb.is_empty() || imp.is_some() && !free { quote!(where #(#p,)*) } else { quote!(where #(#p,)* #(#addb,)*) }
        }
        None if addb.is_empty() || imp.is_some() && !free => quote!(),
        None => quote!(where #(#addb,)*),
    };
    let vis = if keep { quote!(#vis) } else { quote!() };
    let mut ts = quote!(#attr #vis #unsafety fn #name #gparams (#inputs) #out #wh #req #ens #dec #body);
    ts = subst_assoc(ts, &assoc);
    let label = format!("//@FN {} {}\n", file, path);
    if let (Some(im), false) = (&imp, free) {
        let (ig, st) = (&im.generics, &im.self_ty);
        let igp = &ig.params;
        let w: Vec<TokenStream> = ig
            .where_clause
            .as_ref()
            .map(|w| w.predicates.iter().map(|p| p.to_token_stream()).collect())
            .unwrap_or_default();
        let h = match implhead {
            Some(h) => h,
            None => {
                let mut st2 = (**st).clone();
                if let Type::Reference(r) = &st2 {
                    st2 = (*r.elem).clone();
                }
                StripPaths.visit_type_mut(&mut st2);
                let igs = if igp.is_empty() { quote!() } else { quote!(<#igp>) };
                let ws = if w.is_empty() && addb.is_empty() { quote!() } else { quote!(where #(#w,)* #(#addb,)*) };
                let mut t = quote!(impl #igs #st2 #ws);
                t = subst_assoc(t, &assoc);
                t
            }
        };
        ts = quote!(#h { #ts });
    } else if let (Some(h), None) = (implhead, &imp) {
        // a provided method of a trait, in a trait that only holds it
        ts = quote!(#h { #ts });
    }
    Ok(format!("{}{}\n//@ENDFN\n", label, emit::print(&ts, 0)))
}

fn strip_fields(f: &mut Fields) {
    for x in f.iter_mut() {
        x.attrs.clear();
        x.vis = Visibility::Inherited;
    }
}

fn find_type(file: &str, name: &str, src: &mut Sources) -> Res<Item> {
    let (modpath, name) = split_mod(name);
    let name = name.as_str();
    let f = src.get(file)?;
    for it in items(f, &modpath) {
        match it {
            Item::Struct(s) if s.ident == name => return Ok(it.clone()),
            Item::Enum(s) if s.ident == name => return Ok(it.clone()),
            Item::Type(s) if s.ident == name => return Ok(it.clone()),
            _ => {}
        }
    }
    lost(format!("{}: no type {}", file, name))
}

fn typ(head: &[String], secs: &[Section], src: &mut Sources) -> Res<String> {
    let (file, name) = (&head[1], &head[2]);
    let mut it = find_type(file, name, src)?;
    let mut dropb = Vec::new();
    let mut attr = quote!();
    let mut substs: Vec<(Vec<String>, TokenStream)> = Vec::new();
    for s in secs {
        match s.key.as_str() {
            "dropbound" => dropb.extend(s.args.iter().cloned()),
            "attr" => attr.extend(tokens(&format!("{}\n{}", s.line, s.text))?),
            "keeppaths" | "public" => {}
            "derives" => {
                // the traits named are derived (field by field, as the language defines it)
                let attrs = match &it { Item::Struct(s) => &s.attrs, Item::Enum(s) => &s.attrs, _ => return lost(format!("{}: derives", name)) };
                let has: Vec<String> = attrs.iter().filter(|a| a.path().is_ident("derive"))
                    .filter_map(|a| a.meta.require_list().ok()).flat_map(|l| flat(l.tokens.clone())).collect();
                if let Some(d) = s.args.iter().find(|d| !has.contains(d)) {
                    return lost(format!("{}: {} is no longer derived", name, d));
                }
            }
            "subst" => {
                let (a, b) = s.line.split_once("=>>").unwrap_or(("", ""));
                substs.push((flat(tokens(a)?), tokens(b)?));
            }
            x => return lost(format!("{}: unknown section {}", name, x)),
        }
    }
    if !secs.iter().any(|s| s.key == "keeppaths") {
        StripPaths.visit_item_mut(&mut it);
    }
    match &mut it {
        Item::Struct(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
            strip_fields(&mut s.fields);
            drop_bounds(&mut s.generics, &dropb);
        }
        Item::Enum(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
            for v in s.variants.iter_mut() {
                v.attrs.clear();
                strip_fields(&mut v.fields);
            }
            drop_bounds(&mut s.generics, &dropb);
        }
        Item::Type(s) => {
            s.attrs.clear();
            s.vis = Visibility::Inherited;
        }
        _ => {}
    }
    if secs.iter().any(|s| s.key == "public") {
        match &mut it {
            Item::Struct(s) => {
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
            }
            Item::Enum(s) => s.vis = parse_quote!(pub),
            Item::Type(s) => s.vis = parse_quote!(pub),
            _ => {}
        }
    }
    let mut ts = it.to_token_stream();
    for (from, to) in substs {
        let mut n = 0;
        ts = seq_replace(ts, &from, &to, &mut n);
        if n == 0 {
            return lost(format!("type {}: `{}` does not occur", name, from.join(" ")));
        }
    }
    Ok(format!("//@TYPE {} {}\n{}\n", file, name, emit::print(&quote!(#attr #ts), 0)))
}

/// `//@@ fields FILE Type a b c`: the type has exactly these fields (for hand-declared external types).
fn check_fields(head: &[String], _: &[Section], src: &mut Sources) -> Res<()> {
    let it = find_type(&head[1], &head[2], src)?;
    if let Item::Struct(s) = it {
        let names: Vec<String> = s.fields.iter().map(|f| f.ident.as_ref().map(|i| i.to_string()).unwrap_or_default()).collect();
        if names == head[3..] {
            return Ok(());
        }
    }
    lost(format!("{}: fields of {} changed", head[1], head[2]))
}

/// `//@@ trait FILE Name m1 m2 ..`: the trait has exactly these methods (for traits declared by hand,
/// with contracts; their default methods are extracted, their implementations are checked by type).
fn check_trait(head: &[String], src: &mut Sources) -> Res<()> {
    let f = src.get(&head[1])?;
    for it in items(f, &None) {
        if let Item::Trait(t) = it {
            if t.ident == head[2] {
                let names: Vec<String> = t.items.iter().filter_map(|i| if let TraitItem::Fn(g) = i { Some(g.sig.ident.to_string()) } else { None }).collect();
                if names == head[3..] {
                    return Ok(());
                }
                return lost(format!("{}: methods of trait {} changed", head[1], head[2]));
            }
        }
    }
    lost(format!("{}: no trait {}", head[1], head[2]))
}

/// `//@@ impl FILE <Trait~for~Type> m1 m2 ..`: this implementation has exactly these methods.
fn check_impl(head: &[String], src: &mut Sources) -> Res<()> {
    let (tr, ty, _) = parse_path(&format!("{}::x", head[2]))?;
    let (modpath, ty) = split_mod(&ty.unwrap_or_default());
    let f = src.get(&head[1])?;
    for it in items(f, &modpath) {
        if let Item::Impl(im) = it {
            if type_matches(&im.self_ty, &ty) && im.trait_.as_ref().map_or(false, |(p, _)| trait_matches(p, tr.as_ref().unwrap())) {
                let names: Vec<String> = im.items.iter().filter_map(|i| if let ImplItem::Fn(g) = i { Some(g.sig.ident.to_string()) } else { None }).collect();
                if names == head[3..] {
                    return Ok(());
                }
                return lost(format!("{}: methods of {} changed", head[1], head[2]));
            }
        }
    }
    lost(format!("{}: no implementation {}", head[1], head[2]))
}
