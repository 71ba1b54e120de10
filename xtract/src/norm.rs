//! Mechanical, meaning-preserving normalisations that bring a function into
//! the subset of Rust that Verus accepts, and the splicing of annotations.
use crate::{lost, Res};
use proc_macro2::{Group, Ident, Span, TokenStream, TokenTree};
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, HashMap};
use syn::visit_mut::{self, VisitMut};
use syn::*;

/// Replaces identifiers in a token stream.
pub fn rename(ts: TokenStream, map: &HashMap<String, String>) -> TokenStream {
    if map.is_empty() {
        return ts;
    }
    ts.into_iter()
        .map(|t| match t {
            TokenTree::Ident(i) => match map.get(&i.to_string()) {
                Some(n) => TokenTree::Ident(Ident::new(n, Span::call_site())),
                None => TokenTree::Ident(i),
            },
            TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), rename(g.stream(), map))),
            t => t,
        })
        .collect()
}

fn is_module(s: &str) -> bool {
    s.chars().next().map_or(false, |c| c.is_lowercase())
}

/// N1: drops the module prefix of paths that start with crate/self/super or std, core, alloc.
pub struct StripPaths;
impl VisitMut for StripPaths {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        let first = match p.segments.first() {
            Some(s) => s.ident.to_string(),
            None => return,
        };
        if p.segments.len() > 1 && ["crate", "self", "super"].contains(&first.as_str()) {
            let segs: Vec<PathSegment> = p.segments.iter().cloned().collect();
            let mut k = 0;
            while k + 1 < segs.len() && is_module(&segs[k].ident.to_string()) {
                k += 1;
            }
            // keep `Self` and types; a trailing lower-case function keeps only its name
            p.segments = segs[k..].iter().cloned().collect();
            p.leading_colon = None;
        }
    }
    fn visit_item_use_mut(&mut self, _: &mut ItemUse) {}
}

/// N2: `match e { &P => .. }` becomes `match *e { P => .. }` when every arm is `&P` or `_`;
/// likewise for `if let &P = e`, `while let &P = e` and `let &P = e`.
pub struct RefPats;
fn strip_ref(p: &Pat) -> Option<Pat> {
    match p {
        Pat::Reference(r) if r.mutability.is_none() => Some((*r.pat).clone()),
        Pat::Wild(_) => Some(p.clone()),
        Pat::Or(o) => {
            let mut o2 = o.clone();
            for c in o2.cases.iter_mut() {
                *c = strip_ref(c)?;
            }
            Some(Pat::Or(o2))
        }
        _ => None,
    }
}
fn has_ref(p: &Pat) -> bool {
    match p {
        Pat::Reference(_) => true,
        Pat::Or(o) => o.cases.iter().any(has_ref),
        _ => false,
    }
}
fn deref(e: &Expr) -> Expr {
    match e {
        Expr::Reference(r) if r.mutability.is_none() => (*r.expr).clone(),
        Expr::Path(_) | Expr::Field(_) | Expr::MethodCall(_) | Expr::Call(_) | Expr::Paren(_) => parse_quote!(*#e),
        _ => parse_quote!(*(#e)),
    }
}
/// `&(ref x, _)` and the like
fn binds_by_ref(p: &Pat) -> bool {
    struct V(bool);
    impl<'a> syn::visit::Visit<'a> for V {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0 |= i.by_ref.is_some();
        }
    }
    let mut v = V(false);
    syn::visit::Visit::visit_pat(&mut v, p);
    v.0
}
/// nested `&P` becomes `P` (binding by reference), `ref x` inside it becomes `x`; names bound by value inside are noted
struct Inner<'a>(bool, &'a mut Vec<Ident>);
impl<'a> VisitMut for Inner<'a> {
    fn visit_pat_mut(&mut self, p: &mut Pat) {
        if let Pat::Reference(r) = p {
            if r.mutability.is_none() {
                let mut q = (*r.pat).clone();
                Inner(true, self.1).visit_pat_mut(&mut q);
                *p = q;
                return;
            }
        }
        if self.0 {
            if let Pat::Ident(i) = p {
                if i.by_ref.is_some() && i.mutability.is_none() {
                    i.by_ref = None;
                } else if i.ident.to_string().starts_with(|c: char| c.is_lowercase() || c == '_') {
                    self.1.push(i.ident.clone());
                }
            }
        }
        visit_mut::visit_pat_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        // `S { ref x }` is written `S { x: ref x }`
        if f.colon_token.is_none() && self.0 {
            if let Pat::Ident(i) = &mut *f.pat {
                if i.by_ref.is_some() {
                    i.by_ref = None;
                } else {
                    self.1.push(i.ident.clone());
                }
            }
            return;
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}
impl VisitMut for RefPats {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        visit_mut::visit_arm_mut(self, a);
        let mut names = Vec::new();
        let mut q = a.pat.clone();
        if !matches!(q, Pat::Reference(_)) && !has_ref(&q) {
            Inner(false, &mut names).visit_pat_mut(&mut q);
            if names.is_empty() || !matches!(a.pat, Pat::Guard(_)) {
                a.pat = q;
                if !names.is_empty() {
                    let b = &a.body;
                    *a.body = parse_quote!({ #(let #names = *#names;)* #b });
                }
            }
        }
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, f);
        if !matches!(&*f.pat, Pat::Reference(_)) || binds_by_ref(&f.pat) {
            let mut names = Vec::new();
            Inner(false, &mut names).visit_pat_mut(&mut f.pat);
            if !names.is_empty() {
                let b = &f.body.stmts;
                f.body = parse_quote!({ #(let #names = *#names;)* #(#b)* });
            }
        }
    }
    fn visit_expr_match_mut(&mut self, m: &mut ExprMatch) {
        visit_mut::visit_expr_match_mut(self, m);
        if m.arms.iter().any(|a| has_ref(&a.pat)) {
            let pats: Option<Vec<Pat>> = m.arms.iter().map(|a| strip_ref(&a.pat)).collect();
            if let Some(ps) = pats {
                for (a, p) in m.arms.iter_mut().zip(ps) {
                    a.pat = p;
                }
                let d = deref(&m.expr);
                *m.expr = d;
            }
        }
    }
    fn visit_expr_let_mut(&mut self, l: &mut ExprLet) {
        visit_mut::visit_expr_let_mut(self, l);
        if let Pat::Reference(r) = &*l.pat {
            let p = (*r.pat).clone();
            let d = deref(&l.expr);
            *l.pat = p;
            *l.expr = d;
        }
    }
    fn visit_local_mut(&mut self, l: &mut Local) {
        visit_mut::visit_local_mut(self, l);
        if let Pat::Reference(r) = &l.pat {
            if let Some(i) = &mut l.init {
                let p = (*r.pat).clone();
                let d = deref(&i.expr);
                *i.expr = d;
                l.pat = p;
            }
        }
    }
}

/// N3: statements without effect on the result that Verus does not accept are dropped:
/// inner `use` items and attributes.
pub struct DropAttrs;
impl VisitMut for DropAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) {
        a.clear();
    }
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Use(_))));
        visit_mut::visit_block_mut(self, b);
    }
}

/// N4: `while let P = E { B }` becomes `loop { match E { P => B, _ => break } }`.
pub struct WhileLet;
impl VisitMut for WhileLet {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::While(w) = e {
            if let Expr::Let(l) = &*w.cond {
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lab loop { match #x { #p => #b, _ => break, } });
            }
        }
    }
}

/// N11: in the body of a `for` loop, `let P = if C { A } else { continue }; REST` becomes `if C { let P = { A }; REST }`,
/// and `if C { continue; } REST` becomes `if C {} else { REST }`.
pub struct Skips;
fn skips(b: &Block) -> bool {
    b.stmts.len() == 1 && matches!(&b.stmts[0], Stmt::Expr(Expr::Continue(c), _) if c.label.is_none())
}
fn unskip(v: &[Stmt]) -> Vec<Stmt> {
    let mut out = Vec::new();
    for (i, s) in v.iter().enumerate() {
        match s {
            Stmt::Local(l) => {
                if let Some(init) = &l.init {
                    if let (Expr::If(x), None) = (&*init.expr, &init.diverge) {
                        if let Some((_, e)) = &x.else_branch {
                            if matches!(&**e, Expr::Block(b) if skips(&b.block)) {
                                let (p, c, a) = (&l.pat, &x.cond, &x.then_branch);
                                let rest = unskip(&v[i + 1..]);
                                out.push(Stmt::Expr(parse_quote!(if #c { let #p = #a; #(#rest)* }), None));
                                return out;
                            }
                        }
                    }
                }
            }
            Stmt::Expr(Expr::If(x), _) if x.else_branch.is_none() && skips(&x.then_branch) => {
                let c = &x.cond;
                let rest = unskip(&v[i + 1..]);
                out.push(Stmt::Expr(parse_quote!(if #c {} else { #(#rest)* }), None));
                return out;
            }
            _ => {}
        }
        out.push(s.clone());
    }
    out
}
impl VisitMut for Skips {
    fn visit_expr_for_loop_mut(&mut self, l: &mut ExprForLoop) {
        visit_mut::visit_expr_for_loop_mut(self, l);
        l.body.stmts = unskip(&l.body.stmts);
    }
}

fn parse_call(ts: TokenStream) -> Expr {
    // kept as an ordinary call, so that closures in it can be annotated
    syn::parse2::<Expr>(ts.clone()).unwrap_or(Expr::Verbatim(ts))
}

/// N5: user-given expression rewrites `method(name) -> fn`: `recv.name(args)` becomes `fn(recv, args)`.
/// `mapindex NAME f & mut`: `X[i]`, where the base X ends in NAME, becomes `*f(& mut X, i)`;
/// `eqs`: `a == b` becomes `vt_eq(&a, &b)`.
#[derive(Default)]
pub struct CallMap {
    pub methods: HashMap<String, TokenStream>,
    pub paths: HashMap<String, TokenStream>,
    pub index: HashMap<String, TokenStream>,
    pub eqs: bool,
}
fn base_name(e: &Expr) -> String {
    match e {
        Expr::Path(p) => p.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default(),
        Expr::Field(f) => f.member.to_token_stream().to_string(),
        Expr::Call(c) => base_name(&c.func),
        Expr::MethodCall(m) => m.method.to_string(),
        Expr::Paren(p) => base_name(&p.expr),
        _ => String::new(),
    }
}
impl VisitMut for CallMap {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Index(x) = e {
            if let Some(f) = self.index.get(&base_name(&x.expr)) {
                let (b, i) = (&x.expr, &x.index);
                let v: Vec<TokenTree> = f.clone().into_iter().collect();
                let amp = v.iter().position(|t| t.to_string() == "&").unwrap_or(v.len());
                let g: TokenStream = v[..amp].iter().cloned().collect();
                let r: TokenStream = v[amp..].iter().cloned().collect();
                *e = parse_call(quote!((*#g(#r #b, #i))));
                return;
            }
        }
        if let (Expr::Binary(b), true) = (&*e, self.eqs) {
            let (l, r) = (&b.left, &b.right);
            match b.op {
                BinOp::Eq(_) => {
                    *e = parse_call(quote!(vt_eq(&(#l), &(#r))));
                    return;
                }
                BinOp::Ne(_) => {
                    *e = parse_call(quote!(!vt_eq(&(#l), &(#r))));
                    return;
                }
                _ => {}
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(f) = self.methods.get(&m.method.to_string()) {
                let recv = &m.receiver;
                // `name f &`, `name f & mut`: the receiver is passed by reference
                let v: Vec<TokenTree> = f.clone().into_iter().collect();
                // `name . new`: the method is renamed (a method of a declared trait)
                if v.len() == 2 && v[0].to_string() == "." {
                    let mut m2 = m.clone();
                    m2.method = Ident::new(&v[1].to_string(), Span::call_site());
                    *e = Expr::MethodCall(m2);
                    return;
                }
                let amp = v.iter().position(|t| t.to_string() == "&");
                if let Some(k) = amp {
                    let g: TokenStream = v[..k].iter().cloned().collect();
                    let r: TokenStream = v[k..].iter().cloned().collect();
                    let args = m.args.iter();
                    *e = parse_call(quote!(#g(#r #recv #(, #args)*)));
                    return;
                }
                let args = m.args.iter();
                // `name f ::`: the type arguments stay, after that of the receiver
                if v.len() >= 3 && v[v.len() - 1].to_string() == ":" {
                    let g: TokenStream = v[..v.len() - 2].iter().cloned().collect();
                    *e = match &m.turbofish {
                        Some(t) => {
                            let ts = t.args.iter();
                            parse_call(quote!(#g::<_ #(, #ts)*>(#recv #(, #args)*)))
                        }
                        None => parse_call(quote!(#g(#recv #(, #args)*))),
                    };
                    return;
                }
                *e = parse_call(quote!(#f(#recv #(, #args)*)));
            }
        } else if let Expr::Path(p) = e {
            let k = p.to_token_stream().to_string().replace(' ', "");
            if let Some(f) = self.paths.get(&k) {
                *e = Expr::Verbatim(f.clone());
            }
        }
    }
}

#[derive(Default, Clone)]
pub struct LoopSpec {
    pub kind: String,
    pub iter: Option<String>,
    pub spec: TokenStream,
    pub start: TokenStream,
    pub end: TokenStream,
    pub before: TokenStream,
    pub after: TokenStream,
}
#[derive(Default, Clone)]
pub struct ClosureSpec {
    pub ret: TokenStream,
    pub params: TokenStream,
    pub spec: TokenStream,
    pub start: TokenStream,
}

use std::sync::atomic::{AtomicUsize, Ordering};
static VAC: AtomicUsize = AtomicUsize::new(0);
/// An assertion that must fail; it leaves the rest of the function as it was.
pub fn vacuity_probe() -> TokenStream {
    let k = proc_macro2::Literal::usize_unsuffixed(VAC.fetch_add(1, Ordering::SeqCst));
    quote!(proof { if arbitrary::<spec_fn(int) -> bool>()(#k) { assert(false); } })
}

/// Splices loop and closure annotations, in pre-order.
pub struct Splice {
    pub loops: BTreeMap<usize, LoopSpec>,
    pub closures: BTreeMap<usize, ClosureSpec>,
    pub nl: usize,
    pub nc: usize,
    pub vac: bool,
    pub err: Option<String>,
}
impl Splice {
    fn body(&self, b: &Block, s: &LoopSpec) -> TokenStream {
        let stmts = &b.stmts;
        let (st, en) = (&s.start, &s.end);
        let vac = if self.vac { vacuity_probe() } else { quote!() };
        let semi = match b.stmts.last() {
            Some(Stmt::Expr(_, None)) if !en.is_empty() => quote!(;),
            _ => quote!(),
        };
        quote!({ #vac #st #(#stmts)* #semi #en })
    }
}
impl VisitMut for Splice {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) => {
                let k = self.nl;
                self.nl += 1;
                visit_mut::visit_expr_mut(self, e);
                let s = match self.loops.get(&k) {
                    Some(s) => s.clone(),
                    None => {
                        self.err = Some(format!("loop {} has no annotation", k));
                        return;
                    }
                };
                let (sp, be, af) = (&s.spec, &s.before, &s.after);
                let (kind, ts) = match e {
                    Expr::ForLoop(f) => {
                        let (l, p, x) = (&f.label, &f.pat, &f.expr);
                        let b = self.body(&f.body, &s);
                        let it = match &s.iter {
                            Some(i) => {
                                let i = Ident::new(i, Span::call_site());
                                quote!(#i :)
                            }
                            None => quote!(),
                        };
                        ("for", quote!(#l for #p in #it #x #sp #b))
                    }
                    Expr::While(w) => {
                        let (l, c) = (&w.label, &w.cond);
                        let b = self.body(&w.body, &s);
                        ("while", quote!(#l while #c #sp #b))
                    }
                    Expr::Loop(w) => {
                        let l = &w.label;
                        let b = self.body(&w.body, &s);
                        ("loop", quote!(#l loop #sp #b))
                    }
                    _ => unreachable!(),
                };
                if kind != s.kind {
                    self.err = Some(format!("loop {} is a `{}` loop, annotated as `{}`", k, kind, s.kind));
                }
                *e = Expr::Verbatim(quote!(#be #ts #af));
            }
            Expr::Closure(_) => {
                let k = self.nc;
                self.nc += 1;
                visit_mut::visit_expr_mut(self, e);
                if let (Some(s), Expr::Closure(c)) = (self.closures.get(&k), &*e) {
                    if s.ret.is_empty() {
                        return;
                    }
                    let (mv, body) = (&c.capture, &c.body);
                    let (ret, spec, start) = (&s.ret, &s.spec, &s.start);
                    // bind the source's parameter patterns to the annotated parameters
                    let inner = match &**body {
                        Expr::Block(b) if b.label.is_none() => {
                            let st = &b.block.stmts;
                            quote!(#(#st)*)
                        }
                        x => quote!(#x),
                    };
                    if s.params.is_empty() {
                        let ins = &c.inputs;
                        *e = Expr::Verbatim(quote!(#mv |#ins| -> #ret #spec { #start #inner }));
                    } else {
                        let ps = &s.params;
                        let names: Vec<Ident> = param_names(ps);
                        if names.len() != c.inputs.len() {
                            self.err = Some(format!("closure {} has {} parameters, annotated with {}", k, c.inputs.len(), names.len()));
                            return;
                        }
                        let pats: Vec<Pat> = c
                            .inputs
                            .iter()
                            .map(|p| if let Pat::Type(t) = p { (*t.pat).clone() } else { p.clone() })
                            .collect();
                        let mut binds = TokenStream::new();
                        for (p, n) in pats.iter().zip(&names) {
                            binds.extend(bind_pat(p, n));
                        }
                        *e = Expr::Verbatim(quote!(#mv |#ps| -> #ret #spec { #start #binds #inner }));
                    }
                } else if self.closures.get(&k).is_none() {
                    self.err = Some(format!("closure {} has no annotation", k));
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
fn bind_pat(p: &Pat, n: &Ident) -> TokenStream {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            if i.mutability.is_none() && i.ident == *n {
                quote!()
            } else {
                let (m, i) = (&i.mutability, &i.ident);
                quote!(let #m #i = #n;)
            }
        }
        Pat::Reference(r) => {
            let q = &r.pat;
            quote!(let #q = *#n;)
        }
        q => quote!(let #q = #n;),
    }
}
fn param_names(ts: &TokenStream) -> Vec<Ident> {
    // name : type , name : type   at top level
    let mut out = Vec::new();
    let mut want = true;
    let mut depth = 0i32;
    for t in ts.clone() {
        match t {
            TokenTree::Ident(i) if want => {
                out.push(i);
                want = false;
            }
            TokenTree::Punct(p) => match p.as_char() {
                '<' => depth += 1,
                '>' => depth -= 1,
                ',' if depth == 0 => want = true,
                _ => {}
            },
            _ => {}
        }
    }
    out
}

/// Names bound by `let` with a plain identifier, in pre-order.
pub struct Lets(pub Vec<String>);
impl<'a> syn::visit::Visit<'a> for Lets {
    fn visit_local(&mut self, l: &'a Local) {
        let mut p = &l.pat;
        if let Pat::Type(t) = p {
            p = &t.pat;
        }
        if let Pat::Ident(i) = p {
            self.0.push(i.ident.to_string());
        } else {
            self.0.push(String::new());
        }
        syn::visit::visit_local(self, l);
    }
}

/// `afterlet n`: ghost code after the n-th `let` (pre-order).
pub struct AfterLet {
    pub at: BTreeMap<usize, TokenStream>,
    pub n: usize,
    pub done: usize,
}
impl VisitMut for AfterLet {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let stmts = std::mem::take(&mut b.stmts);
        for mut s in stmts {
            let k = if let Stmt::Local(_) = s {
                self.n += 1;
                Some(self.n - 1)
            } else {
                None
            };
            visit_mut::visit_stmt_mut(self, &mut s);
            b.stmts.push(s);
            if let Some(k) = k.filter(|k| self.at.contains_key(k)) {
                self.done += 1;
                let id = Ident::new(&format!("vt_after_let_{}", k), Span::call_site());
                b.stmts.push(parse_quote!(#id;));
            }
        }
    }
    fn visit_item_mut(&mut self, _: &mut Item) {}
}
pub fn drop_bounds(g: &mut Generics, names: &[String]) {
    let bad = |b: &TypeParamBound| -> bool {
        if let TypeParamBound::Trait(t) = b {
            let n = t.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            names.contains(&n)
        } else {
            false
        }
    };
    for p in g.params.iter_mut() {
        if let GenericParam::Type(t) = p {
            t.bounds = t.bounds.iter().filter(|b| !bad(b)).cloned().collect();
            if t.bounds.is_empty() {
                t.colon_token = None;
            }
        }
    }
    if let Some(w) = &mut g.where_clause {
        let mut preds: Vec<WherePredicate> = Vec::new();
        for p in w.predicates.iter() {
            let mut p = p.clone();
            if let WherePredicate::Type(t) = &mut p {
                t.bounds = t.bounds.iter().filter(|b| !bad(b)).cloned().collect();
                if t.bounds.is_empty() {
                    continue;
                }
            }
            preds.push(p);
        }
        w.predicates = preds.into_iter().collect();
        if w.predicates.is_empty() {
            g.where_clause = None;
        }
    }
}

pub fn tokens(s: &str) -> Res<TokenStream> {
    s.parse::<TokenStream>().or_else(|e| lost(format!("template text does not lex: {}: {}", e, s)))
}

/// Replaces `Self :: X` by the associated type of the impl.
pub fn subst_assoc(ts: TokenStream, assoc: &HashMap<String, TokenStream>) -> TokenStream {
    let v: Vec<TokenTree> = ts.into_iter().collect();
    let mut out = TokenStream::new();
    let mut i = 0;
    while i < v.len() {
        if let TokenTree::Ident(id) = &v[i] {
            if id == "Self" && i + 3 < v.len() {
                if let (TokenTree::Punct(a), TokenTree::Punct(b), TokenTree::Ident(n)) = (&v[i + 1], &v[i + 2], &v[i + 3]) {
                    if a.as_char() == ':' && b.as_char() == ':' {
                        if let Some(t) = assoc.get(&n.to_string()) {
                            out.extend(t.clone());
                            i += 4;
                            continue;
                        }
                    }
                }
            }
        }
        match &v[i] {
            TokenTree::Group(g) => {
                out.extend(std::iter::once(TokenTree::Group(Group::new(g.delimiter(), subst_assoc(g.stream(), assoc)))));
            }
            t => out.extend(std::iter::once(t.clone())),
        }
        i += 1;
    }
    out
}

/// N6: small meaning-preserving rewrites:
///  * `match { BLOCK } { .. }` is left alone; `E.iter().cloned()`-style chains are left to CallMap;
///  * a constructor as the function of a `map` becomes a closure that applies it;
///  * a `panic!(..)`/`unreachable!(..)` becomes a call of `vt_panic`, which can never be reached.
pub struct Normal;
impl VisitMut for Normal {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "map" || m.method == "map_err" {
                for a in m.args.iter_mut() {
                    if let Expr::Path(p) = &*a {
                        let ctor = p.path.segments.last().map_or(false, |s| s.ident.to_string().starts_with(|c: char| c.is_uppercase()));
                        if ctor {
                            *a = parse_quote!(|x__| #p(x__));
                        }
                    }
                }
            }
        }
        if let Expr::Index(i) = e {
            if let Expr::Range(r) = &*i.index {
                if r.start.is_none() && r.end.is_none() {
                    let x = &i.expr;
                    *e = parse_quote!((*#x.as_slice()));
                }
            }
        }
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n == "panic" || n == "unreachable" || n == "unimplemented" {
                *e = parse_quote!(vt_panic());
            }
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        visit_mut::visit_stmt_mut(self, s);
        if let Stmt::Macro(m) = s {
            let n = m.mac.path.segments.last().map(|s| s.ident.to_string()).unwrap_or_default();
            if n == "panic" || n == "unreachable" || n == "unimplemented" {
                *s = Stmt::Expr(parse_quote!(vt_panic()), m.semi_token);
            }
        }
    }
}

/// Wraps the iterated expression of the n-th loop (counting all loops, pre-order).
pub struct ForExprs {
    pub want: usize,
    pub n: usize,
    pub f: TokenStream,
    pub done: bool,
}
impl VisitMut for ForExprs {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if matches!(e, Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_)) {
            let k = self.n;
            self.n += 1;
            if k == self.want {
                if let Expr::ForLoop(f) = e {
                    let (g, x) = (&self.f, &f.expr);
                    let v: Vec<TokenTree> = g.clone().into_iter().collect();
                    let amp = v.iter().position(|t| t.to_string() == "&").unwrap_or(v.len());
                    let h: TokenStream = v[..amp].iter().cloned().collect();
                    let r: TokenStream = v[amp..].iter().cloned().collect();
                    let new = parse_call(quote!(#h(#r #x)));
                    *f.expr = new;
                    self.done = true;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `eachmap k`: the k-th `E.map(|p| B)` (pre-order, closure literals only) becomes a block with the
/// loop it stands for, `{ let vt_in = E; let mut vt_out = Vec::new(); for p in vt_in { vt_out.push(B); } vt_out }`.
pub struct EachMap {
    pub want: usize,
    pub n: usize,
    pub done: bool,
}
impl VisitMut for EachMap {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let k = self.n;
                    self.n += 1;
                    if k == self.want && c.inputs.len() == 1 {
                        let (x, b) = (&m.receiver, &c.body);
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            q => q.clone(),
                        };
                        *e = parse_quote!({ let vt_in = #x; let mut vt_out = Vec::new(); for #p in vt_in { let vt_one = #b; vt_out.push(vt_one); } vt_out });
                        self.done = true;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// the n-th closure literal, pre-order
pub struct NthClosure {
    pub want: usize,
    pub n: usize,
    pub found: Option<ExprClosure>,
}
impl<'a> syn::visit::Visit<'a> for NthClosure {
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_closure(&mut self, c: &'a ExprClosure) {
        if self.n == self.want {
            self.found = Some(c.clone());
        }
        self.n += 1;
        syn::visit::visit_expr_closure(self, c);
    }
}
/// what a lifted closure captures is a field of the struct it becomes
pub struct Captured(pub Vec<(String, String)>);
impl VisitMut for Captured {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                let n = i.to_string();
                if let Some((_, f)) = self.0.iter().find(|c| c.0 == n) {
                    let f = Ident::new(f, Span::call_site());
                    *e = parse_quote!(self.#f);
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `lift k E`: the k-th closure literal (pre-order) becomes E
pub struct Lift {
    pub want: usize,
    pub n: usize,
    pub by: TokenStream,
    pub done: bool,
}
impl VisitMut for Lift {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(_) = e {
            let k = self.n;
            self.n += 1;
            if k == self.want {
                *e = Expr::Verbatim(self.by.clone());
                self.done = true;
                return;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}
/// `eachfn f`: `E.map(f)` becomes `E.map(|vt_x| f(vt_x))`
pub struct EachFn {
    pub name: String,
}
impl VisitMut for EachFn {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 && m.args[0].to_token_stream().to_string() == self.name {
                let f = m.args[0].clone();
                m.args[0] = parse_quote!(|vt_x| #f(vt_x));
            }
        }
    }
}
/// `callmap f FN PRE`: `f(x)` becomes `FN(PRE f, x)`
pub struct CallVar {
    pub name: String,
    pub f: TokenStream,
    pub pre: TokenStream,
}
impl VisitMut for CallVar {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            if c.func.to_token_stream().to_string() == self.name {
                let (f, g, p, a) = (&c.func, &self.f, &self.pre, &c.args);
                *e = parse_call(quote!(#g(#p #f, #a)));
            }
        }
    }
}
/// `optmap k`: the k-th `E.map(|p| B)` (pre-order, closure literals only), where E is an option, becomes
/// `match E { Some(p) => Some(B), None => None }`
pub struct OptMap {
    pub want: usize,
    pub n: usize,
    pub done: bool,
}
impl VisitMut for OptMap {
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::MethodCall(m) = e {
            if m.method == "map" && m.args.len() == 1 {
                if let Expr::Closure(c) = &m.args[0] {
                    let k = self.n;
                    self.n += 1;
                    if k == self.want && c.inputs.len() == 1 {
                        let (x, b) = (&m.receiver, &c.body);
                        let p = match &c.inputs[0] {
                            Pat::Type(t) => (*t.pat).clone(),
                            q => q.clone(),
                        };
                        *e = parse_quote!(match #x { Some(#p) => Some(#b), None => None });
                        self.done = true;
                    }
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// N7 (on request): what a message says is dropped: `String::from("..")`, `"..".to_string()` and
/// `format!(..)` become `vt_text()`, a string nothing is known about.
pub struct Texts;
impl VisitMut for Texts {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let lit = |x: &Expr| matches!(x, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }));
        let yes = match e {
            Expr::Call(c) => c.args.len() == 1 && c.func.to_token_stream().to_string().replace(' ', "") == "String::from" && lit(&c.args[0]),
            Expr::MethodCall(m) => ["to_string", "to_owned", "into"].contains(&m.method.to_string().as_str()) && lit(&m.receiver),
            Expr::Macro(m) => m.mac.path.segments.last().map_or(false, |s| s.ident == "format"),
            _ => false,
        };
        if yes {
            *e = parse_quote!(vt_text());
        }
    }
}

/// N8 (on request): `format!("A{}B", x)` becomes `vt_lit(vt_put(vt_lit(vt_blank(), "A"), &(x)), "B")`: the text is the
/// concatenation of its parts. Other placeholders than `{}` are left alone.
pub struct Formats;
pub fn pieces(s: &str) -> Option<Vec<String>> {
    let mut out = vec![String::new()];
    let mut c = s.chars().peekable();
    while let Some(x) = c.next() {
        match x {
            '{' if c.peek() == Some(&'{') => {
                c.next();
                out.last_mut().unwrap().push('{');
            }
            '}' if c.peek() == Some(&'}') => {
                c.next();
                out.last_mut().unwrap().push('}');
            }
            '{' if c.peek() == Some(&'}') => {
                c.next();
                out.push(String::new());
            }
            '{' | '}' => return None,
            x => out.last_mut().unwrap().push(x),
        }
    }
    Some(out)
}
impl VisitMut for Formats {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Macro(m) = e {
            if m.mac.path.segments.last().map_or(false, |s| s.ident == "format") {
                let args = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated);
                if let Ok(args) = args {
                    let a: Vec<&Expr> = args.iter().collect();
                    let ps = match a.first() {
                        Some(Expr::Lit(ExprLit { lit: Lit::Str(s), .. })) => pieces(&s.value()),
                        _ => None,
                    };
                    if let Some(ps) = ps {
                        if ps.len() == a.len() {
                            let mut x: Expr = parse_quote!(vt_blank());
                            for (k, p) in ps.iter().enumerate() {
                                if !p.is_empty() {
                                    x = parse_quote!(vt_lit(#x, #p));
                                }
                                if k + 1 < a.len() {
                                    let y = a[k + 1];
                                    x = parse_quote!(vt_put(#x, &(#y)));
                                }
                            }
                            *e = x;
                        }
                    }
                }
            }
        }
    }
}
