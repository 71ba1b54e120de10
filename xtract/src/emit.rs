//! Token printer: one statement per line, punctuation spacing preserved.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: &TokenStream, indent: usize) -> String {
    let mut p = P { out: String::new(), ind: indent, nl: true, joint: true };
    p.stream(ts.clone(), false);
    p.out
}
struct P {
    out: String,
    ind: usize,
    nl: bool,
    joint: bool,
}
impl P {
    fn tok(&mut self, s: &str) {
        if self.nl {
            for _ in 0..self.ind {
                self.out.push_str("    ");
            }
            self.nl = false;
        } else if !self.joint {
            self.out.push(' ');
        }
        self.joint = false;
        self.out.push_str(s);
    }
    fn newline(&mut self) {
        if !self.nl {
            self.out.push('\n');
            self.nl = true;
        }
    }
    fn stream(&mut self, ts: TokenStream, in_paren: bool) {
        for t in ts {
            match t {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        self.tok("{");
                        self.newline();
                        self.ind += 1;
                        self.stream(g.stream(), false);
                        self.newline();
                        self.ind -= 1;
                        self.tok("}");
                        if !in_paren {
                            self.newline();
                        }
                    }
                    Delimiter::Parenthesis | Delimiter::Bracket => {
                        let (o, c) = if g.delimiter() == Delimiter::Parenthesis { ("(", ")") } else { ("[", "]") };
                        self.tok(o);
                        self.joint = true;
                        self.stream(g.stream(), true);
                        self.joint = true;
                        self.tok(c);
                    }
                    Delimiter::None => self.stream(g.stream(), in_paren),
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    self.tok(&c.to_string());
                    if p.spacing() == Spacing::Joint || c == '\'' {
                        self.joint = true;
                    }
                    if (c == ';' || c == ',') && !in_paren {
                        self.newline();
                    }
                }
                TokenTree::Ident(i) => self.tok(&i.to_string()),
                TokenTree::Literal(l) => self.tok(&l.to_string()),
            }
        }
    }
}
