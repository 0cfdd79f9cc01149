// Prints tokens, one statement per line, so that the verifier's positions are useful.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub fn print(ts: TokenStream) -> String {
    let mut p = P { out: String::new(), ind: 0, bol: true, paren: 0 };
    p.ts(ts);
    p.out
}

struct P {
    out: String,
    ind: usize,
    bol: bool,
    paren: usize,
}

impl P {
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.bol {
            self.out.push('\n');
            self.bol = true;
        }
    }
    fn put(&mut self, s: &str) {
        if self.bol {
            for _ in 0..self.ind {
                self.out.push_str("  ");
            }
            self.bol = false;
        }
        self.out.push_str(s);
    }
    fn ts(&mut self, ts: TokenStream) {
        let v: Vec<TokenTree> = ts.into_iter().collect();
        for i in 0..v.len() {
            match &v[i] {
                TokenTree::Group(g) => match g.delimiter() {
                    Delimiter::Brace => {
                        self.put("{");
                        let save = self.paren;
                        self.paren = 0;
                        if g.stream().is_empty() {
                            self.put("}");
                        } else {
                            self.nl();
                            self.ind += 1;
                            self.ts(g.stream());
                            self.nl();
                            self.ind -= 1;
                            self.put("}");
                        }
                        self.paren = save;
                        // keep `} else`, `})`, `}.x`, `};` together
                        let next = v.get(i + 1);
                        let stay = match next {
                            Some(TokenTree::Punct(p)) => ";,.?".contains(p.as_char()),
                            Some(TokenTree::Ident(id)) => id == "else",
                            _ => false,
                        };
                        if next.is_none() && save > 0 {
                            // inside parentheses: stay
                        } else if !stay {
                            self.nl();
                        } else if matches!(next, Some(TokenTree::Ident(_))) {
                            self.put(" ");
                        }
                    }
                    d => {
                        let (a, b) = match d {
                            Delimiter::Parenthesis => ("(", ")"),
                            Delimiter::Bracket => ("[", "]"),
                            _ => ("", ""),
                        };
                        while self.out.ends_with(' ') && i > 0 && glue_before(&v[i - 1]) {
                            self.out.pop();
                        }
                        self.put(a);
                        self.paren += 1;
                        self.ts(g.stream());
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                        self.paren -= 1;
                        self.put(b);
                        self.put(" ");
                    }
                },
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if ".;,?:".contains(c) {
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                    }
                    self.put(&c.to_string());
                    if c == ';' && self.paren == 0 {
                        self.nl();
                    } else if p.spacing() == Spacing::Alone && !(c == '.' || c == '!' || c == '&' && amp_prefix(&v, i)) {
                        self.put(" ");
                    } else if c == ',' && p.spacing() == Spacing::Alone {
                        self.put(" ");
                    }
                }
                TokenTree::Ident(id) => {
                    self.put(&id.to_string());
                    if !matches!(v.get(i + 1), Some(TokenTree::Punct(p)) if ".?;,".contains(p.as_char())) {
                        self.put(" ");
                    }
                }
                TokenTree::Literal(l) => {
                    self.put(&l.to_string());
                    self.put(" ");
                }
            }
        }
    }
}

fn glue_before(t: &TokenTree) -> bool {
    match t {
        TokenTree::Ident(id) => {
            let s = id.to_string();
            !["if", "match", "in", "return", "for", "while", "let", "else", "mut", "as", "move"].contains(&s.as_str())
        }
        _ => false,
    }
}

fn amp_prefix(v: &[TokenTree], i: usize) -> bool {
    match i.checked_sub(1).map(|j| &v[j]) {
        None => true,
        Some(TokenTree::Punct(_)) => true,
        Some(TokenTree::Ident(id)) => ["return", "in", "mut", "match", "if"].contains(&id.to_string().as_str()),
        _ => false,
    }
}
