// Translates the specification functions (/verif/spec) to Verus.
// `let P = E?; rest` becomes `match E { Ok(P) => rest, Err(e) => Err(e) }`.
use quote::{format_ident, ToTokens};
use syn::{visit_mut::{self, VisitMut}, *};

struct T {
    n: usize,
}

impl T {
    fn block(&mut self, stmts: &[Stmt]) -> Expr {
        let mut b: Vec<Stmt> = vec![];
        for (i, s) in stmts.iter().enumerate() {
            if let Stmt::Local(l) = s {
                if let Some(init) = &l.init {
                    if let Expr::Try(t) = &*init.expr {
                        let p = &l.pat;
                        let e = &t.expr;
                        let rest = self.block(&stmts[i + 1..]);
                        self.n += 1;
                        let v = format_ident!("e__{}", self.n);
                        let m: Expr = parse_quote!(match #e { Ok(#p) => #rest, Err(#v) => Err(#v) });
                        b.push(Stmt::Expr(m, None));
                        return parse_quote!({ #(#b)* });
                    }
                }
            }
            b.push(s.clone());
        }
        parse_quote!({ #(#b)* })
    }
}

impl VisitMut for T {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Block(b) = e {
            *e = self.block(&b.block.stmts.clone());
        }
        if let Expr::If(i) = e {
            if let Expr::Block(b) = self.block(&i.then_branch.stmts.clone()) {
                i.then_branch = b.block;
            }
        }
        if let Expr::Call(c) = e {
            if let Expr::Path(p) = &*c.func {
                if p.path.is_ident("lit") {
                    let a = &c.args[0];
                    *e = parse_quote!(__lit!(#a));
                }
            }
        }
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
    }
}

// an expression with the `?` of its blocks spelled out
pub fn pure(e: &Expr) -> Expr {
    struct B;
    impl VisitMut for B {
        fn visit_expr_mut(&mut self, e: &mut Expr) {
            visit_mut::visit_expr_mut(self, e);
            let mut t = T { n: 0 };
            if let Expr::Block(b) = e {
                *e = t.block(&b.block.stmts.clone());
            }
            if let Expr::If(i) = e {
                if let Expr::Block(b) = t.block(&i.then_branch.stmts.clone()) {
                    i.then_branch = b.block;
                }
            }
        }
    }
    let mut e = e.clone();
    B.visit_expr_mut(&mut e);
    e
}

fn unlit(s: &str) -> String {
    let s = &s.replace("__lit !(", "__lit!(");
    // __lit!("x")  ->  "x"@
    let mut out = String::new();
    let mut r: &str = s;
    while let Some(i) = r.find("__lit!(") {
        out.push_str(&r[..i]);
        r = &r[i + 7..];
        let b = r.as_bytes();
        let mut j = 1;
        while b[j] != b'"' {
            if b[j] == b'\\' {
                j += 1;
            }
            j += 1;
        }
        out.push_str(&r[..=j]);
        out.push('@');
        r = r[j + 1..].trim_start().strip_prefix(')').unwrap();
    }
    out.push_str(r);
    out
}

pub struct SpecFn {
    pub name: String,
    pub lits: Vec<String>,
    pub calls: Vec<String>,
}

// replaces whole identifiers that are in `set` by `pre` + identifier
fn rename(s: &str, set: &std::collections::BTreeSet<String>, pre: &str) -> String {
    let mut out = String::new();
    let mut word = String::new();
    for c in s.chars().chain(std::iter::once(' ')) {
        if c.is_alphanumeric() || c == '_' {
            word.push(c);
        } else {
            if set.contains(&word) {
                out.push_str(pre);
            }
            out.push_str(&word);
            word.clear();
            out.push(c);
        }
    }
    out
}

pub fn translate(dir: &str) -> (String, Vec<SpecFn>) {
    let mut out = String::new();
    // mutually recursive functions: p is a name for the recursive function r_p, which only
    // the lemma def_p, stating p's equation, looks into
    let mut knot = std::collections::BTreeSet::new();
    for f in ["types.rs", "out.rs", "parse.rs"] {
        let text = std::fs::read_to_string(format!("{dir}/{f}")).unwrap();
        for it in syn::parse_file(&text).unwrap().items {
            if let Item::Fn(g) = it {
                let n = g.sig.ident.to_string();
                let rec = g.attrs.iter().any(|a| {
                    let t = a.to_token_stream().to_string();
                    t.contains("MAX_NESTING") || t.contains("nrank")
                });
                if rec {
                    knot.insert(n);
                }
            }
        }
    }
    let mut fns = vec![];
    for f in ["types.rs", "out.rs", "parse.rs"] {
        let text = std::fs::read_to_string(format!("{dir}/{f}")).unwrap();
        let file = syn::parse_file(&text).unwrap();
        for it in file.items {
            match it {
                Item::Fn(mut g) => {
                    let dec = g.attrs.iter().find(|a| a.path().is_ident("dec")).map(|a| match &a.meta {
                        Meta::List(l) => {
                            let e: Expr = parse_str(&format!("({},)", l.tokens)).unwrap();
                            let Expr::Tuple(t) = e else { panic!() };
                            t.elems.iter().map(|x| format!("({}) as int", x.to_token_stream())).collect::<Vec<_>>().join(", ")
                        }
                        _ => panic!(),
                    });
                    g.attrs.clear();
                    let mut t = T { n: 0 };
                    t.visit_block_mut(&mut g.block);
                    let b = t.block(&g.block.stmts.clone());
                    let name = g.sig.ident.to_string();
                    let sig = crate::fmt::print(g.sig.to_token_stream());
                    let mut body = unlit(&crate::fmt::print(b.to_token_stream()));
                    if !matches!(b, Expr::Block(_)) {
                        body = format!("{{ {body} }}");
                    }
                    if knot.contains(&name) {
                        let head = sig.trim_start_matches("fn ").to_string();
                        let params = head[head.find('(').unwrap()..=head.rfind(") ->").unwrap()].to_string();
                        let args: Vec<String> = g.sig.inputs.iter().map(|a| match a { FnArg::Typed(t) => t.pat.to_token_stream().to_string(), _ => panic!() }).collect();
                        let args = args.join(", ");
                        let d = rename(&dec.clone().unwrap(), &knot, "r_");
                        out.push_str(&format!("pub open spec fn r_{head}\n  decreases {d}\n{}\n", rename(&body, &knot, "r_")));
                        out.push_str(&format!("#[verifier::opaque]\npub open spec fn {head} {{ r_{name}({args}) }}\n"));
                        let mut calls = vec![];
                        crate::emit::collect_idents(g.block.to_token_stream(), &mut calls);
                        calls.push(name.clone());
                        calls.sort();
                        calls.dedup();
                        let rv: Vec<String> = calls.iter().filter(|c| knot.contains(*c)).map(|c| format!("reveal({c});")).collect();
                        out.push_str(&format!("pub broadcast proof fn def_{name}{params}\n  ensures #[trigger] {name}({args}) == ({body})\n{{ {} }}\n", rv.join(" ")));
                        let mut lits = vec![];
                        crate::emit::collect_lits(g.block.to_token_stream(), &mut lits);
                        fns.push(SpecFn { name: format!("def_{name}"), lits, calls });
                        continue;
                    }
                    let opaque = name.starts_with("p_") || name.starts_with("o_");
                    if opaque {
                        out.push_str("#[verifier::opaque]\n");
                    }
                    out.push_str(&format!("pub open spec fn {}", sig.trim_start_matches("fn ")));
                    if let Some(d) = dec {
                        out.push_str(&format!("\n  decreases {d}\n"));
                    }
                    out.push_str(&body);
                    out.push('\n');
                    let mut lits = vec![];
                    crate::emit::collect_lits(g.block.to_token_stream(), &mut lits);
                    let mut calls = vec![];
                    crate::emit::collect_idents(g.block.to_token_stream(), &mut calls);
                    fns.push(SpecFn { name, lits, calls });
                }
                Item::Const(c) => {
                    let t = c.ty.to_token_stream().to_string();
                    let sp = if t == "int" { "spec " } else { "" };
                    out.push_str(&format!("pub {sp}const {}: {t} = {};\n", c.ident, c.expr.to_token_stream()));
                }
                Item::Type(mut c) => {
                    c.vis = parse_quote!(pub);
                    out.push_str(&crate::fmt::print(c.to_token_stream()));
                    out.push('\n');
                }
                Item::Struct(mut c) => {
                    c.vis = parse_quote!(pub);
                    for f in c.fields.iter_mut() {
                        f.vis = parse_quote!(pub);
                    }
                    c.attrs.clear();
                    out.push_str(&crate::fmt::print(c.to_token_stream()));
                    out.push('\n');
                }
                Item::Enum(mut c) => {
                    c.vis = parse_quote!(pub);
                    c.attrs.clear();
                    out.push_str(&crate::fmt::print(c.to_token_stream()));
                    out.push('\n');
                }
                x => panic!("spec item {}", x.to_token_stream()),
            }
        }
    }
    (out, fns)
}
