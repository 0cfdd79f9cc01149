// For each production p of spec/parse.rs, a lemma h_p: p on a state and p on the same state as the default flags see
// it (er) do the same (verus/hom.rs says what). The proof follows the control flow of the definition: at every call of
// a production its lemma is called.
use quote::ToTokens;
use syn::*;

const BY_HAND: &[&str] = &["p_memorize", "p_memorize_ident", "p_local_scope"];
const NUMBERS: &[&str] = &["p_hex", "p_unsigned", "p_signed", "p_char_lit", "p_wchar_lit", "p_bytes", "p_offsets"];
// parameters that are handles
const HANDLES: &[(&str, &str)] = &[("p_synth", "h"), ("p_chain", "h"), ("p_encoded", "q"), ("set_fname", "f"), ("set_fname", "q")];
const HANDLE_SEQS: &[(&str, &str)] = &[("p_chain_from", "acc"), ("p_dims", "acc"), ("p_params_from", "acc"), ("p_tparams_from", "acc")];

struct G<'a> {
    known: &'a [String],
    pre: &'a str,
}

fn p<T: ToTokens>(t: &T) -> String {
    let mut f = quote::quote!(#t).to_string();
    // lit("x") is "x"@
    let mut from = 0;
    while let Some(i) = f[from..].find("lit (\"").map(|i| i + from) {
        if f[..i].ends_with(|c: char| c.is_alphanumeric() || c == '_') {
            from = i + 3;
            continue;
        }
        let b = f.as_bytes();
        let mut j = i + 6;
        while b[j] != b'"' {
            j += if b[j] == b'\\' { 2 } else { 1 };
        }
        let close = j + f[j..].find(')').unwrap();
        f = format!("{}{}@{}", &f[..i], &f[i + 5..=j], &f[close + 1..]);
    }
    f
}

impl G<'_> {
    // the lemma calls for the productions an expression calls, in evaluation order
    fn calls(&self, e: &Expr, out: &mut String) {
        match e {
            Expr::Call(c) => {
                for a in &c.args {
                    self.calls(a, out);
                }
                if let Expr::Path(f) = &*c.func {
                    let n = f.path.to_token_stream().to_string();
                    if self.known.contains(&n) || self.pre == "h" && BY_HAND.contains(&n.as_str()) {
                        let a: Vec<String> = c.args.iter().map(p).collect();
                        out.push_str(&format!("{}_{n}({}); ", self.pre, a.join(", ")));
                    }
                }
            }
            Expr::Struct(s) => {
                for f in &s.fields {
                    self.calls(&f.expr, out);
                }
                if let (true, Some(r)) = (self.pre == "h" && s.path.is_ident("PS"), &s.rest) {
                    let r = p(r);
                    let get = |n: &str| s.fields.iter().find(|f| f.member.to_token_stream().to_string() == n).map(|f| p(&f.expr));
                    if get("fp").is_some() || get("nm").is_some() {
                        let base = get("nodes").unwrap_or(format!("{r}.nodes"));
                        out.push_str(&format!(
                            "cls_tables({base}, {r}.fp, {r}.nm, {}, {}); ",
                            get("fp").unwrap_or(format!("{r}.fp")),
                            get("nm").unwrap_or(format!("{r}.nm"))
                        ));
                    }
                }
            }
            Expr::Paren(x) => self.walk(&x.expr, out),
            Expr::If(_) | Expr::Match(_) | Expr::Block(_) => self.walk(e, out),
            Expr::Tuple(t) => t.elems.iter().for_each(|x| self.calls(x, out)),
            Expr::Binary(b) => {
                self.calls(&b.left, out);
                self.calls(&b.right, out);
            }
            Expr::Unary(u) => self.calls(&u.expr, out),
            Expr::Field(f) => self.calls(&f.base, out),
            Expr::Cast(f) => self.calls(&f.expr, out),
            Expr::MethodCall(m) => {
                self.calls(&m.receiver, out);
                m.args.iter().for_each(|x| self.calls(x, out));
            }
            _ => (),
        }
    }
    fn walk(&self, e: &Expr, out: &mut String) {
        match e {
            Expr::Block(b) => {
                out.push_str("{ ");
                self.stmts(&b.block.stmts, out);
                out.push_str("} ");
            }
            Expr::Paren(x) => self.walk(&x.expr, out),
            Expr::If(i) => {
                self.calls(&i.cond, out);
                out.push_str(&format!("if {} {{ ", p(&i.cond)));
                self.stmts(&i.then_branch.stmts, out);
                out.push_str("} ");
                if let Some((_, x)) = &i.else_branch {
                    out.push_str("else { ");
                    self.walk(x, out);
                    out.push_str("} ");
                }
            }
            Expr::Match(m) => {
                self.calls(&m.expr, out);
                out.push_str(&format!("match {} {{ ", p(&m.expr)));
                for a in &m.arms {
                    out.push_str(&format!("{} => {{ ", p(&a.pat)));
                    self.walk(&a.body, out);
                    out.push_str("} ");
                }
                out.push_str("} ");
            }
            _ => self.calls(e, out),
        }
    }
    fn stmts(&self, ss: &[Stmt], out: &mut String) {
        for (i, s) in ss.iter().enumerate() {
            match s {
                Stmt::Local(l) => {
                    let init = &l.init.as_ref().unwrap().expr;
                    let pat = p(&l.pat);
                    if let Expr::Try(t) = &**init {
                        self.walk(&t.expr, out);
                        // the value, with its own `?` spelled out
                        let e = crate::specs::pure(&t.expr);
                        out.push_str(&format!("if let Ok({pat}) = {} {{ ", p(&e)));
                        self.stmts(&ss[i + 1..], out);
                        out.push_str("} ");
                        return;
                    }
                    self.walk(init, out);
                    out.push_str(&format!("let {pat} = {}; ", p(&crate::specs::pure(init))));
                }
                Stmt::Expr(e, _) => self.walk(e, out),
                x => panic!("{}", x.to_token_stream()),
            }
        }
    }
}

pub fn generate(dir: &str) -> String {
    let file = syn::parse_file(&std::fs::read_to_string(format!("{dir}/spec/parse.rs")).unwrap()).unwrap();
    let mut fns = vec![];
    let mut known = vec![];
    for it in file.items {
        if let Item::Fn(f) = it {
            let n = f.sig.ident.to_string();
            let first = f.sig.inputs.first().map(|a| a.to_token_stream().to_string().replace(' ', "")).unwrap_or_default();
            if first == "s:PS" && (n.starts_with("p_") || n == "set_fname") && !BY_HAND.contains(&n.as_str()) {
                known.push(n);
                fns.push(f);
            }
        }
    }
    let g = G { known: &known, pre: "h" };
    let mut out = String::new();
    for f in &fns {
        let n = f.sig.ident.to_string();
        let params: Vec<(String, String)> = f.sig.inputs.iter().map(|a| match a { FnArg::Typed(t) => (p(&t.pat), p(&t.ty)), _ => panic!() }).collect();
        let sig: Vec<String> = params.iter().map(|(a, b)| format!("{a}: {b}")).collect();
        let args: Vec<String> = params.iter().map(|(a, _)| a.clone()).collect();
        let args = args.join(", ");
        let eargs = format!("er(s){}", &args[1..]);
        let ret = f.sig.output.to_token_stream().to_string().replace(' ', "");
        let num = NUMBERS.contains(&n.as_str());
        let h = match ret.trim_start_matches("->") {
            "PR<int>" if !num => "hom",
            "PR<Option<int>>" => "homo",
            "PR<(Option<int>,bool)>" => "homp",
            "PR<Seq<int>>" if !num => "homs",
            "Result<PS,ErrK>" => "homr",
            "PS" => "hom1",
            r if r.starts_with("PR<") => "homx",
            _ => "homt",
        };
        let mut req = String::from("cls(s)");
        for (a, b) in HANDLES.iter().filter(|x| x.0 == n) {
            req.push_str(&format!(", inr({b}, s.nodes.len())"));
            let _ = a;
        }
        for (_, b) in HANDLE_SEQS.iter().filter(|x| x.0 == n) {
            req.push_str(&format!(", inrs({b}, s.nodes.len())"));
        }
        let dec = decreases(f);
        let knot = dec.as_ref().is_some_and(|d| d.contains("MAX_NESTING"));
        let open = if knot { format!("def_{n}({args}); def_{n}({eargs});") } else if n.starts_with("p_") { format!("reveal({n});") } else { String::new() };
        let mut body = String::new();
        g.stmts(&f.block.stmts, &mut body);
        out.push_str(&format!(
            "pub proof fn h_{n}({})\n    requires {req}\n    ensures {h}(s, {n}({args}), {n}({eargs}))\n{}{{\n    {open}\n    broadcast use group_er;\n    {}\n}}\n",
            sig.join(", "),
            dec.map(|d| format!("    decreases {d}\n")).unwrap_or_default(),
            crate::fmt::print(body.parse().expect(&body))
        ));
    }
    out.push_str(&printing(dir));
    out
}

fn decreases(f: &ItemFn) -> Option<String> {
    f.attrs.iter().find(|a| a.path().is_ident("dec")).map(|a| match &a.meta {
            Meta::List(l) => {
                let e: Expr = parse_str(&format!("({},)", l.tokens)).unwrap();
                let Expr::Tuple(t) = e else { panic!() };
                t.elems.iter().map(|x| format!("({}) as int", p(x))).collect::<Vec<_>>().join(", ")
            }
            _ => panic!(),
        })
}

// For each printing function o, a lemma e_o: it fails only by running out of room, or because what it was given is
// not a tree (`bad`)
fn printing(dir: &str) -> String {
    let file = syn::parse_file(&std::fs::read_to_string(format!("{dir}/spec/out.rs")).unwrap()).unwrap();
    let fns: Vec<ItemFn> = file
        .items
        .into_iter()
        .filter_map(|i| match i {
            Item::Fn(f) if matches!(f.sig.output.to_token_stream().to_string().replace(' ', "").as_str(), "->OR" | "->Result<(Seq<char>,bool),ErrK>") => Some(f),
            _ => None,
        })
        .collect();
    let known: Vec<String> = fns.iter().map(|f| f.sig.ident.to_string()).collect();
    let g = G { known: &known, pre: "e" };
    let mut out = String::new();
    for f in &fns {
        let n = f.sig.ident.to_string();
        let params: Vec<(String, String)> = f.sig.inputs.iter().map(|a| match a { FnArg::Typed(t) => (p(&t.pat), p(&t.ty)), _ => panic!() }).collect();
        let sig: Vec<String> = params.iter().map(|(a, b)| format!("{a}: {b}")).collect();
        let args: Vec<String> = params.iter().map(|(a, _)| a.clone()).collect();
        let args = args.join(", ");
        let dec = decreases(f);
        let open = if dec.as_ref().is_some_and(|d| d.contains("nrank")) { format!("def_{n}({args});") } else if n.starts_with("o_") { format!("reveal({n});") } else { String::new() };
        let mut body = String::new();
        g.stmts(&f.block.stmts, &mut body);
        out.push_str(&format!(
            "pub proof fn e_{n}({})\n    ensures {n}({args}) matches Err(e) ==> bad(e)\n{}{{\n    {open}\n    {}\n}}\n",
            sig.join(", "),
            dec.map(|d| format!("    decreases {d}\n")).unwrap_or_default(),
            crate::fmt::print(body.parse().expect(&body))
        ));
    }
    out
}
