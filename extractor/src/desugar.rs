// Rewrites of constructs outside the verifier's subset into equivalent ones inside it.
// Every rule is syntactic and local; the list is repeated in DESIGN.md.
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use syn::{visit_mut::{self, VisitMut}, *};

#[derive(Default)]
pub struct Desugar {
    pub loops: usize,
    pub counted: Vec<usize>, // `for` loops
    pub tmp: usize,
    pub unsafes: usize,
    pub notes: Vec<String>,
    pub closures: Vec<String>,
    pub slice_locals: Vec<String>,
    pub consts: BTreeMap<String, u64>,
}

// std methods the verifier has no specification for; routed to shims of the same
// meaning (their specifications are part of the trusted base)
pub const RENAMES: &[(&str, &str)] = &[
    ("char_indices", "x_char_indices"),
    ("chars", "x_chars"),
    ("starts_with", "x_starts_with"),
    ("len", "x_len"),
    ("get_unchecked", "x_get_unchecked"),
    ("get_unchecked_mut", "x_get_unchecked_mut"),
    ("unwrap_unchecked", "x_unwrap_unchecked"),
    ("try_into", "x_try_into"),
    ("reverse", "x_reverse"),
    ("split_first", "x_split_first"),
];

pub fn renamed(m: &str) -> Option<&'static str> {
    RENAMES.iter().find(|r| r.0 == m).map(|r| r.1)
}

fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}

fn closure_of(e: &Expr) -> Option<&ExprClosure> {
    match unparen(e) {
        Expr::Closure(c) => Some(c),
        _ => None,
    }
}

fn pat0(c: &ExprClosure) -> Pat {
    match &c.inputs[0] {
        Pat::Type(t) => (*t.pat).clone(),
        p => p.clone(),
    }
}

fn range_of(e: &Expr) -> Option<&ExprRange> {
    match unparen(e) {
        Expr::Range(r) => Some(r),
        _ => None,
    }
}

// the slice `xs.iter()` runs over, and whether it runs backwards
fn iter_of(e: &Expr) -> Option<(&Expr, bool)> {
    let Expr::MethodCall(m) = unparen(e) else { return None };
    match m.method.to_string().as_str() {
        "iter" if m.args.is_empty() => Some((&m.receiver, false)),
        "rev" if m.args.is_empty() => iter_of(&m.receiver).filter(|r| !r.1).map(|r| (r.0, true)),
        _ => None,
    }
}

// `{0} text {1:02X}` as pieces
enum Piece {
    Text(String),
    Arg(usize),
    Hex2(usize),
}

fn pieces(f: &str) -> Option<Vec<Piece>> {
    let mut out = vec![];
    let mut text = String::new();
    let mut it = f.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' | '}' if it.peek() == Some(&c) => {
                it.next();
                text.push(c);
            }
            '{' => {
                let mut a = String::new();
                loop {
                    match it.next()? {
                        '}' => break,
                        c => a.push(c),
                    }
                }
                if !text.is_empty() {
                    out.push(Piece::Text(std::mem::take(&mut text)));
                }
                let (i, how) = a.split_once(':').unwrap_or((&a, ""));
                let i = i.parse().ok()?;
                out.push(match how {
                    "" => Piece::Arg(i),
                    "02X" => Piece::Hex2(i),
                    _ => return None,
                });
            }
            '}' => return None,
            c => text.push(c),
        }
    }
    if !text.is_empty() {
        out.push(Piece::Text(text));
    }
    Some(out)
}

struct FmtArgs(LitStr, Vec<Expr>);
impl syn::parse::Parse for FmtArgs {
    fn parse(i: syn::parse::ParseStream) -> Result<Self> {
        let s = i.parse()?;
        let mut v = vec![];
        while !i.is_empty() {
            i.parse::<Token![,]>()?;
            if !i.is_empty() {
                v.push(i.parse()?);
            }
        }
        Ok(FmtArgs(s, v))
    }
}

impl Desugar {
    // `W.write_fmt(format_args!(..))`: one write per piece, stopping at the first that fails
    fn write_fmt(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let Expr::Macro(mac) = unparen(&m.args[0]) else { return None };
        if !mac.mac.path.segments.last().is_some_and(|s| s.ident == "format_args") {
            return None;
        }
        let FmtArgs(f, args) = parse2(mac.mac.tokens.clone()).ok()?;
        let w = &m.receiver;
        let mut lets: Vec<Stmt> = vec![];
        let mut refs: Vec<Expr> = vec![];
        for a in &args {
            let simple = match unparen(a) {
                Expr::Path(_) => true,
                Expr::Field(f) => matches!(&*f.base, Expr::Path(_)),
                _ => false,
            };
            if simple {
                refs.push(a.clone());
            } else {
                let v = self.fresh();
                lets.push(parse_quote!(let #v = #a;));
                refs.push(parse_quote!(#v));
            }
        }
        let mut e: Option<Expr> = None;
        for p in pieces(&f.value())?.iter().rev() {
            let call: Expr = match p {
                Piece::Text(t) => {
                    let l = LitStr::new(t, f.span());
                    parse_quote!(#w.x_str(#l))
                }
                Piece::Arg(i) => {
                    let a = refs.get(*i)?;
                    parse_quote!(#w.x_disp(&#a))
                }
                Piece::Hex2(i) => {
                    let a = refs.get(*i)?;
                    parse_quote!(#w.x_hex2(&#a))
                }
            };
            e = Some(match e {
                None => call,
                Some(r) => parse_quote!((match #call { Ok(()) => #r, Err(x__e) => Err(x__e) })),
            });
        }
        let e = e.unwrap_or(parse_quote!(Ok(())));
        Some(if lets.is_empty() { e } else { parse_quote!(({ #(#lets)* #e })) })
    }

    // consuming iterator chains over slices: an indexed loop. Its variables are named after
    // the loop's number: x__s<n> the slice, x__i<n> the items done, x__v<n> the result
    fn iter_chain(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let l = self.loops;
        let (s, i, v) = (format_ident!("x__s{l}"), format_ident!("x__i{l}"), format_ident!("x__v{l}"));
        let name = m.method.to_string();
        // closures over items given by reference: `|p|` or `|&p|` or (one more level) `|&&p|`
        let item = |c: &ExprClosure, at: &Expr, deep: bool| -> Option<Stmt> {
            let p = pat0(c);
            let one = |q: &Pat| -> Option<Pat> { if let Pat::Reference(r) = q { Some((*r.pat).clone()) } else { None } };
            if deep {
                let q = one(&p)?;
                return Some(match one(&q) { Some(q) => parse_quote!(let #q = #at;), None => parse_quote!(let #q = &#at;) });
            }
            Some(match one(&p) { Some(q) => parse_quote!(let #q = #at;), None => parse_quote!(let #p = &#at;) })
        };
        let at = |rev: bool| -> Expr { if rev { parse_quote!(#s[#s.len() - 1 - #i]) } else { parse_quote!(#s[#i]) } };
        match (name.as_str(), m.args.len()) {
            ("all" | "any", 1) => {
                let (x, rev) = iter_of(&m.receiver)?;
                let c = closure_of(&m.args[0])?;
                let bind = item(c, &at(rev), false)?;
                let b = &c.body;
                let all = name == "all";
                let (go, stop): (Expr, Expr) = if all { (parse_quote!(#v), parse_quote!(!(#b))) } else { (parse_quote!(!#v), parse_quote!(#b)) };
                Some(parse_quote!(({ let #s = #x.x_slice(); let mut #v = #all; let mut #i: usize = 0;
                    while #go && #i < #s.len() { #bind if #stop { #v = !#all; } #i += 1; } #v })))
            }
            ("count", 0) => {
                let Expr::MethodCall(t) = unparen(&m.receiver) else { return None };
                if t.method != "take_while" || t.args.len() != 1 { return None; }
                let (x, rev) = iter_of(&t.receiver)?;
                let c = closure_of(&t.args[0])?;
                let bind = item(c, &at(rev), true)?;
                let b = &c.body;
                Some(parse_quote!(({ let #s = #x.x_slice(); let mut #v = true; let mut #i: usize = 0;
                    while #v && #i < #s.len() { #bind if #b { #i += 1; } else { #v = false; } } #i })))
            }
            ("sum", 0) => {
                let Expr::MethodCall(t) = unparen(&m.receiver) else { return None };
                if t.method != "map" || t.args.len() != 1 { return None; }
                let (x, rev) = iter_of(&t.receiver)?;
                let c = closure_of(&t.args[0])?;
                let bind = item(c, &at(rev), false)?;
                let b = &c.body;
                Some(parse_quote!(({ let #s = #x.x_slice(); let mut #v = 0; let mut #i: usize = 0;
                    while #i < #s.len() { #bind #v += #b; #i += 1; } #v })))
            }
            _ => None,
        }
    }

    // `for P in xs.iter()`, with enumerate and take
    fn iter_for(&mut self, f: &ExprForLoop) -> Option<Expr> {
        let l = self.loops;
        let (s, i, n) = (format_ident!("x__s{l}"), format_ident!("x__i{l}"), format_ident!("x__n{l}"));
        let mut src = unparen(&f.expr);
        let mut take = None;
        let mut enumerated = false;
        loop {
            if matches!(src, Expr::Path(p) if p.path.get_ident().is_some_and(|i| self.slice_locals.contains(&i.to_string()))) {
                break;
            }
            let Expr::MethodCall(m) = src else { return None };
            match m.method.to_string().as_str() {
                "take" if m.args.len() == 1 && take.is_none() => take = Some(&m.args[0]),
                "enumerate" if m.args.is_empty() && !enumerated => enumerated = true,
                "iter" if m.args.is_empty() => { src = &m.receiver; break; }
                _ => return None,
            }
            src = unparen(&m.receiver);
        }
        let (ip, xp): (Pat, Pat) = if enumerated {
            let Pat::Tuple(t) = &*f.pat else { return None };
            if t.elems.len() != 2 { return None; }
            (t.elems[0].clone(), t.elems[1].clone())
        } else {
            (parse_quote!(#i), (*f.pat).clone())
        };
        let bind: Stmt = match &xp {
            Pat::Reference(r) => { let q = &r.pat; parse_quote!(let #q = #s[#i];) }
            Pat::Wild(_) => parse_quote!({}),
            q => parse_quote!(let #q = &#s[#i];),
        };
        let ibind: Vec<Stmt> = if enumerated && !matches!(ip, Pat::Wild(_)) { vec![parse_quote!(let #ip = #i;)] } else { vec![] };
        let lim: Expr = match take { Some(t) => parse_quote!({ let x__t: usize = #t; if x__t < #s.len() { x__t } else { #s.len() } }), None => parse_quote!(#s.len()) };
        let (b, lab) = (&f.body.stmts, &f.label);
        Some(parse_quote!({ let #s = #src.x_slice(); let #n = #lim; #lab for #i in 0..#n { #(#ibind)* #bind #(#b)* } }))
    }

    fn closure(&mut self, text: String) -> Expr {
        let id = format_ident!("__CL_{}_", self.closures.len());
        self.closures.push(text);
        parse_quote!(#id)
    }

    fn fresh(&mut self) -> Ident {
        self.tmp += 1;
        format_ident!("x__{}", self.tmp)
    }

    fn deref(e: &Expr) -> Expr {
        match unparen(e) {
            Expr::Reference(r) => (*r.expr).clone(),
            e => parse_quote!((*#e)),
        }
    }

    fn method(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        let name = m.method.to_string();
        let mut r = &*m.receiver;
        // a closure-taking method of what `self` dereferences to
        let derefd: Expr = parse_quote!((*self.deref()));
        if matches!(r, Expr::Path(p) if p.path.is_ident("self")) && m.args.iter().any(|a| closure_of(a).is_some()) {
            r = &derefd;
        }
        match (name.as_str(), m.args.len()) {
            ("write_fmt", 1) => self.write_fmt(m),
            ("is_some_and", 1) => {
                let c = closure_of(&m.args[0])?;
                let (p, b) = (pat0(c), &c.body);
                Some(parse_quote!((match #r { Some(#p) => #b, None => false })))
            }
            ("is_none_or", 1) => {
                let c = closure_of(&m.args[0])?;
                let (p, b) = (pat0(c), &c.body);
                Some(parse_quote!((match #r { Some(#p) => #b, None => true })))
            }
            ("map_or", 2) => {
                let c = closure_of(&m.args[1])?;
                let (p, b, d) = (pat0(c), &c.body, &m.args[0]);
                Some(parse_quote!((match #r { Some(#p) => #b, None => #d })))
            }
            ("then", 1) => {
                let c = closure_of(&m.args[0])?;
                let b = &c.body;
                Some(parse_quote!((if #r { Some(#b) } else { None })))
            }
            ("then_some", 1) => {
                let b = &m.args[0];
                Some(parse_quote!((if #r { Some(#b) } else { None })))
            }
            ("and_then", 1) => {
                let c = closure_of(&m.args[0])?;
                let (p, b) = (pat0(c), &c.body);
                Some(parse_quote!((match #r { Some(#p) => #b, None => None })))
            }
            ("or_else", 1) => {
                let c = closure_of(&m.args[0])?;
                let b = &c.body;
                let v = self.fresh();
                if c.inputs.is_empty() {
                    Some(parse_quote!((match #r { Some(#v) => Some(#v), None => #b })))
                } else {
                    let p = pat0(c);
                    Some(parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#p) => #b })))
                }
            }
            ("or", 1) => {
                let v = self.fresh();
                let b = &m.args[0];
                Some(parse_quote!((match #r { Some(#v) => Some(#v), None => #b })))
            }
            ("map_err", 1) => {
                let c = closure_of(&m.args[0])?;
                let (p, b) = (pat0(c), &c.body);
                let v = self.fresh();
                Some(parse_quote!((match #r { Ok(#v) => Ok(#v), Err(#p) => Err(#b) })))
            }
            ("ok_or_else", 1) => {
                let c = closure_of(&m.args[0])?;
                let b = &c.body;
                let v = self.fresh();
                Some(parse_quote!((match #r { Some(#v) => Ok(#v), None => Err(#b) })))
            }
            ("unwrap_or_else", 1) => {
                let c = closure_of(&m.args[0])?;
                if !c.inputs.is_empty() {
                    return None;
                }
                let b = &c.body;
                let v = self.fresh();
                Some(parse_quote!((match #r { Some(#v) => #v, None => #b })))
            }
            ("flatten", 0) => {
                let v = self.fresh();
                Some(parse_quote!((match #r { Some(#v) => #v, None => None })))
            }
            ("map", 1) => {
                let c = closure_of(&m.args[0])?;
                let (p, b) = (pat0(c), &c.body);
                Some(parse_quote!((match #r { Some(#p) => Some(#b), None => None })))
            }
            ("contains", 1) => {
                let g = range_of(r)?;
                let x = Self::deref(&m.args[0]);
                let lo: Option<Expr> = g.start.as_ref().map(|a| parse_quote!((#a <= #x)));
                let hi: Option<Expr> = g.end.as_ref().map(|a| match g.limits {
                    RangeLimits::Closed(_) => parse_quote!((#x <= #a)),
                    RangeLimits::HalfOpen(_) => parse_quote!((#x < #a)),
                });
                match (lo, hi) {
                    (Some(a), Some(b)) => Some(parse_quote!((#a && #b))),
                    (Some(a), None) | (None, Some(a)) => Some(a),
                    _ => None,
                }
            }
            _ => None,
        }
    }

    fn result_map(&mut self, m: &ExprMethodCall) -> Option<Expr> {
        // R.map(|p| b).map_err(|q| e)
        if m.method != "map_err" || m.args.len() != 1 {
            return None;
        }
        let Expr::MethodCall(i) = unparen(&m.receiver) else { return None };
        if i.method != "map" || i.args.len() != 1 {
            return None;
        }
        let ci = closure_of(&i.args[0])?;
        let ce = closure_of(&m.args[0])?;
        let (p, b) = (pat0(ci), &ci.body);
        let (q, e) = (pat0(ce), &ce.body);
        let r = &i.receiver;
        if let Pat::Type(t) = &ci.inputs[0] {
            let (v, ty) = (self.fresh(), &t.ty);
            return Some(parse_quote!((match #r { Ok(#v) => Ok({ let #p: #ty = #v; #b }), Err(#q) => Err(#e) })));
        }
        Some(parse_quote!((match #r { Ok(#p) => Ok(#b), Err(#q) => Err(#e) })))
    }

    // `&x` in a pattern: bind the reference, then copy out of it
    fn refs(&mut self, p: &mut Pat) -> Vec<Stmt> {
        struct R<'a>(&'a mut Desugar, Vec<Stmt>);
        impl VisitMut for R<'_> {
            fn visit_pat_mut(&mut self, p: &mut Pat) {
                if let Pat::Reference(r) = p {
                    if let Pat::Ident(i) = &*r.pat {
                        let (x, v) = (&i.ident, self.0.fresh());
                        self.1.push(parse_quote!(let #x = *#v;));
                        *p = parse_quote!(#v);
                        return;
                    }
                }
                visit_mut::visit_pat_mut(self, p);
            }
        }
        let mut r = R(self, vec![]);
        r.visit_pat_mut(p);
        r.1
    }

    // `xs.iter().enumerate().take(n)` and friends as `for` sources
    fn loop_marker(&mut self) -> Stmt {
        let id = format_ident!("__LOOP_{}", self.loops);
        self.loops += 1;
        parse_quote!(#id;)
    }
}

impl VisitMut for Desugar {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
    }

    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order rules
        match e {
            Expr::If(i) => {
                if let Expr::Let(l) = &mut *i.cond {
                    if matches!(unparen(&l.expr), Expr::MethodCall(m) if m.method == "split_first" && m.args.is_empty()) {
                        if let Pat::TupleStruct(t) = &*l.pat {
                            if let Some(Pat::Tuple(t)) = t.elems.first() {
                                if let Some(Pat::Ident(x)) = t.elems.last() {
                                    self.slice_locals.push(x.ident.to_string());
                                }
                            }
                        }
                    }
                    let v = self.refs(&mut l.pat);
                    for x in v.into_iter().rev() {
                        i.then_branch.stmts.insert(0, x);
                    }
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut().filter(|a| a.guard.is_none()) {
                    let v = self.refs(&mut a.pat);
                    if !v.is_empty() {
                        let b = &a.body;
                        *a.body = parse_quote!({ #(#v)* #b });
                    }
                }
            }
            Expr::ForLoop(f) => {
                if let Some(n) = self.iter_for(f) {
                    *e = n;
                    visit_mut::visit_expr_mut(self, e);
                    return;
                }
                let v = self.refs(&mut f.pat);
                for x in v.into_iter().rev() {
                    f.body.stmts.insert(0, x);
                }
            }
            _ => {}
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.iter_chain(m) {
                *e = n;
            }
        }
        if let Expr::MethodCall(m) = e {
            if let Some(n) = self.result_map(m) {
                *e = n;
            }
        }
        let mut guard = 0;
        while let Expr::MethodCall(m) = e {
            let Some(n) = self.method(m) else { break };
            *e = n;
            if let Expr::Paren(p) = e {
                *e = (*p.expr).clone();
            }
            guard += 1;
            if guard > 8 {
                break;
            }
        }
        if let Expr::ForLoop(f) = e {
            let by_next = match unparen(&f.expr) {
                Expr::MethodCall(m) => ["char_indices", "chars", "bytes"].contains(&m.method.to_string().as_str()),
                _ => false,
            };
            if by_next {
                let it = self.fresh();
                let (p, x, b, lab) = (&f.pat, &f.expr, &f.body, &f.label);
                *e = parse_quote!({ let mut #it = #x; #lab loop { match #it.next() { Some(#p) => #b, _ => { break; } } } });
            }
        }
        if let Expr::ForLoop(f) = e {
            if let Expr::Reference(r) = unparen(&f.expr) {
                if r.mutability.is_some() {
                    let it = self.fresh();
                    let (p, x, b, lab) = (&f.pat, &r.expr, &f.body.stmts, &f.label);
                    *e = parse_quote!(#lab for #it in 0..#x.len() { let #p = &mut #x[#it]; #(#b)* });
                }
            }
        }
        let mut pre: Option<Expr> = None;
        if let Expr::Reference(r) = e {
            if r.mutability.is_none() {
                if let Expr::Index(i) = unparen(&r.expr) {
                    let base = &i.expr;
                    if let Some(g) = range_of(&i.index) {
                        pre = match (&g.start, &g.end, &g.limits) {
                            (Some(a), None, _) => Some(parse_quote!(#base.x_from(#a))),
                            (None, Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#base.x_to(#b))),
                            (None, Some(b), RangeLimits::Closed(_)) => Some(parse_quote!(#base.x_to(#b + 1))),
                            (Some(a), Some(b), RangeLimits::HalfOpen(_)) => Some(parse_quote!(#base.x_sub(#a, #b))),
                            (None, None, _) => Some(parse_quote!(#base.x_full())),
                            _ => None,
                        };
                    } else if matches!(unparen(&i.index), Expr::Path(p) if p.path.is_ident("index")) {
                        let ix = &i.index;
                        pre = Some(parse_quote!(#base.x_index(#ix)));
                    }
                }
            }
        }
        if let Some(n) = pre {
            *e = n;
        }
        if let Expr::Unsafe(u) = e {
            self.unsafes += 1;
            let b = &u.block;
            *e = Expr::Block(parse_quote!(#b));
        }
        if let Expr::While(w) = e {
            if let Expr::Let(l) = unparen(&w.cond) {
                let (p, x, b, lab) = (&l.pat, &l.expr, &w.body, &w.label);
                *e = parse_quote!(#lab loop { match #x { #p => #b, _ => { break; } } });
            }
        }
        // loops are numbered in source order
        let mut mark = None;
        if let Expr::ForLoop(f) = e {
            if matches!(&*f.pat, Pat::Wild(_)) {
                let i = format_ident!("x__i{}", self.loops);
                *f.pat = Pat::Ident(PatIdent { attrs: vec![], by_ref: None, mutability: None, ident: i, subpat: None });
            }
        }
        if let Expr::ForLoop(_) = e {
            self.counted.push(self.loops);
        }
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => mark = Some(self.loop_marker()),
            _ => {}
        }
        visit_mut::visit_expr_mut(self, e);
        if let Some(m) = mark {
            match e {
                Expr::Loop(l) => l.body.stmts.insert(0, m),
                Expr::While(l) => l.body.stmts.insert(0, m),
                Expr::ForLoop(l) => l.body.stmts.insert(0, m),
                _ => {}
            }
        }
        // post-order rules
        let mut new: Option<Expr> = None;
        match e {
            Expr::MethodCall(m) => {
                if let Some(n) = renamed(&m.method.to_string()) {
                    m.method = Ident::new(n, m.method.span());
                }
            }
            Expr::Range(g) if g.start.is_none() && g.end.is_some() && matches!(g.limits, RangeLimits::HalfOpen(_)) => {
                // a `..n` that is an argument (slicing was handled above)
                let b = &g.end;
                new = Some(parse_quote!(XRangeTo { end: #b }));
            }
            Expr::Closure(c) => {
                // closures passed on as `FnOnce(&char) -> bool`: state what they compute
                if c.inputs.len() == 1 && matches!(c.inputs[0], Pat::Ident(_)) {
                    let p = crate::fmt::print(c.inputs[0].to_token_stream());
                    let b = crate::fmt::print(c.body.to_token_stream());
                    new = Some(self.closure(format!("|{p}: &char| -> (x__b: bool) ensures x__b == ({b}) {{ {b} }}")));
                } else if let (1, Some(Pat::Reference(r))) = (c.inputs.len(), c.inputs.first()) {
                    if matches!(&*r.pat, Pat::Ident(_)) {
                        let p = crate::fmt::print(r.pat.to_token_stream());
                        let b = crate::fmt::print(c.body.to_token_stream());
                        new = Some(self.closure(format!("|x__r: &char| -> (x__b: bool) ensures x__b == ({{ let {p} = *x__r; {b} }}) {{ let {p} = *x__r; {b} }}")));
                    }
                }
            }
            Expr::Path(p) => {
                let s = p.path.to_token_stream().to_string().replace(' ', "");
                if s == "char::is_ascii_digit" {
                    new = Some(self.closure("|x: &char| -> (x__b: bool) ensures x__b == crate::sp::is_digit(*x) { x.is_ascii_digit() }".into()));
                }
            }
            Expr::Assign(a) => {
                if matches!(&*a.left, Expr::Infer(_)) {
                    let r = &a.right;
                    new = Some(parse_quote!({ let _ = #r; }));
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}

// `break v` of a loop whose value is the function's: `return v`
struct Breaks<'a>(Option<&'a Lifetime>, usize);
impl VisitMut for Breaks<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => {
                self.1 += 1;
                visit_mut::visit_expr_mut(self, e);
                self.1 -= 1;
            }
            Expr::Closure(_) => {}
            Expr::Break(b) => {
                let ours = match &b.label {
                    None => self.1 == 0,
                    Some(l) => Some(l) == self.0,
                };
                if ours && b.expr.is_some() {
                    let v = b.expr.take().unwrap();
                    *e = parse_quote!(return #v);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

pub fn tail_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        tail(e);
    }
}

fn tail(e: &mut Expr) {
    match e {
        Expr::Loop(l) => {
            let lab = l.label.as_ref().map(|l| l.name.clone());
            Breaks(lab.as_ref(), 0).visit_block_mut(&mut l.body);
        }
        Expr::If(i) => {
            tail_block(&mut i.then_branch);
            if let Some((_, x)) = &mut i.else_branch {
                tail(x);
            }
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| tail(&mut a.body)),
        Expr::Block(b) if b.label.is_none() => tail_block(&mut b.block),
        Expr::Unsafe(b) => tail_block(&mut b.block),
        Expr::Paren(p) => tail(&mut p.expr),
        _ => {}
    }
}
