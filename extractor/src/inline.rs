// A function without a contract that is not recursive is put back where it is called: a helper split off from a function
// under contract is verified as part of that function. Beta-reduction with fresh names, nothing else:
//   helper(a, b)        body without `return` and `?`
//   helper(a, b)?       tails lose their `Ok`, `return Err(..)` and `?` leave the caller as they left the helper
//   return helper(a, b) (or the tail of a function with the same return type): as is
// Whatever does not fit stays a call of a function without a contract.
use crate::clean::type_name;
use crate::contracts::Contracts;
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::{self, Visit};
use syn::visit_mut::{self, VisitMut};
use syn::*;

#[derive(Clone)]
struct Helper {
    module: String,
    sig: Signature,
    block: Block,
}

fn each_fn(items: &mut [Item], path: &str, f: &mut dyn FnMut(&str, &str, &Signature, &mut Block, bool)) {
    for i in items.iter_mut() {
        match i {
            Item::Mod(m) => {
                let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) };
                if let Some((_, v)) = &mut m.content {
                    each_fn(v, &p, f);
                }
            }
            Item::Fn(x) => {
                let id = if path.is_empty() { x.sig.ident.to_string() } else { format!("{path}::{}", x.sig.ident) };
                f(path, &id, &x.sig, &mut x.block, true);
            }
            Item::Impl(x) => {
                let ty = type_name(&x.self_ty);
                let inherent = x.trait_.is_none();
                for y in x.items.iter_mut() {
                    if let ImplItem::Fn(y) = y {
                        let id = format!("{path}::{ty}::{}", y.sig.ident);
                        f(path, &id, &y.sig, &mut y.block, inherent);
                    }
                }
            }
            Item::Trait(x) => {
                for y in x.items.iter_mut() {
                    if let TraitItem::Fn(y) = y {
                        let id = format!("{path}::{}::{}", x.ident, y.sig.ident);
                        if let Some(b) = &mut y.default {
                            f(path, &id, &y.sig, b, false);
                        } else {
                            f(path, &id, &y.sig, &mut parse_quote!({}), false);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

// names called or mentioned, `return`s and `?`s (closures aside)
#[derive(Default)]
struct Uses {
    names: BTreeSet<String>,
    bound: BTreeSet<String>,
    returns: usize,
    ok_returns: usize,
    tries: usize,
    assigned: BTreeSet<String>,
    text: String,
}
impl<'a> Visit<'a> for Uses {
    fn visit_expr(&mut self, e: &'a Expr) {
        match e {
            Expr::Closure(c) => {
                let mut u = Uses::default();
                visit::visit_expr_closure(&mut u, c);
                self.names.extend(u.names);
                self.bound.extend(u.bound);
                return;
            }
            Expr::Return(r) => {
                self.returns += 1;
                let err = matches!(r.expr.as_deref(), Some(Expr::Call(c)) if c.func.to_token_stream().to_string().ends_with("Err"));
                if !err {
                    self.ok_returns += 1;
                }
            }
            Expr::Try(_) => self.tries += 1,
            Expr::Assign(a) => {
                self.assigned.insert(a.left.to_token_stream().to_string());
            }
            Expr::Binary(b) => {
                self.assigned.insert(b.left.to_token_stream().to_string());
            }
            _ => {}
        }
        visit::visit_expr(self, e);
    }
    fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
        self.names.insert(m.method.to_string());
        visit::visit_expr_method_call(self, m);
    }
    fn visit_path(&mut self, p: &'a Path) {
        if let Some(s) = p.segments.last() {
            self.names.insert(s.ident.to_string());
        }
        visit::visit_path(self, p);
    }
    fn visit_pat_ident(&mut self, p: &'a PatIdent) {
        self.bound.insert(p.ident.to_string());
        visit::visit_pat_ident(self, p);
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        self.text.push_str(&m.tokens.to_string());
        fn go(t: TokenStream, o: &mut BTreeSet<String>) {
            for x in t {
                match x {
                    TokenTree::Ident(i) => {
                        o.insert(i.to_string());
                    }
                    TokenTree::Group(g) => go(g.stream(), o),
                    _ => {}
                }
            }
        }
        go(m.tokens.clone(), &mut self.names);
    }
}
fn uses(b: &Block) -> Uses {
    let mut u = Uses::default();
    u.visit_block(b);
    u
}

// parameters by arguments
struct Subst<'a>(&'a BTreeMap<String, Expr>);
impl Subst<'_> {
    fn tokens(&self, t: TokenStream) -> TokenStream {
        let mut out = TokenStream::new();
        let mut dot = false;
        for x in t {
            let d = matches!(&x, TokenTree::Punct(p) if p.as_char() == '.');
            match x {
                TokenTree::Ident(i) if !dot && self.0.contains_key(&i.to_string()) => out.extend(self.0[&i.to_string()].to_token_stream()),
                TokenTree::Group(g) => {
                    let mut n = proc_macro2::Group::new(g.delimiter(), self.tokens(g.stream()));
                    n.set_span(g.span());
                    out.extend([TokenTree::Group(n)]);
                }
                x => out.extend([x]),
            }
            dot = d;
        }
        out
    }
}
impl VisitMut for Subst<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Path(p) = e {
            if let Some(i) = p.path.get_ident() {
                if let Some(x) = self.0.get(&i.to_string()) {
                    *e = x.clone();
                    return;
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        m.tokens = self.tokens(m.tokens.clone());
    }
}

// `if c { ..; return x; } rest` becomes `if c { ..; x } else { rest }`
fn no_early(b: &mut Block) {
    for k in 0..b.stmts.len() {
        let last = k + 1 == b.stmts.len();
        let early = match &b.stmts[k] {
            Stmt::Expr(Expr::If(i), _) if !last && i.else_branch.is_none() => matches!(i.then_branch.stmts.last(), Some(Stmt::Expr(Expr::Return(_), _))),
            _ => false,
        };
        if early {
            let rest: Vec<Stmt> = b.stmts.drain(k + 1..).collect();
            let Some(Stmt::Expr(Expr::If(mut i), _)) = b.stmts.pop() else { return };
            let mut r = Block { brace_token: Default::default(), stmts: rest };
            no_early(&mut r);
            no_early(&mut i.then_branch);
            i.else_branch = Some((Default::default(), Box::new(Expr::Block(ExprBlock { attrs: vec![], label: None, block: r }))));
            b.stmts.push(Stmt::Expr(Expr::If(i), None));
            return;
        }
    }
    if let Some(Stmt::Expr(e, semi)) = b.stmts.last_mut() {
        match e {
            Expr::Return(r) => {
                let x = r.expr.take().map(|x| *x).unwrap_or_else(|| parse_quote!(()));
                *e = x;
                *semi = None;
            }
            Expr::If(i) if semi.is_none() => {
                no_early(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    if let Expr::Block(x) = &mut **x {
                        no_early(&mut x.block);
                    }
                }
            }
            _ => {}
        }
    }
}

// the value of the tail, or out of the caller with the error
fn unwrap_tail(e: &mut Expr) {
    match e {
        Expr::If(i) if i.else_branch.is_some() => {
            unwrap_block(&mut i.then_branch);
            unwrap_tail(&mut i.else_branch.as_mut().unwrap().1);
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| unwrap_tail(&mut a.body)),
        Expr::Block(b) => unwrap_block(&mut b.block),
        Expr::Paren(p) => unwrap_tail(&mut p.expr),
        Expr::Return(_) => {}
        Expr::Call(c) if c.args.len() == 1 && matches!(c.func.to_token_stream().to_string().rsplit(' ').next(), Some("Ok")) => {
            let x = c.args[0].clone();
            *e = x;
        }
        Expr::Call(c) if matches!(c.func.to_token_stream().to_string().rsplit(' ').next(), Some("Err")) => {
            let x = e.clone();
            *e = parse_quote!(return #x);
        }
        _ => {
            let x = e.clone();
            *e = parse_quote!((#x)?);
        }
    }
}
fn unwrap_block(b: &mut Block) {
    if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
        unwrap_tail(e);
    }
}

struct Inliner<'a> {
    hs: &'a BTreeMap<String, Helper>,
    module: String,
    ret: String,
    n: usize,
    hit: bool,
}

fn ret_text(s: &Signature) -> String {
    s.output.to_token_stream().to_string()
}

impl Inliner<'_> {
    fn call(&mut self, e: &Expr) -> Option<(Helper, Option<Expr>, Vec<Expr>)> {
        match e {
            Expr::MethodCall(m) => {
                let h = self.hs.get(&m.method.to_string())?.clone();
                h.sig.receiver()?;
                Some((h, Some((*m.receiver).clone()), m.args.iter().cloned().collect()))
            }
            Expr::Call(c) => {
                let Expr::Path(p) = &*c.func else { return None };
                let h = self.hs.get(&p.path.segments.last()?.ident.to_string())?.clone();
                let mut a: Vec<Expr> = c.args.iter().cloned().collect();
                let mut r = None;
                if h.sig.receiver().is_some() {
                    if a.is_empty() {
                        return None;
                    }
                    r = Some(a.remove(0));
                }
                Some((h, r, a))
            }
            _ => None,
        }
    }

    // mode: 0 anywhere, 1 under `?`, 2 in tail position
    fn expand(&mut self, e: &Expr, mode: u8) -> Option<Expr> {
        let (h, recv, args) = self.call(e)?;
        let mut b = h.block.clone();
        if mode != 2 {
            no_early(&mut b);
        }
        if mode == 1 {
            unwrap_block(&mut b);
        }
        let u = uses(&b);
        match mode {
            0 if u.returns + u.tries > 0 => return None,
            1 if u.ok_returns > 0 => return None,
            2 if u.returns + u.tries > 0 && ret_text(&h.sig) != self.ret => return None,
            _ => {}
        }
        let mut map: BTreeMap<String, Expr> = BTreeMap::new();
        let mut lets: Vec<Stmt> = vec![];
        let generics: BTreeSet<String> = h.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        if let Some(r) = recv {
            let rc = h.sig.receiver().unwrap();
            if !matches!(&r, Expr::Path(p) if p.path.is_ident("self")) {
                self.n += 1;
                let v = format_ident!("x__i{}", self.n);
                let by: Expr = match (&rc.reference, rc.mutability.is_some(), &r) {
                    (_, _, Expr::Reference(_)) => r,
                    (None, false, _) => r,
                    (Some(_), true, _) => parse_quote!(&mut #r),
                    (Some(_), false, _) => parse_quote!(&#r),
                    _ => return None,
                };
                lets.push(parse_quote!(let #v = #by;));
                map.insert("self".into(), parse_quote!(#v));
            }
        }
        let ps: Vec<&PatType> = h.sig.inputs.iter().filter_map(|x| if let FnArg::Typed(t) = x { Some(t) } else { None }).collect();
        if ps.len() != args.len() {
            return None;
        }
        for (p, a) in ps.iter().zip(args) {
            let Pat::Ident(pi) = &*p.pat else { return None };
            let name = pi.ident.to_string();
            if u.text.contains(&format!("{{{name}")) || u.bound.contains(&name) {
                // captured by a format string, or shadowed: leave the name as it is
                if a.to_token_stream().to_string() == name {
                    continue;
                }
                return None;
            }
            let simple = matches!(&a, Expr::Path(x) if x.path.get_ident().is_some_and(|i| !u.bound.contains(&i.to_string())));
            if simple && pi.mutability.is_none() && pi.by_ref.is_none() && !u.assigned.contains(&name) {
                map.insert(name, a);
                continue;
            }
            self.n += 1;
            let v = format_ident!("x__i{}", self.n);
            let m = &pi.mutability;
            let mut tn = vec![];
            crate::emit::collect_idents(p.ty.to_token_stream(), &mut tn);
            let t = &p.ty;
            if h.module == self.module && !tn.iter().any(|x| generics.contains(x)) && !p.ty.to_token_stream().to_string().contains('\'') && !tn.iter().any(|x| x == "impl") {
                lets.push(parse_quote!(let #m #v: #t = #a;));
            } else {
                lets.push(parse_quote!(let #m #v = #a;));
            }
            map.insert(name, parse_quote!(#v));
        }
        Subst(&map).visit_block_mut(&mut b);
        lets.extend(b.stmts);
        self.hit = true;
        Some(Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: lets } }))
    }

    fn tail(&mut self, e: &mut Expr) {
        match e {
            Expr::If(i) => {
                self.tail_block(&mut i.then_branch);
                if let Some((_, x)) = &mut i.else_branch {
                    self.tail(x);
                }
            }
            Expr::Match(m) => {
                for a in m.arms.iter_mut() {
                    self.tail(&mut a.body);
                }
            }
            Expr::Block(b) => self.tail_block(&mut b.block),
            _ => {
                if let Some(x) = self.expand(e, 2) {
                    *e = x;
                }
            }
        }
    }
    fn tail_block(&mut self, b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            self.tail(e);
        }
    }
}
impl VisitMut for Inliner<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Return(r) = e {
            if let Some(x) = &mut r.expr {
                self.tail(x);
            }
        }
        if let Expr::Try(t) = e {
            if let Some(x) = self.expand(&t.expr, 1) {
                *e = x;
            }
        }
        if let Some(x) = self.expand(e, 0) {
            *e = x;
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

pub fn run(items: &mut Vec<Item>, con: &Contracts) -> Vec<String> {
    let mut count: BTreeMap<String, usize> = BTreeMap::new();
    let mut hs: BTreeMap<String, Helper> = BTreeMap::new();
    let mut ids: BTreeMap<String, String> = BTreeMap::new();
    each_fn(items, "", &mut |m, id, sig, b, ok| {
        let n = sig.ident.to_string();
        *count.entry(n.clone()).or_default() += 1;
        if ok && con.get(id).is_none() {
            ids.insert(n.clone(), id.to_string());
            hs.insert(n, Helper { module: m.to_string(), sig: sig.clone(), block: b.clone() });
        }
    });
    // a name that the library's types know too cannot be told from theirs
    let common = ["len", "is_empty", "push", "pop", "get", "iter", "next", "first", "last", "contains", "into", "from", "clone", "map", "unwrap", "insert", "take", "as_str", "chars", "bytes", "find", "split", "eq", "cmp", "fmt", "write", "flush", "new", "default", "min", "max", "rev", "extend", "clear", "starts_with", "ends_with", "parse"];
    hs.retain(|n, h| count[n] == 1 && !common.contains(&n.as_str()) && h.sig.unsafety.is_none() && h.sig.asyncness.is_none());
    // no recursion, through other helpers or through functions under contract that call it
    let names: Vec<String> = hs.keys().cloned().collect();
    let calls: BTreeMap<String, BTreeSet<String>> = hs.iter().map(|(n, h)| (n.clone(), uses(&h.block).names.into_iter().filter(|x| hs.contains_key(x)).collect())).collect();
    for n in names {
        let (mut seen, mut todo) = (BTreeSet::new(), vec![n.clone()]);
        while let Some(x) = todo.pop() {
            for y in calls.get(&x).into_iter().flatten() {
                if seen.insert(y.clone()) {
                    todo.push(y.clone());
                }
            }
        }
        if seen.contains(&n) {
            hs.remove(&n);
        }
    }
    if hs.is_empty() {
        return vec![];
    }
    let all = hs.clone();
    each_fn(items, "", &mut |m, id, sig, b, _| {
        if ids.values().any(|x| x == id) {
            return;
        }
        for round in 0..6 {
            let mut i = Inliner { hs: &all, module: m.to_string(), ret: ret_text(sig), n: 100 * round, hit: false };
            i.tail_block(b);
            i.visit_block_mut(b);
            if !i.hit {
                break;
            }
        }
    });
    // gone when nobody calls it any more
    let mut mentioned = BTreeSet::new();
    each_fn(items, "", &mut |_, id, _, b, _| {
        if !ids.values().any(|x| x == id) {
            mentioned.extend(uses(b).names);
        }
    });
    let gone: Vec<String> = ids.iter().filter(|(n, _)| hs.contains_key(*n) && !mentioned.contains(*n)).map(|(_, id)| id.clone()).collect();
    fn drop_fns(items: &mut Vec<Item>, path: &str, gone: &[String]) {
        items.retain_mut(|i| match i {
            Item::Mod(m) => {
                let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) };
                if let Some((_, v)) = &mut m.content {
                    drop_fns(v, &p, gone);
                }
                true
            }
            Item::Fn(x) => {
                let id = if path.is_empty() { x.sig.ident.to_string() } else { format!("{path}::{}", x.sig.ident) };
                !gone.contains(&id)
            }
            Item::Impl(x) if x.trait_.is_none() => {
                let ty = type_name(&x.self_ty);
                x.items.retain(|y| !matches!(y, ImplItem::Fn(y) if gone.contains(&format!("{path}::{ty}::{}", y.sig.ident))));
                true
            }
            _ => true,
        });
    }
    drop_fns(items, "", &gone);
    gone
}
