// Writes the crate given to the verifier.
use crate::{clean, contracts::*, desugar::Desugar, fmt};
use proc_macro2::{TokenStream, TokenTree};
use quote::{format_ident, ToTokens};
use std::collections::BTreeSet;
use syn::{visit_mut::VisitMut, *};

pub struct FnInfo {
    pub id: String,
    pub line: usize,
    pub end: usize,
    pub own: Vec<String>,
    pub contracted: bool,
    pub external: bool,
    /// body left to the checks of the properties that own it
    pub other: bool,
    pub bounded: bool,
    pub unsafes: usize,
    pub missing: Vec<String>,
    pub calls: Vec<String>,
    pub exists_loops: usize,
}

pub struct Emit<'a> {
    pub out: String,
    pub fns: Vec<FnInfo>,
    pub contracts: &'a Contracts,
    pub used: BTreeSet<String>,
    pub external: BTreeSet<String>,
    /// verify only the functions this property owns; the others keep their contracts
    pub prop: Option<String>,
    /// prefixes of further functions to verify
    pub also: Vec<String>,
    /// functions that get a solver process of their own
    pub slow: BTreeSet<String>,
    pub cfg: Config,
    pub spec_lits: &'a dyn Fn(&str) -> Vec<String>,
}

#[derive(Default)]
pub struct Config {
    pub derive_struct: BTreeSet<String>,
}

pub fn collect_lits(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => collect_lits(g.stream(), out),
            TokenTree::Literal(l) => {
                let s = l.to_string();
                if s.starts_with('"') && !out.contains(&s) {
                    out.push(s);
                }
            }
            _ => {}
        }
    }
}

pub fn collect_idents(ts: TokenStream, out: &mut Vec<String>) {
    for t in ts {
        match t {
            TokenTree::Group(g) => collect_idents(g.stream(), out),
            TokenTree::Ident(l) => {
                let s = l.to_string();
                if !out.contains(&s) {
                    out.push(s);
                }
            }
            _ => {}
        }
    }
}

fn lits_in_text(s: &str, out: &mut Vec<String>) {
    if let Ok(ts) = s.parse::<TokenStream>() {
        collect_lits(ts, out);
    }
}

// marks where ghost text goes
struct Anchors<'a> {
    pats: &'a [(bool, String, String)],
    hit: Vec<bool>,
    seen: std::collections::BTreeMap<String, usize>,
}

fn set_key(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) => p.path.get_ident().map(|i| format!("set:{i}")),
        Expr::Field(f) => match &f.member { Member::Named(i) => Some(format!("set:{i}")), _ => None },
        _ => None,
    }
}

fn keys_of(s: &Stmt) -> Vec<String> {
    let mut k = vec![];
    match s {
        Stmt::Local(l) => {
            fn names(p: &Pat, k: &mut Vec<String>) {
                match p {
                    Pat::Ident(i) => k.push(format!("let:{}", i.ident)),
                    Pat::Wild(_) => k.push("let:_".into()),
                    Pat::Type(t) => names(&t.pat, k),
                    Pat::Tuple(t) => t.elems.iter().for_each(|p| names(p, k)),
                    Pat::TupleStruct(t) => t.elems.iter().for_each(|p| names(p, k)),
                    _ => {}
                }
            }
            names(&l.pat, &mut k);
        }
        Stmt::Expr(e, _) => match e {
            Expr::If(_) => k.push("if".into()),
            Expr::Match(_) => k.push("match".into()),
            Expr::Loop(_) | Expr::While(_) | Expr::ForLoop(_) => k.push("loop".into()),
            Expr::Return(_) => k.push("return".into()),
            Expr::Continue(_) => k.push("continue".into()),
            Expr::MethodCall(m) => k.push(format!("call:{}", m.method)),
            Expr::Try(t) => if let Expr::MethodCall(m) = &*t.expr { k.push(format!("try:{}", m.method)) },
            Expr::Assign(a) => k.extend(set_key(&a.left)),
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::BitOrAssign(_) | BinOp::MulAssign(_)) => k.extend(set_key(&b.left)),
            _ => {}
        },
        _ => {}
    }
    let mut ids = vec![];
    collect_idents(s.to_token_stream(), &mut ids);
    for i in ids {
        k.push(format!("use:{i}"));
    }
    k
}

impl VisitMut for Anchors<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = vec![];
        for mut s in std::mem::take(&mut b.stmts) {
            let mut hits = vec![];
            for k in keys_of(&s) {
                let n = self.seen.entry(k.clone()).or_default();
                *n += 1;
                let full = format!("{k}#{n}");
                for (i, (_, p, _)) in self.pats.iter().enumerate() {
                    if *p == full || (*n == 1 && *p == k) || *p == format!("{k}#*") {
                        hits.push(i);
                        self.hit[i] = true;
                    }
                }
            }
            for &i in hits.iter().filter(|&&i| !self.pats[i].0) {
                let id = format_ident!("__GHOST_{}_", i);
                out.push(parse_quote!(#id;));
            }
            self.visit_stmt_mut(&mut s);
            out.push(s);
            for &i in hits.iter().filter(|&&i| self.pats[i].0) {
                let id = format_ident!("__GHOST_{}_", i);
                out.push(parse_quote!(#id;));
            }
        }
        b.stmts = out;
    }
}

impl<'a> Emit<'a> {
    fn line(&self) -> usize {
        self.out.matches('\n').count() + 1
    }

    pub fn push(&mut self, s: &str) {
        self.out.push_str(s);
        if !s.ends_with('\n') {
            self.out.push('\n');
        }
    }

    pub fn items(&mut self, items: &[Item], path: &str) {
        for it in items {
            match it {
                Item::Mod(m) => {
                    self.push(&format!("pub mod {} {{", m.ident));
                    self.push("use vstd::prelude::*; #[allow(unused_imports)] use crate::shims::*; #[allow(unused_imports)] use crate::io; #[allow(unused_imports)] use crate::cache::NodeToResolver as _; #[allow(unused_imports)] use crate::sp::*; #[allow(unused_imports)] use crate::lem::*; #[allow(unused_imports)] use crate::views::*;");
                    if let Some((_, items)) = &m.content {
                        let p = if path.is_empty() { m.ident.to_string() } else { format!("{path}::{}", m.ident) };
                        self.items(items, &p);
                        if let Some(c) = self.contracts.get(&format!("{p}::")) {
                            self.push(&c.extra);
                            self.used.insert(format!("{p}::"));
                        }
                    }
                    self.push("}");
                }
                Item::Impl(i) => self.imp(i, path),
                Item::Fn(f) => {
                    let id = if path.is_empty() { f.sig.ident.to_string() } else { format!("{path}::{}", f.sig.ident) };
                    self.func(&id, &f.vis, &f.sig, Some(&f.block), false);
                }
                Item::Trait(t) => self.tr(t, path),
                Item::Use(u) => {
                    let s = fmt::print(u.to_token_stream());
                    self.push(&s);
                }
                it => {
                    let name = match it {
                        Item::Struct(s) => s.ident.to_string(),
                        Item::Enum(s) => s.ident.to_string(),
                        Item::Type(s) => s.ident.to_string(),
                        Item::Const(s) => s.ident.to_string(),
                        _ => String::new(),
                    };
                    let id = if path.is_empty() { name.clone() } else { format!("{path}::{name}") };
                    if let Some(c) = self.contracts.get(&format!("{id}#")) {
                        self.used.insert(format!("{id}#"));
                        if c.skip {
                            self.push(&c.extra);
                            continue;
                        }
                        self.push(&c.attrs);
                        let s = fmt::print(it.to_token_stream());
                        self.push(&s);
                        self.push(&c.extra);
                        continue;
                    }
                    let s = fmt::print(it.to_token_stream());
                    self.push(&s);
                }
            }
        }
    }

    fn tr(&mut self, t: &ItemTrait, path: &str) {
        let id = format!("{path}::{}", t.ident);
        if let Some(c) = self.contracts.get(&format!("{id}#")) {
            self.used.insert(format!("{id}#"));
            if c.skip {
                self.push(&c.extra);
                return;
            }
        }
        let mut head = t.clone();
        head.items.clear();
        let s = fmt::print(head.to_token_stream());
        let s = s.trim_end().trim_end_matches("{}").to_string();
        self.push(&format!("{s} {{"));
        if let Some(c) = self.contracts.get(&format!("{id}#")) {
            self.push(&c.extra);
        }
        for x in &t.items {
            match x {
                TraitItem::Fn(f) => {
                    let fid = format!("{id}::{}", f.sig.ident);
                    self.func(&fid, &Visibility::Inherited, &f.sig, f.default.as_ref(), true);
                }
                x => {
                    let s = fmt::print(x.to_token_stream());
                    self.push(&s);
                }
            }
        }
        self.push("}");
    }

    fn imp(&mut self, i: &ItemImpl, path: &str) {
        let ty = clean::type_name(&i.self_ty);
        let id = match &i.trait_ {
            None => format!("{path}::{ty}"),
            Some((_, t, _)) => {
                let last = t.segments.last().unwrap();
                let mut s = last.to_token_stream().to_string().replace(' ', "");
                for lt in ["'alloc", "'storage", "'node", "&mut", "&", ",'alloc"] {
                    s = s.replace(lt, "");
                }
                let full = i.self_ty.to_token_stream().to_string().replace(' ', "");
                let full = if full.starts_with("NodeHandle") { full } else { ty.clone() };
                format!("{path}::{full}::{s}")
            }
        };
        let c = self.contracts.get(&format!("{id}#"));
        if let Some(c) = &c {
            self.used.insert(format!("{id}#"));
            if c.skip {
                self.push(&c.extra);
                return;
            }
        }
        let mut head = i.clone();
        head.items.clear();
        let s = fmt::print(head.to_token_stream());
        let s = s.trim_end().trim_end_matches("{}").to_string();
        self.push(&format!("{s} {{"));
        if let Some(c) = &c {
            self.push(&c.extra);
        }
        for x in &i.items {
            match x {
                ImplItem::Fn(f) => {
                    let fid = format!("{id}::{}", f.sig.ident);
                    let vis: Visibility = if i.trait_.is_some() { Visibility::Inherited } else { parse_quote!(pub) };
                    self.func(&fid, &vis, &f.sig, Some(&f.block), i.trait_.is_some());
                }
                ImplItem::Macro(m) if m.mac.path.is_ident("open_spec") => {
                    let s = fmt::print(m.mac.tokens.clone());
                    self.push(&format!("open spec {}", s.trim_start()));
                }
                x => {
                    let s = fmt::print(x.to_token_stream());
                    self.push(&s);
                }
            }
        }
        self.push("}");
    }

    fn func(&mut self, id: &str, vis: &Visibility, sig: &Signature, block: Option<&Block>, _trait_fn: bool) {
        let c = self.contracts.get(id);
        let contracted = c.is_some();
        if contracted {
            self.used.insert(id.to_string());
        }
        let c = c.unwrap_or_default();
        if c.skip {
            return;
        }
        let mut sig = sig.clone();
        crate::sigs::fix_sig(&mut sig);
        let mut ext = c.external || self.external.contains(id) || (!contracted && block.is_some());
        let mut own = c.own.clone();
        if let Some(b) = block {
            // whatever of the parser reads the output flags speaks about their not affecting the parse
            let text = b.to_token_stream().to_string();
            if id.starts_with("demangler::Demangler::") && (text.contains("self . flags") || text.contains("OutputFlags")) && !own.contains(&"C13".to_string()) {
                own.push("C13".into());
            }
        }
        let other = !ext && block.is_some() && !own.is_empty() && self.prop.as_ref().is_some_and(|p| !own.contains(p)) && !self.also.iter().any(|a| id.starts_with(a));
        ext = ext || other;
        let mut missing = vec![];
        let mut unsafes = 0;
        let mut nloops = 0;
        let mut counted = vec![];
        let mut calls = vec![];
        let mut body_text = String::new();
        let is_unsafe = sig.unsafety.take().is_some();
        if let Some(b) = block {
            collect_idents(b.to_token_stream(), &mut calls);
            let mut b = b.clone();
            crate::sigs::pre_body(&mut b, &mut sig);
            let mut d = Desugar::default();
            d.visit_block_mut(&mut b);
            crate::sigs::post_body(&mut b, id, &mut d);
            unsafes = d.unsafes;
            nloops = d.loops;
            counted = d.counted.clone();
            let mut a = Anchors { pats: &c.anchors, hit: vec![false; c.anchors.len()], seen: Default::default() };
            a.visit_block_mut(&mut b);
            for (i, h) in a.hit.iter().enumerate() {
                if !h {
                    missing.push(c.anchors[i].1.clone());
                }
            }
            let mut text = fmt::print(b.to_token_stream());
            for k in 0..d.loops {
                let mark = format!("__LOOP_{k};");
                let at = text.find(&mark).unwrap();
                let brace = text[..at].rfind('{').unwrap();
                let spec = c.loops.get(&k).cloned().unwrap_or_default();
                let body = c.bodies.get(&k).map(|x| format!("\n{x}")).unwrap_or_default();
                text = format!("{}\n{}{{{}{}", &text[..brace].trim_end(), spec, body, &text[at + mark.len()..]);
            }
            for k in c.loops.keys().chain(c.bodies.keys()) {
                if *k >= d.loops {
                    missing.push(format!("loop {k}"));
                }
            }
            for (i, (_, _, t)) in c.anchors.iter().enumerate() {
                text = text.replace(&format!("__GHOST_{i}_;"), t);
            }
            while let Some(i) = text.find("__GW_") {
                let j = i + text[i..].find("_;").unwrap();
                let v = text[i + 5..j].to_string();
                text.replace_range(i..j + 2, &format!("let ghost x__w = {v};"));
            }
            while let Some(i) = text.find("__EXT_") {
                let j = i + text[i..].find("_;").unwrap();
                let v = text[i + 6..j].to_string();
                let v = if v == "Some" { "0".to_string() } else { format!("{v}_0") };
                text.replace_range(i..j + 2, &format!("proof {{ mut_ext(x__r->{v}, x__w); }}"));
            }
            for (i, t) in d.closures.iter().enumerate() {
                text = text.replace(&format!("__CL_{i}_"), t);
            }
            // nested closures mention earlier ones
            for (i, t) in d.closures.iter().enumerate() {
                text = text.replace(&format!("__CL_{i}_"), t);
            }
            let mut lits = vec![];
            collect_lits(b.to_token_stream(), &mut lits);
            for t in [&c.spec, &c.entry].into_iter().chain(c.loops.values()).chain(c.bodies.values()).chain(c.anchors.iter().map(|x| &x.2)) {
                lits_in_text(t, &mut lits);
            }
            let mut names = vec![];
            for t in [&c.spec, &c.entry].into_iter().chain(c.bodies.values()).chain(c.anchors.iter().map(|x| &x.2)) {
                if let Ok(ts) = t.parse() {
                    collect_idents(ts, &mut names);
                }
            }
            for n in names {
                for l in (self.spec_lits)(&n) {
                    if !lits.contains(&l) {
                        lits.push(l);
                    }
                }
            }
            let mut entry = String::new();
            let (hides, rest): (Vec<&str>, Vec<&str>) = c.entry.lines().partition(|l| l.trim().starts_with("hide("));
            let (hides, rest) = (hides.join("\n"), rest.join("\n"));
            if !ext {
                entry.push_str(&hides);
                entry.push('\n');
            }
            if !ext && !c.plain && !lits.is_empty() {
                entry.push_str("proof { ");
                for l in &lits {
                    entry.push_str(&format!("reveal_strlit({l}); "));
                }
                entry.push_str("}\n");
            }
            if !ext {
                entry.push_str(&rest);
                entry.push('\n');
            }
            body_text = text.trim_start().strip_prefix('{').unwrap().to_string();
            body_text = format!("{{\n{entry}{body_text}");
        } else {
            ext = false;
        }
        let ret = match &sig.output {
            ReturnType::Default => String::new(),
            ReturnType::Type(_, t) => format!("-> ({}: {})", c.ret.clone().unwrap_or("r".into()), fmt::print(t.to_token_stream()).trim()),
        };
        let mut s2 = sig.clone();
        s2.output = ReturnType::Default;
        let wh = s2.generics.where_clause.take();
        let head = fmt::print(s2.to_token_stream());
        let wh = wh.map(|w| fmt::print(w.to_token_stream())).unwrap_or_default();
        let line = self.line();
        self.push(&format!("// @FN {id}"));
        if ext {
            self.push("#[verifier::external_body]");
        }
        self.push(&c.attrs);
        if !ext && self.slow.contains(id) && !c.attrs.contains("spinoff") {
            self.push("#[verifier::spinoff_prover]");
        }
        if !ext && (0..nloops).any(|k| !counted.contains(&k) && !c.loops.get(&k).is_some_and(|t| t.contains("decreases"))) {
            self.push("#[verifier::exec_allows_no_decreases_clause]");
            missing.push("decreases".into());
        }
        if !ext && nloops > 0 && !c.attrs.contains("loop_isolation") && !c.loops.values().any(|t| t.contains("ensures") || t.contains("except_break")) {
            self.push("#[verifier::loop_isolation(false)]");
        }
        let vis = vis.to_token_stream().to_string();
        let mut spec = c.spec.clone();
        if ext {
            // `decreases` is meaningless without a body
            if let Some(i) = spec.find("\n  decreases") {
                spec.truncate(i + 1);
            }
        }
        self.push(&format!("{vis} {} {} {}\n{}", head.trim(), ret, wh.trim(), spec));
        if block.is_some() {
            if ext {
                self.push("{ unimplemented!() }");
            } else {
                self.push(&body_text);
            }
        } else {
            self.push(";");
        }
        let end = self.line();
        self.fns.push(FnInfo {
            id: id.to_string(),
            line,
            end,
            own,
            contracted,
            external: ext,
            other,
            bounded: c.bounded,
            unsafes: unsafes + is_unsafe as usize,
            missing,
            calls,
            exists_loops: nloops,
        });
    }
}
