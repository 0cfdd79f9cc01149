// Signature-level rewrites, and rewrites of whole function bodies.
use crate::desugar::Desugar;
use quote::ToTokens;
use syn::{visit_mut::{self, VisitMut}, *};

struct TypeFix;
impl VisitMut for TypeFix {
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        let s = t.to_token_stream().to_string();
        if s == "dyn Writer" {
            *t = parse_quote!(W);
        }
    }
}

pub fn fix_sig(sig: &mut Signature) {
    sig.constness = None;
    let mut k = 0;
    for i in sig.inputs.iter_mut() {
        if let FnArg::Typed(p) = i {
            if matches!(&*p.pat, Pat::Wild(_)) {
                let t = p.ty.to_token_stream().to_string().replace(' ', "");
                let n = match t.as_str() {
                    "&NodeCache" => "cache".to_string(),
                    "&mutdynWriter" => "ob".to_string(),
                    "OutputFlags" => "flags".to_string(),
                    _ => format!("x__p{k}"),
                };
                let id = Ident::new(&n, proc_macro2::Span::call_site());
                p.pat = Box::new(parse_quote!(#id));
                k += 1;
            }
        }
    }
    if let Some(n) = crate::desugar::renamed(&sig.ident.to_string()) {
        if !["x_len"].contains(&n) {
            sig.ident = Ident::new(n, sig.ident.span());
        }
    }
    let before = sig.to_token_stream().to_string();
    if before.contains("dyn Writer") {
        for i in sig.inputs.iter_mut() {
            if let FnArg::Typed(p) = i {
                TypeFix.visit_type_mut(&mut p.ty);
            }
        }
        sig.generics.params.push(parse_quote!(W: Writer));
        if sig.generics.lt_token.is_none() {
            sig.generics.lt_token = Some(Default::default());
            sig.generics.gt_token = Some(Default::default());
        }
    }
    // `I: SliceIndex<str, Output = str>` is used with `..n` only
    if before.contains("SliceIndex") {
        let mut names = vec![];
        if let Some(w) = &sig.generics.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    if t.bounds.to_token_stream().to_string().contains("SliceIndex") {
                        names.push(t.bounded_ty.to_token_stream().to_string());
                    }
                }
            }
        }
        sig.generics = Default::default();
        for i in sig.inputs.iter_mut() {
            if let FnArg::Typed(p) = i {
                if names.contains(&p.ty.to_token_stream().to_string()) {
                    *p.ty = parse_quote!(XRangeTo);
                }
            }
        }
    }
}

struct Selfs;
impl VisitMut for Selfs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if matches!(e, Expr::Path(p) if p.path.is_ident("self")) {
            *e = parse_quote!(x__self);
        }
    }
}

// macros are expanded by now
struct Macros;
impl VisitMut for Macros {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| !matches!(s, Stmt::Item(Item::Macro(_))));
        visit_mut::visit_block_mut(self, b);
    }
}

// `mut self` and `mut x: T` parameters become locals
pub fn pre_body(b: &mut Block, sig: &mut Signature) {
    crate::desugar::tail_block(b);
    Macros.visit_block_mut(b);
    let mut lets: Vec<Stmt> = vec![];
    for i in sig.inputs.iter_mut() {
        match i {
            FnArg::Receiver(r) if r.mutability.is_some() && r.reference.is_none() => {
                r.mutability = None;
                Selfs.visit_block_mut(b);
                lets.push(parse_quote!(let mut x__self = self;));
            }
            _ => {}
        }
    }
    for l in lets.into_iter().rev() {
        b.stmts.insert(0, l);
    }
}

pub fn post_body(_b: &mut Block, _id: &str, _d: &mut Desugar) {}
