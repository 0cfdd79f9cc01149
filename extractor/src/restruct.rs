// Crate-level rewrites: library types, operator traits, conversions, dispatch traits.
use crate::clean::{type_name, Bitflags, Info};
use quote::{format_ident, ToTokens};
use std::collections::BTreeMap;
use syn::{visit_mut::{self, VisitMut}, *};

fn last(p: &Path) -> String {
    p.segments.last().map(|s| s.ident.to_string()).unwrap_or_default()
}

// ---- types and paths of the libraries

struct Lib<'a> {
    flags: &'a BTreeMap<String, BTreeMap<String, u64>>,
    self_ty: Option<String>,
}

// `x.len()`, or that and a little
fn sized_like(e: &Expr) -> bool {
    match e {
        Expr::Paren(p) => sized_like(&p.expr),
        Expr::MethodCall(m) => m.method == "len" && m.args.is_empty(),
        Expr::Binary(b) => sized_like(&b.left) && matches!(&*b.right, Expr::Lit(_)),
        _ => false,
    }
}

impl VisitMut for Lib<'_> {
    fn visit_item_impl_mut(&mut self, i: &mut ItemImpl) {
        let old = self.self_ty.replace(type_name(&i.self_ty));
        visit_mut::visit_item_impl_mut(self, i);
        self.self_ty = old;
    }
    fn visit_type_mut(&mut self, t: &mut Type) {
        visit_mut::visit_type_mut(self, t);
        if let Type::Path(p) = t {
            let n = last(&p.path);
            if n == "BumpVec" || n == "SmallVec" {
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    let ty = a.args.iter().find_map(|x| match x {
                        GenericArgument::Type(Type::Array(t)) => Some((*t.elem).clone()),
                        GenericArgument::Type(t) => Some(t.clone()),
                        _ => None,
                    });
                    *t = match ty {
                        Some(ty) => parse_quote!(Vec<#ty>),
                        None => parse_quote!(Vec<_>),
                    };
                }
            } else if n == "ManuallyDrop" {
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    if let Some(GenericArgument::Type(x)) = a.args.first() {
                        *t = x.clone();
                    }
                }
            }
        }
        if let Type::Path(p) = t {
            if let PathArguments::AngleBracketed(a) = &mut p.path.segments.last_mut().unwrap().arguments {
                for g in a.args.iter_mut() {
                    fix_const_arg(g);
                }
            }
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                    if s.len() >= 2 && s[s.len() - 2] == "BumpVec" && s[s.len() - 1] == "new_in" {
                        new = Some(parse_quote!(Vec::new()));
                    } else if s.len() >= 2 && s[s.len() - 2] == "SmallVec" && s[s.len() - 1] == "new" {
                        let ty = match &p.path.segments[s.len() - 2].arguments {
                            PathArguments::AngleBracketed(a) => a.args.iter().find_map(|x| match x {
                                GenericArgument::Type(Type::Array(t)) => Some((*t.elem).clone()),
                                _ => None,
                            }),
                            _ => None,
                        };
                        new = Some(match ty {
                            Some(t) => parse_quote!(Vec::<#t>::new()),
                            None => parse_quote!(Vec::new()),
                        });
                    } else if s.len() >= 2 && ["with_capacity", "with_capacity_in"].contains(&s[s.len() - 1].as_str()) && ["Vec", "BumpVec", "SmallVec", "String"].contains(&s[s.len() - 2].as_str()) {
                        // room for as many elements as something in memory has is not a demand on memory of its own
                        let a = &c.args[0];
                        let t = p.path.segments[s.len() - 2].ident == "String";
                        new = Some(match (t, sized_like(a)) {
                            (false, false) => parse_quote!(x_with_capacity(#a)),
                            (false, true) => parse_quote!(x_room_like(#a)),
                            (true, false) => parse_quote!(x_string_with_capacity(#a)),
                            (true, true) => parse_quote!(x_string_room_like(#a)),
                        });
                    } else if s.len() >= 2 && s[s.len() - 1] == "default" && c.args.is_empty() {
                        let mut f = p.path.clone();
                        if s[s.len() - 2] == "Default" {
                            new = Some(parse_quote!(Dflt::x_default()));
                        } else {
                            f.segments.last_mut().unwrap().ident = format_ident!("x_default");
                            new = Some(parse_quote!(#f()));
                        }
                    } else if s.len() >= 2 && s[s.len() - 2] == "panicking" {
                        new = Some(parse_quote!(x_panic()));
                    } else if s == ["mem", "needs_drop"] {
                        let a = &p.path.segments[1].arguments;
                        new = Some(parse_quote!(x_needs_drop #a ()));
                    } else if s == ["mem", "take"] {
                        let a = &c.args;
                        new = Some(parse_quote!(x_take(#a)));
                    } else if s == ["char", "from_u32_unchecked"] || s == ["String", "from_utf8_unchecked"] {
                        // these stay unsafe in the library; the shims carry the same preconditions
                        let a = &c.args;
                        let f = format_ident!("x_{}_{}", s[0].to_lowercase(), s[1]);
                        new = Some(parse_quote!(#f(#a)));
                    } else if s == ["mem", "replace"] {
                        let a = &c.args;
                        new = Some(parse_quote!(x_replace(#a)));
                    }
                }
            }
            Expr::MethodCall(m) if (m.method == "reserve" || m.method == "reserve_exact") && m.args.len() == 1 => {
                m.method = if sized_like(&m.args[0]) { format_ident!("x_reserve_like") } else { format_ident!("x_reserve") };
            }
            Expr::Path(p) if p.path.segments.iter().any(|s| s.ident == "AssertKind") => {
                new = Some(parse_quote!(()));
            }
            Expr::Path(p) => {
                // flag constants by value
                let s: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if s.len() >= 2 {
                    let mut ty = s[s.len() - 2].clone();
                    if ty == "Self" {
                        ty = self.self_ty.clone().unwrap_or_default();
                    }
                    if ty == "OutputFlags" {
                        ty = "Flags".into();
                    }
                    if let Some(v) = self.flags.get(&ty).and_then(|m| m.get(&s[s.len() - 1])) {
                        let id = format_ident!("{}", ty);
                        let lit = LitInt::new(&v.to_string(), proc_macro2::Span::call_site());
                        new = Some(parse_quote!(crate::flags::#id { b: #lit }));
                    }
                } else if s.len() == 1 && s[0] == "PhantomData" {
                    new = Some(parse_quote!(std::marker::PhantomData));
                }
                if let PathArguments::AngleBracketed(a) = &mut p.path.segments.last_mut().unwrap().arguments {
                    a.args.iter_mut().for_each(fix_const_arg);
                }
                let n = p.path.segments.len();
                if n >= 2 {
                    if let PathArguments::AngleBracketed(a) = &mut p.path.segments[n - 2].arguments {
                        a.args.iter_mut().for_each(fix_const_arg);
                    }
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}

fn fix_const_arg(g: &mut GenericArgument) {
    if let GenericArgument::Const(e) = g {
        if let Some(v) = crate::clean::const_eval(e, &BTreeMap::new()) {
            let l = LitInt::new(&v.to_string(), proc_macro2::Span::call_site());
            *g = GenericArgument::Const(parse_quote!(#l));
        }
    }
}

// ---- `value.into()` in a conversion, as a specification
#[derive(Default)]
struct IntoSpec {
    // the impl is for this enum: payload type of every variant
    variants: BTreeMap<String, String>,
    arg: String,
}

// `Self::V(x.into())` where V holds what the argument already is: the identity
fn identity(e: &mut Expr, s: &IntoSpec) {
    if let Expr::Call(c) = e {
        if let Expr::Path(p) = &*c.func {
            let v = last(&p.path);
            if p.path.segments.len() == 2 && c.args.len() == 1 && s.variants.get(&v) == Some(&s.arg) {
                if let Expr::MethodCall(m) = &c.args[0] {
                    if m.method == "into" && matches!(&*m.receiver, Expr::Path(_)) {
                        c.args[0] = (*m.receiver).clone();
                    }
                }
            }
        }
    }
}

struct Ident0<'a>(&'a IntoSpec);
impl VisitMut for Ident0<'_> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        identity(e, self.0);
        visit_mut::visit_expr_mut(self, e);
    }
}

// the text of a type without its lifetimes
fn plain(t: &Type) -> String {
    let mut o = String::new();
    let mut life = false;
    for c in t.to_token_stream().to_string().chars() {
        if c == '\'' {
            life = true;
        } else if life && (c.is_alphanumeric() || c == '_') {
        } else if !c.is_whitespace() || life {
            life = false;
            if c != ' ' {
                o.push(c);
            } else {
                o.push('~');
            }
        }
    }
    o.replace('~', "").replace("<,>", "").replace("<>", "")
}

fn enums(items: &[Item], out: &mut BTreeMap<String, BTreeMap<String, String>>) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, it)) = &m.content {
                    enums(it, out);
                }
            }
            Item::Enum(e) => {
                let v = e.variants.iter().filter(|v| v.fields.len() == 1).map(|v| (v.ident.to_string(), plain(&v.fields.iter().next().unwrap().ty)));
                out.insert(e.ident.to_string(), v.collect());
                let ps = e.generics.type_params().enumerate().map(|(k, p)| (p.ident.to_string(), k.to_string()));
                out.insert(format!("<{}", e.ident), ps.collect());
            }
            // an alias of an enum: its parameters filled in
            Item::Type(t) => {
                if let Type::Path(p) = &*t.ty {
                    let base = last(&p.path);
                    let args: Vec<String> = match &p.path.segments.last().unwrap().arguments {
                        PathArguments::AngleBracketed(a) => a.args.iter().filter_map(|x| if let GenericArgument::Type(t) = x { Some(plain(t)) } else { None }).collect(),
                        _ => vec![],
                    };
                    if let (Some(vs), Some(ps)) = (out.get(&base).cloned(), out.get(&format!("<{base}")).cloned()) {
                        let m = vs.into_iter().map(|(v, t)| {
                            let x = ps.get(&t).and_then(|k| args.get(k.parse::<usize>().unwrap())).cloned().unwrap_or(t);
                            (v, x)
                        });
                        out.insert(t.ident.to_string(), m.collect());
                    }
                }
            }
            _ => {}
        }
    }
}

impl VisitMut for IntoSpec {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        identity(e, self);
        visit_mut::visit_expr_mut(self, e);
        let mut new: Option<Expr> = None;
        match e {
            Expr::MethodCall(m) if m.method == "into" => {
                let r = &m.receiver;
                new = Some(parse_quote!(vstd::std_specs::convert::FromSpec::from_spec(#r)));
            }
            Expr::Call(c) => {
                let f = c.func.to_token_stream().to_string().replace(' ', "");
                if f == "Self::new" && c.args.len() == 1 {
                    let a = &c.args[0];
                    new = Some(parse_quote!(NodeHandle { id: #a, marker: PhantomData }));
                } else if f.ends_with("::default::Default::default") || f.ends_with("x_default") || f == "Default::default" {
                    let t: Option<Expr> = match &*c.func {
                        Expr::Path(p) if p.path.segments.len() == 2 && p.path.segments[0].ident != "Dflt" => {
                            let mut f = p.path.clone();
                            f.segments.last_mut().unwrap().ident = format_ident!("dflt");
                            Some(parse_quote!(#f()))
                        }
                        _ => None,
                    };
                    new = Some(t.unwrap_or_else(|| parse_quote!(Dflt::dflt())));
                }
            }
            _ => {}
        }
        if let Some(n) = new {
            *e = n;
        }
    }
}

fn elided(g: &Generics, i: &ItemImpl) -> (Generics, Type, Path) {
    (g.clone(), (*i.self_ty).clone(), i.trait_.as_ref().unwrap().1.clone())
}

fn trait_items(items: &[Item], out: &mut BTreeMap<String, Vec<TraitItemFn>>) {
    for i in items {
        match i {
            Item::Mod(m) => {
                if let Some((_, it)) = &m.content {
                    trait_items(it, out);
                }
            }
            Item::Trait(t) if is_dispatch(&t.ident.to_string()) => {
                let v = t.items.iter().filter_map(|x| match x {
                    TraitItem::Fn(f) => Some(f.clone()),
                    _ => None,
                });
                out.insert(t.ident.to_string(), v.collect());
            }
            _ => {}
        }
    }
}

// Parameters get the names they have in the trait.
fn same_params(f: &mut ImplItemFn, d: &Signature) {
    let mut lets: Vec<Stmt> = vec![];
    for (a, b) in f.sig.inputs.iter_mut().zip(d.inputs.iter()) {
        if let (FnArg::Typed(a), FnArg::Typed(b)) = (a, b) {
            if a.pat != b.pat {
                if !matches!(&*a.pat, Pat::Wild(_)) {
                    let (x, y) = (&a.pat, &b.pat);
                    lets.push(parse_quote!(let #x = #y;));
                }
                a.pat = b.pat.clone();
            }
        }
    }
    f.block.stmts.splice(0..0, lets);
}

fn is_dispatch(n: &str) -> bool {
    n == "WriteableNode" || n == "WriteableTypeNode"
}

fn walk(items: &mut Vec<Item>, defaults: &BTreeMap<String, Vec<TraitItemFn>>, en: &BTreeMap<String, BTreeMap<String, String>>) {
    let mut out: Vec<Item> = vec![];
    for it in std::mem::take(items) {
        match it {
            Item::Mod(mut m) => {
                if let Some((_, its)) = &mut m.content {
                    walk(its, defaults, en);
                }
                out.push(Item::Mod(m));
            }
            Item::Trait(mut t) if is_dispatch(&t.ident.to_string()) => {
                t.items.clear();
                out.push(Item::Trait(t));
            }
            Item::Impl(mut i) if i.trait_.is_some() => {
                let tr = last(&i.trait_.as_ref().unwrap().1);
                if is_dispatch(&tr) {
                    let have: Vec<String> = i.items.iter().filter_map(|x| if let ImplItem::Fn(f) = x { Some(f.sig.ident.to_string()) } else { None }).collect();
                    for d in defaults.get(&tr).into_iter().flatten() {
                        for x in i.items.iter_mut() {
                            match x {
                                ImplItem::Fn(f) if f.sig.ident == d.sig.ident => same_params(f, &d.sig),
                                _ => {}
                            }
                        }
                        if d.default.is_some() && !have.contains(&d.sig.ident.to_string()) {
                            let (sig, b) = (&d.sig, d.default.as_ref().unwrap());
                            i.items.push(parse_quote!(pub fn __x() {}));
                            if let Some(ImplItem::Fn(f)) = i.items.last_mut() {
                                f.sig = sig.clone();
                                f.block = b.clone();
                            }
                        }
                    }
                    i.trait_ = None;
                    for x in i.items.iter_mut() {
                        if let ImplItem::Fn(f) = x {
                            f.vis = parse_quote!(pub);
                        }
                    }
                    out.push(Item::Impl(i));
                    continue;
                }
                let body = i.items.iter().find_map(|x| if let ImplItem::Fn(f) = x { Some(f.clone()) } else { None });
                let (g, ty, tp) = elided(&i.generics, &i);
                let (ig, _, wh) = g.split_for_impl();
                match (tr.as_str(), body) {
                    ("From", Some(f)) => {
                        let mut b = f.block.clone();
                        let arg = f.sig.inputs.iter().find_map(|x| if let FnArg::Typed(t) = x { Some(plain(&t.ty)) } else { None }).unwrap_or_default();
                        let variants = en.get(&type_name(&ty)).cloned().unwrap_or_default();
                        for x in i.items.iter_mut() {
                            if let ImplItem::Fn(f) = x {
                                Ident0(&IntoSpec { variants: variants.clone(), arg: arg.clone() }).visit_block_mut(&mut f.block);
                            }
                        }
                        IntoSpec { variants, arg }.visit_block_mut(&mut b);
                        let args = &tp.segments.last().unwrap().arguments;
                        let mut inp = f.sig.inputs.clone();
                        for x in inp.iter_mut() {
                            if let FnArg::Typed(t) = x {
                                if matches!(&*t.pat, Pat::Wild(_)) {
                                    *t.pat = parse_quote!(x__p);
                                }
                            }
                        }
                        let spec: Item = parse_quote!(
                            impl #ig vstd::std_specs::convert::FromSpecImpl #args for #ty #wh {
                                open_spec! { fn obeys_from_spec() -> bool { true } }
                                open_spec! { fn from_spec(#inp) -> Self #b }
                            }
                        );
                        // the specification first: the verifier takes definitions in order
                        out.push(spec);
                        if let Some(FnArg::Typed(t)) = f.sig.inputs.first() {
                            if let (Pat::Ident(p), Type::Reference(r)) = (&*t.pat, &*t.ty) {
                                if r.mutability.is_some() {
                                    let v = p.ident.to_string();
                                    for x in i.items.iter_mut() {
                                        if let ImplItem::Fn(f) = x {
                                            SameRef { name: v.clone() }.visit_block_mut(&mut f.block);
                                        }
                                    }
                                }
                            }
                        }
                        out.push(Item::Impl(i));
                    }
                    // `TryFrom<A> for B` is used through `try_into` only
                    ("TryFrom", Some(f)) => {
                        let mut f = f;
                        let PathArguments::AngleBracketed(ab) = &tp.segments.last().unwrap().arguments else { panic!() };
                        let Some(GenericArgument::Type(from)) = ab.args.first() else { panic!() };
                        let err = i.items.iter().find_map(|x| if let ImplItem::Type(t) = x { Some(t.ty.clone()) } else { None }).unwrap();
                        let Some(FnArg::Typed(a)) = f.sig.inputs.first() else { panic!() };
                        let pat = &a.pat;
                        f.block.stmts.insert(0, parse_quote!(let #pat = self;));
                        let b = &f.block;
                        out.push(parse_quote!(
                            impl #ig XTryInto<#ty> for #from #wh {
                                type E = #err;
                                fn x_try_into(self) -> core::result::Result<#ty, #err> #b
                            }
                        ));
                    }
                    ("Downcast", Some(f)) if matches!(f.sig.inputs.len(), 1) => {
                        let mut b = f.block.clone();
                        IntoSpec::default().visit_block_mut(&mut b);
                        let out_ty = &f.sig.output;
                        let m: ImplItem = parse_quote!(open_spec! { fn dc(self) #out_ty #b });
                        if out_ty.to_token_stream().to_string().contains(" mut ") {
                            for x in i.items.iter_mut() {
                                if let ImplItem::Fn(f) = x {
                                    SameRef { name: String::new() }.visit_block_mut(&mut f.block);
                                }
                            }
                        }
                        i.items.insert(0, m);
                        out.push(Item::Impl(i));
                    }
                    ("Default", Some(f)) => {
                        let mut b = f.block.clone();
                        IntoSpec::default().visit_block_mut(&mut b);
                        let mut eb = f.block.clone();
                        DfltExec.visit_block_mut(&mut eb);
                        out.push(parse_quote!(
                            impl #ig Dflt for #ty #wh {
                                open_spec! { fn dflt() -> Self #b }
                                fn x_default() -> Self #eb
                            }
                        ));
                    }
                    _ => out.push(Item::Impl(i)),
                }
            }
            it => out.push(it),
        }
    }
    *items = out;
}

struct DfltExec;
impl VisitMut for DfltExec {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::Call(c) = e {
            let f = c.func.to_token_stream().to_string().replace(' ', "");
            if f.ends_with("::default::Default::default") {
                *e = parse_quote!(Dflt::x_default());
            }
        }
    }
}

// `V(x)` with `x` a mutable reference: the constructor reborrows `x`; say that the reborrow is `x`
struct SameRef {
    name: String,
}

impl VisitMut for SameRef {
    fn visit_pat_mut(&mut self, _: &mut Pat) {}
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if let Expr::MethodCall(m) = &*e {
            // passed by value, `value` is moved and not reborrowed
            if let Expr::Path(a) = &*m.receiver {
                if m.method == "into" && a.path.is_ident(&self.name) {
                    *e = parse_quote!(Into::into(#a));
                }
            }
            return;
        }
        let Expr::Call(c) = &*e else { return };
        let (Expr::Path(f), Some(Expr::Path(a))) = (&*c.func, c.args.first()) else { return };
        let Some(name) = a.path.get_ident().map(|i| i.to_string()).filter(|n| self.name.is_empty() || *n == self.name) else { return };
        if c.args.len() != 1 {
            return;
        }
        let v = f.path.segments.last().unwrap().ident.to_string();
        if !v.starts_with(char::is_uppercase) {
            return;
        }
        let (w, x) = (format_ident!("__GW_{}_", name), format_ident!("__EXT_{}_", v));
        let e2 = e.clone();
        *e = parse_quote!({
            #w;
            let x__r = #e2;
            #x;
            x__r
        });
    }
}

// `BumpVec` and `Vec` become the same type; the trait impls of the former repeat the latter's
fn drop_bumpvec(items: &mut Vec<Item>) {
    items.retain(|i| !matches!(i, Item::Impl(i) if i.trait_.is_some() && i.self_ty.to_token_stream().to_string().starts_with("BumpVec")));
    for i in items.iter_mut() {
        if let Item::Mod(m) = i {
            if let Some((_, its)) = &mut m.content {
                drop_bumpvec(its);
            }
        }
    }
}

// ---- constants local to a function: a `let` at the start of their block; one computed by a
// block becomes the result of a function of its own

struct Consts<'a> {
    fname: String,
    method: bool,
    out: &'a mut Vec<(Ident, Type, Block)>,
}
impl VisitMut for Consts<'_> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut lets: Vec<Stmt> = vec![];
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Const(c)) => {
                let (n, t, e) = (&c.ident, &c.ty, &c.expr);
                if let Expr::Block(x) = &**e {
                    let f = format_ident!("x_const_{}_{}", self.fname, self.out.len());
                    self.out.push((f.clone(), (**t).clone(), x.block.clone()));
                    lets.push(if self.method { parse_quote!(let #n: #t = Self::#f();) } else { parse_quote!(let #n: #t = #f();) });
                } else {
                    lets.push(parse_quote!(let #n: #t = #e;));
                }
                false
            }
            _ => true,
        });
        for l in lets.into_iter().rev() {
            b.stmts.insert(0, l);
        }
        visit_mut::visit_block_mut(self, b);
    }
}

fn consts(items: &mut Vec<Item>) {
    let mut add: Vec<Item> = vec![];
    for i in items.iter_mut() {
        match i {
            Item::Mod(m) => {
                if let Some((_, its)) = &mut m.content {
                    consts(its);
                }
            }
            Item::Impl(im) if im.trait_.is_none() => {
                let mut fs: Vec<ImplItem> = vec![];
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        let mut out = vec![];
                        Consts { fname: f.sig.ident.to_string(), method: true, out: &mut out }.visit_block_mut(&mut f.block);
                        for (n, t, b) in out {
                            let mut g: ImplItemFn = parse_quote!(fn #n() -> #t {});
                            g.block = b;
                            fs.push(ImplItem::Fn(g));
                        }
                    }
                }
                im.items.extend(fs);
            }
            Item::Fn(f) => {
                let mut out = vec![];
                Consts { fname: f.sig.ident.to_string(), method: false, out: &mut out }.visit_block_mut(&mut f.block);
                for (n, t, b) in out {
                    let mut g: ItemFn = parse_quote!(fn #n() -> #t {});
                    *g.block = b;
                    add.push(Item::Fn(g));
                }
            }
            _ => {}
        }
    }
    items.extend(add);
}

pub fn run(items: &mut Vec<Item>, info: &Info) {
    consts(items);
    let flags: BTreeMap<String, BTreeMap<String, u64>> = info.bitflags.iter().map(|b| (b.name.clone(), b.consts.iter().cloned().collect())).collect();
    drop_bumpvec(items);
    let mut l = Lib { flags: &flags, self_ty: None };
    for i in items.iter_mut() {
        l.visit_item_mut(i);
    }
    let mut d = BTreeMap::new();
    trait_items(items, &mut d);
    let mut en = BTreeMap::new();
    enums(items, &mut en);
    enums(items, &mut en);
    walk(items, &d, &en);
}

// shims for the `bitflags!` types: same name, same bits
pub fn emit_bitflags(fs: &[Bitflags]) -> String {
    let mut o = String::from("pub mod flags {\n#![allow(unused)]\nuse vstd::prelude::*; use crate::shims::*; use crate::sp::*;\n");
    for f in fs {
        let (n, t) = (&f.name, &f.bits);
        o.push_str(&format!(
            "#[derive(Clone, Copy, PartialEq, Eq)]
pub struct {n} {{ pub b: {t} }}
unsafe impl vstd::prelude::Structural for {n} {{}}
impl {n} {{
  pub fn contains(self, o: Self) -> (r: bool) ensures r == (self.b & o.b == o.b) {{ self.b & o.b == o.b }}
  pub fn intersects(self, o: Self) -> (r: bool) ensures r == (self.b & o.b != 0) {{ self.b & o.b != 0 }}
  pub fn is_empty(self) -> (r: bool) ensures r == (self.b == 0) {{ self.b == 0 }}
  pub fn empty() -> (r: Self) ensures r.b == 0 {{ {n} {{ b: 0 }} }}
  pub fn bits(self) -> (r: {t}) ensures r == self.b {{ self.b }}
  pub fn union(self, o: Self) -> (r: Self) ensures r.b == self.b | o.b {{ {n} {{ b: self.b | o.b }} }}
  pub fn insert(&mut self, o: Self) ensures final(self).b == old(self).b | o.b {{ self.b = self.b | o.b; }}
}}
impl vstd::std_specs::ops::BitOrSpecImpl<{n}> for {n} {{
  open spec fn obeys_bitor_spec() -> bool {{ true }}
  open spec fn bitor_req(self, rhs: {n}) -> bool {{ true }}
  open spec fn bitor_spec(self, rhs: {n}) -> {n} {{ {n} {{ b: self.b | rhs.b }} }}
}}
impl core::ops::BitOr for {n} {{ type Output = {n}; fn bitor(self, rhs: {n}) -> {n} {{ {n} {{ b: self.b | rhs.b }} }} }}
impl vstd::std_specs::ops::BitOrAssignSpecImpl<{n}> for {n} {{
  open spec fn obeys_bitor_assign_spec() -> bool {{ true }}
  open spec fn bitor_assign_req(&self, rhs: {n}) -> bool {{ true }}
  open spec fn bitor_assign_spec(&self, rhs: {n}) -> &{n} {{ &{n} {{ b: self.b | rhs.b }} }}
}}
impl core::ops::BitOrAssign for {n} {{ fn bitor_assign(&mut self, rhs: {n}) {{ self.b = self.b | rhs.b; }} }}
impl Dflt for {n} {{ open spec fn dflt() -> Self {{ {n} {{ b: 0 }} }} fn x_default() -> Self {{ {n} {{ b: 0 }} }} }}
"
        ));
    }
    o.push_str("}\n");
    o
}
