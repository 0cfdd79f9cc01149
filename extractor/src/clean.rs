// Reduces the macro-expanded crate to the items that are verified.
use std::collections::BTreeMap;
use syn::{visit_mut::VisitMut, *};

#[derive(Default)]
pub struct Derives(pub BTreeMap<String, Vec<String>>);

pub struct Bitflags {
    pub name: String,
    pub bits: String,
    pub consts: Vec<(String, u64)>,
}

#[derive(Default)]
pub struct Info {
    pub derives: BTreeMap<String, Vec<String>>,
    pub bitflags: Vec<Bitflags>,
    pub dropped: Vec<String>,
}

fn has_attr(attrs: &[Attribute], name: &str) -> bool {
    attrs.iter().any(|a| a.path().is_ident(name))
}

pub fn type_name(t: &Type) -> String {
    match t {
        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
        Type::Reference(r) => type_name(&r.elem),
        _ => String::from("?"),
    }
}

fn is_bitflags_struct(s: &ItemStruct) -> bool {
    use quote::ToTokens;
    s.fields.to_token_stream().to_string().contains("PublicFlags")
}

// `Self::from_bits_retain(1 << 3)` and friends
pub fn const_eval(e: &Expr, known: &BTreeMap<String, u64>) -> Option<u64> {
    match e {
        Expr::Lit(ExprLit { lit: Lit::Int(i), .. }) => i.base10_parse().ok(),
        Expr::Paren(p) => const_eval(&p.expr, known),
        Expr::Group(p) => const_eval(&p.expr, known),
        Expr::Block(b) if b.block.stmts.len() == 1 => match &b.block.stmts[0] {
            Stmt::Expr(e, None) => const_eval(e, known),
            _ => None,
        },
        Expr::Binary(b) => {
            let l = const_eval(&b.left, known)?;
            let r = const_eval(&b.right, known)?;
            Some(match b.op {
                BinOp::Shl(_) => l.checked_shl(r as u32)?,
                BinOp::BitOr(_) => l | r,
                BinOp::Add(_) => l.checked_add(r)?,
                BinOp::Mul(_) => l.checked_mul(r)?,
                BinOp::Sub(_) => l.checked_sub(r)?,
                _ => return None,
            })
        }
        Expr::Call(c) if c.args.len() == 1 => match &*c.func {
            Expr::Path(p) if p.path.segments.last().unwrap().ident == "from_bits_retain" => const_eval(&c.args[0], known),
            _ => None,
        },
        Expr::MethodCall(m) if m.method == "bits" => const_eval(&m.receiver, known),
        Expr::Path(p) => known.get(&p.path.segments.last().unwrap().ident.to_string()).copied(),
        _ => None,
    }
}

pub fn clean_items(items: Vec<Item>, info: &mut Info) -> Vec<Item> {
    let mut out = vec![];
    let mut flagset: Vec<String> = vec![];
    for it in &items {
        if let Item::Struct(s) = it {
            if is_bitflags_struct(s) {
                flagset.push(s.ident.to_string());
                info.bitflags.push(Bitflags { name: s.ident.to_string(), bits: String::new(), consts: vec![] });
            }
        }
    }
    for it in items {
        match it {
            Item::Impl(i) if has_attr(&i.attrs, "automatically_derived") => {
                if let Some((_, tr, _)) = &i.trait_ {
                    if tr.segments.last().unwrap().ident == "Default" && !flagset.contains(&type_name(&i.self_ty)) {
                        out.push(Item::Impl(i));
                        continue;
                    }
                    info.derives
                        .entry(type_name(&i.self_ty))
                        .or_default()
                        .push(tr.segments.last().unwrap().ident.to_string());
                }
            }
            Item::Impl(i)
                if i.trait_.as_ref().is_some_and(|(_, t, _)| t.segments.first().is_some_and(|s| s.ident == "bitflags"))
                    || i.trait_.as_ref().is_some_and(|(_, t, _)| t.segments.len() > 1 && t.segments[0].ident == "bitflags") =>
            {
                let name = type_name(&i.self_ty);
                for x in &i.items {
                    if let ImplItem::Type(t) = x {
                        if t.ident == "Bits" {
                            let bits = type_name(&t.ty);
                            if let Some(b) = info.bitflags.iter_mut().find(|b| b.name == name) {
                                b.bits = bits;
                            }
                        }
                    }
                }
            }
            Item::Impl(i) if i.trait_.is_none() && flagset.contains(&type_name(&i.self_ty)) && i.items.iter().all(|x| matches!(x, ImplItem::Const(_))) => {
                let name = type_name(&i.self_ty);
                let b = info.bitflags.iter_mut().find(|b| b.name == name).unwrap();
                let mut known = BTreeMap::new();
                for x in &i.items {
                    if let ImplItem::Const(c) = x {
                        let v = const_eval(&c.expr, &known).unwrap_or_else(|| panic!("flag value {}::{}", name, c.ident));
                        known.insert(c.ident.to_string(), v);
                        b.consts.push((c.ident.to_string(), v));
                    }
                }
            }
            Item::Struct(s) if is_bitflags_struct(&s) => {
                let id = &s.ident;
                out.push(parse_quote!(pub use crate::flags::#id;));
            }
            Item::Impl(i) if dropped_impl(&i) => info.dropped.push(describe(&i)),
            Item::Const(c) if c.ident == "_" => {}
            Item::Macro(_) | Item::ExternCrate(_) => {}
            Item::Mod(mut m) => {
                if has_attr(&m.attrs, "cfg") || m.ident == "tests" {
                    info.dropped.push(format!("mod {}", m.ident));
                    continue;
                }
                m.attrs.clear();
                if let Some((b, items)) = m.content.take() {
                    let items = clean_items(items, info);
                    m.content = Some((b, items));
                    out.push(Item::Mod(m));
                }
            }
            it => out.push(it),
        }
    }
    out
}

pub struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, i: &mut Vec<Attribute>) {
        i.clear();
    }
    fn visit_visibility_mut(&mut self, i: &mut Visibility) {
        if !matches!(i, Visibility::Inherited) {
            *i = parse_quote!(pub);
        }
    }
}

// error plumbing that carries no behaviour any property speaks about
fn dropped_impl(i: &ItemImpl) -> bool {
    use quote::ToTokens;
    let Some((_, t, _)) = &i.trait_ else { return false };
    let l = t.segments.last().unwrap();
    let s = t.to_token_stream().to_string().replace(' ', "");
    ["Display", "Debug"].contains(&l.ident.to_string().as_str())
        || s.ends_with("error::Error")
}

fn describe(i: &ItemImpl) -> String {
    use quote::ToTokens;
    let t = &i.trait_.as_ref().unwrap().1;
    format!("impl {} for {}", t.to_token_stream(), i.self_ty.to_token_stream()).replace(' ', "").replace("impl", "impl ").replace("for", " for ")
}

pub fn finish_items(items: &mut Vec<Item>, info: &Info, path: &str) {
    for it in items.iter_mut() {
        if let Item::Mod(m) = it {
            m.vis = parse_quote!(pub);
            let p = m.ident.to_string();
            if let Some((_, its)) = &mut m.content {
                finish_items(its, info, &format!("{path}{p}::"));
            }
        }
        match it {
            Item::Struct(s) => {
                s.vis = parse_quote!(pub);
                for f in s.fields.iter_mut() {
                    f.vis = parse_quote!(pub);
                }
                reattr(&mut s.attrs, info.derives.get(&s.ident.to_string()));
            }
            Item::Enum(s) => {
                s.vis = parse_quote!(pub);
                reattr(&mut s.attrs, info.derives.get(&s.ident.to_string()));
            }
            Item::Trait(s) => s.vis = parse_quote!(pub),
            Item::Type(s) => s.vis = parse_quote!(pub),
            Item::Fn(s) => s.vis = parse_quote!(pub),
            Item::Const(s) => s.vis = parse_quote!(pub),
            Item::Use(s) => s.vis = parse_quote!(pub),
            _ => {}
        }
    }
    let mut st: Vec<Item> = vec![];
    for it in items.iter() {
        let id = match it {
            Item::Struct(s) => &s.ident,
            Item::Enum(s) => &s.ident,
            _ => continue,
        };
        if info.derives.get(&id.to_string()).is_some_and(|d| d.iter().any(|x| x == "PartialEq")) {
            st.push(parse_quote!(unsafe impl vstd::prelude::Structural for #id {}));
        }
    }
    items.extend(st);
    items.retain(|i| !matches!(i, Item::Use(u) if drop_use(&u.tree)));
    for i in items.iter_mut() {
        if let Item::Use(u) = i {
            fix_use(&mut u.tree);
        }
    }
}

fn reattr(attrs: &mut Vec<Attribute>, d: Option<&Vec<String>>) {
    let Some(d) = d else { return };
    let has = |x: &str| d.iter().any(|y| y == x);
    if has("Clone") && has("Copy") {
        attrs.push(parse_quote!(#[derive(Clone, Copy)]));
    } 
    if has("PartialEq") {
        attrs.push(parse_quote!(#[derive(PartialEq, Eq)]));
    }
}

fn drop_use(t: &UseTree) -> bool {
    match t {
        UseTree::Path(p) => ["std", "core", "alloc", "thiserror"].contains(&p.ident.to_string().as_str()),
        _ => false,
    }
}

fn fix_use(t: &mut UseTree) {
    if let UseTree::Path(p) = t {
        if ["bumpalo", "arrayvec", "smallvec", "nonmax"].contains(&p.ident.to_string().as_str()) {
            let inner = t.clone();
            *t = UseTree::Path(UsePath { ident: Ident::new("crate", proc_macro2::Span::call_site()), colon2_token: Default::default(), tree: Box::new(inner) });
        }
    }
}
