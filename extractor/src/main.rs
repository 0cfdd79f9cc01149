// extractor <expanded.rs> <verif dir> <out.rs> <out.json> [--slim] [--external id]...
mod clean;
mod contracts;
mod desugar;
mod emit;
mod fmt;
mod hom;
mod inline;
mod restruct;
mod sigs;
mod specs;
use quote::ToTokens;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit_mut::VisitMut;
use syn::*;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push_str(&format!("\\u{:04x}", c as u32)),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn jl(v: &[String]) -> String {
    format!("[{}]", v.iter().map(|x| js(x)).collect::<Vec<_>>().join(","))
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let src = std::fs::read_to_string(&a[1]).unwrap();
    let mut file = syn::parse_file(&src).unwrap();
    let mut info = clean::Info::default();
    file.items = clean::clean_items(std::mem::take(&mut file.items), &mut info);
    clean::StripAttrs.visit_file_mut(&mut file);
    if a.iter().any(|x| x == "--slim") {
        for i in &file.items {
            println!("{}", fmt::print(i.to_token_stream()));
        }
        return;
    }
    let dir = &a[2];
    let only: Option<Vec<String>> = a.iter().find_map(|x| x.strip_prefix("--mods=")).map(|x| x.split(',').map(|y| y.to_string()).collect());
    let external: BTreeSet<String> = a.iter().filter_map(|x| x.strip_prefix("--external=")).map(|x| x.to_string()).collect();
    let (spec, spec_fns) = specs::translate(&format!("{dir}/spec"));
    let con = contracts::Contracts::load(&format!("{dir}/contracts"));
    let lits: BTreeMap<String, Vec<String>> = spec_fns.iter().map(|f| (f.name.clone(), f.lits.clone())).collect();
    let look = |n: &str| lits.get(n).cloned().unwrap_or_default();
    let mut e = emit::Emit {
        out: String::new(),
        fns: vec![],
        contracts: &con,
        used: Default::default(),
        external,
        prop: a.iter().find_map(|x| x.strip_prefix("--prop=")).map(|x| x.to_string()),
        also: a.iter().filter_map(|x| x.strip_prefix("--also=")).map(|x| x.to_string()).collect(),
        slow: std::fs::read_to_string(format!("{dir}/contracts/slow.txt")).unwrap_or_default().lines().map(|x| x.to_string()).collect(),
        cfg: Default::default(),
        spec_lits: &look,
    };
    let vdir = format!("{dir}/verus");
    let rd = |n: &str| std::fs::read_to_string(format!("{vdir}/{n}")).unwrap_or_default();
    e.push(&rd("head.rs"));
    e.push("verus! {");
    e.push("pub mod sp {\n#![allow(unused)]\nuse vstd::prelude::*;\nuse crate::nodes::*;\nuse core::result::Result;\nuse crate::demangler::QualifierMangleMode;");
    e.push(&rd("sp_prelude.rs"));
    e.push(&spec);
    e.push("}");
    e.push(&rd("libs.rs"));
    for (m, f) in [("shims", "shims.rs"), ("views", "views.rs"), ("lem", "lem.rs"), ("iso", "iso.rs")] {
        e.push(&format!("pub mod {m} {{\n#![allow(unused)]\nuse vstd::prelude::*;\nuse crate::sp::*;"));
        e.push(&rd(f));
        e.push("}");
    }
    if e.prop.as_deref() == Some("C13") {
        e.push("pub mod hom {\n#![allow(unused)]\nuse vstd::prelude::*;\nuse crate::sp::*;");
        e.push(&rd("hom.rs"));
        e.push(&hom::generate(dir));
        e.push("}");
    }
    let bf = restruct::emit_bitflags(&info.bitflags);
    let inlined = inline::run(&mut file.items, &con);
    restruct::run(&mut file.items, &info);
    clean::finish_items(&mut file.items, &info, "");
    let mut items = file.items;
    if let Some(o) = &only {
        items.retain(|i| match i {
            Item::Mod(m) => o.contains(&m.ident.to_string()),
            _ => o.contains(&"root".to_string()),
        });
    }
    e.push(&bf);
    e.push("#[allow(unused_imports)] use crate::shims::*; #[allow(unused_imports)] use crate::sp::*; #[allow(unused_imports)] use crate::lem::*; #[allow(unused_imports)] use crate::views::*;");
    e.items(&items, "");
    e.push("}");
    e.push("fn main() {}");
    // raw identifiers: the verifier crashes reporting on functions that use them
    let text = (b'a'..=b'z').fold(e.out.clone(), |t, c| t.replace(&format!("r#{}", c as char), &format!("x_{}", c as char)));
    std::fs::write(&a[3], &text).unwrap();
    let mut j = String::from("{\"fns\":[\n");
    for (i, f) in e.fns.iter().enumerate() {
        j.push_str(&format!(
            "{}{{\"id\":{},\"line\":{},\"end\":{},\"own\":{},\"contracted\":{},\"external\":{},\"other\":{},\"bounded\":{},\"unsafes\":{},\"loops\":{},\"missing\":{},\"calls\":{}}}",
            if i > 0 { ",\n" } else { "" },
            js(&f.id),
            f.line,
            f.end,
            jl(&f.own),
            f.contracted,
            f.external,
            f.other,
            f.bounded,
            f.unsafes,
            f.exists_loops,
            jl(&f.missing),
            jl(&f.calls)
        ));
    }
    let unused: Vec<String> = con.exact.keys().filter(|k| !e.used.contains(*k)).cloned().collect();
    j.push_str(&format!("\n],\"unused\":{},\"dropped\":{},\"inlined\":{}}}\n", jl(&unused), jl(&info.dropped), jl(&inlined)));
    std::fs::write(&a[4], j).unwrap();
}
