// Compiles the contracts' specification functions (/verif/spec/*.rs) as ordinary Rust.
use std::{env, fs, path::Path};
fn main() {
    let dir = Path::new(&env::var("CARGO_MANIFEST_DIR").unwrap()).join("../spec");
    let mut out = String::new();
    for f in ["types.rs", "out.rs", "parse.rs"] {
        let p = dir.join(f);
        println!("cargo:rerun-if-changed={}", p.display());
        for line in fs::read_to_string(p).unwrap().lines() {
            if line.starts_with("#[dec(") {
                continue;
            }
            if line.starts_with("struct ") || line.starts_with("enum ") {
                out.push_str("#[derive(Clone, Copy, PartialEq, Debug)]\npub ");
            } else if ["fn ", "const ", "type "].iter().any(|k| line.starts_with(k)) {
                out.push_str("pub ");
            }
            let mut l = line.to_string();
            for k in ["quals: ", "cc: ", "class: ", "refq: ", "ret: ", "variadic: ", "params: ", "noexc: ", "rest: ", "nodes: ", "fp: ", "nm: ", "fl: ", "flags: "] {
                let t = format!("    {k}");
                if l.starts_with(&t) && l.ends_with(',') && in_struct(&out) {
                    l = format!("    pub {}", &l[4..]);
                }
            }
            out.push_str(&l);
            out.push('\n');
        }
    }
    fs::write(Path::new(&env::var("OUT_DIR").unwrap()).join("spec.rs"), out).unwrap();
}
// is the last item opened a struct that is still open?
fn in_struct(out: &str) -> bool {
    match (out.rfind("\npub struct "), out.rfind("\n}")) {
        (Some(a), Some(b)) => a > b,
        (Some(_), None) => true,
        _ => false,
    }
}
