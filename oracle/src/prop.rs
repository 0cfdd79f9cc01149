// Per property: the inputs its bounded stand-in and its counterexample search use, and the
// observation on the real public API that decides each of them.
use crate::{gen::*, prelude::*, spec};
use std::panic::{catch_unwind, AssertUnwindSafe};
use undname::Flags;

pub fn flags(f: u16) -> Flags { Flags::from_bits_retain(f) }

/// What the real library answers.
#[derive(Clone, PartialEq, Debug)]
pub enum Real { Ok(String), Err(String), Panic(String) }
impl Real {
    fn ok(&self) -> bool { matches!(self, Real::Ok(_)) }
}
pub fn real(s: &str, f: u16) -> Real {
    match catch_unwind(AssertUnwindSafe(|| undname::demangle(s, flags(f)))) {
        Ok(Ok(t)) => Real::Ok(t),
        Ok(Err(e)) => Real::Err(format!("{e:?}")),
        Err(p) => Real::Panic(p.downcast_ref::<String>().cloned().or(p.downcast_ref::<&str>().map(|x| x.to_string())).unwrap_or_default()),
    }
}
/// What the specification functions say (None: an error).
pub fn expected(s: &str, f: u16) -> Option<String> {
    let r = spec::demangled(lit(s), f & 1023).map(text).ok();
    reset();
    r
}
fn differs(r: &Real, e: &Option<String>) -> bool {
    match (r, e) {
        (Real::Ok(a), Some(b)) => a != b,
        (Real::Err(_), None) => false,
        _ => true,
    }
}
fn show(r: &Real) -> String {
    match r { Real::Ok(t) => format!("Ok({t:?})"), Real::Err(e) => format!("Err({e})"), Real::Panic(p) => format!("panic: {p}") }
}
fn show_e(e: &Option<String>) -> String {
    match e { Some(t) => format!("Ok({t:?})"), None => "an error".into() }
}

pub struct Case { pub s: String, pub f: u16 }

pub const PROPS: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20"];

fn with(r: &mut Rng, f: impl FnOnce(&mut Gen)) -> String { let mut g = Gen::new(r); f(&mut g); g.o }

const UNI: &[&str] = &["é", "日本", "😀", "𝔘x", "a\u{301}b", "²", "<lambda_1>", "n ame", "`q'", "B>", "x1y2", "Ω", "\u{7f}", "\u{80}", "\u{7ff}", "\u{800}", "\u{ffff}", "\u{10ffff}", "π_", "::", "`anonymous namespace'", "operator+", "\u{0}", "a\nb", "%s", "{}", "ÿ", "Āb"];

fn num(r: &mut Rng) -> String {
    let mut o = String::new();
    if r.one_in(6) { o.push('?'); }
    match r.below(8) {
        0..=2 => o.push((b'0' + r.below(10) as u8) as char),
        3 => { let v = [16u64, 15, 255, 256, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, i64::MAX as u64, 1 << 63, (1 << 63) + 1, u64::MAX, 10, 11, 9][r.below(17)]; hexd(&mut o, v); }
        4 => { let sh = r.below(64); let v = r.next() >> sh; hexd(&mut o, v); }
        5 => { for _ in 0..r.below(4) { o.push('A'); } let sh = r.below(64); let v = r.next() >> sh; let mut t = String::new(); hexd(&mut t, v); if o.len() + t.len() < 17 { o.push_str(&t) } else { o.push('@') } }
        _ => { for _ in 0..1 + r.below(4) { let c = r.ch("ABCDEFGHIJKLMNOP"); o.push(c); } if r.one_in(12) { let c = r.ch("QZa0é?"); o.push(c); } o.push('@'); }
    }
    o
}
fn unum(r: &mut Rng) -> String { let t = num(r); if r.one_in(8) { t } else { t.trim_start_matches('?').to_string() } }
fn snum(r: &mut Rng) -> String {
    let mut o = String::new();
    if r.one_in(20) { return unum(r); }
    match r.below(3) { 0 => o.push((b'0' + r.below(10) as u8) as char), _ => { let v = [16u64, 15, 11, 255, 20, 100, 64][r.below(7)]; hexd(&mut o, v); } }
    o
}
fn hexd(o: &mut String, v: u64) {
    let mut t = vec![];
    let mut x = v;
    while x > 0 { t.push((b'A' + (x % 16) as u8) as char); x /= 16; }
    while let Some(c) = t.pop() { o.push(c); }
    o.push('@');
}

fn name(r: &mut Rng) -> String {
    match r.below(4) {
        0 => UNI[r.below(UNI.len())].to_string(),
        1 => { let n = 1 + r.below(6); (0..n).map(|_| { let c = char::from_u32(match r.below(5) { 0 => r.below(128), 1 => r.below(256), 2 => r.below(0x800), 3 => r.below(0xd800), _ => 0xe000 + r.below(0x10_2000) } as u32).unwrap(); if c == '@' || c == '?' { 'k' } else { c } }).collect() }
        _ => { let n = 1 + r.below(5); (0..n).map(|_| r.ch("abcdefgXYZ_019é")).collect() }
    }
}

/// An input aimed at the property.
pub fn case(p: &str, r: &mut Rng, corpus: &[&str]) -> Case {
    let general = |r: &mut Rng| match r.below(8) {
        0 => { let c = corpus[r.below(corpus.len())]; mutate(r, c) }
        1 => corpus[r.below(corpus.len())].to_string(),
        2 => { let g = Gen::new(r).top(); mutate(r, &g) }
        _ => Gen::new(r).top(),
    };
    let any_flags = |r: &mut Rng| match r.below(4) { 0 => 0, 1 => 1 << r.below(10), _ => (r.next() & 1023) as u16 };
    match p {
        "C01" | "C02" | "C04" | "C05" => {
            let s = match r.below(10) {
                0 if r.one_in(20) => hostile(r),
                0 | 3 | 4 => { let q = DIRECTED[r.below(DIRECTED.len())]; let s = directed(q, r); if r.one_in(2) { sprinkle(r, &s) } else { s } }
                1 => { let s = general(r); mutate(r, &s) }
                2 => { let n = r.below(24); (0..n).map(|_| r.ch("@@??$_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789ab.é日")).collect() }
                _ => general(r),
            };
            let f = any_flags(r);
            Case { s, f }
        }
        "C03" => { let f = any_flags(r); let s = if r.one_in(2) { hostile(r) } else { bomb(r) }; Case { s, f } }
        "C12" => { let f = match r.below(3) { 0 => 1 << r.below(9), _ => (r.next() & 511) as u16 }; Case { s: general(r), f } }
        "C13" => { let f = any_flags(r); Case { s: if r.one_in(3) { refs(r) } else { general(r) }, f } }
        "C14" => { let f = if r.one_in(2) { 512 } else { 512 | (r.next() & 511) as u16 }; Case { s: general(r), f } }
        "C16" | "C17" => Case { s: if p == "C17" && r.one_in(3) { let s = general(r); mutate(r, &s) } else { general(r) }, f: 0 },
        _ => { let s = directed(p, r); let s = if r.one_in(12) { mutate(r, &s) } else { s }; Case { s, f: if r.one_in(4) { any_flags(r) } else { 0 } } }
    }
}

const DIRECTED: &[&str] = &["C06", "C07", "C08", "C09", "C10", "C11", "C15", "C18", "C19", "C20"];

/// Odd characters where a class of characters is expected.
fn sprinkle(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    for _ in 0..1 + r.below(2) {
        if v.is_empty() { break; }
        let at: Vec<usize> = (0..v.len()).filter(|i| *i > 1 && (v[*i - 1] == '?' || v[*i - 1] == '$' || v[*i - 1] == '_')).collect();
        let i = if at.is_empty() || r.one_in(2) { r.below(v.len()) } else { at[r.below(at.len())] };
        v[i] = r.ch("éÀßĀ²٣Ⅷ日ªaz{AZ[@09:/`\u{7f}\u{80}\u{ff}\u{0}😀");
    }
    v.into_iter().collect()
}

/// Functions and names with many back references.
fn refs(r: &mut Rng) -> String {
    match r.below(5) {
        0 => {
            // parameter table
            let mut o = String::from("?f@@YAX");
            let n = 1 + r.below(14);
            let mut k = 0usize;
            for _ in 0..n {
                if k > 0 && r.one_in(2) { o.push((b'0' + r.below((k + 1).min(10)) as u8) as char); }
                else { let t = with(r, |g| g.ty()); o.push_str(&t); k += 1; }
            }
            o.push_str("@Z");
            o
        }
        1 => {
            // name table: long scope chains
            let mut o = String::from("?");
            let n = 1 + r.below(13);
            let mut k = 0usize;
            for _ in 0..n {
                if k > 0 && r.one_in(3) { o.push((b'0' + r.below((k + 1).min(10)) as u8) as char); }
                else if r.one_in(6) { let t = with(r, |g| g.template()); o.push_str(&t); k += 1; }
                else { let c = r.ch("abcdefghijkl"); o.push(c); o.push('@'); k += 1; }
            }
            o.push_str("@3HA");
            o
        }
        2 => {
            // template scopes have tables of their own
            let mut o = String::from("?");
            for _ in 0..1 + r.below(3) { let t = with(r, |g| g.template()); o.push_str(&t); }
            for _ in 0..r.below(3) { o.push((b'0' + r.below(5) as u8) as char); }
            o.push_str("@YAX");
            for _ in 0..1 + r.below(4) {
                match r.below(4) { 0 => o.push((b'0' + r.below(4) as u8) as char), 1 => { o.push_str("V?$t@"); let t = with(r, |g| g.tparam()); o.push_str(&t); o.push((b'0' + r.below(3) as u8) as char); o.push_str("@@"); } 2 => { o.push('V'); o.push((b'0' + r.below(6) as u8) as char); o.push_str("@@") } _ => { o.push_str("PAV"); let c = r.ch("abc"); o.push(c); o.push_str("@x@@"); } }
            }
            o.push_str("@Z");
            o
        }
        3 => {
            // names told apart / recognised as the same
            let pool = ["V?$A@UB@@@@", "V?$A@VB@@@@", "V?$A@W4B@@@@", "V?$A@TB@@@@", "V?$A@PEAH@@", "V?$A@PAH@@", "V?$A@P6AXXZ@@", "V?$A@P6GXXZ@@", "V?$A@$0A@@@", "V?$A@_W@@", "V?$A@_N@@", "VB@@", "UB@@", "V?$B@V?$A@VB@@@@@@", "V?$A@PIAH@@", "V?$A@P6AHXZ@@", "V?$A@P8B@@AEHXZ@@", "V?$A@P8B@@EAAHXZ@@"];
            let mut o = String::from("?f@@YAX");
            for _ in 0..2 + r.below(4) { o.push_str(pool[r.below(pool.len())]); }
            for _ in 0..1 + r.below(3) { o.push('V'); o.push((b'0' + r.below(6) as u8) as char); o.push_str("@@"); }
            o.push_str("@Z");
            o
        }
        _ => Gen::new(r).top(),
    }
}

/// Deeply nested or heavily repeating inputs.
fn hostile(r: &mut Rng) -> String {
    let n = match r.below(4) { 0 => r.below(60), 1 => 240 + r.below(40), 2 => 1000 + r.below(2000), _ => 20_000 };
    let huge = || { let mut o = String::new(); hexd(&mut o, 1 << (16 + n % 48)); o };
    match r.below(14) {
        10 => format!("?x@@3PAY{}HA", huge()),
        11 => format!("??_C@_{}{}ABCD@abc@", n % 2, huge()),
        12 => { let h = huge(); directed("C06", r).replacen("@@", &format!("@@{h}"), 1 + n % 2) }
        13 => { let h = huge(); let s = directed(["C06", "C18", "C20"][n % 3], r); let v: Vec<usize> = s.char_indices().filter(|(_, c)| c.is_ascii_digit()).map(|(i, _)| i).collect(); if v.is_empty() { s } else { let i = v[n % v.len()]; format!("{}{h}{}", &s[..i], &s[i + 1..]) } }
        0 => format!("?x@@3{}HA", "PA".repeat(n)),
        1 => format!("?x@{}@3HA", "?$a@V".repeat(n)),
        2 => format!("?x@{}@3HA", "?1?".repeat(n)),
        3 => format!("?x@@3{}HA", "P6A".repeat(n)),
        4 => format!("?x@{}@3HA", "a@".repeat(n)),
        5 => format!("?f@@YAX{}@Z", "H".repeat(n)),
        6 => format!("?x@@3{}H", "Y00".repeat(n)),
        7 => format!("{}x@@3HA", "??__E".repeat(n)),
        8 => format!("??@{}@", "a".repeat(n)),
        _ => format!("?x@?$a@{}@3HA", "$1?".repeat(n)),
    }
}
/// Few bytes, much text.
fn bomb(r: &mut Rng) -> String {
    let mut o = String::from("?f@@YAX");
    let w = 1 + r.below(300);
    match r.below(4) {
        3 => {
            // parameters that repeat earlier parameters
            let n = r.below(10);
            o.push_str(["PAH", "VC@@", "PBD", "P6AXXZ"][r.below(4)]);
            for i in 0..n { let k = 1 + r.below(5); o.push_str(&format!("P6AX{}@Z", i.to_string().repeat(k))); }
            for _ in 0..r.below(4) { o.push_str(&n.to_string()); }
        }
        0 => { o.push_str("V"); o.push_str(&"n".repeat(w)); o.push_str("@@"); for _ in 0..r.below(60) { o.push_str("V?$t@V0@V0@V0@@@"); } }
        1 => { o.push_str(&format!("V{}@@", "n".repeat(w * 40))); for _ in 0..r.below(300) { o.push('0'); } }
        _ => {
            let d = r.below(9);
            o.push_str("V?$a@H@@");
            for i in 0..d { o.push_str(&format!("V?$b@V{i}@V{i}@V{i}@V{i}@V{i}@V{i}@V{i}@@@")); }
            for _ in 0..r.below(20) { o.push_str("1"); }
        }
    }
    o.push_str("@Z");
    o
}

fn directed(p: &str, r: &mut Rng) -> String {
    match p {
        "C06" => match r.below(16) {
            0..=2 => format!("?x@?$A@$0{}@@3HA", num(r)),
            3 => format!("?x@@3PAY0{}HA", unum(r)),
            4 => { let n = r.below(4); let mut d = String::new(); for _ in 0..=n { d.push_str(&unum(r)); } format!("?x@@3PAY{n}{d}HA") }
            5 => format!("?f@C@@{}{}AEXXZ", r.ch("GHOPWX"), num(r)),
            6 => { let k = r.ch("012345"); format!("?f@C@@${k}{}{}AEXXZ", num(r), num(r)) }
            7 => { let k = r.ch("012345"); format!("?f@C@@$R{k}{}{}{}{}AEXXZ", num(r), num(r), num(r), num(r)) }
            8 => format!("??_R1{}{}{}{}C@@8", unum(r), num(r), unum(r), unum(r)),
            9 => format!("??_9C@@$B{}AA", unum(r)),
            10 => format!("?x@?{}??f@@YAXXZ@4HA", unum(r)),
            11 => format!("??_B{}C@@51{}", "", unum(r)),
            12 => format!("?x@?$A@$F{}{}@@3HA", num(r), num(r)),
            13 => format!("?x@?$A@$G{}{}{}@@3HA", num(r), num(r), num(r)),
            14 => format!("?x@?$A@$H?f@@YAXXZ{}@@3HA", num(r)),
            _ => format!("?x@?$A@$MH0{}@@3HA", num(r)),
        },
        "C07" => refs(r),
        "C08" => match r.below(4) {
            0 => format!("?x@@3{}A", with(r, |g| g.ty())),
            1 => format!("?f@@Y{}{}@Z", r.ch("ABCDEFGHIJKLMNOPQRSTUVWXYZ"), with(r, |g| { g.ty(); g.ty() })),
            2 => format!("?x@{}", with(r, |g| { g.o.push('@'); g.var_enc() })),
            _ => format!("?x@?$A@{}@@3HA", with(r, |g| g.ty())),
        },
        "C09" => match r.below(3) {
            0 => format!("?{}@YAXXZ", with(r, |g| g.op())),
            1 => format!("?{}C@@QAEHH@Z", with(r, |g| g.op())),
            _ => format!("?{}?$C@H@n@@{}", with(r, |g| g.op()), with(r, |g| g.func_enc())),
        },
        "C10" => with(r, |g| g.string()),
        "C11" => { let n: String = match r.below(4) { 0 => name(r), _ => { let k = 32; (0..k).map(|_| r.ch("0123456789abcdef")).collect() } }; let t = ["", "??_R4@", "x", "@"][r.below(4)]; let s = format!("??@{n}@{t}"); match r.below(4) { 0 => format!("?x@?$A@$1{s}@@3HA"), _ => s } }
        "C15" => {
            let n: Vec<String> = (0..5).map(|_| name(r)).collect();
            match r.below(8) {
                0 => format!("?{}@{}@{}@@3HA", n[0], n[1], n[2]),
                1 => format!("?{}@@YAXV{}@@U{}@{}@@@Z", n[0], n[1], n[2], n[3]),
                2 => format!("?x@?$A@V{}@{}@@@{}@@3HA", n[1], n[2], n[3]),
                3 => format!("?{}@?1??{}@@YAXXZ@4HA", n[0], n[1]),
                4 => format!("??__K{}@@YAXXZ", n[0]),
                5 => format!("?x@?A{}@{}@@3HA", n[0], n[1]),
                6 => format!("??0{}@{}@@QAE@XZ", n[0], n[1]),
                _ => format!("?f@@YAXPAV{}@@01W4{}@1@@Z", n[0], n[1]),
            }
        }
        "C18" => match r.below(3) {
            0 => format!("?x@{}@3HA", with(r, |g| g.template())),
            1 => format!("?f@@YAXV{}@@@Z", with(r, |g| g.template())),
            _ => format!("?{}@YAXXZ", with(r, |g| g.template())),
        },
        "C19" => match r.below(3) {
            0 => format!("?x@C@@{}", with(r, |g| g.var_enc())),
            _ => format!("?f@C@@{}", with(r, |g| g.func_enc())),
        },
        "C20" => with(r, |g| g.special()),
        _ => unreachable!(),
    }
}

/// The real answers the verdict of `p` on a case needs (run on an ordinary stack).
pub fn observe(p: &str, c: &Case) -> Vec<Real> {
    match p {
        "C05" => {
            let a = real(&c.s, c.f);
            let mut buf = String::from("left over text that must not survive é");
            let into = |s: &str, f: u16, b: &mut String| match catch_unwind(AssertUnwindSafe(|| undname::demangle_into(s, flags(f), b))) {
                Ok(Ok(())) => Real::Ok(b.clone()),
                Ok(Err(e)) => Real::Err(format!("{e:?}")),
                Err(_) => Real::Panic(String::new()),
            };
            let x = into(&c.s, c.f, &mut buf);
            let y = into(&c.s, c.f, &mut buf);
            buf = "z".repeat(3 + c.s.len() * 2);
            let _ = into("?broken@", 0, &mut buf);
            let z = into(&c.s, c.f, &mut buf);
            vec![a, x, y, z]
        }
        "C12" => { let mut v = vec![real(&c.s, c.f)]; v.push(real(&c.s, 0)); for k in 0..9 { v.push(real(&c.s, 1 << k)); } v }
        "C13" => { let mut v = vec![real(&c.s, c.f), real(&c.s, 0)]; v.push(real(&c.s, 512)); v.push(real(&c.s, 1023)); v }
        "C14" => vec![real(&c.s, c.f), real(&c.s, c.f & 511), real(&c.s, 0)],
        _ => vec![real(&c.s, c.f)],
    }
}

/// Does the answer break the property? (`strict`: count every difference from the specification.)
pub fn verdict(p: &str, c: &Case, o: &[Real], strict: bool, peak: usize) -> Option<String> {
    let bad = |f: u16, r: &Real, e: &Option<String>| Some(format!("demangle({:?}, flags {f}) gave {}, expected {}", c.s, show(r), show_e(e)));
    if strict && p != "C01" && p != "C02" && p != "C04" {
        let e = expected(&c.s, c.f);
        if differs(&o[0], &e) { return bad(c.f, &o[0], &e); }
    }
    match p {
        "C01" | "C04" => o.iter().find_map(|r| if let Real::Panic(m) = r { Some(format!("demangle({:?}, flags {}) panicked: {m}", c.s, c.f)) } else { None }),
        "C02" => None,
        "C03" => {
            if let Real::Ok(t) = &o[0] { if t.len() > 1 << 20 { return Some(format!("demangle of {} bytes produced {} bytes", c.s.len(), t.len())); } }
            let bound = (32 << 20) + 256 * c.s.len();
            if peak > bound { return Some(format!("demangle of {} bytes, flags {}, allocated {peak} bytes, more than {bound}: {:?}", c.s.len(), c.f, c.s)); }
            if let Real::Panic(_) = o[0] { return bad(c.f, &o[0], &None); }
            // (on very long inputs, too slow to ask)
            if c.s.len() > 8_000 { return None; }
            let e = expected(&c.s, c.f);
            // text is lost or refused only beyond the limits, and never unbounded
            if differs(&o[0], &e) { return bad(c.f, &o[0], &e); }
            None
        }
        "C05" => {
            for (i, x) in o[1..].iter().enumerate() {
                if *x != o[0] { return Some(format!("demangle({:?}, flags {}) gave {} but demangle_into (call {}) gave {}", c.s, c.f, show(&o[0]), i + 1, show(x))); }
            }
            None
        }
        "C12" => {
            // wrong under some flags, right under others: the flags are to blame
            let fs: Vec<u16> = [c.f, 0].into_iter().chain((0..9).map(|k| 1 << k)).collect();
            let es: Vec<_> = fs.iter().map(|f| expected(&c.s, *f)).collect();
            let ds: Vec<bool> = o.iter().zip(&es).map(|(r, e)| r.ok() && e.is_some() && differs(r, e)).collect();
            if ds.iter().any(|x| *x) && ds.iter().any(|x| !*x) {
                let i = ds.iter().position(|x| *x).unwrap();
                return bad(fs[i], &o[i], &es[i]);
            }
            None
        }
        "C13" => {
            let fs = [c.f, 0, 512, 1023];
            for i in 0..fs.len() {
                if o[i].ok() != o[1].ok() {
                    // the amount of text is limited, and flags change the amount of text
                    if fs.iter().all(|f| expected(&c.s, *f).is_some()) || fs.iter().all(|f| expected(&c.s, *f).is_none()) {
                        return Some(format!("demangle({:?}): flags {} gave {} but flags 0 gave {}", c.s, fs[i], show(&o[i]), show(&o[1])));
                    }
                }
            }
            // the same parse: either every rendering is the expected one, or the default rendering is wrong as well
            let es: Vec<_> = fs.iter().map(|f| expected(&c.s, *f)).collect();
            if !differs(&o[1], &es[1]) && es.iter().all(|e| e.is_some()) {
                for i in 0..fs.len() { if !o[i].ok() { return bad(fs[i], &o[i], &es[i]); } }
            }
            None
        }
        "C14" => {
            let e = expected(&c.s, c.f);
            if differs(&o[0], &e) {
                let e1 = expected(&c.s, c.f & 511);
                if !differs(&o[1], &e1) { return bad(c.f, &o[0], &e); }
                let e0 = expected(&c.s, 0);
                if !differs(&o[2], &e0) { return bad(c.f, &o[0], &e); }
            }
            None
        }
        "C17" => {
            let e = expected(&c.s, c.f);
            if o[0].ok() != e.is_some() { bad(c.f, &o[0], &e) } else { None }
        }
        _ => { let e = expected(&c.s, c.f); if differs(&o[0], &e) { bad(c.f, &o[0], &e) } else { None } }
    }
}
