use oracle::{gen::*, prelude::*, spec};
fn norm_real(r: undname::Result<String>) -> Result<String, String> { r.map_err(|e| format!("{e:?}")) }
fn norm_spec(s: &str, f: u16) -> Result<String, String> {
    let r = spec::demangled(lit(s), f).map(text).map_err(|e| format!("{e:?}"));
    reset();
    r
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let h = std::thread::Builder::new().stack_size(2 << 30).spawn(move || {
        let corpus: Vec<&str> = include_str!("../corpus.txt").lines().collect();
        if a[1] == "one" {
            let f: u16 = a.get(3).map_or(0, |x| x.parse().unwrap());
            println!("real {:?}\nspec {:?}", norm_real(undname::demangle(&a[2], undname::Flags::from_bits_retain(f))), norm_spec(&a[2], f));
            return;
        }
        let n: usize = a[1].parse().unwrap();
        let seed: u64 = a[2].parse().unwrap();
        let mut r = Rng(seed);
        let (mut bad, mut ok, mut kinds) = (0, 0, 0);
        let mut i = 0;
        while i < n {
            let s = if i < corpus.len() && seed == 0 { corpus[i].to_string() } else {
                match r.below(4) { 0 => { let c = corpus[r.below(corpus.len())]; mutate(&mut r, c) }, 1 => { let g = Gen::new(&mut r).top(); mutate(&mut r, &g) } _ => Gen::new(&mut r).top() }
            };
            i += 1;
            let f: u16 = match r.below(4) { 0 => 0, 1 => 1 << r.below(10), _ => (r.next() & 1023) as u16 };
            let x = norm_real(undname::demangle(&s, undname::Flags::from_bits_retain(f)));
            let y = norm_spec(&s, f);
            if x.is_ok() { ok += 1; }
            if x.is_ok() != y.is_ok() || (x.is_ok() && x != y) {
                bad += 1;
                if bad <= 8 { println!("{s:?} flags {f}\n  real {x:?}\n  spec {y:?}"); }
            } else if x.is_err() && !x.as_ref().unwrap_err().starts_with("Io") && x != y {
                kinds += 1;
                if kinds <= 5 { println!("KIND {s:?} flags {f}\n  real {x:?}\n  spec {y:?}"); }
            }
        }
        println!("{n} inputs, {ok} ok, {bad} differ, {kinds} kinds");
    }).unwrap();
    h.join().unwrap();
}
