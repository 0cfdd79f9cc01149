// conc <property> <strict|plain> <seconds> <seed> <state file>
//   Looks for an input that breaks the property on the real library. The state file names the input
//   being tried, so that whoever runs this can tell what crashed or hung it.
//   Last line on stdout: "DONE <evaluations> <ok> <distinct>" or "FOUND <json>".
// conc replay <property> <strict|plain> <flags> <input file>
use oracle::{gen::*, prop::*};
use std::alloc::{GlobalAlloc, Layout, System};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};
use std::time::{Duration, Instant};

struct Counting;
static ON: AtomicBool = AtomicBool::new(false);
static LIVE: AtomicUsize = AtomicUsize::new(0);
static PEAK: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ON.load(Relaxed) { let x = LIVE.fetch_add(l.size(), Relaxed) + l.size(); PEAK.fetch_max(x, Relaxed); }
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ON.load(Relaxed) { let x = LIVE.load(Relaxed); LIVE.store(x.saturating_sub(l.size()), Relaxed); }
        System.dealloc(p, l)
    }
}
#[global_allocator]
static A: Counting = Counting;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) > 126 => { let mut b = [0u16; 2]; for u in c.encode_utf16(&mut b) { o.push_str(&format!("\\u{u:04x}")); } }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn run(p: &str, c: &Case) -> (Vec<Real>, usize) {
    LIVE.store(0, Relaxed);
    PEAK.store(0, Relaxed);
    ON.store(p == "C03", Relaxed);
    let o = observe(p, c);
    ON.store(false, Relaxed);
    (o, PEAK.load(Relaxed))
}
fn report(c: &Case, msg: &str) {
    println!("FOUND {{\"input\":{},\"flags\":{},\"what\":{}}}", js(&c.s), c.f, js(msg));
}
fn on_stack<T: Send>(mb: usize, f: impl FnOnce() -> T + Send) -> T {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(mb << 20).spawn_scoped(s, f).unwrap().join().unwrap())
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        let m = i.to_string();
        if m.contains("unsafe precondition") || std::env::var("CONC_TRACE").is_ok() { eprintln!("{m}"); }
    }));
    if a[1] == "replay" {
        let c = Case { s: std::fs::read_to_string(&a[5]).unwrap(), f: a[4].parse().unwrap() };
        let p = &a[2];
        let (o, peak) = on_stack(8, || run(p, &c));
        match on_stack(2048, || verdict(p, &c, &o, a[3] == "strict", peak)) {
            Some(m) => { report(&c, &m); }
            None => println!("DONE 1 1 1"),
        }
        return;
    }
    let (p, strict) = (a[1].clone(), a[2] == "strict");
    let secs: f64 = a[3].parse().unwrap();
    let seed: u64 = a[4].parse().unwrap();
    let state = std::fs::File::create(&a[5]).unwrap();
    let corpus: Vec<&str> = include_str!("../../corpus.txt").lines().collect();
    let mut r = Rng(seed.wrapping_mul(0x1234_5678_9abc_def1));
    let start = Instant::now();
    let (mut n, mut ok) = (0u64, 0u64);
    let mut seen: HashSet<u64> = HashSet::new();
    let mut first = true;
    let mut samples: Vec<String> = vec![];
    while start.elapsed() < Duration::from_secs_f64(secs) {
        let mut cases: Vec<Case> = vec![];
        if first && matches!(p.as_str(), "C01" | "C02" | "C04" | "C05" | "C12" | "C13" | "C14" | "C16" | "C17") {
            for s in &corpus { cases.push(Case { s: s.to_string(), f: if p == "C14" { 512 } else { 0 } }); }
        }
        first = false;
        let m = if p == "C03" { 12 } else { 1000 };
        for _ in 0..m { cases.push(case(&p, &mut r, &corpus)); }
        let obs: Vec<(Vec<Real>, usize)> = on_stack(8, || {
            cases.iter().map(|c| {
                let mut b = Vec::with_capacity(c.s.len() + 16);
                b.extend_from_slice(&(c.s.len() as u64).to_le_bytes());
                b.extend_from_slice(&(c.f as u64).to_le_bytes());
                b.extend_from_slice(c.s.as_bytes());
                state.write_all_at(&b, 0).unwrap();
                run(&p, c)
            }).collect()
        });
        state.write_all_at(&u64::MAX.to_le_bytes(), 0).unwrap();
        let found = on_stack(4096, || {
            for (c, (o, peak)) in cases.iter().zip(&obs) {
                if let Some(m) = verdict(&p, c, o, strict, *peak) { return Some((c, m)); }
            }
            None
        });
        for (c, (o, _)) in cases.iter().zip(&obs) {
            n += 1;
            if matches!(o[0], Real::Ok(_)) {
                ok += 1;
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (&c.s, c.f).hash(&mut h);
                if seen.len() < 4_000_000 { seen.insert(h.finish()); }
                if samples.len() < 3 && c.s.len() < 200 && ok % 37 == 5 { samples.push(format!("{} flags {}", c.s, c.f)); }
            }
        }
        if let Some((c, m)) = found { report(c, &m); std::io::stdout().flush().unwrap(); return; }
    }
    println!("SAMPLES [{}]", samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","));
    println!("DONE {n} {ok} {}", seen.len());
}
