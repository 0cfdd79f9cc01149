// Reads /verif/contracts/*.vc
use std::collections::BTreeMap;

#[derive(Default, Clone, Debug)]
pub struct Contract {
    pub own: Vec<String>,
    pub ret: Option<String>,
    pub spec: String,
    pub entry: String,
    pub loops: BTreeMap<usize, String>,
    pub bodies: BTreeMap<usize, String>, // ghost text at the start of a loop's body
    pub anchors: Vec<(bool, String, String)>, // (after?, pattern, text)
    pub attrs: String,
    pub external: bool,
    pub bounded: bool,
    pub skip: bool,
    pub plain: bool, // do not unfold string literals
    pub extra: String,
    pub origin: String,
}

#[derive(Default)]
pub struct Contracts {
    pub exact: BTreeMap<String, Contract>,
    pub wild: Vec<(String, Contract)>,
    pub macros: BTreeMap<String, (Vec<String>, String)>,
}

fn glob(p: &str, s: &str) -> bool {
    match p.find('*') {
        None => p == s,
        Some(i) => {
            let (a, b) = (&p[..i], &p[i + 1..]);
            s.starts_with(a) && (i..=s.len()).any(|j| s.is_char_boundary(j) && glob(b, &s[j..]))
        }
    }
}

impl Contracts {
    pub fn load(dir: &str) -> Contracts {
        let mut c = Contracts::default();
        let mut files: Vec<_> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().path()).filter(|p| p.extension().is_some_and(|x| x == "vc")).collect();
        files.sort();
        for f in files {
            let text = std::fs::read_to_string(&f).unwrap();
            c.parse(&text, &f.file_name().unwrap().to_string_lossy());
        }
        c
    }

    fn expand(&self, text: &str) -> String {
        // `%name(a; b)` on a line of its own
        let mut out = String::new();
        for line in text.lines() {
            let t = line.trim();
            if let Some(r) = t.strip_prefix('%') {
                let (name, args) = match r.find('(') {
                    Some(i) => (&r[..i], r[i + 1..r.rfind(')').unwrap()].to_string()),
                    None => (r, String::new()),
                };
                let (params, body) = self.macros.get(name).unwrap_or_else(|| panic!("unknown macro {name}"));
                let args: Vec<&str> = args.split(';').map(|x| x.trim()).collect();
                let mut b = body.clone();
                for (i, p) in params.iter().enumerate() {
                    b = b.replace(&format!("${p}"), args.get(i).copied().unwrap_or(""));
                }
                out.push_str(&self.expand(&b));
            } else {
                out.push_str(line);
                out.push('\n');
            }
        }
        out
    }

    fn parse(&mut self, text: &str, file: &str) {
        let mut names: Vec<String> = vec![];
        let mut cur = Contract::default();
        let mut part: Option<String> = None;
        let mut buf = String::new();
        let lines: Vec<&str> = text.lines().collect();
        let mut i = 0;
        macro_rules! flush {
            () => {
                if let Some(p) = part.take() {
                    let t = if p.starts_with("macro ") { buf.clone() } else { self.expand(&buf) };
                    let mut w = p.split_whitespace();
                    match w.next().unwrap() {
                        "spec" => cur.spec.push_str(&t),
                        "entry" => cur.entry.push_str(&t),
                        "extra" => cur.extra.push_str(&t),
                        "loop" => {
                            cur.loops.insert(w.next().unwrap().parse().unwrap(), t);
                        }
                        "body" => {
                            cur.bodies.insert(w.next().unwrap().parse().unwrap(), t);
                        }
                        k @ ("after" | "before") => {
                            let pat = p[k.len()..].trim().to_string();
                            cur.anchors.push((k == "after", pat, t));
                        }
                        "macro" => {
                            let r = p["macro ".len()..].trim();
                            let (n, ps) = match r.find('(') {
                                Some(j) => (&r[..j], r[j + 1..r.rfind(')').unwrap()].split(';').map(|x| x.trim().to_string()).collect()),
                                None => (r, vec![]),
                            };
                            self.macros.insert(n.to_string(), (ps, t));
                        }
                        k => panic!("{file}: unknown section @{k}"),
                    }
                }
                buf.clear();
            };
        }
        macro_rules! finish {
            () => {
                flush!();
                for n in names.drain(..) {
                    cur.origin = file.to_string();
                    if n.contains('*') {
                        self.wild.push((n, cur.clone()));
                    } else {
                        if self.exact.insert(n.clone(), cur.clone()).is_some() {
                            panic!("{file}: duplicate contract for {n}");
                        }
                    }
                }
                cur = Contract::default();
            };
        }
        while i < lines.len() {
            let l = lines[i];
            i += 1;
            if l.starts_with("//") && part.is_none() {
                continue;
            }
            if let Some(r) = l.strip_prefix('@') {
                let (k, rest) = r.split_once(' ').map(|(a, b)| (a, b.trim())).unwrap_or((r, ""));
                match k {
                    "fn" => {
                        finish!();
                        names = rest.split_whitespace().map(|x| x.to_string()).collect();
                    }
                    "macro" => {
                        finish!();
                        part = Some(format!("macro {rest}"));
                    }
                    _ => {
                        flush!();
                        match k {
                            "own" => cur.own.extend(rest.split_whitespace().map(|x| x.to_string())),
                            "ret" => cur.ret = Some(rest.to_string()),
                            "external" => cur.external = true,
                            "bounded" => {
                                cur.bounded = true;
                                cur.external = true
                            }
                            "skip" => cur.skip = true,
                            "plain" => cur.plain = true,
                            "attr" => {
                                cur.attrs.push_str(rest);
                                cur.attrs.push('\n');
                            }
                            _ => {
                                part = Some(format!("{k} {rest}"));
                            }
                        }
                    }
                }
            } else if part.is_some() {
                buf.push_str(l);
                buf.push('\n');
            } else if !l.trim().is_empty() {
                panic!("{file}:{i}: text outside a section: {l}");
            }
        }
        finish!();
    }

    pub fn get(&self, id: &str) -> Option<Contract> {
        self.exact.get(id).cloned().or_else(|| self.wild.iter().find(|(p, _)| glob(p, id)).map(|(_, c)| c.clone()))
    }
}
