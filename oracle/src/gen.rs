// Inputs for the bounded stand-ins and for turning a failed obligation into a failing input.
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn one_in(&mut self, n: usize) -> bool { self.below(n) == 0 }
    pub fn pick<'a, T: ?Sized>(&mut self, xs: &[&'a T]) -> &'a T { xs[self.below(xs.len())] }
    pub fn ch(&mut self, s: &str) -> char { let v: Vec<char> = s.chars().collect(); v[self.below(v.len())] }
}

pub struct Gen<'r> {
    pub r: &'r mut Rng,
    pub o: String,
    depth: usize,
}

const NAMES: &[&str] = &[
    "a", "b", "c", "x", "foo", "Bar", "ns", "T_1", "é", "日本", "_", "A", "Z9", "std", "v1.2", "a-b", "😀", "𝔘", "²", "<lambda>", "n ame", "`q'", "B>", "x1y2",
];

impl<'r> Gen<'r> {
    pub fn new(r: &'r mut Rng) -> Self { Gen { r, o: String::new(), depth: 0 } }
    fn s(&mut self, t: &str) { self.o.push_str(t); }
    fn any(&mut self, cs: &str) { let c = self.r.ch(cs); self.o.push(c); }
    fn bad(&mut self) -> bool {
        // now and then, a character the grammar does not allow here
        if self.r.one_in(400) { let c = self.r.ch("@?$_AZ09%é#\u{0}~8h"); self.o.push(c); true } else { false }
    }
    pub fn number(&mut self) {
        if self.r.one_in(8) { self.s("?"); }
        match self.r.below(10) {
            0..=4 => self.any("0123456789"),
            5 => self.s("A@"),
            6 => self.s("@"),
            7 => { let n = 1 + self.r.below(3); for _ in 0..n { self.any("ABCDEFGHIJKLMNOP"); } self.s("@"); }
            8 => { let n = 1 + self.r.below(17); for _ in 0..n { self.any("ABCDEFGHIJKLMNOP"); } self.s("@"); }
            _ => {
                let t = self.r.pick(&["HPPPPPPP@", "IAAAAAAA@", "PPPPPPPP@", "BAAAAAAAA@", "HPPPPPPPPPPPPPPP@", "IAAAAAAAAAAAAAAA@", "PPPPPPPPPPPPPPPP@", "BAAAAAAAAAAAAAAAA@", "BA@", "CA@", "AB@", "K@", "IAAAAAAB@"]);
                self.s(t);
            }
        }
    }
    pub fn unsigned(&mut self) {
        let m = self.o.len();
        self.number();
        if self.o[m..].starts_with('?') && !self.r.one_in(10) { self.o.remove(m); }
    }
    pub fn simple(&mut self) {
        let n = if self.r.one_in(60) { "@" } else { self.r.pick(NAMES) };
        self.s(n);
        if self.r.one_in(4) { self.any("abcXYZ0"); }
        self.s("@");
    }
    pub fn op(&mut self) {
        self.s("?");
        match self.r.below(12) {
            0 => self.any("01"),
            1 => self.s("B"),
            2 | 3 => { self.s("_"); self.any("0123456DEFGHIJKLMNOTUV789ABCPQRSWXYZ"); }
            4 | 5 => { self.s("__"); self.any("ABCDGHILMEFJ0Z"); }
            6 => { self.s("__K"); self.simple(); }
            _ => self.any("23456789ACDEFGHIJKLMNOPQRSTUVWXYZ"),
        }
    }
    fn backref(&mut self) { let n = 1 + self.r.below(10); let d = self.r.below(n); self.o.push((b'0' + d as u8) as char); }
    pub fn unq_type(&mut self) {
        match self.r.below(10) {
            0..=2 => self.backref(),
            3 => self.template(),
            _ => self.simple(),
        }
    }
    pub fn unq_symbol(&mut self) {
        match self.r.below(12) {
            0 => self.backref(),
            1 | 2 => self.template(),
            3..=6 => self.op(),
            _ => self.simple(),
        }
    }
    pub fn template(&mut self) {
        if self.depth > 5 { return self.simple(); }
        self.depth += 1;
        self.s("?$");
        if self.r.one_in(4) { self.unq_symbol() } else { self.simple() }
        let n = self.r.below(4);
        for _ in 0..n { self.tparam(); }
        self.s("@");
        self.depth -= 1;
    }
    pub fn tparam(&mut self) {
        if self.bad() { return; }
        match self.r.below(20) {
            0 => { let t = self.r.pick(&["$S", "$$V", "$$$V", "$$Z"]); self.s(t); }
            1 => { self.s("$$Y"); self.fq_type(); }
            2 => { self.s("$$B"); self.ty(); }
            3 => { self.s("$$C"); self.any("ABCDQRST"); self.ty(); }
            4 => self.member_value(false),
            5 => { self.s("$E"); self.symbol(); }
            6 | 7 => { self.s("$0"); self.number(); }
            8 => {
                self.s("$M"); self.ty();
                match self.r.below(4) { 0 => self.member_value(true), 1 => self.ty(), 2 => self.fq_type(), _ => { self.s("0"); self.number(); } }
            }
            9 => { self.s("$$$V"); self.ty(); }
            _ => self.ty(),
        }
    }
    fn member_value(&mut self, auto: bool) {
        if !auto { self.s("$"); }
        match self.r.below(6) {
            0 | 1 => { self.s("1"); if !self.r.one_in(5) { self.symbol(); } }
            2 => { self.s("H"); if !self.r.one_in(5) { self.symbol(); } self.number(); }
            3 => { let c = self.r.ch("IJ"); self.o.push(c); if !self.r.one_in(5) { self.symbol(); } let n = if c == 'I' { 2 } else { 3 }; for _ in 0..n { self.number(); } }
            _ => { let c = self.r.ch("FG"); self.o.push(c); let n = if c == 'F' { 2 } else { 3 }; for _ in 0..n { self.number(); } }
        }
    }
    pub fn scope(&mut self) {
        match self.r.below(12) {
            0 | 1 => self.backref(),
            2 => self.template(),
            3 => { self.s("?A"); let n = self.r.pick(&["0x1234", "", "x", "0xdeadbeef", "é"]); self.s(n); self.s("@"); }
            4 => {
                self.s("?");
                if self.r.one_in(12) { self.number() } else { match self.r.below(3) { 0 => self.any("0123456789@"), 1 => { self.any("BCDEFGHIJKLMNOP"); self.any("ABCDP"); self.s("@"); } _ => { self.any("BCP"); self.s("@"); } } }
                self.s("?");
                self.symbol();
            }
            _ => self.simple(),
        }
    }
    pub fn chain(&mut self) {
        if self.depth > 7 { self.s("@"); return; }
        self.depth += 1;
        let n = match self.r.below(8) { 0..=3 => 0, 4 | 5 => 1, 6 => 2, _ => self.r.below(5) };
        for _ in 0..n { self.scope(); }
        if !self.bad() { self.s("@"); }
        self.depth -= 1;
    }
    pub fn fq_type(&mut self) { self.unq_type(); self.chain(); }
    pub fn fq_symbol(&mut self) { self.unq_symbol(); self.chain(); }
    pub fn ext(&mut self) { for c in ['E', 'I', 'F'] { if self.r.one_in(4) { self.o.push(c); } } }
    pub fn prim(&mut self) {
        match self.r.below(6) {
            0 | 1 => { self.s("_"); self.any("NJKWQSUPT"); }
            2 if self.r.one_in(3) => self.s("$$T"),
            _ => self.any("XDCEFGHIJKMNO"),
        }
        if self.r.one_in(200) { self.any("ABLPQRSTUVWYZ_abc019"); }
    }
    pub fn ty(&mut self) {
        if self.depth > 6 { return self.prim(); }
        if self.bad() { return; }
        self.depth += 1;
        match self.r.below(16) {
            0..=4 => self.prim(),
            5..=7 => { match self.r.below(4) { 0 => self.s("W4"), 1 => self.s("T"), 2 => self.s("U"), _ => self.s("V") } self.fq_type(); }
            8..=10 => {
                let p = self.r.pick(&["A", "P", "Q", "R", "S", "$$Q", "P", "Q"]);
                self.s(p); self.ext();
                if self.r.one_in(4) { self.any("ABCDQRST") } else { self.any("ABCD") }
                self.ty();
            }
            11 => { let p = self.r.pick(&["A", "P", "Q", "R", "S", "$$Q"]); self.s(p); if self.r.one_in(8) { self.ext(); } self.s("6"); self.func_type(false); }
            12 => { self.any("PQRS"); self.ext(); self.s("8"); self.fq_type(); self.func_type(true); }
            13 => { self.any("PQRS"); self.ext(); self.any("QRST"); self.fq_type(); self.ty(); }
            14 => {
                self.s("Y");
                if self.r.one_in(30) { self.number(); } else {
                    let n = self.r.below(3); self.o.push((b'0' + n as u8) as char);
                    for _ in 0..=n { self.unsigned(); }
                }
                if self.r.one_in(3) { self.s("$$C"); if self.r.one_in(8) { self.any("ABCDQRST") } else { self.any("ABCD") } }
                self.ty();
            }
            _ => match self.r.below(3) {
                0 => { self.s("$$A6"); self.func_type(false); }
                1 => { self.s("$$A8@@"); self.func_type(true); }
                _ => { self.s("?"); self.unq_type(); self.s("@"); }
            },
        }
        self.depth -= 1;
    }
    pub fn cc(&mut self) { if self.r.one_in(3) { self.any("ABCDEFGHIJKLMNOPQRSTUVWXYZ") } else { self.any("AEGIMQSW") } }
    pub fn func_type(&mut self, this: bool) {
        if this { self.ext(); if self.r.one_in(3) { self.any("GH"); } if self.r.one_in(6) { self.any("ABCDQRST") } else { self.any("ABCD") } }
        self.cc();
        if self.r.one_in(6) { self.s("@"); } else { if self.r.one_in(4) { self.s("?"); self.any("ABCD"); } self.ty(); }
        if self.r.one_in(4) { self.s("X"); } else {
            let n = match self.r.below(10) { 0..=6 => 1 + self.r.below(3), 7 | 8 => self.r.below(6), _ => self.r.below(13) };
            let mut refs = 0;
            for _ in 0..n {
                if refs > 0 && self.r.one_in(3) { let d = self.r.below(refs.min(10)); self.o.push((b'0' + d as u8) as char); }
                else { self.ty(); refs += 1; }
            }
            if self.r.one_in(5) { self.s("Z") } else { self.s("@") }
        }
        if self.r.one_in(5) { self.s("_E") } else { self.s("Z") }
    }
    pub fn func_enc(&mut self) {
        if self.r.one_in(8) { self.s("$$J0"); }
        let (c, this) = match self.r.below(8) {
            0 | 1 => { (self.r.ch("YZ"), false) }
            2..=4 => { let c = self.r.ch("ABEFIJMNQRUV"); (c, true) }
            5 => { (self.r.ch("CDKLST"), false) }
            6 => {
                let c = self.r.ch("GHOPWX"); self.o.push(c); self.number(); self.func_type(true); return;
            }
            _ => {
                match self.r.below(4) {
                    0 => { self.s("9"); return; }
                    1 => { self.s("$R"); self.any("012345"); for _ in 0..4 { self.number(); } }
                    _ => { self.s("$"); self.any("012345"); for _ in 0..2 { self.number(); } }
                }
                self.func_type(true); return;
            }
        };
        self.o.push(c);
        self.func_type(this);
    }
    pub fn var_enc(&mut self) {
        self.any("01234");
        let m = self.o.len();
        self.ty();
        let t = self.o[m..].chars().next();
        if matches!(t, Some('P' | 'Q' | 'R' | 'S' | 'A')) || self.o[m..].starts_with("$$Q") {
            self.ext();
            if self.r.one_in(3) { self.any("QRST"); self.fq_type(); } else { self.any("ABCDQRST"); }
        } else { if self.r.one_in(10) { self.ext(); } self.any("ABCD"); }
    }
    pub fn string(&mut self) {
        self.s("??_C@_");
        let wide = self.r.one_in(3);
        self.s(if wide { "1" } else { "0" });
        let unit = if wide { 2 } else { *self.r.pick(&[&1usize, &1, &2, &4]) };
        let n = match self.r.below(6) { 0..=3 => 1 + self.r.below(8), 4 => 1 + self.r.below(34), _ => 1 + self.r.below(70) };
        let bytes = n * unit;
        let mut claim = if self.r.one_in(4) { bytes + self.r.below(80) } else { bytes };
        if self.r.one_in(12) { claim = self.r.below(300); }
        // length
        if claim >= 1 && claim <= 10 { self.o.push((b'0' + (claim - 1) as u8) as char); }
        else { let mut h = String::new(); let mut c = claim; loop { h.insert(0, (b'A' + (c % 16) as u8) as char); c /= 16; if c == 0 { break; } } self.s(&h); self.s("@"); }
        let crc = self.r.pick(&["ABCDEFGH@", "@", "x@", "é@"]); self.s(crc);
        let zero = self.r.one_in(2);
        for i in 0..n {
            for k in 0..unit {
                let big = if wide { k == 0 } else { k > 0 };
                if (i + 1 == n && zero) || (big && !self.r.one_in(6)) { self.s("?$AA"); } else { self.strchar(); }
            }
        }
        if self.r.one_in(12) { self.strchar(); }
        if !self.bad() { self.s("@"); }
    }
    fn strchar(&mut self) {
        match self.r.below(10) {
            0 => { self.s("?"); self.any("0123456789"); }
            1 => { self.s("?"); self.any("abcdefghijklmnopqrstuvwxyz"); }
            2 => { self.s("?"); self.any("ABCDEFGHIJKLMNOPQRSTUVWXYZ"); }
            3 | 4 => { self.s("?$"); self.any("ABCDEFGHIJKLMNOP"); self.any("ABCDEFGHIJKLMNOP"); }
            5 => { let c = char::from(self.r.below(256) as u8); if c != '@' { self.o.push(c); } }
            _ => self.any("abcdefXYZ 0123\"'\\~"),
        }
        if self.r.one_in(300) { self.any("ĀZ?é日"); }
    }
    pub fn special(&mut self) {
        match self.r.below(13) {
            0 | 1 => { self.s("??_"); self.any("78S"); self.chain(); self.any("67"); self.any("ABCDQRST"); if self.r.one_in(2) { self.s("@") } else { self.fq_type(); if self.r.one_in(2) { self.s("@"); } } }
            2 => { self.s("??_R4"); self.chain(); self.any("67"); self.any("ABCD"); self.s("@"); }
            3 => { self.s("??_9"); self.chain(); self.s("$B"); self.unsigned(); self.s("A"); self.cc(); }
            4 => { let t = self.r.pick(&["??_B", "??__J"]); self.s(t); self.chain(); let t = self.r.pick(&["4IA", "5", "51"]); self.s(t); if self.r.one_in(2) { self.unsigned(); } }
            5 => { self.s("??_R0"); if self.r.one_in(2) { self.s("?"); self.any("ABCD"); } self.ty(); self.s("@8"); }
            6 => { self.s("??_R1"); self.unsigned(); self.number(); self.unsigned(); self.unsigned(); self.chain(); self.s("8"); }
            7 => { self.s("??_R"); self.any("23"); self.chain(); self.s("8"); }
            8 | 9 => {
                let t = self.r.pick(&["??__E", "??__F"]); self.s(t);
                if self.depth > 4 { self.simple(); self.s("@"); self.s("YAXXZ"); return; }
                self.depth += 1;
                match self.r.below(4) {
                    0 => { self.s("?"); self.fq_symbol(); self.var_enc(); self.s("@@"); self.func_enc(); }
                    1 => { self.fq_symbol(); self.var_enc(); self.s("@"); self.func_enc(); }
                    _ => { self.fq_symbol(); self.func_enc(); }
                }
                self.depth -= 1;
            }
            10 => { let t = self.r.pick(&["??_A", "??_P", "??_R5"]); self.s(t); self.ty(); }
            _ => self.string(),
        }
    }
    pub fn symbol(&mut self) {
        if self.depth > 5 { self.s("?x@@3HA"); return; }
        self.depth += 1;
        match self.r.below(16) {
            0 => self.special(),
            1 => { self.s("??@"); let n = self.r.pick(&["0123456789abcdef0123456789abcdef", "", "abc", "é?$A"]); self.s(n); self.s("@"); if self.r.one_in(3) { self.s("??_R4@"); } }
            2 if self.depth == 1 => { self.s("."); if self.r.one_in(2) { self.s("?"); self.any("ABCD"); } self.ty(); }
            3..=7 => { self.s("?"); self.fq_symbol(); self.var_enc(); }
            8 => { self.s("??"); let c = self.r.pick(&["0", "1", "B"]); self.s(c); if self.r.one_in(2) { self.chain() } else { self.scope(); self.chain(); } self.func_enc(); }
            9 if self.depth == 1 => self.special(),
            _ => { self.s("?"); self.fq_symbol(); self.func_enc(); }
        }
        self.depth -= 1;
    }
    pub fn top(mut self) -> String {
        self.symbol();
        if self.r.one_in(40) { self.any("@?A0é"); }
        self.o
    }
}

pub fn mutate(r: &mut Rng, s: &str) -> String {
    let mut v: Vec<char> = s.chars().collect();
    let n = 1 + r.below(3);
    for _ in 0..n {
        let c = r.ch("@@@?$_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789abzé日\u{80}\u{ff}\u{100}");
        match r.below(6) {
            0 if !v.is_empty() => { let i = r.below(v.len()); v.remove(i); }
            1 => { let i = r.below(v.len() + 1); v.insert(i, c); }
            2 if !v.is_empty() => { let i = r.below(v.len()); v[i] = c; }
            3 if !v.is_empty() => { let i = r.below(v.len()); v.truncate(i); }
            4 if v.len() > 1 => { let i = r.below(v.len()); let j = r.below(v.len()); v.swap(i, j); }
            _ if !v.is_empty() => { let i = r.below(v.len()); let j = i + r.below(v.len() - i); let w: Vec<char> = v[i..j].to_vec(); let k = r.below(v.len() + 1); for (x, c) in w.into_iter().enumerate() { v.insert(k + x, c); } }
            _ => {}
        }
    }
    v.into_iter().collect()
}
