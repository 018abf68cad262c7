// Random texts: the state of the generators in oracle.rs, and mutations.
use crate::oracle::{DIST, FUNS, MIND, SITES};
use crate::prim::IR;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9e3779b97f4a7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn pick<'a>(&mut self, v: &'a [&'a str]) -> &'a str { v[self.below(v.len())] }
}
#[derive(Default, Clone)]
pub struct Dict { pub strs: Vec<String>, pub nums: Vec<u64> }
pub struct G<'d> {
    pub out: String, pub rng: Rng, pub depth: usize, pub maxdepth: usize, pub maxlen: usize,
    pub target: Option<usize>, pub inside: usize, pub dict: &'d Dict, pub stack: Vec<usize>, pub steps: usize, pub wild: bool,
    pub msite: usize, pub mkind: usize, pub minst: usize, pub inds: Vec<u32>, pub quiet: usize, pub been: usize, pub past: Vec<(usize, usize, usize)>, pub starts: Vec<usize>, pub rep: bool,
}
const LOWER: &[&str] = &["a", "b", "f", "x", "y", "z", "aB1_", "foo", "x0", "n", "inX", "ofa", "typeA", "portal", "letx", "as1", "if_", "casex", "thenB",
    "elsewhere", "infixl2", "effect", "infix", "infixr", "moduleA", "importx", "exposingA", "whereX", "aliasB", "port_", "let1", "in_", "aZ9", "zz_9A"];
const RES: &[&str] = &["module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else", "let", "in", "case", "of"];
const UPPER: &[&str] = &["A", "B", "Maybe", "List", "Foo1", "M_x", "Z9", "Abc", "AzZ_0"];
const OPS: &[&str] = &["+", "-", "*", "/", "::", "|>", "<|", "++", "==", "&&", "||", "<<", ">>", "^", "?", "%", "#", "@", "~", "!", "\\", "$", "&", "/=", "<=",
    "|.", "|=", ":=", "=:", "->>", "...", "=.", "|-", "-|", ".:", "::=", "--|", "<-", "=>"];
const RESOP: &[&str] = &["=", ".", "..", "->", "--", "|", ":"];
const ODD: &[&str] = &["é", "日", "😀", "\t", "\r", "\r\n", "\u{0}", "'", "\"", "\\", "\\\"", "\u{a0}", "٣", "ß", "Ä", "{-", "-}", "--", "\n", "\n\n", " ", "  ", ",", "(", ")", "[", "]", "{", "}", "_", "0", "1", "9", ".", ";"];
impl<'d> G<'d> {
    pub fn new(seed: u64, dict: &'d Dict, target: Option<usize>) -> Self {
        let mut rng = Rng(seed);
        rng.next();
        let wild = rng.below(if target.is_some() { 2 } else { 4 }) == 0;
        let md = if wild { 2 + rng.below(8) } else { 3 + rng.below(14) };
        let ml = if wild { [8, 20, 40][rng.below(3)] } else { [12, 30, 60, 120, 300][rng.below(5)] };
        // one place of the grammar that is used differently in this text
        let (mut msite, mkind, minst) = (usize::MAX, rng.below(64), rng.below(3));
        if rng.below(if target.is_some() { 2 } else { 5 }) == 0 {
            msite = rng.below(SITES.len());
            if let Some(t) = target { if rng.below(5) > 0 {
                let v: Vec<usize> = (0..SITES.len()).filter(|k| SITES[*k] == t).collect();
                if !v.is_empty() { msite = v[rng.below(v.len())] }
            } }
        }
        G { msite, mkind, minst, inds: vec![], past: vec![], starts: vec![], rep: rng.below(4) == 0, quiet: 0, been: 0, out: String::new(), rng, depth: 0, maxdepth: md, maxlen: ml, target, inside: 0, dict, stack: vec![], steps: 0, wild }
    }
    // is the place used differently here?  (everywhere, or now and then)
    fn at(&mut self, id: usize) -> bool { id == self.msite && self.steps < 3000 && (self.minst == 0 || self.rng.below(2) == 0) }
    pub fn m(&mut self, id: usize) -> usize { if self.at(id) { 1 + self.mkind } else { 0 } }
    pub fn other(&mut self, id: usize) -> bool { self.mkind % 4 == 0 && self.depth < 40 && self.at(id) }
    pub fn ind(&mut self, id: usize, n: u32) -> u32 {
        if self.inds.len() < 4000 { self.inds.push(n) }
        if self.mkind % 4 != 1 || !self.at(id) { return n; }
        match self.rng.below(6) { 0 => n.saturating_add(1), 1 => n.saturating_sub(1), 2 => 0, 3 => n.saturating_add(2), _ => { let k = self.rng.below(self.inds.len()); self.inds[k] } }
    }
    pub fn ir(&mut self, id: usize, ir: IR) -> IR { if self.mkind % 4 < 2 || !self.at(id) { ir } else { [IR::EQ, IR::GT, IR::GTE][self.rng.below(3)] } }
    // how often the j-th part of a sequence is written
    pub fn times(&mut self, m: usize, j: usize) -> usize {
        if m == 0 || j != (m - 1) / 4 % 8 { return 1; }
        match m % 4 { 0 => 0, 1 => 2, 2 => { self.junk(); 1 } _ => { let _ = crate::oracle::any(self); self.coin(2) as usize } }
    }
    pub fn cnt(&mut self, m: usize, n: usize) -> usize { match if m > 0 { m % 4 } else { 9 } { 0 => 0, 1 => n.max(2), 2 => n.max(1), _ => n } }
    pub fn seps(&mut self, m: usize, j: usize, c: usize) -> usize {
        let inner = j > 0 && j < c;
        match if m > 0 { m / 4 % 5 } else { 9 } { 0 if j == c => 1, 1 if j == 0 => 1, 2 if inner => 2, 3 => 0, 4 if inner => self.rng.below(3), _ => inner as usize }
    }
    fn junk(&mut self) {
        let t = match self.rng.below(7) { 0 => self.rng.pick(RES), 1 => self.rng.pick(OPS), 2 => self.rng.pick(RESOP), 3 => self.rng.pick(LOWER), 4 => self.rng.pick(UPPER), 5 => " ", _ => self.rng.pick(ODD) }.to_string();
        self.out += &t;
    }
    pub fn coin(&mut self, n: usize) -> bool { self.rng.below(n) == 0 }
    fn small(&self) -> bool { self.depth > self.maxdepth || self.out.len() > self.maxlen || self.steps > 3000 }
    pub fn enter(&mut self, k: usize) { self.steps += 1; self.depth += 1; self.stack.push(k); self.starts.push(self.out.len()); if self.target == Some(k) { self.inside += 1; self.been += 1 } }
    pub fn leave(&mut self) { self.depth -= 1; self.starts.pop(); let k = self.stack.pop(); if k.is_some() && self.target == k { self.inside -= 1 } }
    // the same text once more, in the place of another of the same kind
    pub fn again(&mut self, group: usize) -> bool {
        if !self.rep || self.past.is_empty() || self.steering() || self.rng.below(10) > 0 { return false; }
        let c: Vec<(usize, usize)> = self.past.iter().filter(|p| p.0 == group).map(|p| (p.1, p.2)).collect();
        if c.is_empty() { return false; }
        let (a, b) = c[self.rng.below(c.len())];
        match self.out.get(a..b).map(str::to_string) { Some(t) => { self.put(&t); true } None => false }
    }
    pub fn leave_as(&mut self, group: usize) {
        if let Some(a) = self.starts.last().copied() {
            let b = self.out.len();
            if self.rep && a < b && b - a < 60 && self.past.len() < 40 && self.out.is_char_boundary(a) { self.past.push((group, a, b)) }
        }
        self.leave()
    }
    pub fn put(&mut self, s: &str) -> u32 { self.out.push_str(s); 0 }
    // on the way to the target; given up when the text gets too long
    fn steering(&self) -> bool { self.target.is_some() && self.inside == 0 && self.quiet == 0 && self.steps < 600 && self.been < 1 + self.mkind % 2 }
    // only the part of a sequence that is nearest to the target leads there
    pub fn way(&mut self, ids: &[usize]) -> usize {
        if !self.steering() { return usize::MAX; }
        let m = ids.iter().map(|k| self.far(*k)).min().unwrap_or(99);
        if m >= 90 { return usize::MAX; }
        let c: Vec<usize> = (0..ids.len()).filter(|j| self.far(ids[*j]) == m).collect();
        c[self.rng.below(c.len())]
    }
    pub fn one(&mut self, c: usize) -> usize { if self.steering() { self.rng.below(c) } else { usize::MAX } }
    pub fn hush(&mut self, st: usize, j: usize) -> bool { if st != usize::MAX && st != j { self.quiet += 1; true } else { false } }
    pub fn speak(&mut self, h: bool) { if h { self.quiet -= 1 } }
    fn far(&self, id: usize) -> usize { match self.target { Some(t) => DIST[id][t] as usize, None => 99 } }
    pub fn alt(&mut self, ids: &[usize]) -> usize {
        let steer = self.steering();
        if steer && !self.coin(4) && self.depth < 60 {
            let m = ids.iter().map(|k| self.far(*k)).min().unwrap();
            if m < 90 {
                let c: Vec<usize> = (0..ids.len()).filter(|j| self.far(ids[*j]) <= m + (if self.small() { 0 } else { 0 })).collect();
                return c[self.rng.below(c.len())];
            }
        }
        if self.small() {
            let m = ids.iter().map(|k| MIND[*k]).min().unwrap();
            let c: Vec<usize> = (0..ids.len()).filter(|j| MIND[ids[*j]] == m).collect();
            return c[self.rng.below(c.len())];
        }
        self.rng.below(ids.len())
    }
    pub fn opt(&mut self, id: usize) -> bool {
        if self.steering() && self.depth < 60 && self.far(id) < 90 && self.coin(2) { return true; }
        if self.small() { return self.coin(8) && MIND[id] == 0; }
        self.coin(2)
    }
    pub fn count(&mut self, lo: usize, id: usize) -> usize {
        let steer = self.steering() && self.depth < 60 && self.far(id) < 90;
        if self.small() { return if lo == 0 && steer && self.coin(2) { 1 } else { lo } }
        let r = self.rng.below(40);
        let n = if r < 12 { 1 } else if r < 20 { 2 } else if r < 28 { 0 } else if r < 33 { 3 } else if r < 38 { 4 + self.rng.below(4) }
            else if !self.dict.nums.is_empty() { let k = self.rng.below(self.dict.nums.len()); (self.dict.nums[k] as usize).saturating_add(2).min(300) - self.rng.below(4).min(2) }
            else { 8 + self.rng.below(20) };
        n.max(lo)
    }
    pub fn isa(&mut self, cs: &str, lo: usize) -> u32 {
        let v: Vec<char> = cs.chars().collect();
        let n = lo.max(if self.coin(4) { 1 + self.rng.below(4) } else { 1 });
        for _ in 0..n { let k = self.rng.below(v.len()); let c = if v.len() > 1 && !self.coin(3) { v[0] } else { v[k] }; self.out.push(c) }
        0
    }
    pub fn ws(&mut self, lo: usize, cs: &str) -> u32 {
        if lo == 0 && !self.coin(3) { return 0; }
        if !self.coin(3) { self.out.push(' '); return 0; }
        let k = 1 + self.coin(3) as usize;
        self.isa(cs, k)
    }
    pub fn digits(&mut self) -> u32 {
        let n = match self.rng.below(12) { 0 => 18 + self.rng.below(4), 1 => 10, 2 => 5, x => 1 + x % 3 };
        if self.coin(20) && !self.dict.nums.is_empty() { let k = self.rng.below(self.dict.nums.len()); let s = self.dict.nums[k].wrapping_add(self.rng.below(3) as u64).wrapping_sub(1).to_string(); self.out += &s; return 0; }
        if self.coin(30) { let s = self.rng.pick(&["9223372036854775807", "9223372036854775808", "00", "007", "99999999999999999999", "4294967296", "2147483648", "256", "65536"]).to_string(); self.out += &s; return 0; }
        for _ in 0..n { let d = self.rng.below(10); self.out.push((b'0' + d as u8) as char) }
        0
    }
    fn dictstr(&mut self, ok: impl Fn(&str) -> bool) -> Option<String> {
        let v: Vec<&String> = self.dict.strs.iter().filter(|s| ok(s)).collect();
        if v.is_empty() { return None; }
        let k = self.rng.below(v.len());
        Some(v[k].clone())
    }
    fn oddchar(&mut self) -> String {
        if self.coin(5) { if let Some(s) = self.dictstr(|s| s.chars().count() == 1) { return s; } }
        match self.rng.below(6) {
            0 => char::from_u32(self.rng.below(0x110000) as u32).unwrap_or('x').to_string(),
            1 => char::from_u32(self.rng.below(0x100) as u32).unwrap_or('x').to_string(),
            _ => self.rng.pick(ODD).to_string(),
        }
    }
    pub fn anychar(&mut self) -> u32 {
        let s = if self.coin(2) { let k = self.rng.below(95); ((32 + k as u8) as char).to_string() } else { let t = self.oddchar(); t.chars().take(1).collect() };
        self.out += &s; 0
    }
    fn words(&mut self, nl: bool, quote: bool) -> String {
        let mut o = String::new();
        for _ in 0..[0, 1, 1, 2, 3, 6][self.rng.below(6)] {
            let t = match self.rng.below(8) { 0 => self.oddchar(), 1 => " ".into(), 2 => self.rng.pick(OPS).to_string(), 3 => self.rng.pick(RES).to_string(),
                4 => if self.coin(2) { "\\\\".to_string() } else { "\\n".to_string() }, 5 => if quote { "\"".into() } else { "\\\"".to_string() },
                6 => self.dictstr(|_| true).unwrap_or("d".into()), _ => self.rng.pick(LOWER).to_string() };
            if (nl || !t.contains('\n')) && (quote || !t.contains('"') || t == "\\\"") { o += &t }
        }
        o
    }
    pub fn until(&mut self, t: &str) -> u32 { let w = self.words(true, true).replace(t, ""); self.out += &w; if self.coin(30) { return 0; } self.put(t) }
    pub fn re(&mut self, p: &str) -> u32 {
        let s = match p {
            "^([a-z][a-zA-Z0-9_]*)" => {
                if self.coin(12) { match self.dictstr(|s| s.chars().next().map_or(false, |c| c.is_ascii_lowercase())) { Some(s) => { let t = self.rng.pick(&["", "", "x", "1", "_", "A"]).to_string(); s + &t } None => "q".into() } }
                else if self.coin(40) { self.rng.pick(RES).to_string() }
                else if self.coin(25) { let t = self.rng.pick(&["1", "x", "_", "A", "z", "0"]).to_string(); self.rng.pick(RES).to_string() + &t }
                else if self.coin(25) { self.family("nameInAFamilyOfLongNamesThatDifferAtTheEndOnly_0123456789_nameInAFamilyOfLongNamesThatDifferAtTheEndOnly", b"abcXYZ01_") }
                else if self.coin(25) { let n = 1 + self.rng.below(40); (0..n).map(|_| { let k = self.rng.below(63); b"abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789_"[if k >= 63 { 0 } else { k }] as char }).collect::<String>().trim_start_matches(|c: char| !c.is_ascii_lowercase()).to_string() + "k" }
                else { let m = if self.coin(3) { LOWER.len() } else { 6 }; let k = self.rng.below(m); LOWER[k].to_string() }
            }
            "^([A-Z][a-zA-Z0-9_]*)" => {
                if self.coin(12) { self.dictstr(|s| s.chars().next().map_or(false, |c| c.is_ascii_uppercase())).unwrap_or("Q".into()) }
                else if self.coin(25) { self.family("NameInAFamilyOfLongNamesThatDifferAtTheEndOnly_0123456789_NameInAFamilyOfLongNamesThatDifferAtTheEndOnly", b"abcXYZ01_") }
                else { self.rng.pick(UPPER).to_string() }
            }
            "^([-+\\\\-\\\\/*=.$<>:&|^?%#@~!]+)" => {
                if self.coin(10) { self.dictstr(|s| !s.is_empty() && s.chars().all(|c| "+-\\/*=.$<>:&|^?%#@~!".contains(c))).unwrap_or("+".into()) }
                else if self.coin(25) { self.rng.pick(RESOP).to_string() }
                else if self.coin(40) { self.family("<=>+*/&&|^?%#@~!$.-<=>+*/&&|^?%#@~!$.-", b"+-*/=<>:&|^") }
                else if self.coin(6) { let n = 1 + self.rng.below(4); (0..n).map(|_| { let k = self.rng.below(20); b"+-\\/*=.$<>:&|^?%#@~!"[k.min(19)] as char }).collect() }
                else { let m = if self.coin(3) { OPS.len() } else { 4 }; let k = self.rng.below(m); OPS[k].to_string() }
            }
            "^(.*)" => self.words(false, true),
            "^[0-9a-fA-F]{2}" => { let n = if self.coin(20) { 1 + self.rng.below(4) } else { 2 }; (0..n).map(|_| b"0123456789abcdefABCDEF"[self.rng.below(22)] as char).collect() }
            "^([^\"]*)" => self.words(true, false).replace('"', ""),
            _ => self.words(false, false),
        };
        self.out += &s;
        0
    }
    /// one of several long names that have a beginning in common
    fn family(&mut self, s: &str, last: &[u8]) -> String {
        let n = if self.coin(3) && !self.dict.nums.is_empty() { let k = self.rng.below(self.dict.nums.len()); (self.dict.nums[k] as usize).min(s.len()) } else { [8, 12, 16, 24, 32, 64, 90][self.rng.below(7)] };
        let mut o = s[..n.max(1).min(s.len())].to_string();
        for _ in 0..1 + self.rng.below(2) { let k = self.rng.below(last.len()); o.push(last[k] as char) }
        if self.coin(3) { o.push_str(&s[..3]) }
        o
    }
    fn width(&mut self) -> usize {
        if self.coin(15) && !self.dict.nums.is_empty() { let k = self.rng.below(self.dict.nums.len()); return (self.dict.nums[k] as usize).min(600) + self.rng.below(2); }
        match self.rng.below(20) { 0 => 8, 1 => 5, 2 => 9 + self.rng.below(12), 3 => 7, 4 => 6, x => x % 5 }
    }
    pub fn newline(&mut self, ind: u32) -> u32 {
        self.out.push('\n');
        let n = if self.coin(12) { self.width() } else { ind as usize };
        for _ in 0..n.min(700) { self.out.push(' ') }
        0
    }
    pub fn layout(&mut self, ind: u32, ir: IR) {
        if self.coin(40) { return; }
        if self.wild && self.coin(2) {
            // a line at, or next to, the column of another line or of the block
            let mut cols: Vec<usize> = self.out.split('\n').skip(1).map(|l| l.chars().take_while(|c| *c == ' ').count()).collect();
            cols.push(ind as usize);
            cols.push((ind as usize).min(600) + 2);
            let c = cols[self.rng.below(cols.len())];
            let n = match self.rng.below(6) { 0 => c.saturating_sub(1), 1 => c + 1, 2 => c + 2, _ => c };
            if self.coin(6) { self.out.push_str("\n "); let k = self.rng.below(8); for _ in 0..k { self.out.push(' ') } }
            self.out.push('\n');
            for _ in 0..n.min(700) { self.out.push(' ') }
            return;
        }
        let r = self.rng.below(20);
        if r < 11 { self.out.push(' '); return; }
        if r == 11 { self.out.push_str("  "); return; }
        if r == 12 { let n = 1 + self.width(); for _ in 0..n { self.out.push(' ') } return; }
        if r == 13 && self.coin(2) { let t = self.rng.pick(&["\t", "\r\n", " \t", "{- c -}", "\u{a0}", "\n\t"]).to_string(); self.out += &t; return; }
        for _ in 0..1 + self.coin(4) as usize {
            if self.coin(4) { let n = self.rng.below(3); for _ in 0..n { self.out.push(' ') } }
            if self.coin(5) { let c = self.words(false, true); self.out += "--"; self.out += &c; }
            self.out.push('\n');
            if self.coin(8) { self.out.push('\n') }
        }
        let d = match ir { IR::EQ => 0, IR::GT => 1 + self.rng.below(4) as i64, IR::GTE => [0, 0, 1, 2, 4][self.rng.below(5)] };
        let mut n = ind as i64 + d;
        if self.coin(8) { n += [-1, 1, -2, 2, -(d), -4][self.rng.below(6)] }
        if self.coin(20) { n = self.width() as i64 }
        for _ in 0..n.max(0).min(700) { self.out.push(' ') }
        if self.coin(20) { self.out += "-- c\n"; for _ in 0..n.max(0).min(700) { self.out.push(' ') } }
    }
    pub fn mutate(&mut self) {
        let n = [0, 0, 0, 1, 1, 2, 3][self.rng.below(7)];
        for _ in 0..n {
            let cs: Vec<usize> = self.out.char_indices().map(|(k, _)| k).chain(std::iter::once(self.out.len())).collect();
            let a = self.rng.below(cs.len());
            let len = match self.rng.below(4) { 0 => 1, 1 => 2, 2 => 4, _ => 1 + self.rng.below(8) };
            let b = (a + len).min(cs.len() - 1);
            let (pa, pb) = (cs[a], cs[b]);
            match self.rng.below(8) {
                0 | 1 => { self.out.replace_range(pa..pb, ""); }
                2 => { let t = self.out[pa..pb].to_string(); let at = cs[self.rng.below(cs.len())]; self.out.insert_str(at, &t); }
                3 => { let t = self.oddchar(); self.out.insert_str(pa, &t); }
                4 => { let t = match self.rng.below(6) { 0 => self.rng.pick(RES), 1 => self.rng.pick(OPS), 2 => self.rng.pick(RESOP), 3 => self.rng.pick(LOWER), 4 => self.rng.pick(UPPER), _ => self.rng.pick(ODD) }.to_string();
                       let t = if self.coin(2) { format!(" {} ", t) } else { t }; self.out.insert_str(pa, &t); }
                5 => { let t = match self.dictstr(|_| true) { Some(t) => t, None => "a".into() }; self.out.insert_str(pa, &t); }
                6 => { // change the width of one line's indentation
                    let ls: Vec<usize> = self.out.match_indices('\n').map(|(k, _)| k + 1).collect();
                    if !ls.is_empty() { let k = ls[self.rng.below(ls.len())]; if self.coin(2) { self.out.insert(k, ' ') } else if self.out[k..].starts_with(' ') { self.out.remove(k); } }
                }
                _ => { let t = self.oddchar(); self.out.replace_range(pa..pb, &t); }
            }
        }
    }
    pub fn tail(&mut self) {
        if self.coin(3) { let t = self.rng.pick(&[" ", "\n", "\n ", " a", "a", "A", "1", ".", ".a", "_", ")", ",", " + a", "+", "\n\n", "\na = 1\n", " -- c", " as", " in", "\n  a", "\n    b c", "|", "\"", "'", "-"]).to_string(); self.out += &t }
    }
}
pub fn fun_index(f: &str) -> Option<usize> { FUNS.iter().position(|x| *x == f) }

// the same text with one break of its layout elsewhere: a line at every column of interest, or joined to the one before
pub fn relayouts(text: &str, ind: u32, rng: &mut Rng) -> Vec<String> {
    let mut cols: Vec<usize> = vec![ind.min(40) as usize];
    for (k, l) in text.split('\n').enumerate() { if k > 0 { cols.push(l.chars().take_while(|c| *c == ' ').count()) } }
    let mut cs: Vec<usize> = cols.iter().flat_map(|c| [c.saturating_sub(1), *c, c + 1, c + 3]).collect();
    cs.sort(); cs.dedup();
    let mut spots: Vec<(usize, usize)> = vec![];
    let b = text.as_bytes();
    let mut k = 0;
    while k < b.len() {
        if b[k] == b' ' || b[k] == b'\n' {
            let mut e = k;
            while e < b.len() && (b[e] == b' ' || b[e] == b'\n') { e += 1 }
            spots.push((k, e));
            k = e;
        } else { k += 1 }
    }
    let mut out = vec![];
    for (a, e) in spots {
        for c in &cs { out.push(format!("{}\n{}{}", &text[..a], " ".repeat(*c), &text[e..])) }
        out.push(format!("{} {}", &text[..a], &text[e..]));
    }
    while out.len() > 60 { let k = rng.below(out.len()); out.swap_remove(k); }
    out
}
