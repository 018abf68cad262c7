// Differential search: the real parsers of /repo against the executable reference grammar.
mod entries;
mod gen;
mod oracle;
mod prim;
mod regexps;
use gen::*;
use prim::*;
use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

thread_local! { static HIST: std::cell::RefCell<Vec<(String, String, u32)>> = Default::default(); }
// what the process has written to its standard output and error so far
extern "C" { fn dup(a: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; }
static CAP: std::sync::OnceLock<(std::fs::File, std::fs::File)> = std::sync::OnceLock::new();
fn captured() -> Option<u64> {
    use std::io::Write;
    let _ = std::io::stdout().flush();
    CAP.get().map(|c| c.0.metadata().map(|m| m.len()).unwrap_or(0))
}
fn capture(path: &str) {
    use std::os::fd::{AsRawFd, FromRawFd};
    let f = std::fs::OpenOptions::new().create(true).append(true).open(path).unwrap();
    unsafe {
        let saved = std::fs::File::from_raw_fd(dup(1));
        dup2(f.as_raw_fd(), 1);
        dup2(f.as_raw_fd(), 2);
        let _ = CAP.set((f, saved));
    }
}
fn emit(l: &str) {
    use std::io::Write;
    match CAP.get() { Some(c) => { let _ = writeln!(&c.1, "{}", l); } None => println!("{}", l) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Res { Ok(usize, String), Err, Bad(String), Panic(String), NoSuffix }
// rest given as its length: it must be the tail of the input
pub fn conv<T: std::fmt::Debug>(i: &str, r: nom::IResult<nom::types::CompleteStr, T>) -> Res {
    match r {
        Ok((rest, t)) => if i.ends_with(rest.0) { Res::Ok(rest.0.len(), format!("{:?}", t)) } else { Res::NoSuffix },
        Err(nom::Err::Error(_)) => Res::Err,
        Err(nom::Err::Incomplete(_)) => Res::Bad("Incomplete".into()),
        Err(nom::Err::Failure(_)) => Res::Bad("Failure".into()),
    }
}
pub fn typed<'a, T>(r: nom::IResult<nom::types::CompleteStr<'a>, T>) -> Option<(&'a str, T)> {
    match r { Ok((rest, t)) => Some((rest.0, t)), Err(_) => None }
}
fn real(f: &str, i: &str, ind: u32, ir: IR) -> Res {
    match catch_unwind(AssertUnwindSafe(|| entries::real(f, i, ind, ir))) {
        Ok(r) => r,
        Err(e) => Res::Panic(e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("panic".into())),
    }
}
// None: out of fuel, or the real parts it uses panicked
fn want(f: &str, i: &str, ind: u32, ir: IR, given: u128) -> Option<Res> {
    FUEL.with(|x| x.set(20_000));
    TOP.with(|x| x.set(true));
    GIVEN.with(|x| x.set(given));
    catch_unwind(AssertUnwindSafe(|| match oracle::oracle(f, i, ind, ir) {
        Some((r, t)) => Res::Ok(r.len(), t),
        None => Res::Err,
    })).ok()
}
// what is wrong, if anything
fn check(f: &str, i: &str, ind: u32, ir: IR, given: u128, mode: &str) -> Option<(&'static str, Res, Res)> {
    let a = want(f, i, ind, ir, given)?;
    let b = real(f, i, ind, ir);
    match &b {
        Res::Panic(_) => return Some(("panic", a, b)),
        Res::Bad(_) => return Some(("bad", a, b)),
        Res::NoSuffix => return Some(("suffix", a, b)),
        _ => {}
    }
    if mode == "total" {
        if let Res::Ok(n, _) = &b { if *n == i.len() && !oracle::NULLABLE.contains(&f) { return Some(("nothing consumed", a, b)); } }
        return None;
    }
    if mode == "twice" {
        // other texts in between, then the same one again
        for (g, t, k) in HIST.with(|h| h.borrow().clone()) { real(&g, &t, k, ir); }
        let c = real(f, i, ind, ir);
        if b != c { return Some(("not repeatable", b, c)); }
        return None;
    }
    if mode == "effects" {
        if let Some(n) = captured() {
            real(f, i, ind, ir);
            if captured() != Some(n) { return Some(("output", Res::Err, Res::Bad("written to standard output or standard error".into()))); }
        }
        return None;
    }
    if a != b { return Some(("mismatch", a, b)); }
    None
}
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", c if (c as u32) < 32 || (c as u32) > 126 => {
            let mut b = [0u16; 2];
            for u in c.encode_utf16(&mut b) { o += &format!("\\u{:04x}", u) }
        } c => o.push(c) }
    }
    o + "\""
}
fn show(r: &Res) -> String {
    match r {
        Res::Ok(n, t) => format!("{{\"ok\":{},\"rest\":{}}}", esc(t), n),
        Res::Err => "{\"err\":true}".into(),
        Res::Bad(s) => format!("{{\"bad\":{}}}", esc(s)),
        Res::Panic(s) => format!("{{\"panic\":{}}}", esc(s)),
        Res::NoSuffix => "{\"nosuffix\":true}".into(),
    }
}
fn shrink(f: &str, text: &str, ind: u32, ir: IR, given: u128, mode: &str, kind: &'static str, until: Instant) -> (String, u32) {
    let mut t: Vec<char> = text.chars().collect();
    let mut ind = ind;
    let bad = |t: &[char], ind: u32| { let s: String = t.iter().collect(); matches!(check(f, &s, ind, ir, given, mode), Some((k, _, _)) if k == kind) };
    loop {
        let mut changed = false;
        for z in [0u32, 1, 2, 4] { if z < ind && bad(&t, z) { ind = z; changed = true; break; } }
        let mut n = t.len();
        while n >= 1 {
            let mut k = 0;
            while k + n <= t.len() {
                if Instant::now() > until { return (t.iter().collect(), ind); }
                let mut u = t.clone();
                u.drain(k..k + n);
                if bad(&u, ind) { t = u; changed = true; } else { k += 1 + (n / 8) }
            }
            n = if n > 16 { n * 2 / 3 } else { n - 1 };
        }
        // simpler tokens
        let mut k = 0;
        while k < t.len() {
            if Instant::now() > until { return (t.iter().collect(), ind); }
            let cls = |c: char| if c.is_ascii_alphanumeric() || c == '_' { 1 } else if "+-\\/*=.$<>:&|^?%#@~!".contains(c) { 2 } else if c == ' ' { 3 } else { 0 };
            let c = cls(t[k]);
            let mut e = k + 1;
            while c != 0 && e < t.len() && cls(t[e]) == c { e += 1 }
            if "([{".contains(t[k]) {
                let mut d = 0;
                for j in k..t.len() { if "([{".contains(t[j]) { d += 1 } if ")]}".contains(t[j]) { d -= 1; if d == 0 { e = j + 1; break; } } }
            }
            let tok: String = t[k..e].iter().collect();
            let tries: &[&str] = match c { 1 if t[k].is_ascii_uppercase() => &["A"], 1 if t[k].is_ascii_digit() => &["0"], 1 => &["a"], 2 => &["+"], 3 => &[" "], _ => if e > k + 1 { &["a", "()", "A"] } else { &["a", " "] } };
            let mut done = false;
            for r in tries {
                if *r == tok || (e == k + 1 && (c == 3)) { continue; }
                if e == k + 1 && c == 0 && (t[k] == 'a' || t[k] == ' ') { continue; }
                let mut u: Vec<char> = t[..k].to_vec();
                u.extend(r.chars());
                let l = u.len();
                u.extend(&t[e..]);
                // a single punctuation character may only become simpler, not longer
                if u.len() > t.len() || u == t { continue; }
                if bad(&u, ind) { t = u; k = l; done = true; if e - k.min(e) > 0 { changed = true } break; }
            }
            if !done { k = e }
        }
        if !changed { return (t.iter().collect(), ind); }
    }
}
struct Opt { entries: Vec<String>, targets: Vec<Option<usize>>, given: u128, mode: String, seed: u64, secs: f64, max: usize, log: Option<String>, threads: usize }
fn worker(o: &Opt, dict: &Dict, id: usize, cur: Arc<Mutex<(String, String, u32, Option<Instant>)>>, stats: Arc<Vec<AtomicU64>>, out: Arc<Mutex<HashSet<String>>>, start: Instant) {
    let mut n = id as u64;
    let end = start + Duration::from_secs_f64(o.secs);
    let mut log = o.log.as_ref().map(|p| std::fs::File::create(format!("{}.{}", p, id)).unwrap());
    let mut seen_ok: HashSet<u64> = HashSet::new();
    let mut early: Vec<(String, String, u32, IR, Res)> = vec![];
    while Instant::now() < end {
        let seed = o.seed.wrapping_mul(0x100000001b3).wrapping_add(n);
        n += o.threads as u64;
        let mut r = Rng(seed ^ 0xabcdef);
        r.next();
        let f = o.entries[r.below(o.entries.len())].clone();
        let target = o.targets[r.below(o.targets.len())];
        let ind = if r.below(60) == 0 { [u32::MAX, 255, 256, 65536][r.below(4)] } else { [0u32, 0, 0, 0, 1, 2, 3, 4, 8][r.below(9)] };
        let ir = [IR::EQ, IR::GT, IR::GTE][r.below(3)];
        FUEL.with(|x| x.set(1_000_000));
        TOP.with(|x| x.set(true));
        GIVEN.with(|x| x.set(0));
        let mut g = G::new(r.next(), dict, target);
        if catch_unwind(AssertUnwindSafe(|| oracle::generate(&f, &mut g, ind.min(600), ir))).is_err() { continue; }
        g.tail();
        g.mutate();
        let text = std::mem::take(&mut g.out);
        if text.len() > 4000 { continue; }
        let mut near = if g.wild && text.len() < 70 && o.mode == "full" && want(&f, &text, ind, ir, 0).is_some_and(|r| matches!(r, Res::Ok(..))) { gen::relayouts(&text, ind, &mut g.rng) } else { vec![] };
        near.push(text);
        for text in near {
        *cur.lock().unwrap() = (f.clone(), text.clone(), ind, Some(Instant::now()));
        if let Some(l) = log.as_mut() {
            use std::os::unix::fs::FileExt;
            let s = format!("{}\u{1}{}\u{1}{}\u{1}{}\u{2}", f, ind, ir as u32, text);
            let _ = l.write_all_at(s.as_bytes(), 0);
        }
        let w = check(&f, &text, ind, ir, o.given, &o.mode);
        if o.mode == "twice" {
            HIST.with(|h| { let mut h = h.borrow_mut(); if h.len() >= 3 { h.remove(0); } h.push((f.clone(), text.clone(), ind)); });
            // the results of the first calls, looked at again at the end
            if early.len() < 300 { early.push((f.clone(), text.clone(), ind, ir, real(&f, &text, ind, ir))); }
        }
        stats[0].fetch_add(1, Ordering::Relaxed);
        if let Some((kind, _, _)) = w {
            stats[1].fetch_add(1, Ordering::Relaxed);
            if out.lock().unwrap().len() < o.max {
                let (t, ind2) = shrink(&f, &text, ind, ir, o.given, &o.mode, kind, Instant::now() + Duration::from_secs(3));
                if let Some((kind, a, b)) = check(&f, &t, ind2, ir, o.given, &o.mode) {
                    let line = format!("{{\"kind\":{},\"entry\":{},\"ind\":{},\"ir\":{},\"text\":{},\"want\":{},\"got\":{}}}", esc(kind), esc(&f), ind2, ir as u32, esc(&t), show(&a), show(&b));
                    if out.lock().unwrap().insert(line.clone()) { emit(&format!("{}", line)); }
                }
            } else { cur.lock().unwrap().3 = None; return; }
        } else {
            use std::hash::{Hash, Hasher};
            if let Some(Res::Ok(_, t)) = want(&f, &text, ind, ir, 0) {
                let mut h = std::collections::hash_map::DefaultHasher::new();
                (f.as_str(), t.as_str()).hash(&mut h);
                if seen_ok.len() < 4_000_000 && seen_ok.insert(h.finish()) { stats[2].fetch_add(1, Ordering::Relaxed);
                    if stats[2].load(Ordering::Relaxed) % 997 == 1 && text.len() < 200 { emit(&format!("{{\"kind\":\"sample\",\"entry\":{},\"ind\":{},\"text\":{}}}", esc(&f), ind, esc(&text))); } }
            }
        }
        cur.lock().unwrap().3 = None;
        if Instant::now() > end { break; }
        }
    }
    for (f, t, ind, ir, b) in early {
        let c = real(&f, &t, ind, ir);
        if b != c && out.lock().unwrap().len() < o.max {
            out.lock().unwrap().insert(t.clone());
            emit(&format!("{{\"kind\":\"not repeatable\",\"entry\":{},\"ind\":{},\"ir\":{},\"text\":{},\"want\":{},\"got\":{}}}", esc(&f), ind, ir as u32, esc(&t), show(&b), show(&c)));
        } else if t.len() < 400 && stats[3].fetch_add(1, Ordering::Relaxed) < 60 {
            emit(&format!("{{\"kind\":\"again\",\"entry\":{},\"ind\":{},\"ir\":{},\"text\":{},\"got\":{}}}", esc(&f), ind, ir as u32, esc(&t), show(&b)));
        }
    }
    cur.lock().unwrap().3 = None;
}
fn main() {
    if std::env::var("HARNESS_PANICS").is_err() { std::panic::set_hook(Box::new(|_| {})); }
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).map(|j| a[j + 1].clone());
    let mode = get("--mode").unwrap_or("full".into());
    if let Some(p) = get("--capture") { capture(&p); }
    let mut given = 0u128;
    for g in get("--given").unwrap_or_default().split(',').filter(|s| !s.is_empty()) { if let Some(k) = fun_index(g) { given |= 1 << k } }
    if a[1] == "one" {
        // one case, text on standard input
        let mut t = String::new();
        use std::io::Read;
        std::io::stdin().read_to_string(&mut t).unwrap();
        let f = get("--entry").unwrap();
        let ind: u32 = get("--ind").unwrap_or("0".into()).parse().unwrap();
        let ir = [IR::EQ, IR::GT, IR::GTE][get("--ir").unwrap_or("2".into()).parse::<usize>().unwrap()];
        let stack: usize = get("--stack").and_then(|s| s.parse().ok()).unwrap_or(1024);
        let h = std::thread::Builder::new().stack_size(stack << 20).spawn(move || {
            if mode == "real" { emit(&format!("{}", show(&real(&f, &t, ind, ir)))); return; }
            let w = check(&f, &t, ind, ir, given, &mode);
            emit(&format!("{{\"want\":{},\"got\":{},\"wrong\":{}}}", want(&f, &t, ind, ir, given).map_or("null".into(), |r| show(&r)), show(&real(&f, &t, ind, ir)), w.map_or("null".into(), |x| esc(x.0))));
        }).unwrap();
        h.join().unwrap();
        return;
    }
    if a[1] == "regex" { return regexps::main(&get("--file").unwrap(), get("--secs").unwrap().parse().unwrap()); }
    let mut dict = Dict::default();
    if let Some(p) = get("--dict") {
        for l in std::fs::read_to_string(p).unwrap().split('\u{1}') {
            if let Some(s) = l.strip_prefix('s') { dict.strs.push(s.to_string()) }
            if let Some(s) = l.strip_prefix('n') { if let Ok(v) = s.parse() { dict.nums.push(v) } }
        }
    }
    if a[1] == "gen" {
        // the texts a search would use
        let target = fun_index(&get("--targets").unwrap_or_default());
        let f = get("--entries").unwrap();
        for k in 0..get("--max").unwrap().parse::<u64>().unwrap() {
            let mut g = G::new(k, &dict, target);
            FUEL.with(|x| x.set(1_000_000));
            oracle::generate(&f, &mut g, 0, IR::GTE);
            let x = (g.msite, g.mkind, g.wild);
            if get("--raw").is_none() { g.tail(); g.mutate(); }
            let r = want(&f, &g.out, 0, IR::GTE, 0).map_or("null".into(), |r| show(&r));
            println!("{:?} {} {}", x, esc(&g.out), r);
        }
        return;
    }
    let threads: usize = get("--threads").unwrap_or("8".into()).parse().unwrap();
    let o = Arc::new(Opt {
        entries: get("--entries").unwrap().split(',').map(|s| s.to_string()).collect(),
        targets: get("--targets").unwrap_or_default().split(',').map(|s| fun_index(s)).collect(),
        given, mode, seed: get("--seed").unwrap_or("1".into()).parse().unwrap(), secs: get("--secs").unwrap_or("5".into()).parse().unwrap(),
        max: get("--max").unwrap_or("40".into()).parse().unwrap(), log: get("--log"), threads,
    });
    let dict = Arc::new(dict);
    let stats = Arc::new((0..4).map(|_| AtomicU64::new(0)).collect::<Vec<_>>());
    let out = Arc::new(Mutex::new(HashSet::new()));
    let start = Instant::now();
    let mut hs = vec![];
    let mut curs = vec![];
    for id in 0..threads {
        let cur = Arc::new(Mutex::new((String::new(), String::new(), 0u32, None)));
        curs.push(cur.clone());
        let (o, dict, stats, out) = (o.clone(), dict.clone(), stats.clone(), out.clone());
        hs.push(std::thread::Builder::new().stack_size(256 << 20).spawn(move || worker(&o, &dict, id, cur, stats, out, start)).unwrap());
    }
    loop {
        if hs.iter().all(|h| h.is_finished()) { break; }
        if start.elapsed() > Duration::from_secs_f64(o.secs + 25.0) {
            emit(&format!("{{\"kind\":\"stats\",\"cases\":{},\"wrong\":{},\"distinct\":{}}}", stats[0].load(Ordering::Relaxed), stats[1].load(Ordering::Relaxed), stats[2].load(Ordering::Relaxed)));
            std::process::exit(0);
        }
        std::thread::sleep(Duration::from_millis(20));
        for c in &curs {
            let c = c.lock().unwrap();
            if let Some(t) = c.3 { if t.elapsed() > Duration::from_secs(20) {
                emit(&format!("{{\"kind\":\"hang\",\"entry\":{},\"ind\":{},\"ir\":2,\"text\":{},\"want\":null,\"got\":null}}", esc(&c.0), c.2, esc(&c.1)));
                emit(&format!("{{\"kind\":\"stats\",\"cases\":{},\"wrong\":{},\"distinct\":{}}}", stats[0].load(Ordering::Relaxed), stats[1].load(Ordering::Relaxed), stats[2].load(Ordering::Relaxed)));
                std::process::exit(3);
            } }
        }
    }
    emit(&format!("{{\"kind\":\"stats\",\"cases\":{},\"wrong\":{},\"distinct\":{}}}", stats[0].load(Ordering::Relaxed), stats[1].load(Ordering::Relaxed), stats[2].load(Ordering::Relaxed)));
}
