// Bounded: nom's re_matches! (with the regex crate) against the contract its expression is given, on all short texts over the
// characters at which something can change, and on each single character there is.
use std::collections::BTreeSet;
use std::time::{Duration, Instant};
type Cls = Vec<(u32, u32)>;
fn has(k: &Cls, c: char) -> bool { k.iter().any(|&(a, b)| a <= c as u32 && c as u32 <= b) }
fn cls(s: &str) -> Cls { s.split(',').filter(|x| !x.is_empty()).map(|x| { let (a, b) = x.split_once('-').unwrap(); (a.parse().unwrap(), b.parse().unwrap()) }).collect() }
fn run(k: &Cls, s: &[char]) -> usize { s.iter().take_while(|c| has(k, **c)).count() }
// the number of characters taken (verus/prelude.rs: s_run0, s_run1, s_name, s_exact, s_esc)
fn want(kind: &str, p: &[&str], ks: &[Cls], s: &[char]) -> Option<usize> {
    match kind {
        "run0" => Some(run(&ks[0], s)),
        "run1" => Some(run(&ks[0], s)).filter(|n| *n > 0),
        "name" => if !s.is_empty() && has(&ks[0], s[0]) { Some(1 + run(&ks[1], &s[1..])) } else { None },
        "exact" => { let n: usize = p[0].parse().unwrap(); if s.len() >= n && s[..n].iter().all(|c| has(&ks[0], *c)) { Some(n) } else { None } }
        "esc" => {
            let e = char::from_u32(p[0].parse().unwrap()).unwrap();
            let q = char::from_u32(p[1].parse().unwrap()).unwrap();
            let mut n = 0;
            loop {
                if s.len() >= n + 2 && s[n] == e && (s[n + 1] == e || s[n + 1] == q) { n += 2 }
                else if s.len() > n && has(&ks[0], s[n]) { n += 1 }
                else { return Some(n) }
            }
        }
        _ => unreachable!(),
    }
}
fn real(re: &str, t: &str) -> Result<Option<usize>, String> {
    use nom::{error_position, types::CompleteStr};
    let r: nom::IResult<CompleteStr, Vec<CompleteStr>> = nom::re_matches!(CompleteStr(t), re);
    match r {
        Err(nom::Err::Error(_)) => Ok(None),
        Ok((rest, v)) if v.len() == 1 && t.starts_with(v[0].0) && &t[v[0].0.len()..] == rest.0 => Ok(Some(v[0].0.chars().count())),
        r => Err(format!("{:?}", r)),
    }
}
pub fn main(file: &str, secs: f64) {
    let lines: Vec<String> = std::fs::read_to_string(file).unwrap().lines().map(|l| l.to_string()).collect();
    let hs: Vec<_> = lines.into_iter().map(|l| std::thread::spawn(move || {
        let mut f = l.split('\t');
        let re: String = f.next().unwrap().split(',').filter(|x| !x.is_empty()).map(|x| char::from_u32(x.parse().unwrap()).unwrap()).collect();
        let kind = f.next().unwrap();
        let p: Vec<&str> = f.next().unwrap().split(',').collect();
        let ks: Vec<Cls> = f.map(cls).collect();
        let half = Instant::now() + Duration::from_secs_f64(secs / 2.0);
        let end = half + Duration::from_secs_f64(secs / 2.0);
        let (mut cases, mut wrong) = (0u64, None);
        let mut one = |s: &[char]| -> bool {
            let t: String = s.iter().collect();
            cases += 1;
            let got = real(&re, &t);
            let w = want(kind, &p, &ks, s);
            if got != Ok(w) { wrong = Some(format!("{:?}: contract {:?}, re_matches! {:?}", t, w, got)); }
            wrong.is_some()
        };
        let mut al = BTreeSet::new();
        for k in &ks { for &(a, b) in k { for x in [a.wrapping_sub(1), a, b, b + 1] { if let Some(c) = char::from_u32(x) { al.insert(c); } } } }
        if kind == "esc" { for x in &p { al.insert(char::from_u32(x.parse().unwrap()).unwrap()); } }
        al.extend(['\n', '\r', '\u{e9}', '\u{1F600}']);
        let al: Vec<char> = al.into_iter().collect();
        // all texts, shorter ones first
        let (mut len, mut whole, mut stop) = (0usize, 0i64, false);
        while !stop && len < 9 {
            let mut ix = vec![0usize; len];
            'all: loop {
                let s: Vec<char> = ix.iter().map(|k| al[*k]).collect();
                if one(&s) || Instant::now() > half { stop = true; break }
                let mut j = 0;
                loop {
                    if j == len { break 'all }
                    ix[j] += 1;
                    if ix[j] < al.len() { break }
                    ix[j] = 0;
                    j += 1;
                }
            }
            if !stop { whole = len as i64; len += 1; }
        }
        // each character by itself, and as the second
        let mut alone = 0;
        let first = ks.get(0).and_then(|k| k.iter().flat_map(|&(a, b)| [a, b]).filter_map(char::from_u32).next()).unwrap_or('a');
        for c in (0..=0x10ffffu32).filter_map(char::from_u32) {
            if one(&[c]) || kind == "name" && one(&[first, c]) || Instant::now() > end { break }
            alone += 1;
        }
        format!("{{\"cases\":{},\"single_characters\":{},\"alphabet\":{},\"all_texts_up_to\":{},\"wrong\":{}}}", cases, alone, al.len(), whole,
            wrong.map_or("null".into(), |x| crate::esc(&x)))
    })).collect();
    for h in hs { crate::emit(&h.join().unwrap()); }
}
