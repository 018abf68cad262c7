// Primitives and actions of the executable oracle (the generated part is oracle.rs).
pub use elm_parser::ast::binop::Assoc;
pub use elm_parser::ast::expression::core::{Expression, Function, FunctionDefinition, FunctionSignature, LetEntry};
pub use elm_parser::ast::statement::{ExportSet, Statement};
pub use elm_parser::ast::type_::core::Type;
use std::cell::Cell;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum IR { EQ, GT, GTE }
#[derive(Clone, Debug, PartialEq)]
pub enum SpacesContent { Spaces, Comment, NewLineAndSpaces }

pub struct Fuel;
thread_local! {
    pub static FUEL: Cell<u64> = Cell::new(0);
    pub static TOP: Cell<bool> = Cell::new(true);
    pub static GIVEN: Cell<u128> = Cell::new(0);
}
pub fn tick() {
    FUEL.with(|f| { if f.get() == 0 { std::panic::panic_any(Fuel) } f.set(f.get() - 1) })
}
// is function k, called here, one whose real implementation is taken as given?
pub fn given(k: usize) -> bool {
    if TOP.with(|t| t.replace(false)) { return false; }
    GIVEN.with(|g| g.get() >> k & 1 == 1)
}

type O<'a, T> = Option<(&'a str, T)>;
pub fn p_tag<'a>(i: &'a str, t: &str) -> O<'a, String> { if i.starts_with(t) { Some((&i[t.len()..], t.to_string())) } else { None } }
pub fn p_char(i: &str, c: char) -> O<char> { if i.starts_with(c) { Some((&i[c.len_utf8()..], c)) } else { None } }
pub fn p_any(i: &str) -> O<char> { i.chars().next().map(|c| (&i[c.len_utf8()..], c)) }
fn run<'a>(i: &'a str, mut f: impl FnMut(char) -> bool) -> (&'a str, String) {
    let mut n = 0;
    for c in i.chars() { if f(c) { n += c.len_utf8() } else { break } }
    (&i[n..], i[..n].to_string())
}
fn ne<'a>(r: (&'a str, String)) -> O<'a, String> { if r.1.is_empty() { None } else { Some(r) } }
pub fn p_isa<'a>(i: &'a str, cs: &str) -> O<'a, String> { ne(run(i, |c| cs.contains(c))) }
pub fn p_isa0<'a>(i: &'a str, cs: &str) -> O<'a, String> { Some(run(i, |c| cs.contains(c))) }
pub fn p_eof(i: &str) -> O<String> { if i.is_empty() { Some((i, String::new())) } else { None } }
pub fn p_until<'a>(i: &'a str, t: &str) -> O<'a, String> { i.find(t).map(|k| (&i[k + t.len()..], i[..k].to_string())) }
fn word(c: char) -> bool { c.is_ascii_alphanumeric() || c == '_' }
pub fn p_re<'a>(i: &'a str, p: &str) -> O<'a, String> {
    match p {
        "^([a-z][a-zA-Z0-9_]*)" => if i.starts_with(|c: char| c.is_ascii_lowercase()) { ne(run(i, word)) } else { None },
        "^([A-Z][a-zA-Z0-9_]*)" => if i.starts_with(|c: char| c.is_ascii_uppercase()) { ne(run(i, word)) } else { None },
        "^([-+\\\\-\\\\/*=.$<>:&|^?%#@~!]+)" => ne(run(i, |c| "+-\\/*=.$<>:&|^?%#@~!".contains(c))),
        "^(.*)" => Some(run(i, |c| c != '\n')),
        "^[0-9a-fA-F]{2}" => {
            let mut n = 0;
            let r = run(i, |c| { n += 1; n <= 2 && c.is_ascii_hexdigit() });
            if r.1.len() == 2 { Some(r) } else { None }
        }
        "^([^\"]*)" => Some(run(i, |c| c != '"')),
        "^(\\\\\\\\|\\\\\"|[^\"\\n])*" => {
            let b: Vec<char> = i.chars().collect();
            let mut k = 0;
            while k < b.len() {
                if b[k] == '\\' && k + 1 < b.len() && (b[k + 1] == '\\' || b[k + 1] == '"') { k += 2 }
                else if b[k] != '"' && b[k] != '\n' { k += 1 }
                else { break }
            }
            let n: usize = b[..k].iter().map(|c| c.len_utf8()).sum();
            Some((&i[n..], i[..n].to_string()))
        }
        _ => re_unknown(i, p),
    }
}
fn re_unknown<'a>(_: &'a str, p: &str) -> O<'a, String> { panic!("oracle: no such pattern {}", p) }

type PF<'p, 'a, T> = &'p mut dyn FnMut(&'a str) -> O<'a, T>;
fn many_from<'a, T>(mut i: &'a str, p: PF<'_, 'a, T>, mut acc: Vec<T>) -> O<'a, Vec<T>> {
    loop {
        match p(i) {
            Some((r, o)) if r.len() < i.len() => { acc.push(o); i = r }
            _ => return Some((i, acc)),
        }
    }
}
pub fn p_many0<'a, T>(i: &'a str, p: PF<'_, 'a, T>) -> O<'a, Vec<T>> { many_from(i, p, vec![]) }
pub fn p_many1<'a, T>(i: &'a str, p: PF<'_, 'a, T>) -> O<'a, Vec<T>> {
    let (r, o) = p(i)?;
    many_from(r, p, vec![o])
}
fn sep_from<'a, U, T>(mut i: &'a str, s: PF<'_, 'a, U>, p: PF<'_, 'a, T>, mut acc: Vec<T>) -> O<'a, Vec<T>> {
    loop {
        let i2 = match s(i) { Some((r, _)) => r, None => return Some((i, acc)) };
        if i2.len() == i.len() { return Some((i, acc)) }
        match p(i2) {
            Some((i3, o)) if i3.len() != i2.len() => { acc.push(o); i = i3 }
            _ => return Some((i, acc)),
        }
    }
}
pub fn p_seplist<'a, U, T>(i: &'a str, s: PF<'_, 'a, U>, p: PF<'_, 'a, T>) -> O<'a, Vec<T>> {
    match p(i) {
        None => Some((i, vec![])),
        Some((r, o)) => if r.len() == i.len() { None } else { sep_from(r, s, p, vec![o]) },
    }
}
pub fn p_seplist1<'a, U, T>(i: &'a str, s: PF<'_, 'a, U>, p: PF<'_, 'a, T>) -> O<'a, Vec<T>> {
    let (r, o) = p(i)?;
    if r.len() == i.len() { None } else { sep_from(r, s, p, vec![o]) }
}

// ---- actions
pub fn st<T: Into<String>>(v: T) -> String { v.into() }
pub fn v1<T>(t: T) -> Vec<T> { vec![t] }
pub fn vnil<T>() -> Vec<T> { vec![] }
pub fn bx<T>(t: T) -> Box<T> { Box::new(t) }
pub fn cl<T: Clone>(t: T) -> T where T: Clone { t }
pub fn snil() -> String { String::new() }
pub fn sl(s: &str) -> String { s.to_string() }
pub fn chs(c: char) -> String { c.to_string() }
pub fn cat(a: String, b: String) -> String { a + &b }
pub fn len32(s: String) -> u32 { s.len() as u32 }
pub fn is_reserved_word(s: String) -> bool {
    ["module", "where", "import", "as", "exposing", "type", "alias", "port", "if", "then", "else", "let", "in", "case", "of"].contains(&&s[..])
}
pub fn is_reserved_operator(s: String) -> bool { ["=", ".", "..", "->", "--", "|", ":"].contains(&&s[..]) }
pub fn layout_result(v: Vec<Vec<(SpacesContent, u32)>>, ind: u32, ir: IR) -> Option<u32> {
    let n = v.last().and_then(|p| p.last()).map(|q| q.1).unwrap_or(0);
    let nl = v.iter().any(|p| p.iter().any(|q| q.0 == SpacesContent::NewLineAndSpaces));
    if !nl || match ir { IR::EQ => n == ind, IR::GT => n > ind, IR::GTE => n >= ind } { Some(n) } else { None }
}
pub fn app_left(v: Vec<Expression>) -> Option<Expression> {
    let mut it = v.into_iter();
    let a = it.next()?;
    Some(it.fold(a, |f, x| Expression::Application(bx(f), bx(x))))
}
pub fn arrow_right(mut v: Vec<Type>) -> Option<Type> {
    let mut t = v.pop()?;
    while let Some(a) = v.pop() { t = Type::TypeApplication(bx(a), bx(t)) }
    Some(t)
}
pub fn hex_char(c: String) -> Option<char> { u8::from_str_radix(&c, 16).ok().map(|u| u as char) }
pub fn dec_i64(s: String) -> Option<i64> { s.parse().ok() }
