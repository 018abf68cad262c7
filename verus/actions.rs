// ------------------------------------------------------------------ what the reference grammar builds
pub open spec fn is_reserved_word(s: S) -> bool {
    s == sl("module") || s == sl("where") || s == sl("import") || s == sl("as") || s == sl("exposing") || s == sl("type")
    || s == sl("alias") || s == sl("port") || s == sl("if") || s == sl("then") || s == sl("else") || s == sl("let")
    || s == sl("in") || s == sl("case") || s == sl("of")
}
pub open spec fn is_reserved_operator(s: S) -> bool {
    s == sl("=") || s == sl(".") || s == sl("..") || s == sl("->") || s == sl("--") || s == sl("|") || s == sl(":")
}
// layout: v is the list of layout pieces, each a list of (kind, indentation)
pub open spec fn has_newline(v: L<L<(SpacesContent, u32)>>) -> bool {
    any_l(v, |p: L<(SpacesContent, u32)>| any_l(p, |q: (SpacesContent, u32)| q.0 == SpacesContent::NewLineAndSpaces))
}
pub open spec fn last_indent(v: L<L<(SpacesContent, u32)>>) -> u32 {
    match last_o(v) { Some(p) => match last_o(p) { Some(q) => q.1, None => 0u32 }, None => 0u32 }
}
pub open spec fn layout_result(v: L<L<(SpacesContent, u32)>>, ind: u32, ir: IR) -> Option<u32> {
    let n = last_indent(v);
    if !has_newline(v) || (match ir { IR::EQ => n == ind, IR::GT => n > ind, IR::GTE => n >= ind }) { Some(n) } else { None }
}
// ((v0 v1) v2) ... : the first k terms of v, applied to the left
pub open spec fn app_n(v: L<Expression>, k: int) -> Expression decreases k {
    if k <= 1 { v@[0] } else { Expression::Application(bx(app_n(v, k - 1)), bx(v@[k - 1])) }
}
pub open spec fn app_left(v: L<Expression>) -> Option<Expression> {
    if v@.len() == 0 { None } else { Some(app_n(v, v@.len() as int)) }
}
pub broadcast proof fn app_base(v: L<Expression>)
    ensures #![trigger app_left(v)] app_n(v, 1) == v@[0], app_n(v, 2) == Expression::Application(bx(v@[0]), bx(v@[1])),
{ reveal_with_fuel(app_n, 3); }
pub broadcast proof fn fold_app(v: L<Expression>, n: int, a: Expression, f: spec_fn(Expression, Expression) -> Expression, k: int)
    requires 1 <= n <= v@.len(), 0 <= k <= v@.len() - n, a == app_n(v, n),
        forall|x: Expression, y: Expression| #[trigger] f(x, y) == Expression::Application(bx(x), bx(y)),
    ensures #[trigger] fold_to(skip_l(v, n), a, f, k) == app_n(v, n + k),
    decreases k,
{
    if k > 0 {
        fold_app(v, n, a, f, k - 1);
        assert(skip_l(v, n)@[k - 1] == v@[n + k - 1]);
    }
}
// v_k -> (... -> v_last): the types from position k on, to the right
pub open spec fn arrow_n(v: L<Type>, k: int) -> Type decreases v@.len() - k {
    if k >= v@.len() - 1 { v@[v@.len() - 1] } else { Type::TypeApplication(bx(v@[k]), bx(arrow_n(v, k + 1))) }
}
pub open spec fn arrow_right(v: L<Type>) -> Option<Type> {
    if v@.len() == 0 { None } else { Some(arrow_n(v, 0)) }
}
pub broadcast proof fn arrow_base(v: L<Type>)
    ensures #![trigger arrow_right(v)] v@.len() >= 1 ==> arrow_n(v, v@.len() - 1) == v@[v@.len() - 1],
        v@.len() >= 2 ==> arrow_n(v, v@.len() - 2) == Type::TypeApplication(bx(v@[v@.len() - 2]), bx(v@[v@.len() - 1])),
{ reveal_with_fuel(arrow_n, 3); }
pub proof fn fold_arrow_any(v: L<Type>, u: L<Type>, a: Type, f: spec_fn(Type, Type) -> Type, k: int)
    requires u@.len() < v@.len(), forall|j: int| 0 <= j < u@.len() ==> u@[j] == v@[j], a == arrow_n(v, u@.len() as int),
        0 <= k <= u@.len(),
        forall|x: Type, y: Type| #[trigger] f(x, y) == Type::TypeApplication(bx(y), bx(x)),
    ensures fold_to(rev_l(u), a, f, k) == arrow_n(v, u@.len() - k),
    decreases k,
{
    if k > 0 {
        fold_arrow_any(v, u, a, f, k - 1);
        assert(rev_l(u)@[k - 1] == u@[u@.len() - k]);
    }
}
pub broadcast proof fn fold_arrow2(v: L<Type>, a: Type, f: spec_fn(Type, Type) -> Type, k: int)
    requires v@.len() >= 2, a == arrow_n(v, v@.len() - 2), 0 <= k <= v@.len() - 2,
        forall|x: Type, y: Type| #[trigger] f(x, y) == Type::TypeApplication(bx(y), bx(x)),
    ensures #[trigger] fold_to(rev_l(init_l(init_l(v))), a, f, k) == arrow_n(v, v@.len() - 2 - k),
{ fold_arrow_any(v, init_l(init_l(v)), a, f, k); }
pub broadcast proof fn fold_arrow1(v: L<Type>, a: Type, f: spec_fn(Type, Type) -> Type, k: int)
    requires v@.len() >= 1, a == arrow_n(v, v@.len() - 1), 0 <= k <= v@.len() - 1,
        forall|x: Type, y: Type| #[trigger] f(x, y) == Type::TypeApplication(bx(y), bx(x)),
    ensures #[trigger] fold_to(rev_l(init_l(v)), a, f, k) == arrow_n(v, v@.len() - 1 - k),
{ fold_arrow_any(v, init_l(v), a, f, k); }
pub broadcast group group_fold { app_base, arrow_base, fold_app, fold_arrow1, fold_arrow2 }

// numbers
pub open spec fn digit_val(c: char) -> int {
    let x = c as u32 as int;
    if 48 <= x <= 57 { x - 48 } else if 97 <= x <= 122 { x - 87 } else if 65 <= x <= 90 { x - 55 } else { 99 }
}
pub open spec fn num_val(s: Seq<char>, radix: int) -> Option<int> decreases s.len() {
    if s.len() == 0 { Some(0) } else {
        match num_val(s.subrange(0, s.len() - 1), radix) {
            Some(v) => if digit_val(s[s.len() - 1]) < radix { Some(v * radix + digit_val(s[s.len() - 1])) } else { None },
            None => None,
        }
    }
}
#[verifier::opaque]
pub open spec fn s_u8_radix(s: S, radix: u32) -> Result<u8, PErr> {
    let t = if s@.len() > 1 && s@[0] == '+' { s@.subrange(1, s@.len() as int) } else { s@ };
    match num_val(t, radix as int) {
        Some(v) => if t.len() > 0 && v <= 255 { Ok(v as u8) } else { Err(PErr) },
        None => Err(PErr),
    }
}
#[verifier::opaque]
pub open spec fn s_parse_i64(s: S) -> Result<i64, PErr> {
    let neg = s@.len() > 1 && s@[0] == '-';
    let t = if neg || (s@.len() > 1 && s@[0] == '+') { s@.subrange(1, s@.len() as int) } else { s@ };
    match num_val(t, 10) {
        Some(v) => {
            let x = if neg { -v } else { v };
            if t.len() > 0 && -0x8000_0000_0000_0000 <= x <= 0x7fff_ffff_ffff_ffff { Ok(x as i64) } else { Err(PErr) }
        },
        None => Err(PErr),
    }
}
pub open spec fn hex_char(c: S) -> Option<char> { match s_u8_radix(c, 16u32) { Ok(u) => Some(u as char), Err(_) => None } }
pub open spec fn dec_i64(s: S) -> Option<i64> { match s_parse_i64(s) { Ok(v) => Some(v), Err(_) => None } }
