// ------------------------------------------------------------------ the properties, as theorems about the contracts
// The functions of /repo are proved equal to the ref_* functions; the theorems p_* below say, property by property, what
// that amounts to.  None of them looks at the code: a change of the code fails a contract, not a theorem.
pub open spec fn word_char(c: char) -> bool { 'a' <= c <= 'z' || 'A' <= c <= 'Z' || '0' <= c <= '9' || c == '_' }
pub open spec fn lower_char(c: char) -> bool { 'a' <= c <= 'z' }
pub open spec fn upper_char(c: char) -> bool { 'A' <= c <= 'Z' }
pub open spec fn digit_char(c: char) -> bool { '0' <= c <= '9' }
pub open spec fn hex_digit(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn blank_char(c: char) -> bool { c == ' ' || c == '\t' || c == '\n' || c == '\r' }
pub open spec fn op_char(c: char) -> bool {
    c == '+' || c == '-' || c == '\\' || c == '/' || c == '*' || c == '=' || c == '.' || c == '$' || c == '<' || c == '>' || c == ':'
    || c == '&' || c == '|' || c == '^' || c == '?' || c == '%' || c == '#' || c == '@' || c == '~' || c == '!'
}
// positions from..to of s are the longest run of characters with property p that starts at from
pub open spec fn longest(s: Seq<char>, from: int, to: int, p: spec_fn(char) -> bool) -> bool {
    &&& from <= to <= s.len()
    &&& forall|j: int| from <= j < to ==> p(#[trigger] s[j])
    &&& to < s.len() ==> !p(s[to])
}
// the classes of the regular expressions, in plain words
pub broadcast proof fn cls_word(c: char) ensures #[trigger] in_cls(@word, c) == word_char(c) {}
pub broadcast proof fn cls_lower(c: char) ensures #[trigger] in_cls(@lower, c) == lower_char(c) {}
pub broadcast proof fn cls_upper(c: char) ensures #[trigger] in_cls(@upper, c) == upper_char(c) {}
pub broadcast proof fn cls_digit(c: char) ensures #[trigger] in_cls(@digit, c) == digit_char(c) {}
pub broadcast proof fn cls_hex(c: char) ensures #[trigger] in_cls(@hex, c) == hex_digit(c) {}
pub broadcast proof fn cls_oper(c: char) ensures #[trigger] in_cls(@oper, c) == op_char(c) {}
pub broadcast proof fn cls_space(c: char) ensures #[trigger] in_cls(@space, c) == (c == ' ') {}
pub broadcast proof fn cls_spnl(c: char) ensures #[trigger] in_cls(@spnl, c) == (c == ' ' || c == '\n') {}
pub broadcast proof fn cls_line(c: char) ensures #[trigger] in_cls(@line, c) == (c != '\n') {}
pub broadcast proof fn cls_comma(c: char) ensures #[trigger] in_cls(@comma, c) == (c == ',') {}
pub broadcast proof fn cls_noquote(c: char) ensures #[trigger] in_cls(@noquote, c) == (c != '"') {}
pub broadcast proof fn cls_strch(c: char) ensures #[trigger] in_cls(@strch, c) == (c != '"' && c != '\n') {}
pub broadcast proof fn cls_blank(c: char) ensures #[trigger] in_cls(@blank, c) == blank_char(c) {}
pub broadcast group group_cls {
    cls_word, cls_lower, cls_upper, cls_digit, cls_hex, cls_oper, cls_space, cls_spnl, cls_line, cls_comma, cls_noquote, cls_strch, cls_blank,
}
pub proof fn cut_all(i: S, k: int) requires 0 <= k <= i@.len() ensures i@ == take(i, k)@ + skip(i, k)@, take(i, k)@.len() == k
{ assert(i@ =~= take(i, k)@ + skip(i, k)@); }
pub proof fn run_unique(k: Cls, s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> in_cls(k, #[trigger] s[j]), n < s.len() ==> !in_cls(k, s[n])
    ensures run(k, s) == n
{ lemma_run(k, s); let m = run(k, s); if m < n { assert(in_cls(k, s[m])); } if n < m { assert(in_cls(k, s[n])); } }
pub proof fn cut_tail(s: Seq<char>) requires s.len() > 0 ensures s.subrange(1, s.len() as int) == s.drop_first() {}

// ---------------------------------------- C01: always a tree or an ordinary error, on a strictly shorter tail
pub open spec fn tree_or_error<T>(i: S, r: R<T>) -> bool {
    match r { Ok((x, _)) => x@.len() < i@.len() && exists|k: int| 0 < k <= i@.len() && x@ == #[trigger] i@.subrange(k, i@.len() as int), Err(e) => e == NErr::Error(Ctx) }
}
pub proof fn shorter<T>(i: S, r: R<T>) requires total(i, r, false), sfx(i, r) ensures tree_or_error(i, r)
{
    match r { Ok((x, _)) => {
        suffix_elim(x, i);
        let k = choose|k: int| 0 <= k <= i@.len() && x@ == #[trigger] i@.subrange(k, i@.len() as int);
        if k == 0 { assert(i@.subrange(0, i@.len() as int) =~= i@); }
    } _ => {} }
}
pub proof fn p_c01_file(i: S) ensures tree_or_error(i, ref_file(i)) { broadcast use {t_ref_file, sfx_file}; shorter(i, ref_file(i)); }
pub proof fn p_c01_statement(i: S) ensures tree_or_error(i, ref_statement_statement(i))
{ broadcast use {t_ref_statement_statement, sfx_statement_statement}; shorter(i, ref_statement_statement(i)); }
pub proof fn p_c01_expression(i: S, ind: u32) ensures tree_or_error(i, ref_expression_expression(i, ind))
{ broadcast use {t_ref_expression_expression, sfx_expression_expression}; shorter(i, ref_expression_expression(i, ind)); }
pub proof fn p_c01_type(i: S, ind: u32) ensures tree_or_error(i, ref_type__type_annotation(i, ind))
{ broadcast use {t_ref_type__type_annotation, sfx_type__type_annotation}; shorter(i, ref_type__type_annotation(i, ind)); }

// ---------------------------------------- lists: every element once, in order
// after an element at i: the elements v, each after its separator, and then neither a further one nor a separator with one
pub open spec fn more<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, v: Seq<T>, r: S) -> bool decreases v.len() {
    if v.len() == 0 { r == i && !(s(i) matches Ok((x, _)) && blen(x) != blen(i) && p(x) is Ok) }
    else { match s(i) { Ok((x, _)) => blen(x) != blen(i) && match p(x) { Ok((y, t)) => t == v[0] && more(s, p, y, v.drop_first(), r), Err(_) => false }, Err(_) => false } }
}
pub open spec fn listed<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, v: Seq<T>, r: S) -> bool {
    v.len() > 0 && match p(i) { Ok((y, t)) => t == v[0] && more(s, p, y, v.drop_first(), r), Err(_) => false }
}
pub open spec fn listed0<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, v: Seq<T>, r: S) -> bool {
    if v.len() == 0 { r == i && p(i) is Err } else { listed(s, p, i, v, r) }
}
pub open spec fn each<T>(p: spec_fn(S) -> R<T>, i: S, v: Seq<T>, r: S) -> bool decreases v.len() {
    if v.len() == 0 { r == i && p(i) is Err } else { match p(i) { Ok((y, t)) => t == v[0] && each(p, y, v.drop_first(), r), Err(_) => false } }
}
pub open spec fn solid<T>(p: spec_fn(S) -> R<T>) -> bool { forall|x: S| #![trigger p(x)] total(x, p(x), false) }
pub open spec fn loose<T>(p: spec_fn(S) -> R<T>) -> bool { forall|x: S| #![trigger p(x)] total(x, p(x), true) }
pub proof fn more_iff<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>, v: Seq<T>, r: S)
    requires loose(s), solid(p),
    ensures more(s, p, i, v, r) <==> sep_from(s, p, i, acc) == Ok::<(S, L<T>), NErr>((r, mk(acc@ + v))),
    decreases blen(i),
{
    assert(total(i, s(i), true));
    match s(i) {
        Ok((x, _)) => {
            assert(total(x, p(x), false));
            if blen(x) != blen(i) && p(x) is Ok {
                let y = p(x)->Ok_0.0; let t = p(x)->Ok_0.1;
                if v.len() > 0 {
                    more_iff(s, p, y, push(acc, t), v.drop_first(), r);
                    if t == v[0] { assert(push(acc, t)@ + v.drop_first() =~= acc@ + v); }
                    else { sep_keeps(s, p, y, push(acc, t)); if sep_from(s, p, i, acc) is Ok { assert((acc@ + v)[acc@.len() as int] == v[0]); assert(push(acc, t)@[acc@.len() as int] == t); } }
                } else { sep_keeps(s, p, y, push(acc, t)); }
            } else { if v.len() == 0 { assert(acc@ + v =~= acc@); assert(mk(acc@) == acc); } else { assert((acc@ + v).len() != acc@.len()); } }
        }
        _ => { if v.len() == 0 { assert(acc@ + v =~= acc@); } else { assert((acc@ + v).len() != acc@.len()); } }
    }
}
pub proof fn sep_keeps<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    ensures sep_from(s, p, i, acc) matches Ok((r, v)) ==> v@.len() >= acc@.len() && forall|k: int| 0 <= k < acc@.len() ==> v@[k] == #[trigger] acc@[k],
    decreases blen(i)
{
    match s(i) {
        Ok((i2, _)) => { if blen(i2) != blen(i) { match p(i2) {
            Ok((i3, o)) => { if blen(i3) != blen(i2) && blen(i3) < blen(i) { sep_keeps(s, p, i3, push(acc, o));
                assert(forall|k: int| 0 <= k < acc@.len() ==> push(acc, o)@[k] == #[trigger] acc@[k]); } }
            _ => {} } } }
        _ => {}
    }
}
pub proof fn listed_iff<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, v: L<T>, r: S)
    requires loose(s), solid(p),
    ensures listed(s, p, i, v@, r) <==> sp_seplist1(s, p, i) == Ok::<(S, L<T>), NErr>((r, v)),
        listed0(s, p, i, v@, r) <==> sp_seplist(s, p, i) == Ok::<(S, L<T>), NErr>((r, v)),
{
    assert(total(i, p(i), false));
    match p(i) { Ok((y, o)) => {
        sep_keeps(s, p, y, v1(o));
        if v@.len() > 0 {
            more_iff(s, p, y, v1(o), v@.drop_first(), r);
            if v@[0] == o { assert(v1(o)@ + v@.drop_first() =~= v@); assert(mk(v@) == v); }
            else { assert(v1(o)@[0] == o); }
        }
    } _ => { assert(v@.len() == 0 ==> v@ =~= vnil::<T>()@); } }
}
pub proof fn each_iff<T>(p: spec_fn(S) -> R<T>, i: S, acc: L<T>, v: Seq<T>, r: S)
    requires solid(p),
    ensures each(p, i, v, r) <==> many_from(p, i, acc) == Ok::<(S, L<T>), NErr>((r, mk(acc@ + v))),
    decreases blen(i),
{
    assert(total(i, p(i), false));
    match p(i) {
        Ok((y, t)) => {
            many_keeps(p, y, push(acc, t));
            if v.len() > 0 {
                each_iff(p, y, push(acc, t), v.drop_first(), r);
                if t == v[0] { assert(push(acc, t)@ + v.drop_first() =~= acc@ + v); }
                else { assert((acc@ + v)[acc@.len() as int] == v[0]); assert(push(acc, t)@[acc@.len() as int] == t); }
            }
        }
        _ => { if v.len() == 0 { assert(acc@ + v =~= acc@); assert(mk(acc@) == acc); } else { assert((acc@ + v).len() != acc@.len()); } }
    }
}
pub proof fn many_keeps<T>(p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    ensures many_from(p, i, acc) matches Ok((r, v)) ==> v@.len() >= acc@.len() && forall|k: int| 0 <= k < acc@.len() ==> v@[k] == #[trigger] acc@[k],
    decreases blen(i)
{
    match p(i) { Ok((r, o)) => { if blen(r) < blen(i) { many_keeps(p, r, push(acc, o));
        assert(forall|k: int| 0 <= k < acc@.len() ==> push(acc, o)@[k] == #[trigger] acc@[k]); } } _ => {} }
}
pub proof fn each0_iff<T>(p: spec_fn(S) -> R<T>, i: S, v: L<T>, r: S)
    requires solid(p),
    ensures each(p, i, v@, r) <==> sp_many0(p, i) == Ok::<(S, L<T>), NErr>((r, v)),
{ each_iff(p, i, vnil(), v@, r); assert(vnil::<T>()@ + v@ =~= v@); assert(mk(v@) == v); }
pub proof fn each1_iff<T>(p: spec_fn(S) -> R<T>, i: S, v: L<T>, r: S)
    requires solid(p),
    ensures (v@.len() > 0 && each(p, i, v@, r)) <==> sp_many1(p, i) == Ok::<(S, L<T>), NErr>((r, v)),
{
    match p(i) { Ok((y, o)) => {
        many_keeps(p, y, v1(o));
        if v@.len() > 0 {
            each_iff(p, y, v1(o), v@.drop_first(), r);
            if v@[0] == o { assert(v1(o)@ + v@.drop_first() =~= v@); assert(mk(v@) == v); } else { assert(v1(o)@[0] == o); }
        }
    } _ => {} }
}

// ---------------------------------------- C02: a file is its statements, blanks around them, and nothing else
pub open spec fn blanks(i: S) -> S { skip(i, run(@blank, i@)) }
pub open spec fn program_rest(i: S, v: Seq<Statement>) -> bool decreases v.len() {
    if v.len() == 0 { blanks(i)@.len() == 0 }
    else { blanks(i)@.len() < i@.len() && match ref_statement_statement(blanks(i)) { Ok((y, t)) => t == v[0] && program_rest(y, v.drop_first()), Err(_) => false } }
}
pub open spec fn program(i: S, v: Seq<Statement>) -> bool {
    v.len() > 0 && match ref_statement_statement(blanks(i)) { Ok((y, t)) => t == v[0] && program_rest(y, v.drop_first()), Err(_) => false }
}
pub open spec fn program_end(i: S, v: Seq<Statement>) -> S decreases v.len() {
    if v.len() == 0 { i } else { match ref_statement_statement(blanks(i)) { Ok((y, t)) => program_end(y, v.drop_first()), Err(_) => i } }
}
pub open spec fn f_blank() -> spec_fn(S) -> R<S> { |z: S| s_run0(z, @blank) }
pub open spec fn f_statement() -> spec_fn(S) -> R<Statement> { |z: S| ref_statement_statement(z) }
pub proof fn blanks_facts(i: S)
    ensures s_run0(i, @blank) matches Ok((x, _)) && x == blanks(i), blanks(i)@.len() <= i@.len(),
        blen(blanks(i)) <= blen(i), blen(blanks(i)) != blen(i) <==> blanks(i)@.len() < i@.len(),
        blanks(i)@.len() == 0 ==> ref_statement_statement(blanks(i)) is Err,
{
    broadcast use t_ref_statement_statement;
    reveal(s_run0); lemma_run(@blank, i@); lemma_cut(i, run(@blank, i@)); lemma_blen_zero(blanks(i)@);
    if run(@blank, i@) == 0 { assert(i@.subrange(0, i@.len() as int) =~= i@); }
}
pub proof fn program_fwd(i: S, v: Seq<Statement>, r: S)
    requires more(f_blank(), f_statement(), i, v, r), blanks(r)@.len() == 0,
    ensures program_rest(i, v), decreases v.len()
{ blanks_facts(i); if v.len() > 0 { let y = ref_statement_statement(blanks(i))->Ok_0.0; program_fwd(y, v.drop_first(), r); } }
pub proof fn program_bwd(i: S, v: Seq<Statement>)
    requires program_rest(i, v),
    ensures more(f_blank(), f_statement(), i, v, program_end(i, v)), blanks(program_end(i, v))@.len() == 0, decreases v.len()
{ blanks_facts(i); if v.len() > 0 { let y = ref_statement_statement(blanks(i))->Ok_0.0; program_bwd(y, v.drop_first()); } }
pub proof fn p_c02_file(i: S, v: L<Statement>)
    ensures program(i, v@) <==> (ref_file(i) is Ok && ref_file(i)->Ok_0.1 == v),
        ref_file(i) matches Ok((r, _)) ==> r@.len() == 0,
{
    broadcast use {t_ref_statement_statement, t_run0};
    eq_file(i); eq_statement_statements(i); reveal(s_eof);
    let s = f_blank(); let p = f_statement(); let b = blanks(i);
    blanks_facts(i);
    assert(loose(s)); assert(solid(p));
    let l = sp_seplist1(|z: S| s_run0(z, @blank), |z: S| ref_statement_statement(z), b);
    assert(l == sp_seplist1(s, p, b)) ;
    if program(i, v@) {
        let y = ref_statement_statement(b)->Ok_0.0;
        program_bwd(y, v@.drop_first());
        let r = program_end(y, v@.drop_first());
        listed_iff(s, p, b, v, r);
        blanks_facts(r);
    }
    if ref_file(i) is Ok && ref_file(i)->Ok_0.1 == v {
        let r = l->Ok_0.0;
        listed_iff(s, p, b, v, r);
        blanks_facts(r);
        let y = ref_statement_statement(b)->Ok_0.0;
        program_fwd(y, v@.drop_first(), r);
    }
}

// ---------------------------------------- C03: names
pub open spec fn reserved(v: Seq<char>) -> bool { is_reserved_word(mk(v)) }
pub proof fn name_facts(i: S, k1: Cls)
    ensures match s_name(i, k1, @word) {
        Ok((r, v)) => v@.len() > 0 && in_cls(k1, i@[0]) && i@ == v@ + r@ && longest(i@, 1, v@.len() as int, |c: char| word_char(c)),
        Err(_) => i@.len() == 0 || !in_cls(k1, i@[0]) },
{
    reveal(s_name); broadcast use cls_word;
    if i@.len() > 0 && in_cls(k1, i@[0]) {
        let t = i@.subrange(1, i@.len() as int);
        lemma_run(@word, t);
        let n = 1 + run(@word, t);
        cut_all(i, n);
        assert forall|j: int| 1 <= j < n implies word_char(#[trigger] i@[j]) by { assert(i@[j] == t[j - 1]); }
        if n < i@.len() { assert(i@[n] == t[n - 1]); }
    }
}
pub proof fn p_c03_lo_name(i: S)
    ensures match ref_helpers_lo_name(i) {
        Ok((r, v)) => i@ == v@ + r@ && (v == sl("_")
            || v@.len() > 0 && lower_char(i@[0]) && longest(i@, 1, v@.len() as int, |c: char| word_char(c)) && !reserved(v@)),
        Err(_) => i@.len() == 0 || i@[0] != '_' && (!lower_char(i@[0])
            || exists|n: int| longest(i@, 1, n, |c: char| word_char(c)) && reserved(#[trigger] i@.subrange(0, n))) },
{
    eq_helpers_lo_name(i); reveal(s_tag); broadcast use {cls_lower, cls_word};
    name_facts(i, @lower);
    reveal_strlit("_");
    if i@.len() > 0 && i@[0] == '_' { cut_all(i, 1); assert(i@.subrange(0, 1) =~= sl("_")@); }
    if is_prefix(sl("_")@, i@) { cut_all(i, 1); assert(i@[0] == i@.subrange(0, 1)[0]); }
    else if s_name(i, @lower, @word) is Ok {
        let v = s_name(i, @lower, @word)->Ok_0.1; let r = s_name(i, @lower, @word)->Ok_0.0;
        let n = v@.len() as int;
        assert((v@ + r@).subrange(0, n) =~= v@);
        assert(mk(i@.subrange(0, n)) == v);
    }
}
pub proof fn p_c03_up_name(i: S)
    ensures match ref_helpers_up_name(i) {
        Ok((r, v)) => i@ == v@ + r@ && v@.len() > 0 && upper_char(i@[0]) && longest(i@, 1, v@.len() as int, |c: char| word_char(c)),
        Err(_) => i@.len() == 0 || !upper_char(i@[0]) },
{ eq_helpers_up_name(i); broadcast use {cls_upper, cls_word}; name_facts(i, @upper); }
pub proof fn p_c03_type_variable(i: S)
    ensures match ref_type__type_variable(i) {
        Ok((r, t)) => t matches Type::TypeVariable(v) && i@ == v@ + r@ && v@.len() > 0 && lower_char(i@[0]) && longest(i@, 1, v@.len() as int, |c: char| word_char(c)),
        Err(_) => i@.len() == 0 || !lower_char(i@[0]) },
{ eq_type__type_variable(i); broadcast use {cls_lower, cls_word}; name_facts(i, @lower); }
// a dotted name: the parts in order, and the text is those parts with dots between them
pub open spec fn f_dot() -> spec_fn(S) -> R<char> { |z: S| s_char(z, '.') }
pub open spec fn f_up() -> spec_fn(S) -> R<S> { |z: S| ref_helpers_up_name(z) }
pub open spec fn dotted(v: Seq<S>) -> Seq<char> decreases v.len() {
    if v.len() == 0 { Seq::empty() } else { seq!['.'] + v[0]@ + dotted(v.drop_first()) }
}
pub proof fn dotted_more(i: S, v: Seq<S>, r: S) requires more(f_dot(), f_up(), i, v, r)
    ensures i@ == dotted(v) + r@, decreases v.len()
{
    if v.len() > 0 {
        let x = s_char(i, '.')->Ok_0.0; let y = ref_helpers_up_name(x)->Ok_0.0;
        dotted_more(y, v.drop_first(), r);
        p_c03_up_name(x);
        reveal(s_char); cut_all(i, 1);
        assert(i@.subrange(0, 1) =~= seq!['.']);
        assert(i@ =~= dotted(v) + r@);
    } else { assert(i@ =~= dotted(v) + r@); }
}
pub proof fn p_c03_dotted(i: S)
    ensures ref_helpers_module_name(i) matches Ok((r, v)) ==> listed(f_dot(), f_up(), i, v@, r) && i@ == v@[0]@ + dotted(v@.drop_first()) + r@,
{
    broadcast use {t_ref_helpers_up_name, t_char, group_leaf};
    eq_helpers_module_name(i);
    let (s, p) = (f_dot(), f_up());
    assert(sp_seplist1(|z: S| s_char(z, '.'), |z: S| ref_helpers_up_name(z), i) == sp_seplist1(s, p, i));
    if ref_helpers_module_name(i) is Ok {
        let r = ref_helpers_module_name(i)->Ok_0.0; let v = ref_helpers_module_name(i)->Ok_0.1;
        listed_iff(s, p, i, v, r);
        p_c03_up_name(i);
        let y = ref_helpers_up_name(i)->Ok_0.0;
        dotted_more(y, v@.drop_first(), r);
        assert(i@ =~= v@[0]@ + dotted(v@.drop_first()) + r@);
    }
}

// ---------------------------------------- C04: operators
pub proof fn run1_facts(i: S, k: Cls)
    ensures match s_run1(i, k) {
        Ok((r, v)) => v@.len() > 0 && i@ == v@ + r@ && longest(i@, 0, v@.len() as int, |c: char| in_cls(k, c)),
        Err(_) => i@.len() == 0 || !in_cls(k, i@[0]) },
{ reveal(s_run1); lemma_run(k, i@); let n = run(k, i@); cut_all(i, n); }
pub proof fn p_c04_operator(i: S)
    ensures match ref_helpers_operator(i) {
        Ok((r, v)) => v@.len() > 0 && i@ == v@ + r@ && longest(i@, 0, v@.len() as int, |c: char| op_char(c)) && !is_reserved_operator(v),
        Err(_) => i@.len() == 0 || !op_char(i@[0]) || exists|n: int| longest(i@, 0, n, |c: char| op_char(c)) && is_reserved_operator(#[trigger] take(i, n)) },
{
    eq_helpers_operator(i); broadcast use cls_oper;
    run1_facts(i, @oper);
    if s_run1(i, @oper) is Ok {
        let v = s_run1(i, @oper)->Ok_0.1; let r = s_run1(i, @oper)->Ok_0.0; let n = v@.len() as int;
        assert((v@ + r@).subrange(0, n) =~= v@);
        assert(take(i, n) == v);
    }
}
pub proof fn p_c04_in_parens(i: S)
    ensures ref_expression_variable_op(i) matches Ok((r, e)) ==> exists|v: S| e == Expression::Variable(#[trigger] v1(v)) && v@.len() > 0
        && i@ == seq!['('] + v@ + seq![')'] + r@ && ((forall|j: int| 0 <= j < v@.len() ==> op_char(#[trigger] v@[j])) && !is_reserved_operator(v) || forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] == ','),
{
    eq_expression_variable_op(i); broadcast use {cls_comma, cls_oper};
    if ref_expression_variable_op(i) is Ok {
        let x = s_char(i, '(')->Ok_0.0;
        p_c04_operator(x); run1_facts(x, @comma);
        let (y, v) = if ref_helpers_operator(x) is Ok { (ref_helpers_operator(x)->Ok_0.0, ref_helpers_operator(x)->Ok_0.1) } else { (s_run1(x, @comma)->Ok_0.0, s_run1(x, @comma)->Ok_0.1) };
        let r = ref_expression_variable_op(i)->Ok_0.0;
        reveal(s_char); cut_all(i, 1); cut_all(y, 1);
        assert(take(i, 1)@ =~= seq!['(']); assert(take(y, 1)@ =~= seq![')']);
        assert(i@ =~= seq!['('] + v@ + seq![')'] + r@);
        assert forall|j: int| 0 <= j < v@.len() implies #[trigger] v@[j] == x@[j] by {}
        assert(ref_expression_variable_op(i)->Ok_0.1 == Expression::Variable(v1(v)));
    }
}

// ---------------------------------------- C05: layout
// the end of a line: what is left after all characters up to the next newline
pub open spec fn after_line(s: Seq<char>) -> Seq<char> decreases s.len() { if s.len() > 0 && s[0] != '\n' { after_line(s.drop_first()) } else { s } }
pub open spec fn dashes(s: Seq<char>) -> bool { s.len() >= 2 && s[0] == '-' && s[1] == '-' }
// reading layout: spaces, newlines, comments.  nl: a newline has been read; n: the indentation so far, that is the number
// of spaces since the last newline (a run whose last line is a comment has indentation 0)
pub open spec fn lay(s: Seq<char>, nl: bool, n: nat) -> (Seq<char>, bool, nat) decreases s.len() {
    if s.len() > 0 && s[0] == ' ' { lay(s.drop_first(), nl, if nl { n + 1 } else { n }) }
    else if s.len() > 0 && s[0] == '\n' { lay(s.drop_first(), true, 0) }
    else if dashes(s) && after_line(s).len() < s.len() { lay(after_line(s), nl, 0) }
    else { (s, nl, n) }
}
pub open spec fn u32_of(n: nat) -> u32 { s_as_u32(n as usize) }
pub open spec fn related(n: u32, ind: u32, ir: IR) -> bool { match ir { IR::EQ => n == ind, IR::GT => n > ind, IR::GTE => n >= ind } }
pub open spec fn layout(i: S, ind: u32, ir: IR) -> R<u32> {
    let (rest, nl, n) = lay(i@, false, ind as nat);
    if rest.len() == i@.len() { err() } else if !nl || related(u32_of(n), ind, ir) { Ok((mk(rest), u32_of(n))) } else { err() }
}
pub proof fn after_line_run(s: Seq<char>)
    ensures after_line(s) == s.subrange(run(@line, s), s.len() as int), after_line(s).len() <= s.len(),
        after_line(s).len() == 0 || after_line(s)[0] == '\n',
    decreases s.len()
{
    broadcast use cls_line;
    reveal_with_fuel(run, 2);
    lemma_run(@line, s);
    if s.len() > 0 && s[0] != '\n' {
        let t = s.drop_first();
        assert(t =~= s.subrange(1, s.len() as int));
        after_line_run(t);
        lemma_run(@line, t);
        assert(t.subrange(run(@line, t), t.len() as int) =~= s.subrange(run(@line, s), s.len() as int));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub proof fn lay_spaces(s: Seq<char>, nl: bool, n: nat)
    ensures lay(s, nl, n) == lay(s.subrange(run(@space, s), s.len() as int), nl, if nl { n + run(@space, s) as nat } else { n }),
    decreases s.len()
{
    broadcast use cls_space;
    reveal_with_fuel(run, 2);
    lemma_run(@space, s);
    if s.len() > 0 && s[0] == ' ' {
        let t = s.drop_first();
        assert(t =~= s.subrange(1, s.len() as int));
        lay_spaces(t, nl, if nl { n + 1 } else { n });
        lemma_run(@space, t);
        assert(t.subrange(run(@space, t), t.len() as int) =~= s.subrange(run(@space, s), s.len() as int));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub proof fn lay_len(s: Seq<char>, nl: bool, n: nat) ensures lay(s, nl, n).0.len() <= s.len() decreases s.len()
{ after_line_run(s);
  if s.len() > 0 && s[0] == ' ' { lay_len(s.drop_first(), nl, if nl { n + 1 } else { n }); } else if s.len() > 0 && s[0] == '\n' { lay_len(s.drop_first(), true, 0); }
  else if dashes(s) && after_line(s).len() < s.len() { lay_len(after_line(s), nl, 0); } }
pub proof fn blen_spaces(s: Seq<char>) requires forall|j: int| 0 <= j < s.len() ==> #[trigger] s[j] == ' ' ensures blen_seq(s) == s.len() decreases s.len()
{ reveal_with_fuel(blen_seq, 2); if s.len() > 0 { let t = s.subrange(1, s.len() as int); assert forall|j: int| 0 <= j < t.len() implies #[trigger] t[j] == ' ' by { assert(t[j] == s[j + 1]); } blen_spaces(t); } }
pub open spec fn at_space(i: S) -> bool { i@.len() > 0 && i@[0] == ' ' }
pub type Pc = (SpacesContent, u32);
pub open spec fn is_nl(q: Pc) -> bool { q.0 == SpacesContent::NewLineAndSpaces }
pub open spec fn all_nl(w: L<Pc>) -> bool { forall|k: int| 0 <= k < w@.len() ==> is_nl(#[trigger] w@[k]) }
pub proof fn spaces_facts(i: S)
    ensures match ref_helpers_spaces(i) { Ok((x, v)) => x == skip(i, run(@space, i@)) && v@.len() == run(@space, i@) > 0 && len32(v) == u32_of(v@.len()), Err(_) => !at_space(i) },
        match ref_helpers_spaces0(i) { Ok((x, v)) => x == skip(i, run(@space, i@)) && v@.len() == run(@space, i@) && len32(v) == u32_of(v@.len()), Err(_) => false },
        run(@space, i@) <= i@.len(), !at_space(skip(i, run(@space, i@))), run(@space, i@) > 0 <==> at_space(i),
{
    broadcast use cls_space;
    eq_helpers_spaces(i); eq_helpers_spaces0(i); reveal(s_run1); lemma_run(@space, i@);
    let n = run(@space, i@); let v = take(i, n);
    assert(v@.len() == n);
    blen_spaces(v@); blen_spaces(snil()@);
    if n < i@.len() { assert(skip(i, n)@[0] == i@[n]); }
    if at_space(i) && n == 0 { assert(in_cls(@space, i@[0])); }
    if n == 0 { assert(skip(i, 0)@ =~= i@); assert(skip(i, 0) == i); assert(snil()@.len() == 0); }
}
pub proof fn comment_facts(i: S)
    ensures match ref_helpers_single_line_comment(i) {
        Ok((x, v)) => dashes(i@) && x@ == after_line(i@) && x@.len() < i@.len() && i@ == seq!['-', '-'] + v@ + x@ && (forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] != '\n'),
        Err(_) => !dashes(i@) },
{
    broadcast use cls_line;
    eq_helpers_single_line_comment(i); reveal(s_tag); reveal(s_run0); reveal_strlit("--");
    if dashes(i@) { assert(i@.subrange(0, 2) =~= sl("--")@); }
    if is_prefix(sl("--")@, i@) {
        assert(i@[0] == i@.subrange(0, 2)[0]); assert(i@[1] == i@.subrange(0, 2)[1]);
        let y = skip(i, 2);
        after_line_run(y@); cut_all(i, 2); lemma_run(@line, y@); cut_all(y, run(@line, y@));
        assert(take(i, 2)@ =~= seq!['-', '-']);
        assert(i@.drop_first().drop_first() =~= y@);
        reveal_with_fuel(after_line, 3);
    }
}
pub open spec fn l1(z: S, i: S, ind: u32, ir: IR) -> R<L<Pc>> { l_helpers_spaces_or_new_lines_and_indent_1(z, i, ind, ir) }
pub open spec fn l2(z: S, i: S, ind: u32, ir: IR) -> R<Pc> { l_helpers_spaces_or_new_lines_and_indent_2(z, i, ind, ir) }
// one newline and the spaces after it
pub proof fn l2_facts(z: S, i: S, ind: u32, ir: IR)
    ensures match l2(z, i, ind, ir) {
        Ok((x, q)) => z@.len() > 0 && z@[0] == '\n' && is_nl(q) && !at_space(x) && blen(x) < blen(z) && x@.len() < z@.len()
            && exists|m: nat| q.1 == u32_of(m) && forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(x@, true, m),
        Err(e) => !(z@.len() > 0 && z@[0] == '\n') && e is Error },
{
    broadcast use {tl_helpers_spaces_or_new_lines_and_indent_2};
    reveal(l_helpers_spaces_or_new_lines_and_indent_2); reveal(s_char);
    if z@.len() > 0 && z@[0] == '\n' {
        let y = skip(z, 1);
        assert(y@ =~= z@.drop_first());
        spaces_facts(y);
        let m = run(@space, y@) as nat;
        let (x, q) = l2(z, i, ind, ir)->Ok_0;
        assert forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(x@, true, m) by { lay_spaces(y@, true, 0); }
        assert(q.1 == u32_of(m));
    }
}
pub proof fn l2_many(z: S, acc: L<Pc>, i: S, ind: u32, ir: IR)
    requires all_nl(acc), acc@.len() > 0, !at_space(z),
    ensures match many_from(|x: S| l2(x, i, ind, ir), z, acc) {
        Ok((x, w)) => all_nl(w) && w@.len() > 0 && !at_space(x) && x@.len() <= z@.len() && blen(x) <= blen(z) && forall|n: nat| u32_of(n) == last_o(acc)->Some_0.1 ==>
            (exists|m: nat| last_o(w)->Some_0.1 == u32_of(m) && lay(z@, true, n) == #[trigger] lay(x@, true, m)),
        Err(_) => false },
    decreases blen(z)
{
    l2_facts(z, i, ind, ir);
    let p = |x: S| l2(x, i, ind, ir);
    let r = many_from(p, z, acc);
    match l2(z, i, ind, ir) {
        Ok((x, q)) => {
            l2_many(x, push(acc, q), i, ind, ir);
            let (y, w) = r->Ok_0;
            assert forall|n: nat| u32_of(n) == last_o(acc)->Some_0.1 implies exists|m: nat| last_o(w)->Some_0.1 == u32_of(m) && lay(z@, true, n) == #[trigger] lay(y@, true, m) by {
                let m = choose|m: nat| q.1 == u32_of(m) && forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(x@, true, m);
                assert(last_o(push(acc, q))->Some_0.1 == u32_of(m));
                assert(lay(z@, true, n) == lay(x@, true, m));
                let k = choose|k: nat| last_o(w)->Some_0.1 == u32_of(k) && lay(x@, true, m) == #[trigger] lay(y@, true, k);
                assert(lay(z@, true, n) == lay(y@, true, k));
            }
        }
        _ => {
            assert forall|n: nat| u32_of(n) == last_o(acc)->Some_0.1 implies exists|m: nat| last_o(acc)->Some_0.1 == u32_of(m) && lay(z@, true, n) == #[trigger] lay(z@, true, m) by {
                assert(lay(z@, true, n) == lay(z@, true, n));
            }
        }
    }
}
// a piece of layout that is not spaces: a comment, or newlines each with the spaces after it
pub proof fn l1_facts(z: S, i: S, ind: u32, ir: IR)
    requires !at_space(z),
    ensures match l1(z, i, ind, ir) {
        Ok((x, w)) => w@.len() > 0 && !at_space(x) && blen(x) < blen(z) && x@.len() < z@.len() && (all_nl(w) || (forall|k: int| 0 <= k < w@.len() ==> !is_nl(#[trigger] w@[k])))
            && exists|m: nat| last_o(w)->Some_0.1 == u32_of(m) && forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(x@, nl || all_nl(w), m),
        Err(e) => e is Error && forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == (z@, nl, n) },
{
    broadcast use {tl_helpers_spaces_or_new_lines_and_indent_1, tl_helpers_spaces_or_new_lines_and_indent_2, blen_many1, t_ref_helpers_single_line_comment};
    reveal(l_helpers_spaces_or_new_lines_and_indent_1);
    spaces_facts(z); comment_facts(z); l2_facts(z, i, ind, ir); after_line_run(z@);
    let p = |x: S| l2(x, i, ind, ir);
    let many = sp_many1(|z86: S| l_helpers_spaces_or_new_lines_and_indent_2(z86, i, ind, ir), z);
    assert(many == sp_many1(p, z)) by { broadcast use group_ext; }
    if ref_helpers_single_line_comment(z) is Ok {
        let x = ref_helpers_single_line_comment(z)->Ok_0.0;
        let w = v1((SpacesContent::Comment, 0u32));
        assert(!is_nl(w@[0])); assert(!all_nl(w));
        assert(u32_of(0) == 0u32);
        assert forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(x@, nl, 0) by {}
    } else if z@.len() > 0 && z@[0] == '\n' {
        let (y, q) = l2(z, i, ind, ir)->Ok_0;
        l2_many(y, v1(q), i, ind, ir);
        let (x, w) = many->Ok_0;
        let m = choose|m: nat| q.1 == u32_of(m) && forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(y@, true, m);
        assert(last_o(v1(q))->Some_0.1 == u32_of(m));
        let k = choose|k: nat| last_o(w)->Some_0.1 == u32_of(k) && lay(y@, true, m) == #[trigger] lay(x@, true, k);
        assert forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(x@, nl || all_nl(w), k) by {}
    }
}
pub proof fn any_push<T>(l: L<T>, t: T, p: spec_fn(T) -> bool) ensures any_l(push(l, t), p) == (any_l(l, p) || p(t))
{
    let m = push(l, t);
    if any_l(m, p) { let k = choose|k: int| 0 <= k < m@.len() && #[trigger] p(m@[k]); if k < l@.len() { assert(p(l@[k])); } }
    if any_l(l, p) { let k = choose|k: int| 0 <= k < l@.len() && #[trigger] p(l@[k]); assert(m@[k] == l@[k]); }
    if p(t) { assert(m@[l@.len() as int] == t); }
}
pub proof fn newline_push(v: L<L<Pc>>, w: L<Pc>)
    requires w@.len() > 0, all_nl(w) || (forall|k: int| 0 <= k < w@.len() ==> !is_nl(#[trigger] w@[k])),
    ensures has_newline(push(v, w)) == (has_newline(v) || all_nl(w)), last_indent(push(v, w)) == last_o(w)->Some_0.1,
{
    let f = |q: Pc| q.0 == SpacesContent::NewLineAndSpaces;
    let g = |p: L<Pc>| any_l(p, |q: Pc| q.0 == SpacesContent::NewLineAndSpaces);
    any_push(v, w, g);
    if any_l(w, f) { let k = choose|k: int| 0 <= k < w@.len() && #[trigger] f(w@[k]); assert(is_nl(w@[k])); }
    if all_nl(w) { assert(is_nl(w@[0])); assert(f(w@[0])); assert(any_l(w, f)); }
    assert(g(w) == any_l(w, f));
}
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn l1_many(z: S, v: L<L<Pc>>, i: S, ind: u32, ir: IR)
    requires !at_space(z),
    ensures match many_from(|x: S| l1(x, i, ind, ir), z, v) {
        Ok((x, u)) => x@.len() <= z@.len() && v@.len() <= u@.len() && forall|n: nat| #[trigger] u32_of(n) == last_indent(v) ==>
            (exists|m: nat| last_indent(u) == #[trigger] u32_of(m) && lay(z@, has_newline(v), n) == (x@, has_newline(u), m)),
        Err(_) => false },
    decreases blen(z)
{
    l1_facts(z, i, ind, ir);
    let p = |x: S| l1(x, i, ind, ir);
    match l1(z, i, ind, ir) {
        Ok((x, w)) => {
            newline_push(v, w);
            l1_many(x, push(v, w), i, ind, ir);
            let (y, u) = many_from(p, z, v)->Ok_0;
            let m = choose|m: nat| last_o(w)->Some_0.1 == u32_of(m) && forall|nl: bool, n: nat| #[trigger] lay(z@, nl, n) == lay(x@, nl || all_nl(w), m);
            assert forall|n: nat| #[trigger] u32_of(n) == last_indent(v) implies
                exists|k: nat| last_indent(u) == #[trigger] u32_of(k) && lay(z@, has_newline(v), n) == (y@, has_newline(u), k) by {
                assert(lay(z@, has_newline(v), n) == lay(x@, has_newline(push(v, w)), m));
                let k = choose|k: nat| last_indent(u) == #[trigger] u32_of(k) && lay(x@, has_newline(push(v, w)), m) == (y@, has_newline(u), k);
                assert(lay(z@, has_newline(v), n) == (y@, has_newline(u), k));
            }
        }
        _ => {
            assert forall|n: nat| #[trigger] u32_of(n) == last_indent(v) implies
                exists|k: nat| last_indent(v) == #[trigger] u32_of(k) && lay(z@, has_newline(v), n) == (z@, has_newline(v), k) by {
                assert(lay(z@, has_newline(v), n) == (z@, has_newline(v), n));
            }
        }
    }
}
pub proof fn no_newline(w: L<Pc>) requires w@.len() == 1, !is_nl(w@[0]) ensures !has_newline(v1(w)), last_indent(v1(w)) == w@[0].1,
{ newline_push(vnil(), w); assert(push(vnil(), w) == v1(w)); assert(!all_nl(w)); assert(!has_newline(vnil())); }
pub proof fn u32_of_u32(n: u32) ensures u32_of(n as nat) == n { assert((n as nat) % 0x1_0000_0000 == n as nat) by (nonlinear_arith) requires n <= 0xffff_ffff; }
// the layout parser is exactly that reading of the text
pub proof fn p_c05_layout(i: S, ind: u32, ir: IR)
    ensures ref_helpers_spaces_or_new_lines_and_indent(i, ind, ir) == layout(i, ind, ir),
{
    broadcast use {tl_helpers_spaces_or_new_lines_and_indent_1, blen_many1, t_ref_helpers_spaces};
    u_ref_helpers_spaces_or_new_lines_and_indent(i, ind, ir);
    reveal(def_ref_helpers_spaces_or_new_lines_and_indent);
    let p = |x: S| l1(x, i, ind, ir);
    let many = sp_many1(|z: S| l_helpers_spaces_or_new_lines_and_indent_1(z, i, ind, ir), i);
    assert(many == sp_many1(p, i)) by { broadcast use group_ext; }
    u32_of_u32(ind);
    spaces_facts(i);
    if at_space(i) {
        reveal(l_helpers_spaces_or_new_lines_and_indent_1);
        let x = skip(i, run(@space, i@)); let w = v1((SpacesContent::Spaces, ind));
        assert(l1(i, i, ind, ir) == Ok::<(S, L<Pc>), NErr>((x, w)));
        no_newline(w);
        lay_spaces(i@, false, ind as nat);
        l1_many(x, v1(w), i, ind, ir);
        let (y, u) = many->Ok_0;
        assert(many == Ok::<(S, L<L<Pc>>), NErr>((y, u)));
        let m = choose|m: nat| last_indent(u) == #[trigger] u32_of(m) && lay(x@, false, ind as nat) == (y@, has_newline(u), m);
        assert(mk(y@) == y);
    } else {
        l1_facts(i, i, ind, ir);
        match l1(i, i, ind, ir) {
            Ok((x, w)) => {
                newline_push(vnil(), w); assert(push(vnil(), w) == v1(w)); assert(!has_newline(vnil()));
                let m = choose|m: nat| last_o(w)->Some_0.1 == u32_of(m) && forall|nl: bool, n: nat| #[trigger] lay(i@, nl, n) == lay(x@, nl || all_nl(w), m);
                assert(lay(i@, false, ind as nat) == lay(x@, all_nl(w), m));
                l1_many(x, v1(w), i, ind, ir);
                let (y, u) = many->Ok_0;
                let k = choose|k: nat| last_indent(u) == #[trigger] u32_of(k) && lay(x@, has_newline(v1(w)), m) == (y@, has_newline(u), k);
                assert(mk(y@) == y);
            }
            _ => { assert(lay(i@, false, ind as nat) == (i@, false, ind as nat)); }
        }
    }
}
// without a newline nothing changes (save at the end of a text that ends in a comment); with one, the column decides
pub proof fn p_c05_block(i: S, ind: u32, ir: IR)
    ensures ref_helpers_spaces_or_new_lines_and_indent(i, ind, ir) matches Ok((r, n)) ==> {
        let (rest, nl, m) = lay(i@, false, ind as nat);
        r@ == rest && n == u32_of(m) && (nl ==> related(n, ind, ir)) && (nl && ir == IR::EQ ==> n == ind) },
{ p_c05_layout(i, ind, ir); }
// tabs, carriage returns and block comments end it
pub proof fn p_c05_end(s: Seq<char>, nl: bool, n: nat)
    requires s.len() == 0 || s[0] != ' ' && s[0] != '\n' && !dashes(s),
    ensures lay(s, nl, n) == (s, nl, n),
{}
// the text of a comment is of no consequence to layout (C11)
pub open spec fn no_nl(a: Seq<char>) -> bool { forall|j: int| 0 <= j < a.len() ==> #[trigger] a[j] != '\n' }
pub proof fn after_line_skip(a: Seq<char>, t: Seq<char>) requires no_nl(a), t.len() == 0 || t[0] == '\n' ensures after_line(a + t) == t decreases a.len()
{
    if a.len() > 0 { assert((a + t).drop_first() =~= a.drop_first() + t); assert((a + t)[0] == a[0]);
        assert forall|j: int| 0 <= j < a.drop_first().len() implies #[trigger] a.drop_first()[j] != '\n' by { assert(a.drop_first()[j] == a[j + 1]); }
        after_line_skip(a.drop_first(), t); }
    else { assert(a + t =~= t); }
}
pub proof fn p_c11_layout(x: Seq<char>, a: Seq<char>, t: Seq<char>, nl: bool, n: nat)
    requires no_nl(a), t.len() == 0 || t[0] == '\n', forall|j: int| 0 <= j < x.len() ==> #[trigger] x[j] == ' ' || x[j] == '\n',
    ensures lay(x + (seq!['-', '-'] + a + t), nl, n) == lay(x + (seq!['-', '-'] + t), nl, n),
    decreases x.len()
{
    let d = seq!['-', '-'];
    if x.len() > 0 {
        let y = x.drop_first();
        assert((x + (d + a + t)).drop_first() =~= y + (d + a + t)); assert((x + (d + t)).drop_first() =~= y + (d + t));
        assert((x + (d + a + t))[0] == x[0]); assert((x + (d + t))[0] == x[0]);
        assert forall|j: int| 0 <= j < y.len() implies #[trigger] y[j] == ' ' || y[j] == '\n' by { assert(y[j] == x[j + 1]); }
        p_c11_layout(y, a, t, nl, n + 1); p_c11_layout(y, a, t, nl, n); p_c11_layout(y, a, t, true, 0);
    } else {
        assert(d + a + t =~= (d + a) + t);
        assert forall|j: int| 0 <= j < (d + a).len() implies #[trigger] (d + a)[j] != '\n' by { if j >= 2 { assert((d + a)[j] == a[j - 2]); } }
        after_line_skip(d + a, t); after_line_skip(d, t);
        assert(x + (d + a + t) =~= d + a + t); assert(x + (d + t) =~= d + t);
        assert((d + a + t)[0] == '-' && (d + a + t)[1] == '-' && (d + t)[0] == '-' && (d + t)[1] == '-');
    }
}

// ---------------------------------------- vocabulary for the shapes of declarations and expressions
pub open spec fn is<T>(r: R<T>, y: S, t: T) -> bool { r == Ok::<(S, T), NErr>((y, t)) }
pub open spec fn text(x: S, t: Seq<char>, y: S) -> bool { x@ == t + y@ }
// layout, required or optional, from x to y; n is the indentation it leaves
pub open spec fn gap(x: S, ind: u32, ir: IR, y: S, n: u32) -> bool { is(ref_helpers_spaces_or_new_lines_and_indent(x, ind, ir), y, n) }
pub open spec fn gap0(x: S, ind: u32, y: S) -> bool { opt(ref_helpers_spaces_or_new_lines_and_indent(x, ind, IR::GTE), x) matches Ok((z, _)) && z == y }
pub open spec fn f_lay(ind: u32, ir: IR) -> spec_fn(S) -> R<u32> { |z: S| ref_helpers_spaces_or_new_lines_and_indent(z, ind, ir) }
pub open spec fn f_expr(ind: u32) -> spec_fn(S) -> R<Expression> { |z: S| ref_expression_expression(z, ind) }
pub open spec fn f_term(ind: u32) -> spec_fn(S) -> R<Expression> { |z: S| ref_expression_term(z, ind) }
pub open spec fn f_type(ind: u32) -> spec_fn(S) -> R<Type> { |z: S| ref_type__type_(z, ind) }
pub open spec fn comma(z: S, ind: u32) -> R<char> {
    match opt(ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GTE), z) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
        match opt(ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE), y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }
}
pub open spec fn f_comma(ind: u32) -> spec_fn(S) -> R<char> { |z: S| comma(z, ind) }
pub broadcast proof fn x_tag_text(i: S, t: S) ensures #[trigger] s_tag(i, t) matches Ok((x, v)) ==> i@ == t@ + x@ && v == t
{ reveal(s_tag); if is_prefix(t@, i@) { cut_all(i, t@.len() as int); } }
pub broadcast proof fn x_char_text(i: S, c: char) ensures #[trigger] s_char(i, c) matches Ok((x, v)) ==> i@ == seq![c] + x@ && v == c
{ reveal(s_char); if i@.len() > 0 { cut_all(i, 1); assert(take(i, 1)@ =~= seq![i@[0]]); } }
pub broadcast group group_text { x_tag_text, x_char_text }
pub broadcast proof fn t_comma(z: S, ind: u32) ensures total(z, #[trigger] comma(z, ind), false)
{ broadcast use {t_char, t_ref_helpers_spaces_or_new_lines_and_indent}; }

// ---------------------------------------- C06: let and case
pub open spec fn let_entry(z: S, n: u32) -> R<LetEntry> {
    match ref_expression_let_binding(z, n) { Ok(r) => Ok(r), Err(e) => match ref_expression_function_function(z, n) { Ok((x, f)) => Ok((x, LetEntry::LetFunction(f))), Err(e) => err() } }
}
pub open spec fn f_entry(n: u32) -> spec_fn(S) -> R<LetEntry> { |z: S| let_entry(z, n) }
pub open spec fn f_case(n: u32) -> spec_fn(S) -> R<(Expression, Expression)> { |z: S| ref_expression_case(z, n) }
// let <layout> bindings, all at column n <layout> in <layout> body
pub open spec fn let_shape(i: S, ind: u32, r: S, e: Expression, a: S, first: S, n: u32, bs: L<LetEntry>, b: S, c: S, d: S, at: S, body: Expression) -> bool {
    &&& text(i, seq!['l', 'e', 't'], a) && gap(a, ind, IR::GTE, first, n)
    &&& listed(f_lay(n, IR::EQ), f_entry(n), first, bs@, b)
    &&& (exists|k: u32| #[trigger] gap(b, ind, IR::GTE, c, k)) && text(c, seq!['i', 'n'], d) && (exists|k: u32| #[trigger] gap(d, ind, IR::GTE, at, k))
    &&& is(ref_expression_expression(at, ind), r, body)
    &&& e == Expression::Let(bs, bx(body))
}
pub proof fn p_c06_let(i: S, ind: u32)
    ensures ref_expression_let_expression(i, ind) matches Ok((r, e)) ==> exists|a: S, first: S, n: u32, bs: L<LetEntry>, b: S, c: S, d: S, at: S, body: Expression|
        #[trigger] let_shape(i, ind, r, e, a, first, n, bs, b, c, d, at, body),
{
    broadcast use {t_ref_helpers_spaces_or_new_lines_and_indent, t_ref_expression_let_binding, t_ref_expression_function_function, group_text};
    eq_expression_let_expression(i, ind);
    if ref_expression_let_expression(i, ind) is Ok {
        reveal_strlit("let"); reveal_strlit("in");
        assert(sl("let")@ =~= seq!['l', 'e', 't']); assert(sl("in")@ =~= seq!['i', 'n']);
        let (r, e) = ref_expression_let_expression(i, ind)->Ok_0;
        let a = s_tag(i, sl("let"))->Ok_0.0;
        let (first, n) = ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE)->Ok_0;
        let (b, bs) = ref_expression_let_bindings(first, n)->Ok_0;
        eq_expression_let_bindings(first, n);
        let (s, p) = (f_lay(n, IR::EQ), f_entry(n));
        assert(ref_expression_let_bindings(first, n) == sp_seplist1(s, p, first)) by { broadcast use group_ext; }
        assert(loose(s)); assert(solid(p));
        listed_iff(s, p, first, bs, b);
        let (c, k1) = ref_helpers_spaces_or_new_lines_and_indent(b, ind, IR::GTE)->Ok_0;
        let d = s_tag(c, sl("in"))->Ok_0.0;
        let (at, k2) = ref_helpers_spaces_or_new_lines_and_indent(d, ind, IR::GTE)->Ok_0;
        let body = ref_expression_expression(at, ind)->Ok_0.1;
        assert(gap(b, ind, IR::GTE, c, k1)); assert(gap(d, ind, IR::GTE, at, k2));
        assert(let_shape(i, ind, r, e, a, first, n, bs, b, c, d, at, body));
    }
}
// case <layout> subject <layout> of <layout> branches, all at column n
pub open spec fn case_shape(i: S, ind: u32, r: S, e: Expression, a: S, b: S, subject: Expression, c: S, d: S, f: S, first: S, n: u32, cs: L<(Expression, Expression)>) -> bool {
    &&& text(i, seq!['c', 'a', 's', 'e'], a) && (exists|k: u32| #[trigger] gap(a, ind, IR::GTE, b, k)) && is(ref_expression_expression(b, ind), c, subject)
    &&& (exists|k: u32| #[trigger] gap(c, ind, IR::GTE, d, k)) && text(d, seq!['o', 'f'], f) && gap(f, ind, IR::GTE, first, n)
    &&& listed(f_lay(n, IR::EQ), f_case(n), first, cs@, r)
    &&& e == Expression::Case(bx(subject), cs)
}
pub proof fn p_c06_case(i: S, ind: u32)
    ensures ref_expression_case_expression(i, ind) matches Ok((r, e)) ==> exists|a: S, b: S, subject: Expression, c: S, d: S, f: S, first: S, n: u32, cs: L<(Expression, Expression)>|
        #[trigger] case_shape(i, ind, r, e, a, b, subject, c, d, f, first, n, cs),
{
    broadcast use {t_ref_helpers_spaces_or_new_lines_and_indent, t_ref_expression_case, group_text};
    eq_expression_case_expression(i, ind);
    if ref_expression_case_expression(i, ind) is Ok {
        reveal_strlit("case"); reveal_strlit("of");
        assert(sl("case")@ =~= seq!['c', 'a', 's', 'e']); assert(sl("of")@ =~= seq!['o', 'f']);
        let (r, e) = ref_expression_case_expression(i, ind)->Ok_0;
        let a = s_tag(i, sl("case"))->Ok_0.0;
        let (b, k1) = ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE)->Ok_0;
        let (c, subject) = ref_expression_expression(b, ind)->Ok_0;
        let (d, k2) = ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GTE)->Ok_0;
        let f = s_tag(d, sl("of"))->Ok_0.0;
        let (first, n) = ref_helpers_spaces_or_new_lines_and_indent(f, ind, IR::GTE)->Ok_0;
        let cs = ref_expression_cases(first, n)->Ok_0.1;
        eq_expression_cases(first, n);
        let (s, p) = (f_lay(n, IR::EQ), f_case(n));
        assert(ref_expression_cases(first, n) == sp_seplist1(s, p, first)) by { broadcast use group_ext; }
        assert(loose(s)); assert(solid(p));
        listed_iff(s, p, first, cs, r);
        assert(gap(a, ind, IR::GTE, b, k1)); assert(gap(c, ind, IR::GTE, d, k2));
        assert(case_shape(i, ind, r, e, a, b, subject, c, d, f, first, n, cs));
    }
}
// a further binding or branch is only ever started at the column of the block: layout with a line break at another one does not separate
pub proof fn p_c06_column(z: S, n: u32)
    ensures ref_helpers_spaces_or_new_lines_and_indent(z, n, IR::EQ) matches Ok((r, m)) ==> lay(z@, false, n as nat).1 ==> u32_of(lay(z@, false, n as nat).2) == n,
{ p_c05_layout(z, n, IR::EQ); }
// one branch: pattern <layout> -> <layout> body, the body not left of the block
pub open spec fn branch_shape(i: S, n: u32, r: S, v: (Expression, Expression), a: S, b: S, c: S, at: S, k: u32) -> bool {
    &&& is(ref_expression_expression(i, n), a, v.0) && (exists|j: u32| #[trigger] gap(a, n, IR::GTE, b, j)) && text(b, seq!['-', '>'], c)
    &&& gap(c, n, IR::GTE, at, k) && is(ref_expression_expression(at, k), r, v.1)
}
pub proof fn p_c06_branch(i: S, n: u32)
    ensures ref_expression_case(i, n) matches Ok((r, v)) ==> exists|a: S, b: S, c: S, at: S, k: u32| #[trigger] branch_shape(i, n, r, v, a, b, c, at, k),
{
    broadcast use group_text;
    eq_expression_case(i, n);
    if ref_expression_case(i, n) is Ok {
        reveal_strlit("->"); assert(sl("->")@ =~= seq!['-', '>']);
        let (r, v) = ref_expression_case(i, n)->Ok_0;
        let (a, t) = ref_expression_expression(i, n)->Ok_0;
        let (b, j) = ref_helpers_spaces_or_new_lines_and_indent(a, n, IR::GTE)->Ok_0;
        let c = s_tag(b, sl("->"))->Ok_0.0;
        let (at, k) = ref_helpers_spaces_or_new_lines_and_indent(c, n, IR::GTE)->Ok_0;
        assert(gap(a, n, IR::GTE, b, j));
        assert(branch_shape(i, n, r, v, a, b, c, at, k));
    }
}
// a binding: target <layout> = <layout> body
pub open spec fn binding_shape(i: S, n: u32, r: S, v: LetEntry, target: Expression, a: S, b: S, c: S, at: S, k: u32, body: Expression) -> bool {
    &&& is(ref_expression_let_binding_target(i, n), a, target) && (exists|j: u32| #[trigger] gap(a, n, IR::GTE, b, j)) && text(b, seq!['='], c)
    &&& gap(c, n, IR::GTE, at, k) && is(ref_expression_expression(at, k), r, body)
    &&& v == LetEntry::LetBinding(target, body)
}
pub proof fn p_c06_binding(i: S, n: u32)
    ensures ref_expression_let_binding(i, n) matches Ok((r, v)) ==> exists|target: Expression, a: S, b: S, c: S, at: S, k: u32, body: Expression| #[trigger] binding_shape(i, n, r, v, target, a, b, c, at, k, body),
{
    broadcast use group_text;
    eq_expression_let_binding(i, n);
    if ref_expression_let_binding(i, n) is Ok {
        let (r, v) = ref_expression_let_binding(i, n)->Ok_0;
        let (a, target) = ref_expression_let_binding_target(i, n)->Ok_0;
        let (b, j) = ref_helpers_spaces_or_new_lines_and_indent(a, n, IR::GTE)->Ok_0;
        let c = s_char(b, '=')->Ok_0.0;
        let (at, k) = ref_helpers_spaces_or_new_lines_and_indent(c, n, IR::GTE)->Ok_0;
        let body = ref_expression_expression(at, k)->Ok_0.1;
        assert(gap(a, n, IR::GTE, b, j));
        assert(binding_shape(i, n, r, v, target, a, b, c, at, k, body));
    }
}

// ---------------------------------------- C07: application to the left
pub open spec fn left(v: Seq<Expression>) -> Expression decreases v.len() {
    if v.len() <= 1 { v[0] } else { Expression::Application(bx(left(v.drop_last())), bx(v.last())) }
}
pub proof fn app_is_left(v: L<Expression>, k: int) requires 1 <= k <= v@.len() ensures app_n(v, k) == left(v@.subrange(0, k)) decreases k
{
    let s = v@.subrange(0, k);
    if k > 1 { app_is_left(v, k - 1); assert(s.drop_last() =~= v@.subrange(0, k - 1)); assert(s.last() == v@[k - 1]); }
}
// terms separated by layout that is indented further than the block
pub open spec fn app_shape(i: S, ind: u32, r: S, e: Expression, v: Seq<Expression>) -> bool { listed(f_lay(ind, IR::GT), f_term(ind), i, v, r) && e == left(v) }
pub proof fn p_c07_application(i: S, ind: u32)
    ensures ref_expression_application_or_var(i, ind) matches Ok((r, e)) ==> exists|v: Seq<Expression>| #[trigger] app_shape(i, ind, r, e, v),
{
    broadcast use {t_ref_helpers_spaces_or_new_lines_and_indent, t_ref_expression_term};
    eq_expression_application_or_var(i, ind);
    if ref_expression_application_or_var(i, ind) is Ok {
        let (s, p) = (f_lay(ind, IR::GT), f_term(ind));
        let l = sp_seplist(|z: S| ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GT), |z: S| ref_expression_term(z, ind), i);
        assert(l == sp_seplist(s, p, i));
        let (r, v) = l->Ok_0;
        assert(loose(s)); assert(solid(p));
        listed_iff(s, p, i, v, r);
        app_is_left(v, v@.len() as int);
        assert(v@.subrange(0, v@.len() as int) =~= v@);
        let e = ref_expression_application_or_var(i, ind)->Ok_0.1;
        assert(r == ref_expression_application_or_var(i, ind)->Ok_0.0);
        assert(e == app_n(v, v@.len() as int));
        assert(e == left(v@));
        assert(app_shape(i, ind, r, e, v@));
    }
}
// nothing is lost, duplicated or reordered: the tree determines the terms, given their number
pub proof fn p_c07_faithful(u: Seq<Expression>, v: Seq<Expression>) requires u.len() == v.len(), u.len() > 0, left(u) == left(v) ensures u == v decreases u.len()
{ if u.len() > 1 { p_c07_faithful(u.drop_last(), v.drop_last()); assert(u =~= u.drop_last().push(u.last())); assert(v =~= v.drop_last().push(v.last())); } else { assert(u =~= v); } }

// ---------------------------------------- C08: arrows to the right
pub open spec fn right(v: Seq<Type>) -> Type decreases v.len() {
    if v.len() <= 1 { v[0] } else { Type::TypeApplication(bx(v[0]), bx(right(v.drop_first()))) }
}
pub proof fn arrow_is_right(v: L<Type>, k: int) requires 0 <= k < v@.len() ensures arrow_n(v, k) == right(v@.subrange(k, v@.len() as int)) decreases v@.len() - k
{
    let s = v@.subrange(k, v@.len() as int);
    if k < v@.len() - 1 { arrow_is_right(v, k + 1); assert(s.drop_first() =~= v@.subrange(k + 1, v@.len() as int)); }
}
pub open spec fn arrow(z: S) -> R<S> {
    match ref_helpers_spaces_and_newlines(z) { Err(e) => err(), Ok((x, _)) => match s_tag(x, sl("->")) { Err(e) => err(), Ok((y, t)) =>
        match ref_helpers_spaces_and_newlines(y) { Err(e) => err(), Ok((u, _)) => Ok((u, t)) } } }
}
pub open spec fn f_arrow() -> spec_fn(S) -> R<S> { |z: S| arrow(z) }
pub broadcast proof fn t_arrow(z: S) ensures total(z, #[trigger] arrow(z), true) { broadcast use {t_tag, t_ref_helpers_spaces_and_newlines}; }
pub open spec fn arrow_shape(i: S, ind: u32, r: S, t: Type, v: Seq<Type>) -> bool { listed(f_arrow(), f_type(ind), i, v, r) && t == right(v) }
pub proof fn p_c08_arrows(i: S, ind: u32)
    ensures ref_type__type_annotation(i, ind) matches Ok((r, t)) ==> exists|v: Seq<Type>| #[trigger] arrow_shape(i, ind, r, t, v),
{
    broadcast use {t_arrow, t_ref_type__type_};
    eq_type__type_annotation(i, ind);
    if ref_type__type_annotation(i, ind) is Ok {
        let (s, p) = (f_arrow(), f_type(ind));
        let l = sp_seplist1(|z2104: S| match ref_helpers_spaces_and_newlines(z2104) { Err(e2106) => err(), Ok((x2105, _)) => match s_tag(x2105, sl("->")) { Err(e2108) => err(), Ok((x2107, t)) => match ref_helpers_spaces_and_newlines(x2107) { Err(e2110) => err(), Ok((x2109, _)) => Ok((x2109, t)) } } }, |z2111: S| ref_type__type_(z2111, ind), i);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist1(s, p, i)) by { broadcast use {group_ext, t_tag, t_ref_helpers_spaces_and_newlines}; }
        let (r, v) = l->Ok_0;
        listed_iff(s, p, i, v, r);
        arrow_is_right(v, 0);
        assert(v@.subrange(0, v@.len() as int) =~= v@);
        assert(r == ref_type__type_annotation(i, ind)->Ok_0.0);
        assert(arrow_shape(i, ind, r, ref_type__type_annotation(i, ind)->Ok_0.1, v@));
    }
}
pub proof fn p_c08_faithful(u: Seq<Type>, v: Seq<Type>) requires u.len() == v.len(), u.len() > 0, right(u) == right(v) ensures u == v decreases u.len()
{ if u.len() > 1 { p_c08_faithful(u.drop_first(), v.drop_first()); assert(u =~= seq![u[0]] + u.drop_first()); assert(v =~= seq![v[0]] + v.drop_first()); } else { assert(u =~= v); } }

// ---------------------------------------- C10: literals keep their source text
pub open spec fn sign_len(s: Seq<char>) -> int { if s.len() > 0 && (s[0] == '+' || s[0] == '-') { 1 } else { 0 } }
pub open spec fn digits(s: Seq<char>, from: int, to: int) -> bool { from < to && longest(s, from, to, |c: char| digit_char(c)) }
// i is v followed by r
pub open spec fn front(i: S, v: S, r: S) -> bool { i@ == v@ + r@ }
pub proof fn digits_shift(i: S, k: int, x: S, n: int)
    requires 0 <= k <= i@.len(), x@ == i@.subrange(k, i@.len() as int), longest(x@, 0, n, |c: char| in_cls(@digit, c)),
    ensures longest(i@, k, k + n, |c: char| digit_char(c)),
{
    broadcast use cls_digit;
    assert forall|j: int| k <= j < k + n implies digit_char(#[trigger] i@[j]) by { assert(i@[j] == x@[j - k]); }
    if n < x@.len() { assert(i@[k + n] == x@[n]); }
}
// after an optional sign
pub open spec fn unsigned(i: S) -> S { skip(i, sign_len(i@)) }
pub proof fn sign_facts(i: S)
    ensures match s_char(i, '+') { Ok((x, c)) => sign_len(i@) == 1 && x == unsigned(i) && v1(c)@ == i@.subrange(0, 1),
        Err(_) => match s_char(i, '-') { Ok((x, c)) => sign_len(i@) == 1 && x == unsigned(i) && v1(c)@ == i@.subrange(0, 1), Err(_) => sign_len(i@) == 0 && unsigned(i) == i } },
{ reveal(s_char); if i@.len() > 0 { assert(v1(i@[0])@ =~= i@.subrange(0, 1)); } assert(skip(i, 0)@ =~= i@); assert(skip(i, 0) == i); }
pub proof fn p_c10_integer(i: S)
    ensures match ref_expression_integer_integer(i) {
        Ok((r, e)) => e matches Expression::Integer(v) && front(i, v, r) && digits(i@, sign_len(i@), v@.len() as int),
        Err(_) => sign_len(i@) == i@.len() || !digit_char(i@[sign_len(i@)]) },
{
    broadcast use cls_digit;
    eq_expression_integer_integer(i); sign_facts(i);
    let x = unsigned(i); let k = sign_len(i@);
    run1_facts(x, @digit); cut_all(i, k);
    if s_run1(x, @digit) is Ok {
        let (r, a) = s_run1(x, @digit)->Ok_0;
        let v = cat(take(i, k), a);
        assert(i@ =~= v@ + r@);
        digits_shift(i, k, x, a@.len() as int);
        let e = ref_expression_integer_integer(i)->Ok_0.1;
        let u = e->Integer_0;
        assert(u@ =~= v@);
    } else if x@.len() > 0 { assert(x@[0] == i@[k]); }
}
pub open spec fn float_at(s: Seq<char>, k: int, m: int, n: int) -> bool { digits(s, k, m) && m < s.len() && s[m] == '.' && digits(s, m + 1, n) }
#[verifier::spinoff_prover] #[verifier::rlimit(60)]
pub proof fn p_c10_float(i: S)
    ensures match ref_expression_float_float(i) {
        Ok((r, e)) => e matches Expression::Float(v) && front(i, v, r) && exists|m: int| #[trigger] float_at(i@, sign_len(i@), m, v@.len() as int),
        Err(_) => forall|m: int, n: int| !#[trigger] float_at(i@, sign_len(i@), m, n) },
{
    broadcast use {cls_digit, group_text};
    eq_expression_float_float(i); sign_facts(i); reveal_strlit(".");
    let x = unsigned(i); let k = sign_len(i@);
    run1_facts(x, @digit); cut_all(i, k);
    if s_run1(x, @digit) is Ok {
        let (y, a) = s_run1(x, @digit)->Ok_0;
        let m = k + a@.len();
        digits_shift(i, k, x, a@.len() as int);
        assert(y@ =~= i@.subrange(m, i@.len() as int));
        if s_char(y, '.') is Ok {
            let z = s_char(y, '.')->Ok_0.0;
            run1_facts(z, @digit);
            assert(z@ =~= i@.subrange(m + 1, i@.len() as int));
            assert(i@[m] == y@[0]);
            if s_run1(z, @digit) is Ok {
                let (r, b) = s_run1(z, @digit)->Ok_0;
                digits_shift(i, m + 1, z, b@.len() as int);
                let v = ref_expression_float_float(i)->Ok_0.1->Float_0;
                assert(v@ =~= i@.subrange(0, k) + a@ + seq!['.'] + b@);
                assert(v@.len() == m + 1 + b@.len());
                assert(i@ =~= v@ + r@);
                assert(float_at(i@, k, m, v@.len() as int));
            } else {
                assert forall|m2: int, n: int| !#[trigger] float_at(i@, k, m2, n) by {
                    if float_at(i@, k, m2, n) { only_run(i@, k, m, m2); assert(digit_char(i@[m + 1])); assert(z@[0] == i@[m + 1]); }
                }
            }
        } else {
            assert forall|m2: int, n: int| !#[trigger] float_at(i@, k, m2, n) by {
                if float_at(i@, k, m2, n) { only_run(i@, k, m, m2); assert(y@[0] == i@[m]); reveal(s_char); }
            }
        }
    } else {
        assert forall|m2: int, n: int| !#[trigger] float_at(i@, k, m2, n) by { if float_at(i@, k, m2, n) { assert(digit_char(i@[k])); assert(x@[0] == i@[k]); } }
    }
}
pub proof fn only_run(s: Seq<char>, k: int, m: int, n: int)
    requires longest(s, k, m, |c: char| digit_char(c)), longest(s, k, n, |c: char| digit_char(c)),
    ensures m == n,
{ if m < n { assert(digit_char(s[m])); } if n < m { assert(digit_char(s[n])); } }
// what may stand between double quotes
pub open spec fn quotable(v: Seq<char>) -> bool decreases v.len() {
    v.len() == 0 || (v.len() >= 2 && v[0] == '\\' && (v[1] == '\\' || v[1] == '"') && quotable(v.subrange(2, v.len() as int)))
    || (v[0] != '"' && v[0] != '\n' && quotable(v.subrange(1, v.len() as int)))
}
pub proof fn esc_quotable(s: Seq<char>)
    ensures ({ let n = esc_run(s, '\\', '"', @strch); 0 <= n <= s.len() && quotable(s.subrange(0, n)) && (n < s.len() ==> s[n] == '"' || s[n] == '\n') }),
    decreases s.len()
{
    broadcast use cls_strch;
    reveal_with_fuel(esc_run, 2);
    let n = esc_run(s, '\\', '"', @strch);
    lemma_esc_run(s, '\\', '"', @strch);
    let u = s.subrange(0, n);
    if s.len() >= 2 && s[0] == '\\' && (s[1] == '\\' || s[1] == '"') {
        let t = s.subrange(2, s.len() as int); esc_quotable(t);
        assert(u.subrange(2, n) =~= t.subrange(0, n - 2));
        if n < s.len() { assert(s[n] == t[n - 2]); }
    } else if s.len() >= 1 && in_cls(@strch, s[0]) {
        let t = s.subrange(1, s.len() as int); esc_quotable(t);
        assert(u.subrange(1, n) =~= t.subrange(0, n - 1));
        if n < s.len() { assert(s[n] == t[n - 1]); }
    }
}
pub open spec fn between(i: S, q: Seq<char>, v: S, r: S) -> bool { i@ == q + v@ + q + r@ }
pub proof fn p_c10_string(i: S)
    ensures ref_expression_string_string(i) matches Ok((r, e)) ==> e matches Expression::String(v)
        && (between(i, seq!['"', '"', '"'], v, r) && (forall|j: int| 0 <= j < v@.len() ==> #[trigger] v@[j] != '"') || between(i, seq!['"'], v, r) && quotable(v@)),
{
    broadcast use {cls_noquote, group_text};
    eq_expression_string_string(i); eq_expression_string_multi_string(i); eq_expression_string_single_string(i);
    reveal_strlit("\"\"\""); assert(sl("\"\"\"")@ =~= seq!['"', '"', '"']);
    if ref_expression_string_multi_string(i) is Ok {
        let x = s_tag(i, sl("\"\"\""))->Ok_0.0;
        let (y, v) = s_run0(x, @noquote)->Ok_0;
        reveal(s_run0); lemma_run(@noquote, x@); cut_all(x, run(@noquote, x@));
        let r = s_tag(y, sl("\"\"\""))->Ok_0.0;
        let q = seq!['"', '"', '"'];
        assert(q + v@ + q + r@ =~= q + (v@ + (q + r@)));
    } else if ref_expression_string_single_string(i) is Ok {
        let x = s_char(i, '"')->Ok_0.0;
        let (y, v) = s_esc(x, '\\', '"', @strch)->Ok_0;
        reveal(s_esc); esc_quotable(x@); cut_all(x, esc_run(x@, '\\', '"', @strch));
        let r = s_char(y, '"')->Ok_0.0;
        let q = seq!['"'];
        assert(q + v@ + q + r@ =~= q + (v@ + (q + r@)));
    }
}
pub open spec fn hex_val(c: char) -> int { let x = c as u32 as int; if 48 <= x <= 57 { x - 48 } else if 97 <= x <= 102 { x - 87 } else { x - 55 } }
pub open spec fn hex_code(i: S, a: char, b: char, c: char, r: S) -> bool { hex_digit(a) && hex_digit(b) && i@ == seq!['\'', '\\', 'x', a, b, '\''] + r@ && c as u32 == 16 * hex_val(a) + hex_val(b) }
pub proof fn p_c10_character(i: S)
    ensures ref_expression_character_character(i) matches Ok((r, e)) ==> e matches Expression::Character(c)
        && (i@ == seq!['\'', c, '\''] + r@ || exists|a: char, b: char| #[trigger] hex_code(i, a, b, c, r)),
{
    broadcast use {group_text, cls_hex};
    eq_expression_character_character(i);
    if ref_expression_character_character(i) is Ok {
        let (r, e) = ref_expression_character_character(i)->Ok_0;
        let x = s_char(i, '\'')->Ok_0.0;
        eq_expression_character_character_content(x);
        reveal(s_anychar); reveal(s_exact); reveal_strlit("\\x"); assert(sl("\\x")@ =~= seq!['\\', 'x']);
        let (y, c) = ref_expression_character_character_content(x)->Ok_0;
        assert(y@ == seq!['\''] + r@);
        if y == skip(x, 1) && c == x@[0] && x@.len() > 0 {
            cut_all(x, 1);
            assert(i@ =~= seq!['\'', c, '\''] + r@);
        } else {
            let z = s_tag(x, sl("\\x"))->Ok_0.0;
            cut_all(z, 2);
            let (a, b) = (z@[0], z@[1]);
            let t = take(z, 2);
            hex_two(t);
            assert(t@ =~= seq![a, b]);
            assert(i@ =~= seq!['\'', '\\', 'x', a, b, '\''] + r@);
            assert(in_cls(@hex, a)); assert(in_cls(@hex, b));
            assert(hex_code(i, a, b, c, r));
        }
    }
}
pub proof fn hex_two(t: S)
    requires t@.len() == 2, hex_digit(t@[0]), hex_digit(t@[1]),
    ensures hex_char(t) matches Some(c) && c as u32 == 16 * hex_val(t@[0]) + hex_val(t@[1]),
{
    reveal(s_u8_radix);
    let s = t@;
    reveal_with_fuel(num_val, 3);
    let u = s.subrange(0, 1); let z = u.subrange(0, 0);
    assert(u[0] == s[0]); assert(s[0] != '+');
    assert(num_val(z, 16) == Some(0int));
    assert(digit_val(s[0]) == hex_val(s[0])); assert(digit_val(s[1]) == hex_val(s[1]));
    assert(num_val(u, 16) == Some(0int * 16 + hex_val(s[0])));
    assert(num_val(s, 16) == Some(hex_val(s[0]) * 16 + hex_val(s[1])));
}

// ---------------------------------------- C11: top-level comments
pub open spec fn line_comment(i: S, v: S, r: S) -> bool { i@ == seq!['-', '-'] + v@ + r@ && no_nl(v@) && (r@.len() == 0 || r@[0] == '\n') }
pub open spec fn bar() -> Seq<char> { seq!['-', '}'] }
pub open spec fn closes(s: Seq<char>, k: int) -> bool { occurs(seq!['-', '}'], s, k) }
pub open spec fn block_comment(i: S, v: S, r: S) -> bool {
    i@ == seq!['{', '-'] + v@ + bar() + r@ && forall|k: int| 0 <= k < v@.len() ==> !#[trigger] closes(v@ + bar(), k)
}
pub proof fn p_c11_line(i: S)
    ensures match ref_statement_comment_single_line_comment(i) { Ok((r, e)) => e matches Statement::Comment(v) && line_comment(i, v, r), Err(_) => !dashes(i@) },
{
    broadcast use {group_text, cls_line};
    eq_statement_comment_single_line_comment(i); reveal_strlit("--"); reveal(s_tag); reveal(s_run0);
    assert(sl("--")@ =~= seq!['-', '-']);
    if dashes(i@) { assert(i@.subrange(0, 2) =~= sl("--")@); }
    if s_tag(i, sl("--")) is Ok {
        let x = s_tag(i, sl("--"))->Ok_0.0; let n = run(@line, x@);
        lemma_run(@line, x@); cut_all(x, n);
        let (r, v) = (skip(x, n), take(x, n));
        assert(i@ =~= seq!['-', '-'] + v@ + r@);
        if r@.len() > 0 { assert(r@[0] == x@[n]); }
    }
}
pub proof fn bar_facts(x: S)
    ensures match s_take_until(x, mk(bar())) {
        Ok((r, v)) => x@ == v@ + bar() + r@ && (forall|k: int| 0 <= k < v@.len() ==> !#[trigger] closes(v@ + bar(), k)),
        Err(_) => forall|k: int| !#[trigger] closes(x@, k) },
{
    reveal(s_take_until);
    let t = bar();
    if exists|k: int| occurs(t, x@, k) {
        let k0 = choose|k: int| occurs(t, x@, k);
        lemma_first_occ(t, x@, 0, k0);
        let n = first_occ(t, x@, 0);
        let (r, v) = (skip(x, n + 2), take(x, n));
        assert(x@.subrange(n, n + 2) == t);
        assert(x@ =~= x@.subrange(0, n) + x@.subrange(n, n + 2) + x@.subrange(n + 2, x@.len() as int));
        assert forall|k: int| 0 <= k < v@.len() implies !#[trigger] closes(v@ + t, k) by {
            assert(!occurs(t, x@, k));
            if closes(v@ + t, k) { assert((v@ + t).subrange(k, k + 2) =~= x@.subrange(k, k + 2)); }
        }
    } else {
        assert forall|k: int| !#[trigger] closes(x@, k) by { assert(!occurs(t, x@, k)); }
    }
}
pub proof fn p_c11_block(i: S)
    ensures match ref_statement_comment_multi_line_comment(i) {
        Ok((r, e)) => e matches Statement::Comment(v) && block_comment(i, v, r),
        Err(_) => !(i@.len() >= 2 && i@[0] == '{' && i@[1] == '-') || forall|k: int| k >= 2 ==> !#[trigger] closes(i@, k) },
{
    broadcast use group_text;
    eq_statement_comment_multi_line_comment(i); reveal_strlit("{-"); reveal_strlit("-}"); reveal(s_tag);
    assert(sl("{-")@ =~= seq!['{', '-']); assert(sl("-}")@ =~= bar()); assert(sl("-}") == mk(bar()));
    if i@.len() >= 2 && i@[0] == '{' && i@[1] == '-' { assert(i@.subrange(0, 2) =~= sl("{-")@); }
    if s_tag(i, sl("{-")) is Ok {
        let x = s_tag(i, sl("{-"))->Ok_0.0;
        assert(x@ =~= i@.subrange(2, i@.len() as int));
        bar_facts(x);
        if s_take_until(x, mk(bar())) is Ok {
            let (r, v) = s_take_until(x, mk(bar()))->Ok_0;
            assert(i@ =~= seq!['{', '-'] + v@ + bar() + r@);
        } else {
            assert forall|k: int| k >= 2 implies !#[trigger] closes(i@, k) by {
                assert(!closes(x@, k - 2));
                if closes(i@, k) { assert(x@.subrange(k - 2, k) =~= i@.subrange(k, k + 2)); }
            }
        }
    }
}

// ---------------------------------------- C14: infix declarations
pub open spec fn starts(i: S, t: Seq<char>) -> bool { is_prefix(t, i@) }
pub open spec fn infix_word(a: Assoc) -> Seq<char> { match a { Assoc::L => seq!['i', 'n', 'f', 'i', 'x', 'l'], Assoc::R => seq!['i', 'n', 'f', 'i', 'x', 'r'], Assoc::N => seq!['i', 'n', 'f', 'i', 'x'] } }
// word, spaces, digits, spaces, name; the digits' decimal value is p
pub open spec fn infix_shape(i: S, r: S, a: Assoc, p: i64, n: S, x: S, y: S, d: S, z: S, u: S) -> bool {
    &&& text(i, infix_word(a), x) && is_ok(ref_helpers_spaces(x), y)
    &&& front(y, d, z) && digits(y@, 0, d@.len() as int) && num_val(d@, 10) == Some(p as int)
    &&& is_ok(ref_helpers_spaces(z), u) && (is(ref_helpers_lo_name(u), r, n) || is(ref_helpers_operator(u), r, n))
}
pub open spec fn is_ok<T>(r: R<T>, y: S) -> bool { r matches Ok((x, _)) && x == y }
pub proof fn unsigned_value(d: S) requires d@.len() > 0, digit_char(d@[0]) ensures
    dec_i64(d) == match num_val(d@, 10) { Some(v) => if -0x8000_0000_0000_0000 <= v <= 0x7fff_ffff_ffff_ffff { Some(v as i64) } else { None }, None => None }
{ reveal(s_parse_i64); }
pub proof fn digits_value(s: Seq<char>) requires forall|j: int| 0 <= j < s.len() ==> digit_char(#[trigger] s[j]) ensures num_val(s, 10) is Some, num_val(s, 10)->Some_0 >= 0 decreases s.len()
{ if s.len() > 0 { let t = s.subrange(0, s.len() - 1); assert forall|j: int| 0 <= j < t.len() implies digit_char(#[trigger] t[j]) by { assert(t[j] == s[j]); } digits_value(t); assert(digit_char(s[s.len() - 1])); } }
pub proof fn p_c14_infix(i: S)
    ensures ref_statement_infix_infix_declaration(i) matches Ok((r, e)) ==> e matches Statement::InfixDeclaration(a, p, n)
        && exists|x: S, y: S, d: S, z: S, u: S| #[trigger] infix_shape(i, r, a, p, n, x, y, d, z, u),
{
    broadcast use {group_text, cls_digit};
    eq_statement_infix_infix_declaration(i);
    reveal_strlit("infixl"); reveal_strlit("infixr"); reveal_strlit("infix");
    assert(sl("infixl")@ =~= infix_word(Assoc::L)); assert(sl("infixr")@ =~= infix_word(Assoc::R)); assert(sl("infix")@ =~= infix_word(Assoc::N));
    if ref_statement_infix_infix_declaration(i) is Ok {
        let (r, e) = ref_statement_infix_infix_declaration(i)->Ok_0;
        let x = if s_tag(i, sl("infixl")) is Ok { s_tag(i, sl("infixl"))->Ok_0.0 } else if s_tag(i, sl("infixr")) is Ok { s_tag(i, sl("infixr"))->Ok_0.0 } else { s_tag(i, sl("infix"))->Ok_0.0 };
        let y = ref_helpers_spaces(x)->Ok_0.0;
        let (z, d) = s_run1(y, @digit)->Ok_0;
        run1_facts(y, @digit);
        assert forall|j: int| 0 <= j < d@.len() implies digit_char(#[trigger] d@[j]) by { assert(d@[j] == y@[j]); }
        digits_value(d@); unsigned_value(d);
        let u = ref_helpers_spaces(z)->Ok_0.0;
        let a = e->InfixDeclaration_0; let p = e->InfixDeclaration_1; let n = e->InfixDeclaration_2;
        assert(infix_shape(i, r, a, p, n, x, y, d, z, u));
    }
}
// the plain word is only taken where neither of the longer ones is there
pub proof fn p_c14_kinds(i: S)
    ensures ref_statement_infix_infix_declaration(i) matches Ok((r, e)) ==> e matches Statement::InfixDeclaration(a, p, n)
        && (a == Assoc::L <==> starts(i, infix_word(Assoc::L))) && (a == Assoc::R <==> starts(i, infix_word(Assoc::R))),
{
    eq_statement_infix_infix_declaration(i); reveal(s_tag);
    reveal_strlit("infixl"); reveal_strlit("infixr"); reveal_strlit("infix");
    assert(sl("infixl")@ =~= infix_word(Assoc::L)); assert(sl("infixr")@ =~= infix_word(Assoc::R)); assert(sl("infix")@ =~= infix_word(Assoc::N));
    if starts(i, infix_word(Assoc::L)) && starts(i, infix_word(Assoc::R)) { assert(i@.subrange(0, 6)[5] == 'l'); assert(i@.subrange(0, 6)[5] == 'r'); }
}
// a precedence that does not fit is refused
pub proof fn p_c14_overflow(i: S, x: S, y: S, d: S, z: S)
    requires starts(i, infix_word(Assoc::N)), s_tag(i, if starts(i, infix_word(Assoc::L)) { sl("infixl") } else if starts(i, infix_word(Assoc::R)) { sl("infixr") } else { sl("infix") }) == Ok::<(S, S), NErr>((x, if starts(i, infix_word(Assoc::L)) { sl("infixl") } else if starts(i, infix_word(Assoc::R)) { sl("infixr") } else { sl("infix") })),
        is_ok(ref_helpers_spaces(x), y), front(y, d, z), digits(y@, 0, d@.len() as int), num_val(d@, 10)->Some_0 > 0x7fff_ffff_ffff_ffff,
    ensures ref_statement_infix_infix_declaration(i) is Err,
{
    broadcast use cls_digit;
    eq_statement_infix_infix_declaration(i); reveal(s_tag);
    reveal_strlit("infixl"); reveal_strlit("infixr"); reveal_strlit("infix");
    assert(sl("infixl")@ =~= infix_word(Assoc::L)); assert(sl("infixr")@ =~= infix_word(Assoc::R)); assert(sl("infix")@ =~= infix_word(Assoc::N));
    run1_facts(y, @digit);
    assert(digit_char(y@[0])); assert(d@[0] == y@[0]);
    let w = s_run1(y, @digit)->Ok_0.1;
    only_run(y@, 0, w@.len() as int, d@.len() as int);
    assert(y@.subrange(0, d@.len() as int) =~= d@); assert(y@.subrange(0, w@.len() as int) =~= w@);
    assert(mk(w@) == w && mk(d@) == d);
    unsigned_value(d);
}

// ---------------------------------------- C13: imports and exposing lists
pub open spec fn word_then<T>(x: S, w: S, q: spec_fn(S) -> R<T>) -> R<T> {
    match ref_helpers_spaces(x) { Err(e) => err(), Ok((a, _)) => match s_tag(a, w) { Err(e) => err(), Ok((b, _)) => match ref_helpers_spaces(b) { Err(e) => err(), Ok((c, _)) => match q(c) { Err(e) => err(), Ok(y) => Ok(y) } } } }
}
pub open spec fn f_exports() -> spec_fn(S) -> R<ExportSet> { |z: S| ref_statement_export_exports(z) }
pub open spec fn as_clause(x: S) -> R<S> { word_then(x, sl("as"), f_up()) }
pub open spec fn exposing_clause(x: S) -> R<ExportSet> { word_then(x, sl("exposing"), f_exports()) }
// each clause is recorded exactly if it is there
pub open spec fn import_shape(i: S, r: S, n: L<S>, a: Option<S>, e: Option<ExportSet>, x: S, y: S, z: S, u: S) -> bool {
    &&& text(i, seq!['i', 'm', 'p', 'o', 'r', 't'], x) && is_ok(ref_helpers_spaces(x), y) && is(ref_helpers_module_name(y), z, n)
    &&& match a { Some(m) => is(as_clause(z), u, m), None => as_clause(z) is Err && u == z }
    &&& match e { Some(m) => is(exposing_clause(u), r, m), None => exposing_clause(u) is Err && r == u }
}
pub proof fn p_c13_import(i: S)
    ensures ref_statement_import_import_statement(i) matches Ok((r, s)) ==> s matches Statement::ImportStatement(n, a, e)
        && exists|x: S, y: S, z: S, u: S| #[trigger] import_shape(i, r, n, a, e, x, y, z, u),
{
    broadcast use group_text;
    eq_statement_import_import_statement(i);
    if ref_statement_import_import_statement(i) is Ok {
        reveal_strlit("import"); assert(sl("import")@ =~= seq!['i', 'm', 'p', 'o', 'r', 't']);
        let (r, s) = ref_statement_import_import_statement(i)->Ok_0;
        let x = s_tag(i, sl("import"))->Ok_0.0;
        let y = ref_helpers_spaces(x)->Ok_0.0;
        let (z, n) = ref_helpers_module_name(y)->Ok_0;
        let u = if as_clause(z) is Ok { as_clause(z)->Ok_0.0 } else { z };
        assert(r == ref_statement_import_import_statement(i)->Ok_0.0);
        assert(import_shape(i, r, s->ImportStatement_0, s->ImportStatement_1, s->ImportStatement_2, x, y, z, u));
    }
}
// an item: a value or a parenthesised operator; a type with no constructors, all of them, or the ones listed
pub open spec fn item(z: S) -> R<ExportSet> {
    match ref_statement_export_function_export(z) { Ok(r) => Ok(r), Err(e) => match ref_statement_export_type_export(z) { Ok(r) => Ok(r), Err(e) => err() } }
}
pub open spec fn f_item() -> spec_fn(S) -> R<ExportSet> { |z: S| item(z) }
pub open spec fn item_comma(z: S) -> R<char> {
    match opt(ref_helpers_spaces_and_newlines(z), z) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) => match opt(ref_helpers_spaces_and_newlines(y), y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }
}
pub open spec fn f_item_comma() -> spec_fn(S) -> R<char> { |z: S| item_comma(z) }
pub open spec fn exposed(x: S, y: S, e: ExportSet) -> bool {
    if starts(x, seq!['.', '.']) { text(x, seq!['.', '.'], y) && e == ExportSet::AllExport }
    else { e matches ExportSet::SubsetExport(v) && listed(f_item_comma(), f_item(), x, v@, y) }
}
pub open spec fn exports_shape(i: S, r: S, e: ExportSet, a: S, b: S, c: S, d: S) -> bool { text(i, seq!['('], a) && gap0(a, 0, b) && exposed(b, c, e) && gap0(c, 0, d) && text(d, seq![')'], r) }
pub proof fn p_c13_exports(i: S)
    ensures ref_statement_export_exports(i) matches Ok((r, e)) ==> exists|a: S, b: S, c: S, d: S| #[trigger] exports_shape(i, r, e, a, b, c, d),
{
    broadcast use {group_text, t_ref_statement_export_function_export, t_ref_statement_export_type_export, t_ref_helpers_spaces_and_newlines, t_char};
    eq_statement_export_exports(i);
    if ref_statement_export_exports(i) is Ok {
        let (r, e) = ref_statement_export_exports(i)->Ok_0;
        let a = s_char(i, '(')->Ok_0.0;
        let b = opt(ref_helpers_spaces_or_new_lines_and_indent(a, 0u32, IR::GTE), a)->Ok_0.0;
        eq_statement_export_all_export(b); eq_statement_export_subset_export(b);
        reveal_strlit(".."); reveal(s_tag); assert(sl("..")@ =~= seq!['.', '.']);
        let (s, p) = (f_item_comma(), f_item());
        assert(ref_statement_export_subset_export(b) == match sp_seplist1(s, p, b) { Ok((x, v)) => Ok((x, ExportSet::SubsetExport(v))), Err(e2617) => err() }) by { broadcast use group_ext; }
        assert(loose(s)); assert(solid(p));
        let c = if s_tag(b, sl("..")) is Ok { s_tag(b, sl(".."))->Ok_0.0 } else { ref_statement_export_subset_export(b)->Ok_0.0 };
        if !(s_tag(b, sl("..")) is Ok) { let v = sp_seplist1(s, p, b)->Ok_0.1; listed_iff(s, p, b, v, c); }
        assert(exposed(b, c, e));
        let d = opt(ref_helpers_spaces_or_new_lines_and_indent(c, 0u32, IR::GTE), c)->Ok_0.0;
        assert(exports_shape(i, r, e, a, b, c, d));
    }
}
pub open spec fn parens_op(i: S, r: S, n: S) -> bool { s_char(i, '(') matches Ok((a, _)) && ref_helpers_operator(a) matches Ok((b, o)) && o == n && is_ok(s_char(b, ')'), r) }
pub proof fn p_c13_function(i: S)
    ensures ref_statement_export_function_export(i) matches Ok((r, e)) ==> e matches ExportSet::FunctionExport(n) && (is(ref_helpers_lo_name(i), r, n) || parens_op(i, r, n)),
{ eq_statement_export_function_export(i); eq_helpers_function_name(i); }
pub open spec fn f_cons_comma() -> spec_fn(S) -> R<S> { |z: S| s_tag(z, sl(", ")) }
pub open spec fn f_cons() -> spec_fn(S) -> R<ExportSet> { |z: S| match ref_helpers_up_name(z) { Ok((x, n)) => Ok((x, ExportSet::FunctionExport(n))), Err(e) => err() } }
pub open spec fn constructors_at(x: S, y: S, e: ExportSet, a: S, b: S) -> bool {
    text(x, seq!['('], a) && text(b, seq![')'], y) && (text(a, seq!['.', '.'], b) && e == ExportSet::AllExport || (e matches ExportSet::SubsetExport(v) && listed(f_cons_comma(), f_cons(), a, v@, b)))
}
pub open spec fn constructors(x: S, y: S, e: ExportSet) -> bool { exists|a: S, b: S| #[trigger] constructors_at(x, y, e, a, b) }
pub open spec fn type_item(i: S, r: S, n: S, c: Option<Bx<ExportSet>>, x: S) -> bool {
    is(ref_helpers_up_name(i), x, n) && match c { None => x == r, Some(b) => constructors(x, r, b.g@) }
}
pub proof fn p_c13_type(i: S)
    ensures ref_statement_export_type_export(i) matches Ok((r, e)) ==> e matches ExportSet::TypeExport(n, c) && exists|x: S| #[trigger] type_item(i, r, n, c, x),
{
    broadcast use {group_text, t_ref_helpers_up_name, t_tag};
    eq_statement_export_type_export(i);
    if ref_statement_export_type_export(i) is Ok {
        let (x, n) = ref_helpers_up_name(i)->Ok_0;
        eq_statement_export_constructor_exports(x);
        reveal_strlit(".."); assert(sl("..")@ =~= seq!['.', '.']);
        reveal_strlit(", "); assert(sl(", ")@.len() == 2);
        let (r, e) = ref_statement_export_type_export(i)->Ok_0;
        let c = e->TypeExport_1;
        assert(r == ref_statement_export_type_export(i)->Ok_0.0);
        if s_char(x, '(') is Ok {
            let a = s_char(x, '(')->Ok_0.0;
            eq_statement_export_all_export(a); eq_statement_export_constructor_subset_exports(a);
            let (s, p) = (f_cons_comma(), f_cons());
            assert(ref_statement_export_constructor_subset_exports(a) == match sp_seplist1(s, p, a) { Ok((x, v)) => Ok((x, ExportSet::SubsetExport(v))), Err(e2617) => err() }) by { broadcast use group_ext; }
            assert(loose(s)); assert(solid(p));
            if e->TypeExport_1 is Some {
                let b = if ref_statement_export_all_export(a) is Ok { ref_statement_export_all_export(a)->Ok_0.0 } else { ref_statement_export_constructor_subset_exports(a)->Ok_0.0 };
                if !(ref_statement_export_all_export(a) is Ok) { let v = sp_seplist1(s, p, a)->Ok_0.1; listed_iff(s, p, a, v, b); }
                assert(constructors_at(x, r, c->Some_0.g@, a, b));
                assert(constructors(x, r, c->Some_0.g@));
            }
        }
        assert(type_item(i, r, e->TypeExport_0, c, x));
    }
}

// ---------------------------------------- keywords: a reserved word that ends where a word ends is not a name
pub open spec fn word_text(t: Seq<char>) -> bool { t.len() > 0 && lower_char(t[0]) && forall|j: int| 1 <= j < t.len() ==> word_char(#[trigger] t[j]) }
pub open spec fn ends_word(x: S) -> bool { x@.len() == 0 || !word_char(x@[0]) }
pub proof fn keyword(i: S, t: S)
    requires s_tag(i, t) is Ok, ends_word(s_tag(i, t)->Ok_0.0), word_text(t@), t != sl("_"),
    ensures ref_helpers_lo_name(i) == (if is_reserved_word(t) { err() } else { Ok((s_tag(i, t)->Ok_0.0, t)) }), s_tag(i, sl("_")) is Err,
{
    broadcast use {cls_word, cls_lower};
    eq_helpers_lo_name(i); reveal(s_tag); reveal(s_name); reveal_strlit("_");
    let n = t@.len() as int;
    let u = i@.subrange(1, i@.len() as int);
    cut_all(i, n);
    assert(i@[0] == t@[0]);
    assert forall|j: int| 0 <= j < n - 1 implies in_cls(@word, #[trigger] u[j]) by { assert(u[j] == i@[j + 1]); assert(i@[j + 1] == t@[j + 1]); }
    if n < i@.len() { assert(u[n - 1] == i@[n]); assert(skip(i, n)@[0] == i@[n]); }
    run_unique(@word, u, n - 1);
    if is_prefix(sl("_")@, i@) { assert(i@[0] == i@.subrange(0, 1)[0]); }
    assert(take(i, n)@ == t@); assert(take(i, n) == t);
}
// after layout or spaces there is no word character
pub proof fn not_word_after(i: S, k: int)
    ensures forall|ind: u32, ir: IR| #[trigger] ref_helpers_spaces_or_new_lines_and_indent(i, ind, ir) is Ok ==> ends_word(i), ref_helpers_spaces(i) is Ok ==> ends_word(i),
{ broadcast use {fst_helpers_spaces_or_new_lines_and_indent, fst_helpers_spaces}; }
pub proof fn upper_needs_upper(i: S) requires i@.len() > 0, !upper_char(i@[0]) ensures ref_helpers_up_name(i) is Err
{ p_c03_up_name(i); }
// a term that begins with a lower-case letter is a name
pub proof fn term_word(i: S, ind: u32)
    requires i@.len() > 0, lower_char(i@[0]), ref_helpers_lo_name(i) is Err,
    ensures ref_expression_term(i, ind) is Err, ref_expression_variable_variable(i) is Err,
{
    broadcast use {group_fst_leaf, fst_expression_access_function_access_function, fst_expression_string_string, fst_expression_float_float, fst_expression_integer_integer,
        fst_expression_character_character, fst_expression_parens, fst_expression_list, fst_expression_tuple, fst_expression_record_update, fst_expression_record,
        fst_expression_simplified_record, fst_expression_variable_op, fst_expression_variable_upper_with_dots};
    eq_expression_term(i, ind); eq_expression_access_access(i); eq_expression_variable_variable(i); eq_expression_variable_lower_case(i);
}
// nothing but a term can begin an application, and only an application or one of the four keyword forms an expression
pub proof fn no_binary(i: S, ind: u32) requires ref_expression_term(i, ind) is Err ensures ref_expression_binary(i, ind) is Err
{ eq_expression_binary(i, ind); eq_expression_application_or_var(i, ind); }
pub proof fn keyword_expr(i: S, t: S, ind: u32)
    requires s_tag(i, t) is Ok, ends_word(s_tag(i, t)->Ok_0.0), word_text(t@), is_reserved_word(t), t != sl("_"),
    ensures ref_expression_binary(i, ind) is Err,
{ broadcast use group_fst_leaf; keyword(i, t); term_word(i, ind); no_binary(i, ind); }
pub proof fn words()
    ensures word_text(sl("let")@), word_text(sl("case")@), word_text(sl("if")@), word_text(sl("port")@), word_text(sl("module")@), word_text(sl("import")@), word_text(sl("type")@), word_text(sl("effect")@), word_text(sl("alias")@),
        word_text(sl("infix")@), word_text(sl("infixl")@), word_text(sl("infixr")@),
        sl("let") != sl("_"), sl("case") != sl("_"), sl("if") != sl("_"), sl("port") != sl("_"), sl("module") != sl("_"), sl("import") != sl("_"), sl("type") != sl("_"), sl("effect") != sl("_"), sl("alias") != sl("_"),
        sl("infix") != sl("_"), sl("infixl") != sl("_"), sl("infixr") != sl("_"),
{
    reveal_strlit("_"); reveal_strlit("let"); reveal_strlit("case"); reveal_strlit("if"); reveal_strlit("port"); reveal_strlit("module"); reveal_strlit("import"); reveal_strlit("type"); reveal_strlit("effect");
    reveal_strlit("alias"); reveal_strlit("infix"); reveal_strlit("infixl"); reveal_strlit("infixr");
    assert(sl("_")@[0] == '_');
    assert(sl("let")@[0] == 'l' && sl("case")@[0] == 'c' && sl("if")@[0] == 'i' && sl("port")@[0] == 'p' && sl("module")@[0] == 'm' && sl("import")@[0] == 'i' && sl("type")@[0] == 't' && sl("effect")@[0] == 'e' && sl("alias")@[0] == 'a');
    assert(sl("infix")@[0] == 'i' && sl("infixl")@[0] == 'i' && sl("infixr")@[0] == 'i');
}

// ---------------------------------------- C16: if, case, let, lambda
pub proof fn p_c16_if_is(i: S, ind: u32) ensures ref_expression_if_expression(i, ind) is Ok ==> ref_expression_expression(i, ind) == ref_expression_if_expression(i, ind)
{
    broadcast use {fst_tags, fst_expression_let_expression, fst_expression_case_expression, group_fst_leaf};
    if ref_expression_if_expression(i, ind) is Ok {
        eq_expression_if_expression(i, ind); words(); reveal_strlit("if");
        let x = s_tag(i, sl("if"))->Ok_0.0;
        not_word_after(x, 0); keyword_expr(i, sl("if"), ind);
        eq_expression_expression(i, ind);
    }
}
pub proof fn p_c16_case_is(i: S, ind: u32) ensures ref_expression_case_expression(i, ind) is Ok ==> ref_expression_expression(i, ind) == ref_expression_case_expression(i, ind)
{
    broadcast use {fst_expression_let_expression, group_fst_leaf};
    if ref_expression_case_expression(i, ind) is Ok {
        eq_expression_case_expression(i, ind); words(); reveal_strlit("case");
        let x = s_tag(i, sl("case"))->Ok_0.0;
        not_word_after(x, 0); keyword_expr(i, sl("case"), ind);
        eq_expression_expression(i, ind);
    }
}
pub proof fn p_c16_let_is(i: S, ind: u32) ensures ref_expression_let_expression(i, ind) is Ok ==> ref_expression_expression(i, ind) == ref_expression_let_expression(i, ind)
{
    broadcast use group_fst_leaf;
    if ref_expression_let_expression(i, ind) is Ok {
        eq_expression_let_expression(i, ind); words(); reveal_strlit("let");
        let x = s_tag(i, sl("let"))->Ok_0.0;
        not_word_after(x, 0); keyword_expr(i, sl("let"), ind);
        eq_expression_expression(i, ind);
    }
}
pub proof fn p_c16_lambda_is(i: S, ind: u32) ensures ref_expression_lambda(i, ind) is Ok ==> ref_expression_expression(i, ind) == ref_expression_lambda(i, ind)
{
    broadcast use {fst_expression_lambda, fst_expression_let_expression, fst_expression_case_expression, fst_expression_if_expression, fst_expression_term, fst_expression_binary};
    if ref_expression_lambda(i, ind) is Ok { no_binary(i, ind); eq_expression_expression(i, ind); }
}
// if <layout> c <layout> then <layout> a <layout> else <layout> b
pub open spec fn gaps(x: S, ind: u32, y: S) -> bool { exists|k: u32| #[trigger] gap(x, ind, IR::GTE, y, k) }
pub open spec fn if_shape(i: S, ind: u32, r: S, e: Expression, x: S, y: S, c: Expression, z: S, t: S, u: S, p: S, n1: u32, a: Expression, q: S, l: S, m: S, s: S, n2: u32, b: Expression) -> bool {
    &&& text(i, seq!['i', 'f'], x) && gaps(x, ind, y) && is(ref_expression_expression(y, ind), z, c)
    &&& gaps(z, ind, t) && text(t, seq!['t', 'h', 'e', 'n'], u) && gap(u, ind, IR::GTE, p, n1) && is(ref_expression_expression(p, n1), q, a)
    &&& gaps(q, ind, l) && text(l, seq!['e', 'l', 's', 'e'], m) && gap(m, ind, IR::GTE, s, n2) && is(ref_expression_expression(s, n2), r, b)
    &&& e == Expression::If(bx(c), bx(a), bx(b))
}
pub proof fn p_c16_if(i: S, ind: u32)
    ensures ref_expression_if_expression(i, ind) matches Ok((r, e)) ==> exists|x: S, y: S, c: Expression, z: S, t: S, u: S, p: S, n1: u32, a: Expression, q: S, l: S, m: S, s: S, n2: u32, b: Expression|
        #[trigger] if_shape(i, ind, r, e, x, y, c, z, t, u, p, n1, a, q, l, m, s, n2, b),
{
    broadcast use group_text;
    eq_expression_if_expression(i, ind);
    if ref_expression_if_expression(i, ind) is Ok {
        reveal_strlit("if"); reveal_strlit("then"); reveal_strlit("else");
        assert(sl("if")@ =~= seq!['i', 'f']); assert(sl("then")@ =~= seq!['t', 'h', 'e', 'n']); assert(sl("else")@ =~= seq!['e', 'l', 's', 'e']);
        let (r, e) = ref_expression_if_expression(i, ind)->Ok_0;
        let x = s_tag(i, sl("if"))->Ok_0.0;
        let (y, k0) = ref_helpers_spaces_or_new_lines_and_indent(x, ind, IR::GTE)->Ok_0;
        let (z, c) = ref_expression_expression(y, ind)->Ok_0;
        let (t, k1) = ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GTE)->Ok_0;
        let u = s_tag(t, sl("then"))->Ok_0.0;
        let (p, n1) = ref_helpers_spaces_or_new_lines_and_indent(u, ind, IR::GTE)->Ok_0;
        let (q, a) = ref_expression_expression(p, n1)->Ok_0;
        let (l, k2) = ref_helpers_spaces_or_new_lines_and_indent(q, ind, IR::GTE)->Ok_0;
        let m = s_tag(l, sl("else"))->Ok_0.0;
        let (s, n2) = ref_helpers_spaces_or_new_lines_and_indent(m, ind, IR::GTE)->Ok_0;
        let b = ref_expression_expression(s, n2)->Ok_0.1;
        assert(gap(x, ind, IR::GTE, y, k0)); assert(gap(z, ind, IR::GTE, t, k1)); assert(gap(q, ind, IR::GTE, l, k2));
        assert(r == ref_expression_if_expression(i, ind)->Ok_0.0);
        assert(if_shape(i, ind, r, e, x, y, c, z, t, u, p, n1, a, q, l, m, s, n2, b));
    }
}
// \ patterns <layout> -> <layout> body
pub open spec fn f_sp() -> spec_fn(S) -> R<S> { |z: S| s_run1(z, @spaces1) }
pub open spec fn lambda_shape(i: S, ind: u32, r: S, e: Expression, x: S, args: L<Expression>, y: S, z: S, u: S, p: S, n: u32, b: Expression) -> bool {
    &&& text(i, seq!['\\'], x) && listed(f_sp(), f_term(ind), x, args@, y) && gaps(y, ind, z) && text(z, seq!['-', '>'], u)
    &&& gap(u, ind, IR::GTE, p, n) && is(ref_expression_expression(p, n), r, b)
    &&& e == Expression::Lambda(args, bx(b))
}
pub proof fn p_c16_lambda(i: S, ind: u32)
    ensures ref_expression_lambda(i, ind) matches Ok((r, e)) ==> exists|x: S, args: L<Expression>, y: S, z: S, u: S, p: S, n: u32, b: Expression| #[trigger] lambda_shape(i, ind, r, e, x, args, y, z, u, p, n, b),
{
    broadcast use {group_text, t_run1, t_ref_expression_term};
    eq_expression_lambda(i, ind);
    if ref_expression_lambda(i, ind) is Ok {
        reveal_strlit("->"); assert(sl("->")@ =~= seq!['-', '>']);
        let (r, e) = ref_expression_lambda(i, ind)->Ok_0;
        let x = s_char(i, '\\')->Ok_0.0;
        let (s, p) = (f_sp(), f_term(ind));
        let l = sp_seplist1(|z: S| s_run1(z, @spaces1), |z: S| ref_expression_term(z, ind), x);
        assert(l == sp_seplist1(s, p, x));
        let (y, args) = l->Ok_0;
        assert(loose(s)); assert(solid(p));
        listed_iff(s, p, x, args, y);
        let (z, k) = ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE)->Ok_0;
        let u = s_tag(z, sl("->"))->Ok_0.0;
        let (q, n) = ref_helpers_spaces_or_new_lines_and_indent(u, ind, IR::GTE)->Ok_0;
        let b = ref_expression_expression(q, n)->Ok_0.1;
        assert(gap(y, ind, IR::GTE, z, k));
        assert(r == ref_expression_lambda(i, ind)->Ok_0.0);
        assert(lambda_shape(i, ind, r, e, x, args, y, z, u, q, n, b));
    }
}
// a let entry is a binding, or otherwise a function
pub proof fn p_c16_entry(z: S, n: u32)
    ensures let_entry(z, n) matches Ok((r, e)) ==> match e { LetEntry::LetBinding(t, b) => is(ref_expression_let_binding(z, n), r, e), LetEntry::LetFunction(f) => is(ref_expression_function_function(z, n), r, f) && ref_expression_let_binding(z, n) is Err },
{ eq_expression_let_binding(z, n); }

// ---------------------------------------- C12, C19, C20: kinds of statements
// which parser a statement comes from
pub open spec fn kind(i: S, r: S, s: Statement) -> bool {
    match s {
        Statement::PortModuleDeclaration(_, _) => is(ref_statement_module_port_module_declaration(i), r, s),
        Statement::EffectModuleDeclaration(_, _, _) => is(ref_statement_module_effect_module_declaration(i), r, s),
        Statement::ModuleDeclaration(_, _) => is(ref_statement_module_module_declaration(i), r, s),
        Statement::ImportStatement(_, _, _) => is(ref_statement_import_import_statement(i), r, s),
        Statement::TypeAliasDeclaration(_, _) => is(ref_statement_type_declaration_type_alias_declaration(i), r, s),
        Statement::TypeDeclaration(_, _) => is(ref_statement_type_declaration_type_declaration(i, 0), r, s) && ref_statement_type_declaration_type_alias_declaration(i) is Err,
        Statement::PortTypeDeclaration(_, _) => is(ref_statement_port_port_type_declaration(i), r, s),
        Statement::PortDeclaration(_, _, _) => is(ref_statement_port_port_declaration(i), r, s),
        Statement::Function(f) => is(ref_expression_function_function(i, 0), r, f),
        Statement::InfixDeclaration(_, _, _) => is(ref_statement_infix_infix_declaration(i), r, s),
        Statement::Comment(_) => is(ref_statement_comment_comment(i), r, s),
        _ => false,
    }
}
pub proof fn statement_kind(i: S)
    ensures ref_statement_statement(i) matches Ok((r, s)) ==> kind(i, r, s),
{
    eq_statement_statement(i);
    eq_statement_module_port_module_declaration(i); eq_statement_module_effect_module_declaration(i); eq_statement_module_module_declaration(i);
    eq_statement_import_import_statement(i); eq_statement_type_declaration_type_alias_declaration(i); eq_statement_type_declaration_type_declaration(i, 0);
    eq_statement_port_port_type_declaration(i); eq_statement_port_port_declaration(i); eq_statement_infix_infix_declaration(i); eq_statement_comment_comment(i);
    eq_statement_comment_single_line_comment(i); eq_statement_comment_multi_line_comment(i);
}
pub proof fn p_c12_headers(i: S)
    ensures ref_statement_module_port_module_declaration(i) is Ok ==> ref_statement_statement(i) == ref_statement_module_port_module_declaration(i),
        ref_statement_module_effect_module_declaration(i) is Ok ==> ref_statement_statement(i) == ref_statement_module_effect_module_declaration(i),
        ref_statement_module_module_declaration(i) is Ok ==> ref_statement_statement(i) == ref_statement_module_module_declaration(i),
{
    broadcast use {fst_statement_module_port_module_declaration, fst_statement_module_effect_module_declaration, fst_statement_module_module_declaration};
    eq_statement_statement(i);
}
pub proof fn p_c13_is_import(i: S)
    ensures ref_statement_import_import_statement(i) is Ok ==> ref_statement_statement(i) == ref_statement_import_import_statement(i),
{
    broadcast use {fst_statement_module_port_module_declaration, fst_statement_module_effect_module_declaration, fst_statement_module_module_declaration, fst_statement_import_import_statement};
    eq_statement_statement(i);
}
pub proof fn p_c19_kinds(i: S)
    ensures ref_statement_type_declaration_type_alias_declaration(i) is Ok ==> ref_statement_statement(i) == ref_statement_type_declaration_type_alias_declaration(i),
        ref_statement_type_declaration_type_declaration(i, 0) is Ok && ref_statement_type_declaration_type_alias_declaration(i) is Err ==> ref_statement_statement(i) == ref_statement_type_declaration_type_declaration(i, 0),
{
    broadcast use {fst_statement_module_port_module_declaration, fst_statement_module_effect_module_declaration, fst_statement_module_module_declaration, fst_statement_import_import_statement,
        fst_statement_type_declaration_type_alias_declaration, fst_statement_type_declaration_type_declaration};
    eq_statement_statement(i);
}
// the header shapes: word, layout indented beyond column 0, module name, layout, exposing, layout, list
pub open spec fn lay0(x: S, y: S) -> bool { exists|k: u32| #[trigger] gap(x, 0, IR::GT, y, k) }
pub open spec fn module_at(x: S, r: S, n: L<S>, e: ExportSet, a: S, b: S, c: S, d: S, f: S) -> bool {
    lay0(x, a) && is(ref_helpers_module_name(a), b, n) && lay0(b, c) && text(c, seq!['e', 'x', 'p', 'o', 's', 'i', 'n', 'g'], d) && lay0(d, f) && is(ref_statement_export_exports(f), r, e)
}
pub open spec fn module_rest(x: S, r: S, n: L<S>, e: ExportSet) -> bool { exists|a: S, b: S, c: S, d: S, f: S| #[trigger] module_at(x, r, n, e, a, b, c, d, f) }
pub open spec fn after_module(i: S, x: S) -> bool { text(i, seq!['m', 'o', 'd', 'u', 'l', 'e'], x) }
pub proof fn exposing_text() ensures sl("exposing")@ == seq!['e', 'x', 'p', 'o', 's', 'i', 'n', 'g'], sl("module")@ == seq!['m', 'o', 'd', 'u', 'l', 'e'], sl("port")@ == seq!['p', 'o', 'r', 't'],
    sl("effect")@ == seq!['e', 'f', 'f', 'e', 'c', 't'], sl("where")@ == seq!['w', 'h', 'e', 'r', 'e'], sl("import")@ == seq!['i', 'm', 'p', 'o', 'r', 't'], sl("type")@ == seq!['t', 'y', 'p', 'e'], sl("alias")@ == seq!['a', 'l', 'i', 'a', 's'],
{
    reveal_strlit("exposing"); reveal_strlit("module"); reveal_strlit("port"); reveal_strlit("effect"); reveal_strlit("where"); reveal_strlit("import"); reveal_strlit("type"); reveal_strlit("alias");
    assert(sl("exposing")@ =~= seq!['e', 'x', 'p', 'o', 's', 'i', 'n', 'g']); assert(sl("module")@ =~= seq!['m', 'o', 'd', 'u', 'l', 'e']); assert(sl("port")@ =~= seq!['p', 'o', 'r', 't']);
    assert(sl("effect")@ =~= seq!['e', 'f', 'f', 'e', 'c', 't']); assert(sl("where")@ =~= seq!['w', 'h', 'e', 'r', 'e']); assert(sl("import")@ =~= seq!['i', 'm', 'p', 'o', 'r', 't']);
    assert(sl("type")@ =~= seq!['t', 'y', 'p', 'e']); assert(sl("alias")@ =~= seq!['a', 'l', 'i', 'a', 's']);
}
pub proof fn p_c12_module(i: S)
    ensures ref_statement_module_module_declaration(i) matches Ok((r, s)) ==> s matches Statement::ModuleDeclaration(n, e) && exists|x: S| #[trigger] after_module(i, x) && module_rest(x, r, n, e),
{
    broadcast use group_text;
    eq_statement_module_module_declaration(i); exposing_text();
    if ref_statement_module_module_declaration(i) is Ok {
        let (r, s) = ref_statement_module_module_declaration(i)->Ok_0;
        let x = s_tag(i, sl("module"))->Ok_0.0;
        let (a, k1) = ref_helpers_spaces_or_new_lines_and_indent(x, 0u32, IR::GT)->Ok_0;
        let b = ref_helpers_module_name(a)->Ok_0.0;
        let (c, k2) = ref_helpers_spaces_or_new_lines_and_indent(b, 0u32, IR::GT)->Ok_0;
        let d = s_tag(c, sl("exposing"))->Ok_0.0;
        let (f, k3) = ref_helpers_spaces_or_new_lines_and_indent(d, 0u32, IR::GT)->Ok_0;
        assert(gap(x, 0, IR::GT, a, k1)); assert(gap(b, 0, IR::GT, c, k2)); assert(gap(d, 0, IR::GT, f, k3));
        assert(r == ref_statement_module_module_declaration(i)->Ok_0.0);
        assert(module_at(x, r, s->ModuleDeclaration_0, s->ModuleDeclaration_1, a, b, c, d, f));
        assert(after_module(i, x));
    }
}
pub open spec fn after_port(i: S, a: S) -> bool { text(i, seq!['p', 'o', 'r', 't'], a) }
pub open spec fn port_module_at(i: S, x: S, y: S) -> bool { exists|a: S| #[trigger] after_port(i, a) && lay0(a, x) && after_module(x, y) }
pub proof fn p_c12_port_module(i: S)
    ensures ref_statement_module_port_module_declaration(i) matches Ok((r, s)) ==> s matches Statement::PortModuleDeclaration(n, e) && exists|x: S, y: S| #[trigger] port_module_at(i, x, y) && module_rest(y, r, n, e),
{
    broadcast use group_text;
    eq_statement_module_port_module_declaration(i); exposing_text();
    if ref_statement_module_port_module_declaration(i) is Ok {
        let (r, s) = ref_statement_module_port_module_declaration(i)->Ok_0;
        let z = s_tag(i, sl("port"))->Ok_0.0;
        let (y, k0) = ref_helpers_spaces_or_new_lines_and_indent(z, 0u32, IR::GT)->Ok_0;
        let x = s_tag(y, sl("module"))->Ok_0.0;
        let (a, k1) = ref_helpers_spaces_or_new_lines_and_indent(x, 0u32, IR::GT)->Ok_0;
        let b = ref_helpers_module_name(a)->Ok_0.0;
        let (c, k2) = ref_helpers_spaces_or_new_lines_and_indent(b, 0u32, IR::GT)->Ok_0;
        let d = s_tag(c, sl("exposing"))->Ok_0.0;
        let (f, k3) = ref_helpers_spaces_or_new_lines_and_indent(d, 0u32, IR::GT)->Ok_0;
        assert(gap(z, 0, IR::GT, y, k0)); assert(gap(x, 0, IR::GT, a, k1)); assert(gap(b, 0, IR::GT, c, k2)); assert(gap(d, 0, IR::GT, f, k3));
        assert(r == ref_statement_module_port_module_declaration(i)->Ok_0.0);
        assert(module_at(x, r, s->PortModuleDeclaration_0, s->PortModuleDeclaration_1, a, b, c, d, f));
        assert(after_port(i, z)); assert(after_module(y, x)); assert(lay0(z, y));
        assert(port_module_at(i, y, x));
    }
}
// the where block: field = Type pairs
pub open spec fn where_pair(z: S) -> R<(S, S)> {
    match ref_helpers_lo_name(z) { Err(e) => err(), Ok((x, l)) => match opt(ref_helpers_spaces(x), x) { Err(e) => err(), Ok((y, _)) => match s_char(y, '=') { Err(e) => err(), Ok((a, _)) =>
        match opt(ref_helpers_spaces(a), a) { Err(e) => err(), Ok((b, _)) => match ref_helpers_up_name(b) { Err(e) => err(), Ok((c, u)) => Ok((c, (l, u))) } } } } }
}
pub open spec fn f_pair() -> spec_fn(S) -> R<(S, S)> { |z: S| where_pair(z) }
pub open spec fn effect_shape(i: S, r: S, n: L<S>, w: L<(S, S)>, e: ExportSet, z: S, y: S, x: S, a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S, l: S, m: S, o: S) -> bool {
    &&& text(i, seq!['e', 'f', 'f', 'e', 'c', 't'], z) && lay0(z, y) && after_module(y, x) && lay0(x, a) && is(ref_helpers_module_name(a), b, n)
    &&& lay0(b, c) && text(c, seq!['w', 'h', 'e', 'r', 'e'], d) && lay0(d, f) && text(f, seq!['{'], g) && listed0(f_cons_comma(), f_pair(), g, w@, h) && text(h, seq!['}'], j)
    &&& lay0(j, l) && text(l, seq!['e', 'x', 'p', 'o', 's', 'i', 'n', 'g'], m) && lay0(m, o) && is(ref_statement_export_exports(o), r, e)
}
pub proof fn p_c12_effect_module(i: S)
    ensures ref_statement_module_effect_module_declaration(i) matches Ok((r, s)) ==> s matches Statement::EffectModuleDeclaration(n, w, e)
        && exists|z: S, y: S, x: S, a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S, l: S, m: S, o: S| #[trigger] effect_shape(i, r, n, w, e, z, y, x, a, b, c, d, f, g, h, j, l, m, o),
{
    broadcast use {group_text, t_tag, t_char, t_ref_helpers_lo_name, t_ref_helpers_up_name, t_ref_helpers_spaces};
    eq_statement_module_effect_module_declaration(i); exposing_text();
    if ref_statement_module_effect_module_declaration(i) is Ok {
        let (r, s0) = ref_statement_module_effect_module_declaration(i)->Ok_0;
        let z = s_tag(i, sl("effect"))->Ok_0.0;
        let (y, k0) = ref_helpers_spaces_or_new_lines_and_indent(z, 0u32, IR::GT)->Ok_0;
        let x = s_tag(y, sl("module"))->Ok_0.0;
        let (a, k1) = ref_helpers_spaces_or_new_lines_and_indent(x, 0u32, IR::GT)->Ok_0;
        let b = ref_helpers_module_name(a)->Ok_0.0;
        let (c, k2) = ref_helpers_spaces_or_new_lines_and_indent(b, 0u32, IR::GT)->Ok_0;
        let d = s_tag(c, sl("where"))->Ok_0.0;
        let (f, k3) = ref_helpers_spaces_or_new_lines_and_indent(d, 0u32, IR::GT)->Ok_0;
        let g = s_char(f, '{')->Ok_0.0;
        let (s, p) = (f_cons_comma(), f_pair());
        let li = sp_seplist(|z: S| s_tag(z, sl(", ")), |z: S| match ref_helpers_lo_name(z) { Err(e) => err(), Ok((x, l)) => match opt(ref_helpers_spaces(x), x) { Err(e) => err(), Ok((y, _)) => match s_char(y, '=') { Err(e) => err(), Ok((a, _)) =>
            match opt(ref_helpers_spaces(a), a) { Err(e) => err(), Ok((b, _)) => match ref_helpers_up_name(b) { Err(e) => err(), Ok((c, u)) => Ok((c, (l, u))) } } } } }, g);
        assert(loose(s)); assert(solid(p));
        assert(li == sp_seplist(s, p, g)) by { broadcast use group_ext; }
        let (h, w) = li->Ok_0;
        listed_iff(s, p, g, w, h);
        let j = s_char(h, '}')->Ok_0.0;
        let (l, k4) = ref_helpers_spaces_or_new_lines_and_indent(j, 0u32, IR::GT)->Ok_0;
        let m = s_tag(l, sl("exposing"))->Ok_0.0;
        let (o, k5) = ref_helpers_spaces_or_new_lines_and_indent(m, 0u32, IR::GT)->Ok_0;
        assert(gap(z, 0, IR::GT, y, k0)); assert(gap(x, 0, IR::GT, a, k1)); assert(gap(b, 0, IR::GT, c, k2)); assert(gap(d, 0, IR::GT, f, k3)); assert(gap(j, 0, IR::GT, l, k4)); assert(gap(m, 0, IR::GT, o, k5));
        assert(r == ref_statement_module_effect_module_declaration(i)->Ok_0.0);
        assert(effect_shape(i, r, s0->EffectModuleDeclaration_0, s0->EffectModuleDeclaration_1, s0->EffectModuleDeclaration_2, z, y, x, a, b, c, d, f, g, h, j, l, m, o));
    }
}
// C20: a name (other than effect) is never the start of a header, an import, a type declaration or a port
pub proof fn header_fails(i: S)
    requires ref_helpers_lo_name(i) matches Ok((_, v)) && v != sl("effect"),
    ensures ref_statement_module_port_module_declaration(i) is Err, ref_statement_module_effect_module_declaration(i) is Err, ref_statement_module_module_declaration(i) is Err,
        ref_statement_import_import_statement(i) is Err, ref_statement_type_declaration_type_alias_declaration(i) is Err, ref_statement_type_declaration_type_declaration(i, 0) is Err,
        ref_statement_port_port_type_declaration(i) is Err, ref_statement_port_port_declaration(i) is Err,
{
    words();
    eq_statement_module_port_module_declaration(i); eq_statement_module_effect_module_declaration(i); eq_statement_module_module_declaration(i);
    eq_statement_import_import_statement(i); eq_statement_type_declaration_type_alias_declaration(i); eq_statement_type_declaration_type_declaration(i, 0);
    eq_statement_port_port_type_declaration(i); eq_statement_port_port_declaration(i);
    if s_tag(i, sl("port")) is Ok { not_word_after(s_tag(i, sl("port"))->Ok_0.0, 0); if ends_word(s_tag(i, sl("port"))->Ok_0.0) { keyword(i, sl("port")); } }
    if s_tag(i, sl("effect")) is Ok { not_word_after(s_tag(i, sl("effect"))->Ok_0.0, 0); if ends_word(s_tag(i, sl("effect"))->Ok_0.0) { keyword(i, sl("effect")); } }
    if s_tag(i, sl("module")) is Ok { not_word_after(s_tag(i, sl("module"))->Ok_0.0, 0); if ends_word(s_tag(i, sl("module"))->Ok_0.0) { keyword(i, sl("module")); } }
    if s_tag(i, sl("import")) is Ok { not_word_after(s_tag(i, sl("import"))->Ok_0.0, 0); if ends_word(s_tag(i, sl("import"))->Ok_0.0) { keyword(i, sl("import")); } }
    if s_tag(i, sl("type")) is Ok { not_word_after(s_tag(i, sl("type"))->Ok_0.0, 0); if ends_word(s_tag(i, sl("type"))->Ok_0.0) { keyword(i, sl("type")); } }
}
pub proof fn p_c20_ordinary(i: S)
    requires ref_helpers_lo_name(i) matches Ok((_, v)) && v != sl("effect"),
    ensures ref_expression_function_function(i, 0) matches Ok((r, f)) ==> is(ref_statement_statement(i), r, Statement::Function(f)),
        ref_statement_statement(i) matches Ok((r, s)) ==> s is Function || s is InfixDeclaration,
{
    broadcast use {fst_statement_comment_comment, fst_helpers_lo_name};
    header_fails(i); eq_statement_statement(i); statement_kind(i);
}
// a function whose definition begins with a reserved word is none
pub proof fn p_c20_not_function(i: S)
    requires s_tag(i, sl("port")) is Ok, ends_word(s_tag(i, sl("port"))->Ok_0.0),
    ensures ref_expression_function_function(i, 0) is Err,
        ref_statement_statement(i) matches Ok((r, s)) ==> s is PortModuleDeclaration || s is PortTypeDeclaration || s is PortDeclaration,
{
    broadcast use {group_fst_leaf, fst_statement_module_effect_module_declaration, fst_statement_module_module_declaration, fst_statement_import_import_statement, fst_statement_type_declaration_type_alias_declaration,
        fst_statement_type_declaration_type_declaration, fst_statement_infix_infix_declaration, fst_statement_comment_comment};
    words(); keyword(i, sl("port")); reveal_strlit("port");
    eq_expression_function_function(i, 0); eq_expression_function_function_signature(i, 0); eq_expression_function_function_definition(i, 0);
    statement_kind(i);
}

// ---------------------------------------- C15: lists, tuples, records
pub proof fn sep_ok<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires loose(s), solid(p), ensures sep_from(s, p, i, acc) is Ok, decreases blen(i),
{
    assert(total(i, s(i), true));
    match s(i) { Ok((x, _)) => { assert(total(x, p(x), false)); if blen(x) != blen(i) && p(x) is Ok { sep_ok(s, p, p(x)->Ok_0.0, push(acc, p(x)->Ok_0.1)); } } _ => {} }
}
pub proof fn seplist_ok<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S)
    requires loose(s), solid(p), ensures sp_seplist(s, p, i) is Ok,
{ assert(total(i, p(i), false)); if p(i) is Ok { sep_ok(s, p, p(i)->Ok_0.0, v1(p(i)->Ok_0.1)); } }
pub open spec fn pad(z: S, y: S) -> bool { s_run0(z, @blank) matches Ok((x, _)) && x == y }
pub open spec fn padded(z: S, ind: u32) -> R<Expression> {
    match s_run0(z, @blank) { Err(e) => err(), Ok((x, _)) => match ref_expression_expression(x, ind) { Err(e) => err(), Ok((y, e)) => match s_run0(y, @blank) { Err(e) => err(), Ok((u, _)) => Ok((u, e)) } } }
}
pub open spec fn f_padded(ind: u32) -> spec_fn(S) -> R<Expression> { |z: S| padded(z, ind) }
pub open spec fn f_bare() -> spec_fn(S) -> R<char> { |z: S| s_char(z, ',') }
// "[" elements between commas "]"
pub open spec fn list_shape(i: S, ind: u32, r: S, v: L<Expression>, a: S, b: S, c: S, d: S) -> bool {
    text(i, seq!['['], a) && gap0(a, ind, b) && listed0(f_comma(ind), f_expr(ind), b, v@, c) && gap0(c, ind, d) && text(d, seq![']'], r)
}
pub proof fn p_c15_list(i: S, ind: u32)
    ensures ref_expression_list(i, ind) matches Ok((r, e)) ==> e matches Expression::List(v) && exists|a: S, b: S, c: S, d: S| #[trigger] list_shape(i, ind, r, v, a, b, c, d),
{
    broadcast use {group_text, t_char, t_comma, t_ref_expression_expression, t_ref_helpers_spaces_or_new_lines_and_indent};
    eq_expression_list(i, ind);
    if ref_expression_list(i, ind) is Ok {
        let (r, e) = ref_expression_list(i, ind)->Ok_0;
        let a = s_char(i, '[')->Ok_0.0;
        let b = opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a)->Ok_0.0;
        let (s, p) = (f_comma(ind), f_expr(ind));
        let l = sp_seplist(|z: S| match opt(ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GTE), z) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
            match opt(ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE), y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }, |z: S| ref_expression_expression(z, ind), b);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist(s, p, b)) by { broadcast use group_ext; }
        seplist_ok(s, p, b);
        let (c, v) = l->Ok_0;
        listed_iff(s, p, b, v, c);
        let d = opt(ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GTE), c)->Ok_0.0;
        assert(r == ref_expression_list(i, ind)->Ok_0.0);
        assert(list_shape(i, ind, r, e->List_0, a, b, c, d));
    }
}
pub open spec fn tuple_shape(i: S, ind: u32, r: S, v: L<Expression>, a: S, b: S) -> bool {
    text(i, seq!['('], a) && listed0(f_bare(), f_padded(ind), a, v@, b) && text(b, seq![')'], r)
}
pub broadcast proof fn t_padded(z: S, ind: u32) ensures total(z, #[trigger] padded(z, ind), false) { broadcast use {t_run0, t_ref_expression_expression}; }
pub proof fn p_c15_tuple(i: S, ind: u32)
    ensures ref_expression_tuple(i, ind) matches Ok((r, e)) ==> e matches Expression::Tuple(v) && (exists|a: S, b: S| #[trigger] tuple_shape(i, ind, r, v, a, b)) && (v@.len() == 1 ==> is(ref_expression_parens(i, ind), r, v@[0])),
{
    broadcast use {group_text, t_char, t_padded, t_run0, t_ref_expression_expression};
    eq_expression_tuple(i, ind); eq_expression_parens(i, ind);
    if ref_expression_tuple(i, ind) is Ok {
        let (r, e) = ref_expression_tuple(i, ind)->Ok_0;
        let a = s_char(i, '(')->Ok_0.0;
        let (s, p) = (f_bare(), f_padded(ind));
        let l = sp_seplist(|z: S| s_char(z, ','), |z: S| match s_run0(z, @blank) { Err(e) => err(), Ok((x, _)) => match ref_expression_expression(x, ind) { Err(e) => err(), Ok((y, e)) => match s_run0(y, @blank) { Err(e) => err(), Ok((u, _)) => Ok((u, e)) } } }, a);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist(s, p, a)) by { broadcast use group_ext; }
        let (b, v) = l->Ok_0;
        listed_iff(s, p, a, v, b);
        assert(r == ref_expression_tuple(i, ind)->Ok_0.0);
        assert(tuple_shape(i, ind, r, e->Tuple_0, a, b));
        if v@.len() == 1 { assert(p(a) == padded(a, ind)); assert(v@.drop_first().len() == 0); assert(padded(a, ind) matches Ok((y, t)) && t == v@[0] && y == b); }
    }
}
// () is the empty tuple
pub proof fn p_c15_unit(i: S, r: S, ind: u32)
    requires text(i, seq!['(', ')'], r),
    ensures is(ref_expression_tuple(i, ind), r, Expression::Tuple(vnil())),
{
    broadcast use {t_char, t_padded, t_run0, t_ref_expression_expression, fst_expression_expression, group_fst_leaf};
    eq_expression_tuple(i, ind);
    reveal(s_char);
    let a = skip(i, 1);
    assert(i@ =~= seq!['(', ')'] + r@); assert(i@[0] == '('); assert(i@[1] == ')'); assert(a@ =~= seq![')'] + r@); assert(a@[0] == ')');
    assert(s_char(i, '(') == Ok::<(S, char), NErr>((a, '(')));
    let (s, p) = (f_bare(), f_padded(ind));
    let l = sp_seplist(|z: S| s_char(z, ','), |z: S| match s_run0(z, @blank) { Err(e) => err(), Ok((x, _)) => match ref_expression_expression(x, ind) { Err(e) => err(), Ok((y, e)) => match s_run0(y, @blank) { Err(e) => err(), Ok((u, _)) => Ok((u, e)) } } }, a);
    assert(l == sp_seplist(s, p, a)) by { broadcast use group_ext; }
    assert(p(a) == padded(a, ind));
    assert(!in_cls(@blank, a@[0])); reveal(run); assert(run(@blank, a@) == 0);
    reveal(s_run0);
    assert(skip(a, 0)@ =~= a@); 
    assert(ref_expression_expression(a, ind) is Err);
    assert(p(a) is Err); assert(total(a, p(a), false));
    assert(skip(a, 1)@ =~= r@);
}
// the parser of a parenthesised expression gives that expression, whatever the blanks
pub open spec fn parens_shape(i: S, ind: u32, r: S, e: Expression, a: S, b: S, c: S, d: S) -> bool {
    text(i, seq!['('], a) && pad(a, b) && is(ref_expression_expression(b, ind), c, e) && pad(c, d) && text(d, seq![')'], r)
}
pub proof fn p_c15_parens(i: S, ind: u32)
    ensures ref_expression_parens(i, ind) matches Ok((r, e)) ==> exists|a: S, b: S, c: S, d: S| #[trigger] parens_shape(i, ind, r, e, a, b, c, d),
{
    broadcast use {group_text, t_char, t_run0};
    eq_expression_parens(i, ind);
    if ref_expression_parens(i, ind) is Ok {
        let (r, e) = ref_expression_parens(i, ind)->Ok_0;
        let a = s_char(i, '(')->Ok_0.0;
        let b = s_run0(a, @blank)->Ok_0.0;
        let c = ref_expression_expression(b, ind)->Ok_0.0;
        let d = s_run0(c, @blank)->Ok_0.0;
        assert(r == ref_expression_parens(i, ind)->Ok_0.0);
        assert(parens_shape(i, ind, r, e, a, b, c, d));
    }
}
// no expression is ever a one-element tuple
pub open spec fn not_single(e: Expression) -> bool { !(e matches Expression::Tuple(v) && v@.len() == 1) }
pub proof fn p_c15_no_single(i: S, ind: u32)
    ensures ref_expression_term(i, ind) matches Ok((r, e)) ==> not_single(e),
        ref_expression_expression(i, ind) matches Ok((r, e)) ==> not_single(e),
    decreases blen(i)
{
    broadcast use {t_char, t_run0, t_ref_expression_expression, t_ref_helpers_spaces_or_new_lines_and_indent, t_ref_expression_term};
    eq_expression_term(i, ind); eq_expression_access_access(i); eq_expression_variable_variable(i); eq_expression_variable_lower_case(i); eq_expression_variable_upper_with_dots(i); eq_expression_variable_op(i);
    eq_expression_access_function_access_function(i); eq_expression_string_string(i); eq_expression_float_float(i); eq_expression_integer_integer(i); eq_expression_character_character(i);
    eq_expression_list(i, ind); eq_expression_record_update(i, ind); eq_expression_record(i, ind); eq_expression_simplified_record(i, ind);
    p_c15_tuple(i, ind); eq_expression_parens(i, ind);
    if ref_expression_parens(i, ind) is Ok {
        let a = s_char(i, '(')->Ok_0.0;
        let b = s_run0(a, @blank)->Ok_0.0;
        p_c15_no_single(b, ind);
    }
    eq_expression_expression(i, ind); eq_expression_binary(i, ind); eq_expression_let_expression(i, ind); eq_expression_case_expression(i, ind); eq_expression_if_expression(i, ind); eq_expression_lambda(i, ind);
    p_c07_application(i, ind);
    if ref_expression_application_or_var(i, ind) is Ok {
        let (r, e) = ref_expression_application_or_var(i, ind)->Ok_0;
        let v = choose|v: Seq<Expression>| #[trigger] app_shape(i, ind, r, e, v);
        assert(app_shape(i, ind, r, e, v));
        assert(f_term(ind)(i) == ref_expression_term(i, ind));
        if v.len() == 1 { assert(e == v[0]); } else { assert(e is Application); }
    }
}
// record { name = value, ... }
pub open spec fn field(z: S, ind: u32) -> R<(S, Expression)> {
    match ref_helpers_lo_name(z) { Err(e) => err(), Ok((x, n)) => match opt(ref_helpers_spaces_or_new_lines_and_indent(x, ind, IR::GTE), x) { Err(e) => err(), Ok((y, _)) => match s_char(y, '=') { Err(e) => err(), Ok((a, _)) =>
        match opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a) { Err(e) => err(), Ok((b, _)) => match ref_expression_expression(b, ind) { Err(e) => err(), Ok((c, e)) => Ok((c, (n, e))) } } } } }
}
pub open spec fn f_field(ind: u32) -> spec_fn(S) -> R<(S, Expression)> { |z: S| field(z, ind) }
pub broadcast proof fn t_field(z: S, ind: u32) ensures total(z, #[trigger] field(z, ind), false) { broadcast use {t_char, t_ref_helpers_lo_name, t_ref_expression_expression, t_ref_helpers_spaces_or_new_lines_and_indent}; }
pub open spec fn record_shape(i: S, ind: u32, r: S, v: L<(S, Expression)>, a: S, b: S, c: S, d: S) -> bool {
    text(i, seq!['{'], a) && gap0(a, ind, b) && listed0(f_comma(ind), f_field(ind), b, v@, c) && gap0(c, ind, d) && text(d, seq!['}'], r)
}
pub proof fn p_c15_record(i: S, ind: u32)
    ensures ref_expression_record(i, ind) matches Ok((r, e)) ==> e matches Expression::Record(v) && exists|a: S, b: S, c: S, d: S| #[trigger] record_shape(i, ind, r, v, a, b, c, d),
{
    broadcast use {group_text, t_char, t_comma, t_field, t_ref_helpers_spaces_or_new_lines_and_indent};
    eq_expression_record(i, ind);
    if ref_expression_record(i, ind) is Ok {
        let (r, e) = ref_expression_record(i, ind)->Ok_0;
        let a = s_char(i, '{')->Ok_0.0;
        let b = opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a)->Ok_0.0;
        let (s, p) = (f_comma(ind), f_field(ind));
        let l = sp_seplist(|z: S| match opt(ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GTE), z) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
            match opt(ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE), y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } },
            |z: S| match ref_helpers_lo_name(z) { Err(e) => err(), Ok((x, n)) => match opt(ref_helpers_spaces_or_new_lines_and_indent(x, ind, IR::GTE), x) { Err(e) => err(), Ok((y, _)) => match s_char(y, '=') { Err(e) => err(), Ok((a, _)) =>
                match opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a) { Err(e) => err(), Ok((b, _)) => match ref_expression_expression(b, ind) { Err(e) => err(), Ok((c, e)) => Ok((c, (n, e))) } } } } }, b);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist(s, p, b)) by { broadcast use group_ext; }
        let (c, v) = l->Ok_0;
        listed_iff(s, p, b, v, c);
        let d = opt(ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GTE), c)->Ok_0.0;
        assert(r == ref_expression_record(i, ind)->Ok_0.0);
        assert(record_shape(i, ind, r, e->Record_0, a, b, c, d));
    }
}
// { name, ... }: each field bound to the variable of its name
pub open spec fn pun(z: S) -> R<(S, Expression)> {
    match s_run0(z, @blank) { Err(e) => err(), Ok((x, _)) => match ref_helpers_lo_name(x) { Err(e) => err(), Ok((y, n)) => match s_run0(y, @blank) { Err(e) => err(), Ok((u, _)) => Ok((u, (cl(n), Expression::Variable(v1(n))))) } } }
}
pub open spec fn f_pun() -> spec_fn(S) -> R<(S, Expression)> { |z: S| pun(z) }
pub broadcast proof fn t_pun(z: S) ensures total(z, #[trigger] pun(z), false) { broadcast use {t_run0, t_ref_helpers_lo_name}; }
pub open spec fn puns_shape(i: S, r: S, v: L<(S, Expression)>, a: S, b: S) -> bool { text(i, seq!['{'], a) && listed0(f_bare(), f_pun(), a, v@, b) && text(b, seq!['}'], r) }
pub proof fn p_c15_puns(i: S, ind: u32)
    ensures ref_expression_simplified_record(i, ind) matches Ok((r, e)) ==> e matches Expression::Record(v) && exists|a: S, b: S| #[trigger] puns_shape(i, r, v, a, b),
{
    broadcast use {group_text, t_char, t_pun};
    eq_expression_simplified_record(i, ind);
    if ref_expression_simplified_record(i, ind) is Ok {
        let (r, e) = ref_expression_simplified_record(i, ind)->Ok_0;
        let a = s_char(i, '{')->Ok_0.0;
        let (s, p) = (f_bare(), f_pun());
        let l = sp_seplist(|z: S| s_char(z, ','), |z: S| match s_run0(z, @blank) { Err(e) => err(), Ok((x, _)) => match ref_helpers_lo_name(x) { Err(e) => err(), Ok((y, n)) => match s_run0(y, @blank) { Err(e) => err(), Ok((u, _)) => Ok((u, (cl(n), Expression::Variable(v1(n))))) } } }, a);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist(s, p, a)) by { broadcast use group_ext; }
        let (b, v) = l->Ok_0;
        listed_iff(s, p, a, v, b);
        assert(r == ref_expression_simplified_record(i, ind)->Ok_0.0);
        assert(puns_shape(i, r, e->Record_0, a, b));
    }
}
// { name | field = value, ... }
pub open spec fn gap1(x: S, ind: u32, y: S) -> bool { ref_helpers_opt_spaces_or_new_lines_and_indent(x, ind, IR::GTE) matches Ok((z, _)) && z == y }
pub open spec fn comma1(z: S, ind: u32) -> R<char> {
    match ref_helpers_opt_spaces_or_new_lines_and_indent(z, ind, IR::GTE) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
        match ref_helpers_opt_spaces_or_new_lines_and_indent(y, ind, IR::GTE) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }
}
pub open spec fn f_comma1(ind: u32) -> spec_fn(S) -> R<char> { |z: S| comma1(z, ind) }
pub broadcast proof fn t_comma1(z: S, ind: u32) ensures total(z, #[trigger] comma1(z, ind), false) { broadcast use {t_char, t_ref_helpers_opt_spaces_or_new_lines_and_indent}; }
pub open spec fn change(z: S, ind: u32) -> R<(S, Expression)> {
    match ref_helpers_lo_name(z) { Err(e) => err(), Ok((x, f)) => match s_run0(x, @blank) { Err(e) => err(), Ok((y, _)) => match s_char(y, '=') { Err(e) => err(), Ok((a, _)) =>
        match s_run0(a, @blank) { Err(e) => err(), Ok((b, _)) => match ref_expression_expression(b, ind) { Err(e) => err(), Ok((c, e)) => Ok((c, (f, e))) } } } } }
}
pub open spec fn f_change(ind: u32) -> spec_fn(S) -> R<(S, Expression)> { |z: S| change(z, ind) }
pub broadcast proof fn t_change(z: S, ind: u32) ensures total(z, #[trigger] change(z, ind), false) { broadcast use {t_char, t_run0, t_ref_helpers_lo_name, t_ref_expression_expression}; }
pub open spec fn update_shape(i: S, ind: u32, r: S, n: S, v: L<(S, Expression)>, a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S) -> bool {
    &&& text(i, seq!['{'], a) && gap1(a, ind, b) && is(ref_helpers_lo_name(b), c, n) && gap1(c, ind, d) && text(d, seq!['|'], f) && pad(f, g)
    &&& listed0(f_comma1(ind), f_change(ind), g, v@, h) && gap1(h, ind, j) && text(j, seq!['}'], r)
}
pub proof fn p_c15_update(i: S, ind: u32)
    ensures ref_expression_record_update(i, ind) matches Ok((r, e)) ==> e matches Expression::RecordUpdate(n, v)
        && exists|a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S| #[trigger] update_shape(i, ind, r, n, v, a, b, c, d, f, g, h, j),
{
    broadcast use {group_text, t_char, t_comma1, t_change, t_run0, t_ref_helpers_opt_spaces_or_new_lines_and_indent};
    eq_expression_record_update(i, ind);
    if ref_expression_record_update(i, ind) is Ok {
        let (r, e) = ref_expression_record_update(i, ind)->Ok_0;
        let a = s_char(i, '{')->Ok_0.0;
        let b = ref_helpers_opt_spaces_or_new_lines_and_indent(a, ind, IR::GTE)->Ok_0.0;
        let c = ref_helpers_lo_name(b)->Ok_0.0;
        let d = ref_helpers_opt_spaces_or_new_lines_and_indent(c, ind, IR::GTE)->Ok_0.0;
        let f = s_char(d, '|')->Ok_0.0;
        let g = s_run0(f, @blank)->Ok_0.0;
        let (s, p) = (f_comma1(ind), f_change(ind));
        let l = sp_seplist(|z: S| match ref_helpers_opt_spaces_or_new_lines_and_indent(z, ind, IR::GTE) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
            match ref_helpers_opt_spaces_or_new_lines_and_indent(y, ind, IR::GTE) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } },
            |z: S| match ref_helpers_lo_name(z) { Err(e) => err(), Ok((x, f)) => match s_run0(x, @blank) { Err(e) => err(), Ok((y, _)) => match s_char(y, '=') { Err(e) => err(), Ok((a, _)) =>
                match s_run0(a, @blank) { Err(e) => err(), Ok((b, _)) => match ref_expression_expression(b, ind) { Err(e) => err(), Ok((c, e)) => Ok((c, (f, e))) } } } } }, g);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist(s, p, g)) by { broadcast use group_ext; }
        let (h, v) = l->Ok_0;
        listed_iff(s, p, g, v, h);
        let j = ref_helpers_opt_spaces_or_new_lines_and_indent(h, ind, IR::GTE)->Ok_0.0;
        assert(r == ref_expression_record_update(i, ind)->Ok_0.0);
        assert(update_shape(i, ind, r, e->RecordUpdate_0, e->RecordUpdate_1, a, b, c, d, f, g, h, j));
    }
}

// ---------------------------------------- C09: types
pub open spec fn param(z: S, ind: u32) -> R<Type> {
    match ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GT) { Err(e) => err(), Ok((x, n)) => match ref_type__type_parameter(x, n) { Err(e) => err(), Ok((y, t)) => Ok((y, t)) } }
}
pub open spec fn f_param(ind: u32) -> spec_fn(S) -> R<Type> { |z: S| param(z, ind) }
pub broadcast proof fn t_param(z: S, ind: u32) ensures total(z, #[trigger] param(z, ind), false) { broadcast use {t_ref_helpers_spaces_or_new_lines_and_indent, t_ref_type__type_parameter}; }
// a dotted name, then every parameter
pub open spec fn ctor_shape(i: S, ind: u32, r: S, a: L<S>, b: L<Type>, x: S) -> bool { listed(f_dot(), f_up(), i, a@, x) && each(f_param(ind), x, b@, r) }
pub proof fn p_c09_constructor(i: S, ind: u32)
    ensures ref_type__type_constructor(i, ind) matches Ok((r, t)) ==> t matches Type::TypeConstructor(a, b) && exists|x: S| #[trigger] ctor_shape(i, ind, r, a, b, x),
{
    broadcast use {t_char, t_ref_helpers_up_name, t_param};
    eq_type__type_constructor(i, ind);
    if ref_type__type_constructor(i, ind) is Ok {
        let (r, t) = ref_type__type_constructor(i, ind)->Ok_0;
        let (s, p, q) = (f_dot(), f_up(), f_param(ind));
        let l = sp_seplist1(|z: S| s_char(z, '.'), |z: S| ref_helpers_up_name(z), i);
        assert(loose(s)); assert(solid(p)); assert(solid(q));
        assert(l == sp_seplist1(s, p, i)) by { broadcast use group_ext; }
        let (x, a) = l->Ok_0;
        listed_iff(s, p, i, a, x);
        let m = sp_many0(|z: S| match ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GT) { Err(e) => err(), Ok((x, n)) => match ref_type__type_parameter(x, n) { Err(e) => err(), Ok((y, t)) => Ok((y, t)) } }, x);
        assert(m == sp_many0(q, x)) by { broadcast use group_ext; }
        let (r1, b) = m->Ok_0;
        each0_iff(q, x, b, r1);
        assert(r == ref_type__type_constructor(i, ind)->Ok_0.0);
        assert(ctor_shape(i, ind, r, t->TypeConstructor_0, t->TypeConstructor_1, x));
    }
}
// a bare constructor name as parameter has no parameters of its own
pub proof fn p_c09_constant(i: S)
    ensures ref_type__type_constant(i) matches Ok((r, t)) ==> t matches Type::TypeConstructor(a, b) && b@.len() == 0 && listed(f_dot(), f_up(), i, a@, r),
{
    broadcast use {t_char, t_ref_helpers_up_name};
    eq_type__type_constant(i);
    if ref_type__type_constant(i) is Ok {
        let (s, p) = (f_dot(), f_up());
        let l = sp_seplist1(|z: S| s_char(z, '.'), |z: S| ref_helpers_up_name(z), i);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist1(s, p, i)) by { broadcast use group_ext; }
        let (x, a) = l->Ok_0;
        listed_iff(s, p, i, a, x);
    }
}
// name : type
pub open spec fn pair_at(z: S, ind: u32, r: S, v: (S, Type), a: S, b: S, c: S, d: S) -> bool {
    is(ref_helpers_lo_name(z), a, v.0) && gap0(a, ind, b) && text(b, seq![':'], c) && gap0(c, ind, d) && is(ref_type__type_annotation(d, ind), r, v.1)
}
pub proof fn p_c09_field(z: S, ind: u32)
    ensures ref_type__type_record_pair(z, ind) matches Ok((r, v)) ==> exists|a: S, b: S, c: S, d: S| #[trigger] pair_at(z, ind, r, v, a, b, c, d),
{
    broadcast use group_text;
    eq_type__type_record_pair(z, ind);
    if ref_type__type_record_pair(z, ind) is Ok {
        let (r, v) = ref_type__type_record_pair(z, ind)->Ok_0;
        let a = ref_helpers_lo_name(z)->Ok_0.0;
        let b = opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a)->Ok_0.0;
        let c = s_char(b, ':')->Ok_0.0;
        let d = opt(ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GTE), c)->Ok_0.0;
        assert(r == ref_type__type_record_pair(z, ind)->Ok_0.0);
        assert(pair_at(z, ind, r, v, a, b, c, d));
    }
}
pub open spec fn f_pairty(ind: u32) -> spec_fn(S) -> R<(S, Type)> { |z: S| ref_type__type_record_pair(z, ind) }
pub proof fn pairs_listed(i: S, ind: u32)
    ensures ref_type__type_record_pairs(i, ind) matches Ok((r, v)) ==> listed0(f_comma(ind), f_pairty(ind), i, v@, r),
{
    broadcast use {t_char, t_comma, t_ref_type__type_record_pair, t_ref_helpers_spaces_or_new_lines_and_indent};
    eq_type__type_record_pairs(i, ind);
    let (s, p) = (f_comma(ind), f_pairty(ind));
    let l = sp_seplist(|z: S| match opt(ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GTE), z) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
            match opt(ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE), y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }, |z: S| ref_type__type_record_pair(z, ind), i);
    assert(loose(s)); assert(solid(p));
    assert(l == sp_seplist(s, p, i)) by { broadcast use group_ext; }
    if l is Ok { listed_iff(s, p, i, l->Ok_0.1, l->Ok_0.0); }
}
pub open spec fn tyrec_shape(i: S, ind: u32, r: S, v: L<(S, Type)>, a: S, b: S, c: S, d: S) -> bool {
    text(i, seq!['{'], a) && gap0(a, ind, b) && listed0(f_comma(ind), f_pairty(ind), b, v@, c) && gap0(c, ind, d) && text(d, seq!['}'], r)
}
pub proof fn p_c09_record(i: S, ind: u32)
    ensures ref_type__type_record(i, ind) matches Ok((r, t)) ==> t matches Type::TypeRecord(v) && exists|a: S, b: S, c: S, d: S| #[trigger] tyrec_shape(i, ind, r, v, a, b, c, d),
{
    broadcast use group_text;
    eq_type__type_record(i, ind);
    if ref_type__type_record(i, ind) is Ok {
        let (r, t) = ref_type__type_record(i, ind)->Ok_0;
        let a = s_char(i, '{')->Ok_0.0;
        let b = opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a)->Ok_0.0;
        pairs_listed(b, ind);
        let c = ref_type__type_record_pairs(b, ind)->Ok_0.0;
        let d = opt(ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GTE), c)->Ok_0.0;
        assert(r == ref_type__type_record(i, ind)->Ok_0.0);
        assert(tyrec_shape(i, ind, r, t->TypeRecord_0, a, b, c, d));
    }
}
pub open spec fn lays(x: S, ind: u32, y: S) -> bool { exists|k: u32| #[trigger] gap(x, ind, IR::GTE, y, k) }
pub open spec fn tyext_shape(i: S, ind: u32, r: S, u: Type, v: L<(S, Type)>, a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S) -> bool {
    &&& text(i, seq!['{'], a) && lays(a, ind, b) && is(ref_type__type_variable(b), c, u) && lays(c, ind, d) && text(d, seq!['|'], f) && lays(f, ind, g)
    &&& listed0(f_comma(ind), f_pairty(ind), g, v@, h) && lays(h, ind, j) && text(j, seq!['}'], r)
}
pub proof fn p_c09_extensible(i: S, ind: u32)
    ensures ref_type__type_record_constructor(i, ind) matches Ok((r, t)) ==> t matches Type::TypeRecordConstructor(u, v)
        && exists|a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S| #[trigger] tyext_shape(i, ind, r, u.g@, v, a, b, c, d, f, g, h, j),
{
    broadcast use group_text;
    eq_type__type_record_constructor(i, ind);
    if ref_type__type_record_constructor(i, ind) is Ok {
        let (r, t) = ref_type__type_record_constructor(i, ind)->Ok_0;
        let a = s_char(i, '{')->Ok_0.0;
        let (b, k1) = ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE)->Ok_0;
        let c = ref_type__type_variable(b)->Ok_0.0;
        let (d, k2) = ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GTE)->Ok_0;
        let f = s_char(d, '|')->Ok_0.0;
        let (g, k3) = ref_helpers_spaces_or_new_lines_and_indent(f, ind, IR::GTE)->Ok_0;
        pairs_listed(g, ind);
        let h = ref_type__type_record_pairs(g, ind)->Ok_0.0;
        let (j, k4) = ref_helpers_spaces_or_new_lines_and_indent(h, ind, IR::GTE)->Ok_0;
        assert(gap(a, ind, IR::GTE, b, k1)); assert(gap(c, ind, IR::GTE, d, k2)); assert(gap(f, ind, IR::GTE, g, k3)); assert(gap(h, ind, IR::GTE, j, k4));
        assert(r == ref_type__type_record_constructor(i, ind)->Ok_0.0);
        assert(tyext_shape(i, ind, r, t->TypeRecordConstructor_0.g@, t->TypeRecordConstructor_1, a, b, c, d, f, g, h, j));
    }
}
pub open spec fn tytup_shape(i: S, ind: u32, r: S, v: L<Type>, a: S, b: S, c: S, d: S) -> bool {
    text(i, seq!['('], a) && gap0(a, ind, b) && listed0(f_comma(ind), f_type(ind), b, v@, c) && gap0(c, ind, d) && text(d, seq![')'], r)
}
// ( annotation )
pub open spec fn group(i: S, ind: u32) -> R<Type> {
    match s_char(i, '(') { Err(e) => err(), Ok((x, _)) => match opt(ref_helpers_spaces_or_new_lines_and_indent(x, ind, IR::GTE), x) { Err(e) => err(), Ok((y, _)) => match ref_type__type_annotation(y, ind) { Err(e) => err(), Ok((a, t)) =>
        match opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a) { Err(e) => err(), Ok((b, _)) => match s_char(b, ')') { Err(e) => err(), Ok((c, _)) => Ok((c, t)) } } } } }
}
// layout before an arrow is read as layout by the closing bracket's parser too
pub proof fn lay_spnl(s: Seq<char>, nl: bool, n: nat)
    ensures ({ let t = s.subrange(run(@spnl, s), s.len() as int); t.len() > 0 && t[0] == '-' && !dashes(t) ==> lay(s, nl, n).0 == t }),
    decreases s.len()
{
    broadcast use cls_spnl;
    reveal_with_fuel(run, 2);
    lemma_run(@spnl, s);
    if s.len() > 0 && (s[0] == ' ' || s[0] == '\n') {
        let t = s.drop_first();
        assert(t =~= s.subrange(1, s.len() as int));
        lemma_run(@spnl, t);
        lay_spnl(t, nl, if nl { n + 1 } else { n }); lay_spnl(t, true, 0);
        assert(t.subrange(run(@spnl, t), t.len() as int) =~= s.subrange(run(@spnl, s), s.len() as int));
    } else { assert(s.subrange(0, s.len() as int) =~= s); }
}
pub proof fn arrow_open(y: S, ind: u32)
    requires arrow(y) is Ok,
    ensures opt(ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE), y) matches Ok((w, _)) && s_char(w, ')') is Err,
{
    broadcast use {group_text, cls_spnl};
    eq_helpers_spaces_and_newlines(y);
    let (x, b) = s_run1(y, @spnl)->Ok_0;
    run1_facts(y, @spnl);
    reveal(s_run1); reveal(s_char); reveal_with_fuel(run, 2); reveal_strlit("->");
    lemma_run(@spnl, y@); lemma_cut(y, run(@spnl, y@));
    lay_spnl(y@, false, ind as nat);
    p_c05_layout(y, ind, IR::GTE);
    assert(x@[0] == '-' && x@[1] == '>');
    assert(y@[0] == ' ' || y@[0] == '\n');
}
// a type that no arrow follows is the whole annotation
pub proof fn alone(i: S, ind: u32)
    requires ref_type__type_(i, ind) matches Ok((c, _)) && arrow(c) is Err,
    ensures ref_type__type_annotation(i, ind) == ref_type__type_(i, ind),
{
    broadcast use {t_arrow, t_ref_type__type_};
    eq_type__type_annotation(i, ind);
    let (s, p) = (f_arrow(), f_type(ind));
    let l = sp_seplist1(|z2104: S| match ref_helpers_spaces_and_newlines(z2104) { Err(e2106) => err(), Ok((x2105, _)) => match s_tag(x2105, sl("->")) { Err(e2108) => err(), Ok((x2107, t)) => match ref_helpers_spaces_and_newlines(x2107) { Err(e2110) => err(), Ok((x2109, _)) => Ok((x2109, t)) } } }, |z2111: S| ref_type__type_(z2111, ind), i);
    assert(loose(s)); assert(solid(p));
    assert(l == sp_seplist1(s, p, i)) by { broadcast use {group_ext, t_tag, t_ref_helpers_spaces_and_newlines}; }
    let (c, t) = ref_type__type_(i, ind)->Ok_0;
    assert(p(i) == ref_type__type_(i, ind)); assert(s(c) == arrow(c));
    let v = v1(t);
    assert(v@.drop_first().len() == 0);
    assert(more(s, p, c, v@.drop_first(), c));
    assert(listed(s, p, i, v@, c));
    listed_iff(s, p, i, v, c);
    arrow_is_right(v, 0);
    assert(v@.subrange(0, v@.len() as int) =~= v@);
}
pub proof fn p_c09_tuple(i: S, ind: u32)
    ensures ref_type__type_tuple(i, ind) matches Ok((r, t)) ==> t matches Type::TypeTuple(v) && (exists|a: S, b: S, c: S, d: S| #[trigger] tytup_shape(i, ind, r, v, a, b, c, d))
        && (v@.len() == 1 ==> is(group(i, ind), r, v@[0])),
{
    broadcast use {group_text, t_char, t_comma, t_ref_type__type_, t_ref_helpers_spaces_or_new_lines_and_indent};
    eq_type__type_tuple(i, ind);
    if ref_type__type_tuple(i, ind) is Ok {
        let (r, t) = ref_type__type_tuple(i, ind)->Ok_0;
        let a = s_char(i, '(')->Ok_0.0;
        let b = opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a)->Ok_0.0;
        let (s, p) = (f_comma(ind), f_type(ind));
        let l = sp_seplist(|z: S| match opt(ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GTE), z) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
            match opt(ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE), y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }, |z: S| ref_type__type_(z, ind), b);
        assert(loose(s)); assert(solid(p));
        assert(l == sp_seplist(s, p, b)) by { broadcast use group_ext; }
        let (c, v) = l->Ok_0;
        listed_iff(s, p, b, v, c);
        let d = opt(ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GTE), c)->Ok_0.0;
        assert(r == ref_type__type_tuple(i, ind)->Ok_0.0);
        assert(tytup_shape(i, ind, r, t->TypeTuple_0, a, b, c, d));
        if v@.len() == 1 {
            assert(p(b) == ref_type__type_(b, ind)); assert(v@.drop_first().len() == 0);
            assert(is(ref_type__type_(b, ind), c, v@[0]));
            if arrow(c) is Ok { arrow_open(c, ind); }
            alone(b, ind);
        }
    }
}
// the node of each kind comes from the parser of that kind; anything else is a parenthesised type
pub open spec fn type_kind(i: S, ind: u32, r: S, t: Type) -> bool {
    is(group(i, ind), r, t) || match t {
        Type::TypeConstructor(_, _) => is(ref_type__type_constructor(i, ind), r, t),
        Type::TypeVariable(_) => is(ref_type__type_variable(i), r, t),
        Type::TypeRecord(_) => is(ref_type__type_record(i, ind), r, t),
        Type::TypeRecordConstructor(_, _) => is(ref_type__type_record_constructor(i, ind), r, t),
        Type::TypeTuple(_) => is(ref_type__type_tuple(i, ind), r, t),
        _ => false,
    }
}
pub open spec fn param_kind(i: S, ind: u32, r: S, t: Type) -> bool {
    is(group(i, ind), r, t) || match t {
        Type::TypeConstructor(_, _) => is(ref_type__type_constant(i), r, t),
        Type::TypeVariable(_) => is(ref_type__type_variable(i), r, t),
        Type::TypeRecord(_) => is(ref_type__type_record(i, ind), r, t),
        Type::TypeRecordConstructor(_, _) => is(ref_type__type_record_constructor(i, ind), r, t),
        Type::TypeTuple(_) => is(ref_type__type_tuple(i, ind), r, t),
        _ => false,
    }
}
pub proof fn p_c09_kinds(i: S, ind: u32)
    ensures ref_type__type_(i, ind) matches Ok((r, t)) ==> type_kind(i, ind, r, t),
        ref_type__type_parameter(i, ind) matches Ok((r, t)) ==> param_kind(i, ind, r, t),
{
    eq_type__type_(i, ind); eq_type__type_parameter(i, ind);
    p_c09_constructor(i, ind); p_c09_constant(i); eq_type__type_variable(i); p_c09_record(i, ind); p_c09_extensible(i, ind); p_c09_tuple(i, ind);
}
// no type is ever a one-element tuple
pub open spec fn no_single_tuple(t: Type) -> bool { !(t matches Type::TypeTuple(v) && v@.len() == 1) }
pub proof fn p_c09_no_single(i: S, ind: u32)
    ensures ref_type__type_(i, ind) matches Ok((r, t)) ==> no_single_tuple(t),
        ref_type__type_parameter(i, ind) matches Ok((r, t)) ==> no_single_tuple(t),
        ref_type__type_annotation(i, ind) matches Ok((r, t)) ==> no_single_tuple(t),
    decreases blen(i)
{
    broadcast use {t_char, t_ref_type__type_annotation, t_ref_helpers_spaces_or_new_lines_and_indent};
    eq_type__type_(i, ind); eq_type__type_parameter(i, ind);
    p_c09_constructor(i, ind); p_c09_constant(i); eq_type__type_variable(i); p_c09_record(i, ind); p_c09_extensible(i, ind); p_c09_tuple(i, ind);
    if group(i, ind) is Ok {
        let a = s_char(i, '(')->Ok_0.0;
        let b = opt(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE), a)->Ok_0.0;
        p_c09_no_single(b, ind);
    }
    p_c08_arrows(i, ind);
    if ref_type__type_annotation(i, ind) is Ok {
        let (r, t) = ref_type__type_annotation(i, ind)->Ok_0;
        let v = choose|v: Seq<Type>| #[trigger] arrow_shape(i, ind, r, t, v);
        assert(arrow_shape(i, ind, r, t, v));
        assert(f_type(ind)(i) == ref_type__type_(i, ind));
        if v.len() == 1 { assert(t == v[0]); } else { assert(t is TypeApplication); }
    }
}
pub proof fn p_c09_unit(i: S, r: S, ind: u32)
    requires text(i, seq!['(', ')'], r),
    ensures is(ref_type__type_(i, ind), r, Type::TypeTuple(vnil())),
{
    broadcast use {t_char, t_comma, t_ref_type__type_, t_ref_helpers_spaces_or_new_lines_and_indent, group_fst_leaf, fst_type__type_, fst_type__type_annotation, fst_type__type_constructor, fst_type__type_variable, fst_type__type_record, fst_type__type_record_constructor, fst_helpers_spaces_or_new_lines_and_indent};
    eq_type__type_tuple(i, ind); eq_type__type_(i, ind);
    reveal(s_char);
    let a = skip(i, 1);
    assert(i@ =~= seq!['(', ')'] + r@); assert(i@[0] == '('); assert(i@[1] == ')'); assert(a@ =~= seq![')'] + r@); assert(a@[0] == ')');
    p_c05_layout(a, ind, IR::GTE);
    assert(ref_helpers_spaces_or_new_lines_and_indent(a, ind, IR::GTE) is Err);
    let (s, p) = (f_comma(ind), f_type(ind));
    let l = sp_seplist(|z: S| match opt(ref_helpers_spaces_or_new_lines_and_indent(z, ind, IR::GTE), z) { Err(e) => err(), Ok((x, _)) => match s_char(x, ',') { Err(e) => err(), Ok((y, c)) =>
            match opt(ref_helpers_spaces_or_new_lines_and_indent(y, ind, IR::GTE), y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }, |z: S| ref_type__type_(z, ind), a);
    assert(l == sp_seplist(s, p, a)) by { broadcast use group_ext; }
    assert(p(a) == ref_type__type_(a, ind));
    assert(ref_type__type_(a, ind) is Err); assert(ref_type__type_annotation(a, ind) is Err);
    assert(total(a, p(a), false));
    assert(skip(a, 1)@ =~= r@);
}

// ---------------------------------------- C17: operators
// layout, an operator or the word as, at least one blank, and the rest, which is an expression
pub open spec fn op_rest(x: S, ind: u32) -> R<(Expression, Expression)> {
    match ref_helpers_spaces_or_new_lines_and_indent(x, ind, IR::GTE) { Err(e) => err(), Ok((a, _)) => match ref_expression_operator_or_as(a) { Err(e) => err(), Ok((b, op)) =>
        match s_run1(b, @blank) { Err(e) => err(), Ok((c, _)) => match ref_expression_expression(c, ind) { Err(e) => err(), Ok((d, e)) => Ok((d, (op, e))) } } } }
}
pub open spec fn op_head(x: S, ind: u32, y: S, op: Expression) -> bool {
    exists|a: S, b: S, k: u32| #[trigger] gap(x, ind, IR::GTE, a, k) && #[trigger] is(ref_expression_operator_or_as(a), b, op) && (s_run1(b, @blank) matches Ok((c, _)) && c == y)
}
pub open spec fn last_operand(i: S, ind: u32, r: S, e: Expression) -> bool {
    is(ref_expression_application_or_var(i, ind), r, e) && op_rest(r, ind) is Err
    || ref_expression_binary(i, ind) is Err && (is(ref_expression_let_expression(i, ind), r, e) || is(ref_expression_case_expression(i, ind), r, e) || is(ref_expression_if_expression(i, ind), r, e) || is(ref_expression_lambda(i, ind), r, e))
}
pub open spec fn step(i: S, ind: u32, y: S, e: Expression, op: Expression) -> bool { exists|x: S| #[trigger] is(ref_expression_application_or_var(i, ind), x, e) && op_head(x, ind, y, op) }
pub open spec fn chain(i: S, ind: u32, es: Seq<Expression>, ops: Seq<Expression>, last: Expression, r: S) -> bool decreases es.len() {
    if es.len() == 0 { last_operand(i, ind, r, last) }
    else { exists|y: S| #[trigger] step(i, ind, y, es[0], ops[0]) && chain(y, ind, es.drop_first(), ops.drop_first(), last, r) }
}
pub open spec fn nest(es: Seq<Expression>, ops: Seq<Expression>, last: Expression) -> Expression decreases es.len() {
    if es.len() == 0 { last } else { Expression::BinOp(bx(ops[0]), bx(es[0]), bx(nest(es.drop_first(), ops.drop_first(), last))) }
}
pub open spec fn chain_shape(i: S, ind: u32, r: S, e: Expression, es: Seq<Expression>, ops: Seq<Expression>, last: Expression) -> bool {
    es.len() == ops.len() && chain(i, ind, es, ops, last, r) && e == nest(es, ops, last)
}
pub proof fn p_c17_chain(i: S, ind: u32)
    ensures ref_expression_expression(i, ind) matches Ok((r, e)) ==> exists|es: Seq<Expression>, ops: Seq<Expression>, last: Expression| #[trigger] chain_shape(i, ind, r, e, es, ops, last),
    decreases blen(i)
{
    broadcast use {t_ref_expression_application_or_var, t_ref_expression_operator_or_as, t_ref_helpers_spaces_or_new_lines_and_indent, t_run1};
    eq_expression_expression(i, ind); eq_expression_binary(i, ind);
    if ref_expression_expression(i, ind) is Ok {
        let (r, e) = ref_expression_expression(i, ind)->Ok_0;
        let none = Seq::<Expression>::empty();
        if ref_expression_binary(i, ind) is Ok {
            let (x, a) = ref_expression_application_or_var(i, ind)->Ok_0;
            if op_rest(x, ind) is Ok {
                let (b, k) = ref_helpers_spaces_or_new_lines_and_indent(x, ind, IR::GTE)->Ok_0;
                let (c, op) = ref_expression_operator_or_as(b)->Ok_0;
                let y = s_run1(c, @blank)->Ok_0.0;
                let (d, rest) = ref_expression_expression(y, ind)->Ok_0;
                p_c17_chain(y, ind);
                let (es, ops, last) = choose|es: Seq<Expression>, ops: Seq<Expression>, last: Expression| #[trigger] chain_shape(y, ind, d, rest, es, ops, last);
                assert(chain_shape(y, ind, d, rest, es, ops, last));
                let es2 = seq![a] + es; let ops2 = seq![op] + ops;
                assert(es2.drop_first() =~= es); assert(ops2.drop_first() =~= ops);
                assert(gap(x, ind, IR::GTE, b, k)); assert(is(ref_expression_operator_or_as(b), c, op));
                assert(op_head(x, ind, y, op));
                assert(is(ref_expression_application_or_var(i, ind), x, a));
                assert(step(i, ind, y, es2[0], ops2[0]));
                assert(r == ref_expression_expression(i, ind)->Ok_0.0);
                assert(r == d);
                assert(chain(i, ind, es2, ops2, last, r));
                assert(e == nest(es2, ops2, last));
                assert(chain_shape(i, ind, r, e, es2, ops2, last));
            } else {
                assert(last_operand(i, ind, r, e));
                assert(chain_shape(i, ind, r, e, none, none, e));
            }
        } else {
            assert(last_operand(i, ind, r, e));
            assert(chain_shape(i, ind, r, e, none, none, e));
        }
    }
}
pub proof fn p_c17_faithful(es: Seq<Expression>, ops: Seq<Expression>, last: Expression, es2: Seq<Expression>, ops2: Seq<Expression>, last2: Expression)
    requires es.len() == ops.len(), es2.len() == ops2.len(), es.len() == es2.len(), nest(es, ops, last) == nest(es2, ops2, last2),
    ensures es == es2, ops == ops2, last == last2,
    decreases es.len()
{
    if es.len() > 0 {
        p_c17_faithful(es.drop_first(), ops.drop_first(), last, es2.drop_first(), ops2.drop_first(), last2);
        assert(es =~= seq![es[0]] + es.drop_first()); assert(es2 =~= seq![es2[0]] + es2.drop_first()); assert(ops =~= seq![ops[0]] + ops.drop_first()); assert(ops2 =~= seq![ops2[0]] + ops2.drop_first());
    } else { assert(es =~= es2); assert(ops =~= ops2); }
}
pub proof fn p_c17_as(i: S)
    ensures ref_expression_operator_or_as(i) matches Ok((r, e)) ==> e matches Expression::Variable(v) && v@.len() == 1 && (text(i, seq!['a', 's'], r) && v@[0]@ == seq!['a', 's'] || is(ref_helpers_operator(i), r, v@[0])),
{
    broadcast use group_text;
    eq_expression_operator_or_as(i); reveal_strlit("as"); assert(sl("as")@ =~= seq!['a', 's']);
}

// ---------------------------------------- C18: functions
pub open spec fn paren_start(i: S, a: S) -> bool { text(i, seq!['('], a) }
pub open spec fn paren_end(i: S, a: S) -> bool { text(i, seq![')'], a) }
pub open spec fn newline_at(i: S, a: S) -> bool { text(i, seq!['\n'], a) }
pub open spec fn fun_name(i: S, r: S, n: S) -> bool {
    is(ref_helpers_lo_name(i), r, n) || exists|a: S, b: S| #[trigger] paren_start(i, a) && is(ref_helpers_operator(a), b, n) && #[trigger] paren_end(b, r)
}
pub open spec fn spaces(x: S, y: S) -> bool { ref_helpers_spaces(x) matches Ok((z, _)) && z == y }
pub open spec fn argument(z: S, ind: u32) -> R<Expression> {
    match ref_helpers_spaces(z) { Err(e) => err(), Ok((x, _)) => match ref_expression_term(x, ind) { Err(e) => err(), Ok((y, t)) => Ok((y, t)) } }
}
pub open spec fn f_argument(ind: u32) -> spec_fn(S) -> R<Expression> { |z: S| argument(z, ind) }
pub broadcast proof fn t_argument(z: S, ind: u32) ensures total(z, #[trigger] argument(z, ind), false) { broadcast use {t_ref_helpers_spaces, t_ref_expression_term}; }
pub open spec fn def_shape(i: S, ind: u32, r: S, f: FunctionDefinition, a: S, b: S, c: S, d: S, g: S, k: u32) -> bool {
    fun_name(i, a, f.name) && each(f_argument(ind), a, f.args@, b) && spaces(b, c) && text(c, seq!['='], d) && gap(d, ind, IR::GT, g, k) && is(ref_expression_expression(g, k), r, f.body)
}
pub proof fn p_c18_definition(i: S, ind: u32)
    ensures ref_expression_function_function_definition(i, ind) matches Ok((r, f)) ==> exists|a: S, b: S, c: S, d: S, g: S, k: u32| #[trigger] def_shape(i, ind, r, f, a, b, c, d, g, k),
{
    broadcast use {group_text, t_argument};
    eq_expression_function_function_definition(i, ind);
    if ref_expression_function_function_definition(i, ind) is Ok {
        let (r, f) = ref_expression_function_function_definition(i, ind)->Ok_0;
        let y = s_char(i, '(')->Ok_0.0; let z = ref_helpers_operator(y)->Ok_0.0;
        let a = if ref_helpers_lo_name(i) is Ok { ref_helpers_lo_name(i)->Ok_0.0 } else { s_char(z, ')')->Ok_0.0 };
        if ref_helpers_lo_name(i) is Err { assert(paren_start(i, y)); assert(paren_end(z, a)); }
        assert(fun_name(i, a, f.name));
        let p = f_argument(ind);
        let l = sp_many0(|z: S| match ref_helpers_spaces(z) { Err(e) => err(), Ok((x, _)) => match ref_expression_term(x, ind) { Err(e) => err(), Ok((y, t)) => Ok((y, t)) } }, a);
        assert(solid(p));
        assert(l == sp_many0(p, a)) by { broadcast use group_ext; }
        let (b, args) = l->Ok_0;
        each0_iff(p, a, args, b);
        let c = ref_helpers_spaces(b)->Ok_0.0;
        let d = s_char(c, '=')->Ok_0.0;
        let (g, k) = ref_helpers_spaces_or_new_lines_and_indent(d, ind, IR::GT)->Ok_0;
        assert(r == ref_expression_function_function_definition(i, ind)->Ok_0.0);
        assert(def_shape(i, ind, r, f, a, b, c, d, g, k));
    }
}
pub open spec fn sig_shape(i: S, ind: u32, r: S, s: FunctionSignature, a: S, b: S, c: S, d: S, k: u32) -> bool {
    fun_name(i, a, s.name) && spaces(a, b) && text(b, seq![':'], c) && gap(c, ind, IR::GT, d, k) && is(ref_type__type_annotation(d, k), r, s.type_)
}
pub proof fn p_c18_signature(i: S, ind: u32)
    ensures ref_expression_function_function_signature(i, ind) matches Ok((r, s)) ==> exists|a: S, b: S, c: S, d: S, k: u32| #[trigger] sig_shape(i, ind, r, s, a, b, c, d, k),
{
    broadcast use group_text;
    eq_expression_function_function_signature(i, ind);
    if ref_expression_function_function_signature(i, ind) is Ok {
        let (r, s) = ref_expression_function_function_signature(i, ind)->Ok_0;
        let y = s_char(i, '(')->Ok_0.0; let z = ref_helpers_operator(y)->Ok_0.0;
        let a = if ref_helpers_lo_name(i) is Ok { ref_helpers_lo_name(i)->Ok_0.0 } else { s_char(z, ')')->Ok_0.0 };
        if ref_helpers_lo_name(i) is Err { assert(paren_start(i, y)); assert(paren_end(z, a)); }
        assert(fun_name(i, a, s.name));
        let b = ref_helpers_spaces(a)->Ok_0.0;
        let c = s_char(b, ':')->Ok_0.0;
        let (d, k) = ref_helpers_spaces_or_new_lines_and_indent(c, ind, IR::GT)->Ok_0;
        assert(r == ref_expression_function_function_signature(i, ind)->Ok_0.0);
        assert(sig_shape(i, ind, r, s, a, b, c, d, k));
    }
}
// a signature line: the signature, a newline, and as many spaces as the definition is indented
pub open spec fn sig_line(i: S, ind: u32, x: S, s: FunctionSignature) -> bool {
    exists|a: S| #[trigger] is(ref_expression_function_function_signature(i, ind), a, s) && is(ref_helpers_new_line_and_same_indent(a, ind), x, ind)
}
pub proof fn same_indent(a: S, ind: u32)
    ensures ref_helpers_new_line_and_same_indent(a, ind) matches Ok((x, k)) ==> k == ind && exists|y: S| #[trigger] newline_at(a, y) && (ref_helpers_spaces0(y) matches Ok((z, s)) && z == x && len32(s) == ind),
{
    broadcast use group_text;
    eq_helpers_new_line_and_same_indent(a, ind);
    if ref_helpers_new_line_and_same_indent(a, ind) is Ok { assert(newline_at(a, s_char(a, '\n')->Ok_0.0)); }
}
pub proof fn p_c18_function(i: S, ind: u32)
    ensures ref_expression_function_function(i, ind) matches Ok((r, f)) ==> match f.signature {
        Some(s) => exists|x: S| #[trigger] sig_line(i, ind, x, s) && is(ref_expression_function_function_definition(x, ind), r, f.definition),
        None => is(ref_expression_function_function_definition(i, ind), r, f.definition) && !exists|x: S, s: FunctionSignature| #[trigger] sig_line(i, ind, x, s),
    },
{
    eq_expression_function_function(i, ind);
    if ref_expression_function_function(i, ind) is Ok {
        let (r, f) = ref_expression_function_function(i, ind)->Ok_0;
        if ref_expression_function_function_signature(i, ind) is Ok {
            let (a, s) = ref_expression_function_function_signature(i, ind)->Ok_0;
            same_indent(a, ind);
            if ref_helpers_new_line_and_same_indent(a, ind) is Ok {
                assert(is(ref_expression_function_function_signature(i, ind), a, s));
                assert(sig_line(i, ind, ref_helpers_new_line_and_same_indent(a, ind)->Ok_0.0, s));
            }
        }
    }
}

// ---------------------------------------- C19: type and alias declarations
pub open spec fn alias_shape(i: S, r: S, n: Type, t: Type, a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S) -> bool {
    &&& text(i, seq!['t', 'y', 'p', 'e'], a) && spaces(a, b) && text(b, seq!['a', 'l', 'i', 'a', 's'], c) && spaces(c, d) && is(ref_type__type_(d, 0), f, n) && spaces(f, g) && text(g, seq!['='], h)
    &&& lays(h, 1, j) && is(ref_type__type_annotation(j, 1), r, t)
}
pub proof fn p_c19_alias(i: S)
    ensures ref_statement_type_declaration_type_alias_declaration(i) matches Ok((r, s)) ==> s matches Statement::TypeAliasDeclaration(n, t)
        && exists|a: S, b: S, c: S, d: S, f: S, g: S, h: S, j: S| #[trigger] alias_shape(i, r, n, t, a, b, c, d, f, g, h, j),
{
    broadcast use group_text;
    exposing_text(); eq_statement_type_declaration_type_alias_declaration(i);
    if ref_statement_type_declaration_type_alias_declaration(i) is Ok {
        let (r, s) = ref_statement_type_declaration_type_alias_declaration(i)->Ok_0;
        let a = s_tag(i, sl("type"))->Ok_0.0;
        let b = ref_helpers_spaces(a)->Ok_0.0;
        let c = s_tag(b, sl("alias"))->Ok_0.0;
        let d = ref_helpers_spaces(c)->Ok_0.0;
        let f = ref_type__type_(d, 0)->Ok_0.0;
        let g = ref_helpers_spaces(f)->Ok_0.0;
        let h = s_char(g, '=')->Ok_0.0;
        let (j, k) = ref_helpers_spaces_or_new_lines_and_indent(h, 1, IR::GTE)->Ok_0;
        assert(gap(h, 1, IR::GTE, j, k));
        assert(r == ref_statement_type_declaration_type_alias_declaration(i)->Ok_0.0);
        assert(alias_shape(i, r, s->TypeAliasDeclaration_0, s->TypeAliasDeclaration_1, a, b, c, d, f, g, h, j));
    }
}
pub open spec fn pipe_sign(z: S, k: u32) -> R<char> {
    match ref_helpers_spaces_or_new_lines_and_indent(z, k, IR::GTE) { Err(e) => err(), Ok((x, _)) => match s_char(x, '|') { Err(e) => err(), Ok((y, c)) => match ref_helpers_spaces(y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } }
}
pub open spec fn f_bar(k: u32) -> spec_fn(S) -> R<char> { |z: S| pipe_sign(z, k) }
pub open spec fn f_ctor(k: u32) -> spec_fn(S) -> R<Type> { |z: S| ref_type__type_constructor(z, k) }
pub broadcast proof fn t_bar(z: S, k: u32) ensures total(z, #[trigger] pipe_sign(z, k), false) { broadcast use {t_char, t_ref_helpers_spaces, t_ref_helpers_spaces_or_new_lines_and_indent}; }
pub open spec fn type_shape(i: S, ind: u32, r: S, n: Type, v: L<Type>, a: S, b: S, c: S, d: S, f: S, g: S, k: u32) -> bool {
    &&& text(i, seq!['t', 'y', 'p', 'e'], a) && spaces(a, b) && is(ref_type__type_(b, ind), c, n) && gap(c, 0, IR::GT, d, k) && text(d, seq!['='], f) && lays(f, k, g)
    &&& listed(f_bar(k), f_ctor(k), g, v@, r)
}
pub proof fn p_c19_type(i: S, ind: u32)
    ensures ref_statement_type_declaration_type_declaration(i, ind) matches Ok((r, s)) ==> s matches Statement::TypeDeclaration(n, v)
        && exists|a: S, b: S, c: S, d: S, f: S, g: S, k: u32| #[trigger] type_shape(i, ind, r, n, v, a, b, c, d, f, g, k),
{
    broadcast use {group_text, t_bar, t_ref_type__type_constructor};
    exposing_text(); eq_statement_type_declaration_type_declaration(i, ind);
    if ref_statement_type_declaration_type_declaration(i, ind) is Ok {
        let (r, s) = ref_statement_type_declaration_type_declaration(i, ind)->Ok_0;
        let a = s_tag(i, sl("type"))->Ok_0.0;
        let b = ref_helpers_spaces(a)->Ok_0.0;
        let c = ref_type__type_(b, ind)->Ok_0.0;
        let (d, k) = ref_helpers_spaces_or_new_lines_and_indent(c, 0, IR::GT)->Ok_0;
        let f = s_char(d, '=')->Ok_0.0;
        let (g, m) = ref_helpers_spaces_or_new_lines_and_indent(f, k, IR::GTE)->Ok_0;
        assert(gap(f, k, IR::GTE, g, m));
        let (q, p) = (f_bar(k), f_ctor(k));
        let l = sp_seplist1(|z: S| match ref_helpers_spaces_or_new_lines_and_indent(z, k, IR::GTE) { Err(e) => err(), Ok((x, _)) => match s_char(x, '|') { Err(e) => err(), Ok((y, c)) => match ref_helpers_spaces(y) { Err(e) => err(), Ok((u, _)) => Ok((u, c)) } } },
            |z: S| ref_type__type_constructor(z, k), g);
        assert(loose(q)); assert(solid(p));
        assert(l == sp_seplist1(q, p, g)) by { broadcast use group_ext; }
        let (r1, v) = l->Ok_0;
        listed_iff(q, p, g, v, r1);
        assert(r == ref_statement_type_declaration_type_declaration(i, ind)->Ok_0.0);
        assert(type_shape(i, ind, r, s->TypeDeclaration_0, s->TypeDeclaration_1, a, b, c, d, f, g, k));
    }
}

// ---------------------------------------- C20: ports
pub open spec fn port_type_shape(i: S, r: S, n: S, t: Type, a: S, b: S, c: S, d: S, f: S, g: S, k: u32) -> bool {
    &&& text(i, seq!['p', 'o', 'r', 't'], a) && spaces(a, b) && is(ref_helpers_lo_name(b), c, n) && spaces(c, d) && text(d, seq![':'], f)
    &&& gap(f, 0, IR::GT, g, k) && is(ref_type__type_annotation(g, k), r, t)
}
pub proof fn p_c20_port_type(i: S)
    ensures ref_statement_port_port_type_declaration(i) matches Ok((r, s)) ==> s matches Statement::PortTypeDeclaration(n, t)
        && exists|a: S, b: S, c: S, d: S, f: S, g: S, k: u32| #[trigger] port_type_shape(i, r, n, t, a, b, c, d, f, g, k),
{
    broadcast use group_text;
    exposing_text(); eq_statement_port_port_type_declaration(i);
    if ref_statement_port_port_type_declaration(i) is Ok {
        let (r, s) = ref_statement_port_port_type_declaration(i)->Ok_0;
        let a = s_tag(i, sl("port"))->Ok_0.0;
        let b = ref_helpers_spaces(a)->Ok_0.0;
        let c = ref_helpers_lo_name(b)->Ok_0.0;
        let d = ref_helpers_spaces(c)->Ok_0.0;
        let f = s_char(d, ':')->Ok_0.0;
        let (g, k) = ref_helpers_spaces_or_new_lines_and_indent(f, 0, IR::GT)->Ok_0;
        assert(r == ref_statement_port_port_type_declaration(i)->Ok_0.0);
        assert(port_type_shape(i, r, s->PortTypeDeclaration_0, s->PortTypeDeclaration_1, a, b, c, d, f, g, k));
    }
}
pub open spec fn port_arg(z: S) -> R<S> { match ref_helpers_spaces(z) { Err(e) => err(), Ok((x, _)) => match ref_helpers_lo_name(x) { Err(e) => err(), Ok((y, a)) => Ok((y, a)) } } }
pub open spec fn f_port_arg() -> spec_fn(S) -> R<S> { |z: S| port_arg(z) }
pub broadcast proof fn t_port_arg(z: S) ensures total(z, #[trigger] port_arg(z), false) { broadcast use {t_ref_helpers_spaces, t_ref_helpers_lo_name}; }
pub open spec fn port_shape(i: S, r: S, n: S, v: L<S>, e: Expression, a: S, b: S, c: S, d: S, f: S, g: S, h: S, k: u32) -> bool {
    &&& text(i, seq!['p', 'o', 'r', 't'], a) && spaces(a, b) && is(ref_helpers_lo_name(b), c, n) && each(f_port_arg(), c, v@, d) && spaces(d, f) && text(f, seq!['='], g)
    &&& gap(g, 0, IR::GT, h, k) && is(ref_expression_expression(h, k), r, e)
}
pub proof fn p_c20_port(i: S)
    ensures ref_statement_port_port_declaration(i) matches Ok((r, s)) ==> s matches Statement::PortDeclaration(n, v, e)
        && exists|a: S, b: S, c: S, d: S, f: S, g: S, h: S, k: u32| #[trigger] port_shape(i, r, n, v, e, a, b, c, d, f, g, h, k),
{
    broadcast use {group_text, t_port_arg};
    exposing_text(); eq_statement_port_port_declaration(i);
    if ref_statement_port_port_declaration(i) is Ok {
        let (r, s) = ref_statement_port_port_declaration(i)->Ok_0;
        let a = s_tag(i, sl("port"))->Ok_0.0;
        let b = ref_helpers_spaces(a)->Ok_0.0;
        let c = ref_helpers_lo_name(b)->Ok_0.0;
        let p = f_port_arg();
        let l = sp_many0(|z: S| match ref_helpers_spaces(z) { Err(e) => err(), Ok((x, _)) => match ref_helpers_lo_name(x) { Err(e) => err(), Ok((y, a)) => Ok((y, a)) } }, c);
        assert(solid(p));
        assert(l == sp_many0(p, c)) by { broadcast use group_ext; }
        let (d, v) = l->Ok_0;
        each0_iff(p, c, v, d);
        let f = ref_helpers_spaces(d)->Ok_0.0;
        let g = s_char(f, '=')->Ok_0.0;
        let (h, k) = ref_helpers_spaces_or_new_lines_and_indent(g, 0, IR::GT)->Ok_0;
        assert(r == ref_statement_port_port_declaration(i)->Ok_0.0);
        assert(port_shape(i, r, s->PortDeclaration_0, s->PortDeclaration_1, s->PortDeclaration_2, a, b, c, d, f, g, h, k));
    }
}
// the two are told apart by the source, and each is the statement
pub proof fn p_c20_kinds(i: S)
    ensures ref_statement_port_port_type_declaration(i) is Ok ==> ref_statement_statement(i) == ref_statement_port_port_type_declaration(i),
        ref_statement_port_port_declaration(i) is Ok ==> ref_statement_statement(i) == ref_statement_port_port_declaration(i),
{
    broadcast use {group_text, fst_statement_module_effect_module_declaration, fst_statement_module_module_declaration, fst_statement_import_import_statement, fst_statement_type_declaration_type_alias_declaration,
        fst_statement_type_declaration_type_declaration, fst_helpers_spaces};
    eq_statement_statement(i); exposing_text(); words();
    eq_statement_port_port_type_declaration(i); eq_statement_port_port_declaration(i); eq_statement_module_port_module_declaration(i);
    // module is no name
    let a = s_tag(i, sl("port"))->Ok_0.0;
    let b = ref_helpers_spaces(a)->Ok_0.0;
    if ref_statement_port_port_type_declaration(i) is Ok || ref_statement_port_port_declaration(i) is Ok {
        if ref_statement_module_port_module_declaration(i) is Ok { not_module(a); }
        if ref_statement_port_port_declaration(i) is Ok && ref_statement_port_port_type_declaration(i) is Ok {
            let c = ref_helpers_lo_name(b)->Ok_0.0;
            let l = sp_many0(|z: S| match ref_helpers_spaces(z) { Err(e) => err(), Ok((x, _)) => match ref_helpers_lo_name(x) { Err(e) => err(), Ok((y, a)) => Ok((y, a)) } }, c);
            assert(l == sp_many0(f_port_arg(), c)) by { broadcast use group_ext; }
            colon_or_equals(c);
        }
    }
}
pub proof fn not_module(a: S)
    requires ref_helpers_spaces(a) matches Ok((b, _)) && ref_helpers_lo_name(b) is Ok,
        ref_helpers_spaces_or_new_lines_and_indent(a, 0, IR::GT) matches Ok((y, _)) && s_tag(y, sl("module")) matches Ok((x, _)) && ref_helpers_spaces_or_new_lines_and_indent(x, 0, IR::GT) is Ok,
    ensures false,
{
    broadcast use {cls_space, cls_lower};
    words();
    let b = ref_helpers_spaces(a)->Ok_0.0;
    let y = ref_helpers_spaces_or_new_lines_and_indent(a, 0, IR::GT)->Ok_0.0;
    eq_helpers_spaces(a); run1_facts(a, @space); reveal(s_run1); lemma_run(@space, a@); lemma_cut(a, run(@space, a@));
    lay_spaces(a@, false, 0);
    p_c03_lo_name(b);
    p_c05_layout(a, 0, IR::GT);
    reveal_strlit("_"); let v = ref_helpers_lo_name(b)->Ok_0.1; assert(v@.len() > 0); assert(b@[0] == v@[0]);
    assert(lower_char(b@[0]) || b@[0] == '_');
    assert(run(@space, a@) > 0);
    assert(lay(b@, false, 0).0 == b@);
    assert(y == b);
    let x = s_tag(b, sl("module"))->Ok_0.0;
    not_word_after(x, 0);
    keyword(b, sl("module"));
}
pub proof fn colon_or_equals(c: S)
    requires ref_helpers_spaces(c) matches Ok((d, _)) && s_char(d, ':') is Ok,
        sp_many0(f_port_arg(), c) matches Ok((d, _)) && ref_helpers_spaces(d) matches Ok((f, _)) && s_char(f, '=') is Ok,
    ensures false,
{
    broadcast use {group_fst_leaf, fst_helpers_lo_name};
    let d = ref_helpers_spaces(c)->Ok_0.0;
    reveal(s_char);
    assert(ref_helpers_lo_name(d) is Err);
    assert(f_port_arg()(c) == port_arg(c));
}

// ---------------------------------------- C21: field access, qualified names
pub open spec fn dot_field(z: S) -> R<S> { match s_char(z, '.') { Err(e) => err(), Ok((x, _)) => match ref_helpers_lo_name(x) { Err(e) => err(), Ok((y, n)) => Ok((y, n)) } } }
pub open spec fn f_dot_field() -> spec_fn(S) -> R<S> { |z: S| dot_field(z) }
pub broadcast proof fn t_dot_field(z: S) ensures total(z, #[trigger] dot_field(z), false) { broadcast use {t_char, t_ref_helpers_lo_name}; }
pub open spec fn access_shape(i: S, r: S, b: Expression, fs: L<S>, x: S) -> bool { is(ref_expression_variable_variable(i), x, b) && fs@.len() > 0 && each(f_dot_field(), x, fs@, r) }
pub proof fn p_c21_access(i: S)
    ensures ref_expression_access_access(i) matches Ok((r, e)) ==> e matches Expression::Access(b, fs) && exists|x: S| #[trigger] access_shape(i, r, b.g@, fs, x),
        ref_expression_access_access(i) is Ok <==> (ref_expression_variable_variable(i) matches Ok((x, _)) && dot_field(x) is Ok),
{
    broadcast use t_dot_field;
    eq_expression_access_access(i);
    if ref_expression_variable_variable(i) is Ok {
        let (x, v) = ref_expression_variable_variable(i)->Ok_0;
        let p = f_dot_field();
        let l = sp_many1(|z: S| match s_char(z, '.') { Err(e) => err(), Ok((x, _)) => match ref_helpers_lo_name(x) { Err(e) => err(), Ok((y, n)) => Ok((y, n)) } }, x);
        assert(solid(p));
        assert(l == sp_many1(p, x)) by { broadcast use group_ext; }
        assert(p(x) == dot_field(x));
        if dot_field(x) is Ok { many_ok(p, p(x)->Ok_0.0, v1(p(x)->Ok_0.1)); }
        if ref_expression_access_access(i) is Ok {
            let (r, e) = ref_expression_access_access(i)->Ok_0;
            let (r1, fs) = l->Ok_0;
            each1_iff(p, x, fs, r1);
            assert(r == ref_expression_access_access(i)->Ok_0.0);
            assert(access_shape(i, r, e->Access_0.g@, e->Access_1, x));
        }
    }
}
pub proof fn many_ok<T>(p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires solid(p), ensures many_from(p, i, acc) is Ok, decreases blen(i),
{ assert(total(i, p(i), false)); if p(i) is Ok { many_ok(p, p(i)->Ok_0.0, push(acc, p(i)->Ok_0.1)); } }
// a variable with a field behind it is an access, without one it is just that variable
pub proof fn p_c21_term(i: S, ind: u32)
    ensures ref_expression_variable_variable(i) matches Ok((x, v)) ==> ref_expression_term(i, ind) == (if dot_field(x) is Ok { ref_expression_access_access(i) } else { Ok((x, v)) }),
{ eq_expression_term(i, ind); p_c21_access(i); }
pub proof fn p_c21_variable(i: S)
    ensures ref_expression_variable_variable(i) matches Ok((r, e)) ==> e matches Expression::Variable(v) && v@.len() > 0 && (
        v@.len() == 1 && is(ref_helpers_lo_name(i), r, v@[0]) || listed(f_dot(), f_up(), i, v@, r) || v@.len() == 1 && is(ref_expression_variable_op(i), r, e)),
{
    broadcast use {t_char, t_ref_helpers_up_name};
    eq_expression_variable_variable(i); eq_expression_variable_lower_case(i); eq_expression_variable_upper_with_dots(i); eq_expression_variable_op(i);
    let (s, p) = (f_dot(), f_up());
    let l = sp_seplist1(|z: S| s_char(z, '.'), |z: S| ref_helpers_up_name(z), i);
    assert(loose(s)); assert(solid(p));
    assert(l == sp_seplist1(s, p, i)) by { broadcast use group_ext; }
    if l is Ok { listed_iff(s, p, i, l->Ok_0.1, l->Ok_0.0); }
}
pub proof fn p_c21_function(i: S, ind: u32)
    ensures dot_field(i) matches Ok((r, n)) ==> is(ref_expression_term(i, ind), r, Expression::AccessFunction(n)),
        ref_expression_access_function_access_function(i) matches Ok((r, e)) ==> is(dot_field(i), r, e->AccessFunction_0) && e is AccessFunction,
{
    broadcast use {group_fst_leaf, fst_expression_variable_variable, fst_expression_variable_lower_case, fst_expression_variable_upper_with_dots, fst_expression_variable_op};
    eq_expression_term(i, ind); eq_expression_access_access(i); eq_expression_access_function_access_function(i); eq_expression_variable_variable(i);
}
