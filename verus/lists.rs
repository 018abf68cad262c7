// ------------------------------------------------------------------ list and loop algebra
// Not needed for the code as it stands; used when a first attempt at an obligation fails, for code that computes the
// same values in another way (an explicit loop for any/fold, push for +, first-then-many0 for many1, ...).
pub broadcast proof fn cat_nil_r<T>(a: L<T>) ensures #[trigger] cat(a, vnil()) == a { assert(a@ + vnil::<T>()@ =~= a@); }
pub broadcast proof fn cat_nil_l<T>(a: L<T>) ensures #[trigger] cat(vnil(), a) == a { assert(vnil::<T>()@ + a@ =~= a@); }
pub broadcast proof fn cat_assoc<T>(a: L<T>, b: L<T>, c: L<T>) ensures #[trigger] cat(cat(a, b), c) == cat(a, cat(b, c))
{ assert((a@ + b@) + c@ =~= a@ + (b@ + c@)); }
pub broadcast proof fn push_cat<T>(a: L<T>, t: T) ensures #[trigger] push(a, t) == cat(a, v1(t)) { assert(a@.push(t) =~= a@ + v1(t)@); }
pub broadcast proof fn take_none<T>(l: L<T>) ensures #[trigger] skip_l(l, 0) == l { assert(l@.subrange(0, l@.len() as int) =~= l@); }
pub broadcast proof fn skip_skip<T>(l: L<T>, a: int, b: int) requires 0 <= a, 0 <= b
    ensures #[trigger] skip_l(skip_l(l, a), b) == skip_l(l, a + b)
{ assert(skip_l(skip_l(l, a), b)@ =~= skip_l(l, a + b)@); }
pub broadcast proof fn rev_rev<T>(l: L<T>) ensures #[trigger] rev_l(rev_l(l)) == l { assert(rev_l(rev_l(l))@ =~= l@); }
pub broadcast proof fn rev_facts<T>(l: L<T>)
    ensures #![trigger rev_l(l)] rev_l(l)@.len() == l@.len(), first_o(rev_l(l)) == last_o(l), last_o(rev_l(l)) == first_o(l),
        l@.len() > 0 ==> skip_l(rev_l(l), 1) == rev_l(init_l(l)) && init_l(rev_l(l)) == rev_l(skip_l(l, 1)),
{ if l@.len() > 0 { assert(skip_l(rev_l(l), 1)@ =~= rev_l(init_l(l))@); assert(init_l(rev_l(l))@ =~= rev_l(skip_l(l, 1))@); } }
pub broadcast proof fn init_take<T>(l: L<T>) ensures #[trigger] init_l(l) == (if l@.len() > 0 { take_l(l, l@.len() - 1) } else { l }) {}
pub broadcast proof fn take_take<T>(l: L<T>, a: int, b: int) requires 0 <= b <= a
    ensures #[trigger] take_l(take_l(l, a), b) == take_l(l, b)
{ if a <= l@.len() { assert(take_l(take_l(l, a), b)@ =~= take_l(l, b)@); } }
pub broadcast proof fn opt_cases<T>(o: Option<T>) ensures #![trigger opt_list(o)] o is None ==> opt_list(o) == vnil::<T>(), o matches Some(t) ==> opt_list(o) == v1(t) {}
pub broadcast proof fn ext_map<T, U>(l: L<T>, f: spec_fn(T) -> U, g: spec_fn(T) -> U)
    requires forall|x: T| #![trigger f(x)] #![trigger g(x)] f(x) == g(x),
    ensures #![trigger map_l(l, f), map_l(l, g)] map_l(l, f) == map_l(l, g),
{ assert(map_l(l, f)@ =~= map_l(l, g)@) by { assert forall|k: int| 0 <= k < l@.len() implies map_l(l, f)@[k] == map_l(l, g)@[k] by { assert(f(l@[k]) == g(l@[k])); } } }
pub broadcast proof fn ext_fold<T, A>(l: L<T>, a: A, f: spec_fn(A, T) -> A, g: spec_fn(A, T) -> A, k: int)
    requires forall|x: A, y: T| #![trigger f(x, y)] #![trigger g(x, y)] f(x, y) == g(x, y),
    ensures #![trigger fold_to(l, a, f, k), fold_to(l, a, g, k)] fold_to(l, a, f, k) == fold_to(l, a, g, k),
    decreases k,
{ if 0 < k <= l@.len() { ext_fold(l, a, f, g, k - 1); assert(f(fold_to(l, a, f, k - 1), l@[k - 1]) == g(fold_to(l, a, f, k - 1), l@[k - 1])); } }
// a flag that some elements set
pub open spec fn or_step<T>(f: spec_fn(bool, T) -> bool) -> bool { forall|a: bool, x: T| #[trigger] f(a, x) == (a || f(false, x)) }
pub proof fn fold_or_to<T>(l: L<T>, a: bool, f: spec_fn(bool, T) -> bool, k: int)
    requires or_step(f), 0 <= k <= l@.len(),
    ensures fold_to(l, a, f, k) == (a || exists|j: int| 0 <= j < k && f(false, #[trigger] l@[j])),
    decreases k,
{
    if k > 0 {
        fold_or_to(l, a, f, k - 1);
        let b = fold_to(l, a, f, k - 1);
        assert(f(b, l@[k - 1]) == (b || f(false, l@[k - 1])));
    }
}
pub broadcast proof fn fold_or<T>(l: L<T>, a: bool, f: spec_fn(bool, T) -> bool)
    requires forall|b: bool, x: T| #[trigger] f(b, x) == (b || f(false, x)),
    ensures #[trigger] fold_l(l, a, f) == (a || any_l(l, |x: T| f(false, x))),
{
    fold_or_to(l, a, f, l@.len() as int);
    let p = |x: T| f(false, x);
    if exists|j: int| 0 <= j < l@.len() && f(false, #[trigger] l@[j]) {
        let j = choose|j: int| 0 <= j < l@.len() && f(false, #[trigger] l@[j]);
        assert(p(l@[j]));
    }
    if any_l(l, p) { let j = choose|j: int| 0 <= j < l@.len() && #[trigger] p(l@[j]); assert(f(false, l@[j])); }
}
// a flag that some elements clear
pub broadcast proof fn fold_and<T>(l: L<T>, a: bool, f: spec_fn(bool, T) -> bool)
    requires forall|b: bool, x: T| #[trigger] f(b, x) == (b && f(true, x)),
    ensures #[trigger] fold_l(l, a, f) == (a && !any_l(l, |x: T| !f(true, x))),
{
    fold_and_to(l, a, f, l@.len() as int);
    let p = |x: T| !f(true, x);
    if exists|j: int| 0 <= j < l@.len() && !f(true, #[trigger] l@[j]) {
        let j = choose|j: int| 0 <= j < l@.len() && !f(true, #[trigger] l@[j]);
        assert(p(l@[j]));
    }
    if any_l(l, p) { let j = choose|j: int| 0 <= j < l@.len() && #[trigger] p(l@[j]); assert(!f(true, l@[j])); }
}
pub proof fn fold_and_to<T>(l: L<T>, a: bool, f: spec_fn(bool, T) -> bool, k: int)
    requires forall|b: bool, x: T| #[trigger] f(b, x) == (b && f(true, x)), 0 <= k <= l@.len(),
    ensures fold_to(l, a, f, k) == (a && !exists|j: int| 0 <= j < k && !f(true, #[trigger] l@[j])),
    decreases k,
{
    if k > 0 {
        fold_and_to(l, a, f, k - 1);
        let b = fold_to(l, a, f, k - 1);
        assert(f(b, l@[k - 1]) == (b && f(true, l@[k - 1])));
    }
}
// collecting with push
pub open spec fn pushed<T, U>(f: spec_fn(L<U>, T) -> L<U>, x: T) -> U { f(vnil(), x)@[0] }
pub proof fn fold_push_to<T, U>(l: L<T>, a: L<U>, f: spec_fn(L<U>, T) -> L<U>, k: int)
    requires forall|b: L<U>, x: T| #[trigger] f(b, x) == push(b, pushed(f, x)), 0 <= k <= l@.len(),
    ensures fold_to(l, a, f, k)@ =~= a@ + map_l(l, |x: T| pushed(f, x))@.subrange(0, k),
    decreases k,
{
    if k > 0 {
        fold_push_to(l, a, f, k - 1);
        let b = fold_to(l, a, f, k - 1);
        assert(f(b, l@[k - 1]) == push(b, pushed(f, l@[k - 1])));
    }
}
pub broadcast proof fn fold_push<T, U>(l: L<T>, a: L<U>, f: spec_fn(L<U>, T) -> L<U>)
    requires forall|b: L<U>, x: T| #[trigger] f(b, x) == push(b, pushed(f, x)),
    ensures #[trigger] fold_l(l, a, f) == cat(a, map_l(l, |x: T| pushed(f, x))),
{
    fold_push_to(l, a, f, l@.len() as int);
    let m = map_l(l, |x: T| pushed(f, x));
    assert(m@.subrange(0, l@.len() as int) =~= m@);
    assert(fold_l(l, a, f)@ =~= a@ + m@);
}
// what a loop has collected before it started does not matter to it
pub broadcast proof fn many_acc<T>(p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    ensures #[trigger] many_from(p, i, acc) == (match many_from(p, i, vnil()) { Ok((r, v)) => Ok::<(S, L<T>), NErr>((r, cat(acc, v))), Err(e) => Err(e) }),
    decreases blen(i),
{
    broadcast use {cat_nil_r, cat_nil_l, cat_assoc, push_cat};
    match p(i) { Ok((r, o)) => { if blen(r) < blen(i) { many_acc(p, r, push(acc, o)); many_acc(p, r, push(vnil(), o)); } } _ => {} }
}
pub broadcast proof fn sep_acc<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    ensures #[trigger] sep_from(s, p, i, acc) == (match sep_from(s, p, i, vnil()) { Ok((r, v)) => Ok::<(S, L<T>), NErr>((r, cat(acc, v))), Err(e) => Err(e) }),
    decreases blen(i),
{
    broadcast use {cat_nil_r, cat_nil_l, cat_assoc, push_cat};
    match s(i) {
        Ok((i2, _)) => { if blen(i2) != blen(i) { match p(i2) { Ok((i3, o)) => { if blen(i3) != blen(i2) && blen(i3) < blen(i) { sep_acc(s, p, i3, push(acc, o)); sep_acc(s, p, i3, push(vnil(), o)); } } _ => {} } } }
        _ => {}
    }
}
// separator then element, repeated, is a separated list after its first element
pub open spec fn then<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, x: S) -> R<T> { match s(x) { Err(e) => Err(e), Ok((r, _)) => p(r) } }
pub broadcast proof fn many_sep<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, q: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires forall|x: S| #[trigger] q(x) == then(s, p, x),
        forall|x: S| #[trigger] s(x) matches Ok((r, _)) ==> blen(r) < blen(x),
        forall|x: S| #[trigger] p(x) matches Ok((r, _)) ==> blen(r) < blen(x),
    ensures #![trigger many_from(q, i, acc), sep_from(s, p, i, acc)] many_from(q, i, acc) == sep_from(s, p, i, acc),
    decreases blen(i),
{
    assert(q(i) == then(s, p, i));
    match s(i) { Ok((i2, _)) => { match p(i2) { Ok((i3, o)) => { many_sep(s, p, q, i3, push(acc, o)); } _ => {} } } _ => {} }
}
pub broadcast group group_list {
    ext_any, cat_nil_r, cat_nil_l, cat_assoc, push_cat, take_all, take_none, skip_skip, rev_rev, rev_facts, init_take, take_take, opt_cases,
    ext_map, ext_fold, fold_or, fold_and, fold_push, many_acc, sep_acc, many_sep,
}
// what the loops guarantee about the rest of the input, for parsers that guarantee it themselves
pub proof fn total_sep_from<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires forall|x: S| #![trigger s(x)] total(x, s(x), true), forall|x: S| #![trigger p(x)] total(x, p(x), true),
    ensures total(i, sep_from(s, p, i, acc), true),
    decreases blen(i)
{
    assert(total(i, s(i), true));
    match s(i) { Ok((i2, _)) => { if blen(i2) != blen(i) { assert(total(i2, p(i2), true)); match p(i2) {
        Ok((i3, o)) => { if blen(i3) != blen(i2) && blen(i3) < blen(i) { total_sep_from(s, p, i3, push(acc, o)); } } _ => {} } } } _ => {} }
}
pub broadcast proof fn total_seplist1<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger s(x)] total(x, s(x), true), forall|x: S| #![trigger p(x)] total(x, p(x), true),
    ensures total(i, #[trigger] sp_seplist1(s, p, i), false),
{
    assert(total(i, p(i), true));
    match p(i) { Ok((r, o)) => { if blen(r) != blen(i) { total_sep_from(s, p, r, v1(o)); } } _ => {} }
}
pub broadcast proof fn total_seplist<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger s(x)] total(x, s(x), true), forall|x: S| #![trigger p(x)] total(x, p(x), true),
    ensures total(i, #[trigger] sp_seplist(s, p, i), true),
{
    assert(total(i, p(i), true));
    match p(i) { Ok((r, o)) => { if blen(r) != blen(i) { total_sep_from(s, p, r, v1(o)); } } _ => {} }
}
pub broadcast proof fn total_many0<T>(p: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger p(x)] total(x, p(x), true),
    ensures total(i, #[trigger] sp_many0(p, i), true), sp_many0(p, i) is Ok,
{ total_many_from(p, i, vnil()); }
pub broadcast group group_total { total_seplist1, total_seplist, total_many0, blen_many1 }
// what is left of the input is a tail of it
pub open spec fn sfx<T>(i: S, r: R<T>) -> bool { r matches Ok((x, _)) ==> suffix(x, i) }
pub broadcast proof fn sfx_tag(i: S, t: S) ensures sfx(i, #[trigger] s_tag(i, t)) { reveal(s_tag); if is_prefix(t@, i@) { lemma_cut(i, t@.len() as int); } }
pub broadcast proof fn sfx_char(i: S, c: char) ensures sfx(i, #[trigger] s_char(i, c)) { reveal(s_char); if i@.len() > 0 { lemma_cut(i, 1); } }
pub broadcast proof fn sfx_anychar(i: S) ensures sfx(i, #[trigger] s_anychar(i)) { reveal(s_anychar); if i@.len() > 0 { lemma_cut(i, 1); } }
pub broadcast proof fn sfx_run0(i: S, k: Cls) ensures sfx(i, #[trigger] s_run0(i, k)) { reveal(s_run0); lemma_run(k, i@); lemma_cut(i, run(k, i@)); }
pub broadcast proof fn sfx_run1(i: S, k: Cls) ensures sfx(i, #[trigger] s_run1(i, k)) { reveal(s_run1); lemma_run(k, i@); lemma_cut(i, run(k, i@)); }
pub broadcast proof fn sfx_name(i: S, k1: Cls, k2: Cls) ensures sfx(i, #[trigger] s_name(i, k1, k2))
{ reveal(s_name); if i@.len() > 0 { let t = i@.subrange(1, i@.len() as int); lemma_run(k2, t); lemma_cut(i, 1 + run(k2, t)); } }
pub broadcast proof fn sfx_exact(i: S, k: Cls, n: int) ensures sfx(i, #[trigger] s_exact(i, k, n)) { reveal(s_exact); if 0 < n <= i@.len() { lemma_cut(i, n); } }
pub broadcast proof fn sfx_esc(i: S, e: char, q: char, k: Cls) ensures sfx(i, #[trigger] s_esc(i, e, q, k))
{ reveal(s_esc); lemma_esc_run(i@, e, q, k); lemma_cut(i, esc_run(i@, e, q, k)); }
pub broadcast proof fn sfx_take_until(i: S, t: S) ensures sfx(i, #[trigger] s_take_until(i, t))
{
    reveal(s_take_until);
    if t@.len() > 0 && (exists|k: int| occurs(t@, i@, k)) {
        let k = choose|k: int| occurs(t@, i@, k);
        lemma_first_occ(t@, i@, 0, k);
        lemma_cut(i, first_occ(t@, i@, 0) + t@.len());
    }
}
pub broadcast proof fn sfx_eof(i: S) ensures sfx(i, #[trigger] s_eof(i)) { reveal(s_eof); suffix_refl(i); }
pub proof fn sfx_many_from<T>(p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires forall|x: S| #![trigger p(x)] blen(x) <= blen(i) ==> sfx(x, p(x)),
    ensures sfx(i, many_from(p, i, acc)),
    decreases blen(i)
{
    suffix_refl(i); assert(sfx(i, p(i)));
    match p(i) { Ok((r, o)) => { if blen(r) < blen(i) { sfx_many_from(p, r, push(acc, o)); broadcast use suffix_trans; } } _ => {} }
}
pub proof fn sfx_sep_from<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires forall|x: S| #![trigger s(x)] blen(x) <= blen(i) ==> sfx(x, s(x)), forall|x: S| #![trigger p(x)] blen(x) <= blen(i) ==> sfx(x, p(x)),
        forall|x: S| #![trigger s(x)] s(x) matches Ok((r, _)) ==> blen(r) <= blen(x),
    ensures sfx(i, sep_from(s, p, i, acc)),
    decreases blen(i)
{
    suffix_refl(i); broadcast use suffix_trans;
    match s(i) { Ok((i2, _)) => { if blen(i2) != blen(i) { assert(sfx(i2, p(i2))); match p(i2) {
        Ok((i3, o)) => { if blen(i3) != blen(i2) && blen(i3) < blen(i) { sfx_sep_from(s, p, i3, push(acc, o)); } } _ => {} } } } _ => {} }
}
pub broadcast proof fn sfx_many0<T>(p: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger p(x)] blen(x) <= blen(i) ==> sfx(x, p(x)),
    ensures sfx(i, #[trigger] sp_many0(p, i)),
{ sfx_many_from(p, i, vnil()); }
pub broadcast proof fn sfx_many1<T>(p: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger p(x)] blen(x) <= blen(i) ==> sfx(x, p(x)),
        forall|x: S| #![trigger p(x)] p(x) matches Ok((r, _)) ==> blen(r) <= blen(x),
    ensures sfx(i, #[trigger] sp_many1(p, i)),
{ assert(sfx(i, p(i))); match p(i) { Ok((r, o)) => { sfx_many_from(p, r, v1(o)); broadcast use suffix_trans; } _ => {} } }
pub broadcast proof fn sfx_seplist<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger s(x)] blen(x) < blen(i) ==> sfx(x, s(x)), forall|x: S| #![trigger p(x)] blen(x) <= blen(i) ==> sfx(x, p(x)),
        forall|x: S| #![trigger s(x)] s(x) matches Ok((r, _)) ==> blen(r) <= blen(x), forall|x: S| #![trigger p(x)] p(x) matches Ok((r, _)) ==> blen(r) <= blen(x),
    ensures #![trigger sp_seplist(s, p, i)] #![trigger sp_seplist1(s, p, i)] sfx(i, sp_seplist(s, p, i)), sfx(i, sp_seplist1(s, p, i)),
{ suffix_refl(i); assert(sfx(i, p(i))); match p(i) { Ok((r, o)) => { if blen(r) != blen(i) { sfx_sep_from(s, p, r, v1(o)); broadcast use suffix_trans; } } _ => {} } }
pub broadcast group group_sfx {
    suffix_refl, suffix_trans, sfx_tag, sfx_char, sfx_anychar, sfx_run0, sfx_run1, sfx_name, sfx_exact, sfx_esc, sfx_take_until, sfx_eof,
    sfx_many0, sfx_many1, sfx_seplist,
}
// the first character of what a parser accepts
pub broadcast proof fn fst_tag(i: S, t: S) ensures #[trigger] s_tag(i, t) is Ok && t@.len() > 0 ==> i@.len() > 0 && i@[0] == t@[0]
{ reveal(s_tag); if is_prefix(t@, i@) && t@.len() > 0 { assert(i@.subrange(0, t@.len() as int)[0] == t@[0]); } }
pub broadcast proof fn fst_tags(i: S, t: S, u: S) ensures #![trigger s_tag(i, t), s_tag(i, u)]
    s_tag(i, t) is Ok && s_tag(i, u) is Ok ==> forall|k: int| 0 <= k < t@.len() && k < u@.len() ==> #[trigger] t@[k] == #[trigger] u@[k],
{ reveal(s_tag); if is_prefix(t@, i@) && is_prefix(u@, i@) { assert forall|k: int| 0 <= k < t@.len() && k < u@.len() implies #[trigger] t@[k] == #[trigger] u@[k] by {
    assert(i@.subrange(0, t@.len() as int)[k] == i@[k]); assert(i@.subrange(0, u@.len() as int)[k] == i@[k]); } } }
pub broadcast proof fn fst_char(i: S, c: char) ensures #[trigger] s_char(i, c) is Ok ==> i@.len() > 0 && i@[0] == c { reveal(s_char); }
pub broadcast proof fn fst_anychar(i: S) ensures #[trigger] s_anychar(i) is Ok ==> i@.len() > 0 { reveal(s_anychar); }
pub broadcast proof fn fst_run1(i: S, k: Cls) ensures #[trigger] s_run1(i, k) is Ok ==> i@.len() > 0 && in_cls(k, i@[0]) { reveal(s_run1); lemma_run(k, i@); reveal_with_fuel(run, 2); }
pub broadcast proof fn fst_run0(i: S, k: Cls) ensures #[trigger] s_run0(i, k) matches Ok((x, _)) ==> x == i || i@.len() > 0 && in_cls(k, i@[0])
{ reveal(s_run0); lemma_run(k, i@); reveal_with_fuel(run, 2); if run(k, i@) == 0 { assert(skip(i, 0)@ =~= i@); assert(skip(i, 0) == i); } }
pub broadcast proof fn fst_name(i: S, k1: Cls, k2: Cls) ensures #[trigger] s_name(i, k1, k2) is Ok ==> i@.len() > 0 && in_cls(k1, i@[0]) { reveal(s_name); }
pub broadcast proof fn fst_exact(i: S, k: Cls, n: int) ensures #[trigger] s_exact(i, k, n) is Ok ==> i@.len() > 0 && in_cls(k, i@[0]) { reveal(s_exact); }
pub broadcast group group_fst_leaf { fst_tag, fst_char, fst_anychar, fst_run1, fst_run0, fst_name, fst_exact }
