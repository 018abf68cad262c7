// Hand-written part of the verified text: value model of the Rust/nom types, leaf contracts,
// loop specifications, and the lemmas about them.  Everything below a marker line
//   // TRUSTED: <what>
// is an assumed contract on a dependency (external_body); everything else is proved.
use vstd::prelude::*;
verus! {

// ------------------------------------------------------------------ value model
// L<T>: the value of a Vec<T>, slice, array, String, &str or CompleteStr (T = char).
pub struct L<T> { pub g: Ghost<Seq<T>> }
impl<T> Clone for L<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> Copy for L<T> {}
impl<T> L<T> {
    pub open spec fn view(self) -> Seq<T> { self.g@ }
}
pub struct Bx<T> { pub g: Ghost<T> }
impl<T> Clone for Bx<T> { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }
impl<T> Copy for Bx<T> {}

pub type S = L<char>;
#[derive(Clone, Copy)] pub struct Ctx;
#[derive(Clone, Copy)] pub struct EK;
#[derive(Clone, Copy)] pub struct Needed;
#[derive(Clone, Copy)] pub struct PErr;
#[derive(Clone, Copy)] pub enum NErr { Incomplete(Needed), Error(Ctx), Failure(Ctx) }
pub type R<T> = Result<(S, T), NErr>;

pub open spec fn mk<T>(s: Seq<T>) -> L<T> { L { g: Ghost(s) } }
pub open spec fn sl(s: &str) -> S { mk(s@) }
pub open spec fn unbx<T>(t: Bx<T>) -> T { t.g@ }
pub open spec fn bx<T>(t: T) -> Bx<T> { Bx { g: Ghost(t) } }
pub open spec fn vnil<T>() -> L<T> { mk(Seq::<T>::empty()) }
pub open spec fn v1<T>(t: T) -> L<T> { mk(Seq::<T>::empty().push(t)) }
pub open spec fn push<T>(l: L<T>, t: T) -> L<T> { mk(l@.push(t)) }
pub open spec fn snil() -> S { vnil::<char>() }
pub open spec fn st(s: S) -> S { s }
pub open spec fn cl<T>(t: T) -> T { t }
pub open spec fn chs(c: char) -> S { v1(c) }
pub open spec fn cat<T>(a: L<T>, b: L<T>) -> L<T> { mk(a@ + b@) }
pub open spec fn err<T>() -> R<T> { Err(NErr::Error(Ctx)) }
pub open spec fn opt<T>(r: R<T>, x: S) -> R<Option<T>> { match r { Ok((y, t)) => Ok((y, Some(t))), Err(_) => Ok((x, None)) } }
pub open spec fn skip(i: S, k: int) -> S { mk(i@.subrange(k, i@.len() as int)) }
pub open spec fn take(i: S, k: int) -> S { mk(i@.subrange(0, k)) }

// ------------------------------------------------------------------ lengths
pub open spec fn w(c: char) -> nat {
    if (c as u32) < 0x80 { 1 } else if (c as u32) < 0x800 { 2 } else if (c as u32) < 0x10000 { 3 } else { 4 }
}
// UTF-8 length in bytes: what input_len() compares
#[verifier::opaque]
pub open spec fn blen_seq(s: Seq<char>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { w(s[0]) + blen_seq(s.subrange(1, s.len() as int)) }
}
pub open spec fn blen(i: S) -> nat { blen_seq(i@) }
pub open spec fn trunc32(n: nat) -> u32 { (n % 0x1_0000_0000) as u32 }
pub open spec fn s_str_len(i: S) -> usize { blen(i) as usize }
pub open spec fn s_as_u32(n: usize) -> u32 { trunc32(n as nat) }
pub open spec fn len32(i: S) -> u32 { s_as_u32(s_str_len(i)) }

pub proof fn lemma_blen_skip(s: Seq<char>, k: int)
    requires 0 <= k <= s.len(),
    ensures blen_seq(s.subrange(k, s.len() as int)) <= blen_seq(s),
        k > 0 ==> blen_seq(s.subrange(k, s.len() as int)) < blen_seq(s),
    decreases k,
{
    if k == 0 { assert(s.subrange(0, s.len() as int) =~= s); }
    else {
        let t = s.subrange(1, s.len() as int);
        lemma_blen_skip(t, k - 1);
        assert(t.subrange(k - 1, t.len() as int) =~= s.subrange(k, s.len() as int));
        reveal_with_fuel(blen_seq, 2);
        assert(w(s[0]) > 0);
    }
}
pub proof fn lemma_blen_zero(s: Seq<char>)
    ensures blen_seq(s) == 0 <==> s.len() == 0,
{ reveal_with_fuel(blen_seq, 2); if s.len() > 0 { assert(w(s[0]) > 0); } }

// rest is what is left of i after some characters from its front
pub open spec fn tail_of(rest: S, i: S) -> bool {
    exists|k: int| 0 <= k <= i@.len() && rest@ == #[trigger] i@.subrange(k, i@.len() as int)
}
pub closed spec fn suffix(rest: S, i: S) -> bool { tail_of(rest, i) }
pub broadcast proof fn suffix_refl(i: S) ensures #[trigger] suffix(i, i)
{ assert(i@ =~= i@.subrange(0, i@.len() as int)); }
pub broadcast proof fn suffix_trans(a: S, b: S, c: S)
    requires #[trigger] suffix(a, b), #[trigger] suffix(b, c), ensures suffix(a, c)
{
    let k = choose|k: int| 0 <= k <= b@.len() && a@ == #[trigger] b@.subrange(k, b@.len() as int);
    let j = choose|j: int| 0 <= j <= c@.len() && b@ == #[trigger] c@.subrange(j, c@.len() as int);
    assert(a@ =~= c@.subrange(k + j, c@.len() as int));
}
pub proof fn suffix_intro(i: S, k: int) requires 0 <= k <= i@.len() ensures suffix(skip(i, k), i)
{ assert(skip(i, k)@ == i@.subrange(k, i@.len() as int)); }
pub proof fn suffix_elim(rest: S, i: S) requires suffix(rest, i)
    ensures exists|k: int| 0 <= k <= i@.len() && rest@ == #[trigger] i@.subrange(k, i@.len() as int) {}

// the T layer: what every parser guarantees about the rest of its input
pub open spec fn total<T>(i: S, r: R<T>, nullable: bool) -> bool {
    match r {
        Ok((rest, _)) => blen(rest) <= blen(i) && (nullable || blen(rest) < blen(i)),
        Err(e) => e == NErr::Error(Ctx),
    }
}

// ------------------------------------------------------------------ leaf parsers
pub open spec fn is_prefix(p: Seq<char>, s: Seq<char>) -> bool {
    p.len() <= s.len() && s.subrange(0, p.len() as int) == p
}
#[verifier::opaque]
pub open spec fn s_tag(i: S, t: S) -> R<S> {
    if is_prefix(t@, i@) { Ok((skip(i, t@.len() as int), take(i, t@.len() as int))) } else { err() }
}
#[verifier::opaque]
pub open spec fn s_char(i: S, c: char) -> R<char> {
    if i@.len() > 0 && i@[0] == c { Ok((skip(i, 1), c)) } else { err() }
}
#[verifier::opaque]
pub open spec fn s_anychar(i: S) -> R<char> {
    if i@.len() > 0 { Ok((skip(i, 1), i@[0])) } else { err() }
}
// length of the longest front part all of whose characters are in class k
#[verifier::opaque]
pub open spec fn run(k: Cls, s: Seq<char>) -> int decreases s.len() {
    if s.len() > 0 && in_cls(k, s[0]) { 1 + run(k, s.subrange(1, s.len() as int)) } else { 0 }
}
pub proof fn lemma_run(k: Cls, s: Seq<char>)
    ensures 0 <= run(k, s) <= s.len(),
        forall|j: int| 0 <= j < run(k, s) ==> in_cls(k, #[trigger] s[j]),
        run(k, s) < s.len() ==> !in_cls(k, s[run(k, s)]),
    decreases s.len(),
{
    reveal_with_fuel(run, 2);
    if s.len() > 0 && in_cls(k, s[0]) {
        let t = s.subrange(1, s.len() as int);
        lemma_run(k, t);
        assert forall|j: int| 0 <= j < run(k, s) implies in_cls(k, #[trigger] s[j]) by { if j > 0 { assert(s[j] == t[j - 1]); } }
        if run(k, s) < s.len() { assert(s[run(k, s)] == t[run(k, t)]); }
    }
}
pub open spec fn cut(i: S, k: int) -> R<S> { Ok((skip(i, k), take(i, k))) }
#[verifier::opaque]
pub open spec fn s_run0(i: S, k: Cls) -> R<S> { cut(i, run(k, i@)) }
#[verifier::opaque]
pub open spec fn s_run1(i: S, k: Cls) -> R<S> { if run(k, i@) > 0 { cut(i, run(k, i@)) } else { err() } }
#[verifier::opaque]
pub open spec fn s_name(i: S, k1: Cls, k2: Cls) -> R<S> {
    if i@.len() > 0 && in_cls(k1, i@[0]) { cut(i, 1 + run(k2, i@.subrange(1, i@.len() as int))) } else { err() }
}
#[verifier::opaque]
pub open spec fn s_exact(i: S, k: Cls, n: int) -> R<S> {
    if 0 < n <= i@.len() && (forall|j: int| 0 <= j < n ==> in_cls(k, #[trigger] i@[j])) { cut(i, n) } else { err() }
}
// ( esc esc | esc q | any of k )* , alternatives in this order
#[verifier::opaque]
pub open spec fn esc_run(s: Seq<char>, esc: char, q: char, k: Cls) -> int decreases s.len() {
    if s.len() >= 2 && s[0] == esc && (s[1] == esc || s[1] == q) { 2 + esc_run(s.subrange(2, s.len() as int), esc, q, k) }
    else if s.len() >= 1 && in_cls(k, s[0]) { 1 + esc_run(s.subrange(1, s.len() as int), esc, q, k) }
    else { 0 }
}
#[verifier::opaque]
pub open spec fn s_esc(i: S, esc: char, q: char, k: Cls) -> R<S> { cut(i, esc_run(i@, esc, q, k)) }
pub proof fn lemma_esc_run(s: Seq<char>, esc: char, q: char, k: Cls)
    ensures 0 <= esc_run(s, esc, q, k) <= s.len() decreases s.len()
{
    reveal_with_fuel(esc_run, 2);
    if s.len() >= 2 && s[0] == esc && (s[1] == esc || s[1] == q) { lemma_esc_run(s.subrange(2, s.len() as int), esc, q, k); }
    else if s.len() >= 1 && in_cls(k, s[0]) { lemma_esc_run(s.subrange(1, s.len() as int), esc, q, k); }
}
#[verifier::opaque]
pub open spec fn s_take_until(i: S, t: S) -> R<S> {
    if t@.len() > 0 && (exists|k: int| occurs(t@, i@, k)) {
        let k = first_occ(t@, i@, 0);
        Ok((skip(i, k + t@.len()), take(i, k)))
    } else { err() }
}
pub open spec fn occurs(t: Seq<char>, s: Seq<char>, k: int) -> bool {
    0 <= k && k + t.len() <= s.len() && s.subrange(k, k + t.len()) == t
}
#[verifier::opaque]
pub open spec fn first_occ(t: Seq<char>, s: Seq<char>, from: int) -> int decreases s.len() + 1 - from {
    if from < 0 || from > s.len() || occurs(t, s, from) { from } else { first_occ(t, s, from + 1) }
}
pub proof fn lemma_first_occ(t: Seq<char>, s: Seq<char>, from: int, k: int)
    requires occurs(t, s, k), 0 <= from <= k,
    ensures occurs(t, s, first_occ(t, s, from)), from <= first_occ(t, s, from) <= k,
        forall|j: int| from <= j < first_occ(t, s, from) ==> !occurs(t, s, j),
    decreases k - from,
{
    reveal_with_fuel(first_occ, 2);
    if !occurs(t, s, from) { lemma_first_occ(t, s, from + 1, k); }
}
#[verifier::opaque]
pub open spec fn s_eof(i: S) -> R<S> { if i@.len() == 0 { Ok((i, i)) } else { err() } }

// T facts of the leaves
pub proof fn lemma_cut(i: S, k: int)
    requires 0 <= k <= i@.len(),
    ensures suffix(skip(i, k), i), blen(skip(i, k)) <= blen(i), k > 0 ==> blen(skip(i, k)) < blen(i),
{ suffix_intro(i, k); lemma_blen_skip(i@, k); }
pub broadcast proof fn t_tag(i: S, t: S) ensures
    total(i, #[trigger] s_tag(i, t), true), t@.len() > 0 ==> total(i, s_tag(i, t), false),
    s_tag(i, t) matches Ok((_, x)) ==> x@ == t@,
{ reveal(s_tag); if is_prefix(t@, i@) { lemma_cut(i, t@.len() as int); } }
pub broadcast proof fn t_char(i: S, c: char) ensures total(i, #[trigger] s_char(i, c), false),
    s_char(i, c) matches Ok((_, x)) ==> x == c,
{ reveal(s_char); if i@.len() > 0 { lemma_cut(i, 1); } }
pub broadcast proof fn t_anychar(i: S) ensures total(i, #[trigger] s_anychar(i), false)
{ reveal(s_anychar); if i@.len() > 0 { lemma_cut(i, 1); } }
pub broadcast proof fn t_run0(i: S, k: Cls) ensures total(i, #[trigger] s_run0(i, k), true), s_run0(i, k) is Ok
{ reveal(s_run0); lemma_run(k, i@); lemma_cut(i, run(k, i@)); }
pub broadcast proof fn t_run1(i: S, k: Cls) ensures total(i, #[trigger] s_run1(i, k), false)
{ reveal(s_run1); lemma_run(k, i@); if run(k, i@) > 0 { lemma_cut(i, run(k, i@)); } }
pub broadcast proof fn t_name(i: S, k1: Cls, k2: Cls) ensures total(i, #[trigger] s_name(i, k1, k2), false)
{ reveal(s_name); if i@.len() > 0 { let t = i@.subrange(1, i@.len() as int); lemma_run(k2, t); lemma_cut(i, 1 + run(k2, t)); } }
pub broadcast proof fn t_exact(i: S, k: Cls, n: int) ensures total(i, #[trigger] s_exact(i, k, n), false)
{ reveal(s_exact); if 0 < n <= i@.len() { lemma_cut(i, n); } }
pub broadcast proof fn t_esc(i: S, e: char, q: char, k: Cls) ensures total(i, #[trigger] s_esc(i, e, q, k), true), s_esc(i, e, q, k) is Ok
{ reveal(s_esc); lemma_esc_run(i@, e, q, k); lemma_cut(i, esc_run(i@, e, q, k)); }
pub broadcast proof fn t_take_until(i: S, t: S) ensures total(i, #[trigger] s_take_until(i, t), false)
{
    reveal(s_take_until);
    if t@.len() > 0 && (exists|k: int| occurs(t@, i@, k)) {
        let k = choose|k: int| occurs(t@, i@, k);
        lemma_first_occ(t@, i@, 0, k);
        lemma_cut(i, first_occ(t@, i@, 0) + t@.len());
    }
}
pub broadcast proof fn t_eof(i: S) ensures total(i, #[trigger] s_eof(i), true)
{ reveal(s_eof); suffix_refl(i); }

pub broadcast group group_leaf {
    suffix_refl, suffix_trans, t_tag, t_char, t_anychar, t_run0, t_run1, t_name, t_exact, t_esc, t_take_until, t_eof,
}

// ------------------------------------------------------------------ loop combinators
pub open spec fn many_from<T>(p: spec_fn(S) -> R<T>, i: S, acc: L<T>) -> R<L<T>> decreases blen(i) {
    match p(i) {
        Err(NErr::Error(_)) => Ok((i, acc)),
        Err(e) => Err(e),
        Ok((r, o)) => if blen(r) < blen(i) { many_from(p, r, push(acc, o)) } else { Ok((i, acc)) },
    }
}
pub open spec fn sp_many0<T>(p: spec_fn(S) -> R<T>, i: S) -> R<L<T>> { many_from(p, i, vnil()) }
pub open spec fn sp_many1<T>(p: spec_fn(S) -> R<T>, i: S) -> R<L<T>> {
    match p(i) { Err(e) => Err(e), Ok((r, o)) => many_from(p, r, v1(o)) }
}
pub open spec fn sep_from<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>) -> R<L<T>> decreases blen(i) {
    match s(i) {
        Err(NErr::Error(_)) => Ok((i, acc)),
        Err(e) => Err(e),
        Ok((i2, _)) => if blen(i2) == blen(i) { Ok((i, acc)) } else {
            match p(i2) {
                Err(NErr::Error(_)) => Ok((i, acc)),
                Err(e) => Err(e),
                Ok((i3, o)) => if blen(i3) == blen(i2) { Ok((i, acc)) }
                    else if blen(i3) < blen(i) { sep_from(s, p, i3, push(acc, o)) } else { Ok((i, acc)) },
            }
        },
    }
}
pub open spec fn sp_seplist<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S) -> R<L<T>> {
    match p(i) {
        Err(NErr::Error(_)) => Ok((i, vnil())),
        Err(e) => Err(e),
        Ok((r, o)) => if blen(r) == blen(i) { err() } else { sep_from(s, p, r, v1(o)) },
    }
}
pub open spec fn sp_seplist1<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S) -> R<L<T>> {
    match p(i) {
        Err(e) => Err(e),
        Ok((r, o)) => if blen(r) == blen(i) { err() } else { sep_from(s, p, r, v1(o)) },
    }
}
// the loops depend on the inner parsers only at inputs no longer than the one they start from
pub broadcast proof fn ext_many_from<T>(p: spec_fn(S) -> R<T>, q: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires forall|x: S| #![trigger p(x)] #![trigger q(x)] blen(x) <= blen(i) ==> p(x) == q(x),
    ensures #![trigger many_from(p, i, acc), many_from(q, i, acc)] many_from(p, i, acc) == many_from(q, i, acc),
    decreases blen(i),
{
    assert(p(i) == q(i));
    match p(i) { Ok((r, o)) => { if blen(r) < blen(i) { ext_many_from(p, q, r, push(acc, o)); } } _ => {} }
}
pub broadcast proof fn ext_sep_from<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, s2: spec_fn(S) -> R<U>, p2: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires forall|x: S| #![trigger s(x)] #![trigger s2(x)] blen(x) <= blen(i) ==> s(x) == s2(x),
        forall|x: S| #![trigger p(x)] #![trigger p2(x)] blen(x) < blen(i) ==> p(x) == p2(x),
        forall|x: S| #![trigger s(x)] s(x) matches Ok((r, _)) ==> blen(r) <= blen(x),
    ensures #![trigger sep_from(s, p, i, acc), sep_from(s2, p2, i, acc)] sep_from(s, p, i, acc) == sep_from(s2, p2, i, acc),
    decreases blen(i),
{
    assert(s(i) == s2(i));
    match s(i) {
        Ok((i2, _)) => { if blen(i2) < blen(i) { match p(i2) { Ok((i3, o)) => { assert(p(i2) == p2(i2)); if blen(i3) < blen(i) { ext_sep_from(s, p, s2, p2, i3, push(acc, o)); } } _ => { assert(p(i2) == p2(i2)); } } } }
        _ => {}
    }
}
pub broadcast proof fn ext_many1<T>(p: spec_fn(S) -> R<T>, q: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger p(x)] #![trigger q(x)] blen(x) <= blen(i) ==> p(x) == q(x),
        forall|x: S| #![trigger p(x)] p(x) matches Ok((r, _)) ==> blen(r) <= blen(x),
    ensures #![trigger sp_many1(p, i), sp_many1(q, i)] sp_many1(p, i) == sp_many1(q, i),
{
    assert(p(i) == q(i));
    match p(i) { Ok((r, o)) => { ext_many_from(p, q, r, v1(o)); } _ => {} }
}
pub broadcast group group_ext { ext_many_from, ext_sep_from, ext_many1 }

// what the loops guarantee about the rest
pub proof fn total_many_from<T>(p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    requires forall|x: S| #![trigger p(x)] total(x, p(x), true),
    ensures total(i, many_from(p, i, acc), true), many_from(p, i, acc) is Ok
    decreases blen(i)
{
    broadcast use group_leaf;
    assert(total(i, p(i), true));
    match p(i) { Ok((r, o)) => { if blen(r) < blen(i) { total_many_from(p, r, push(acc, o)); } } _ => {} }
}
pub broadcast proof fn blen_many1<T>(p: spec_fn(S) -> R<T>, i: S)
    requires forall|x: S| #![trigger p(x)] total(x, p(x), true),
    ensures total(i, #[trigger] sp_many1(p, i), true),
        total(i, p(i), false) ==> total(i, sp_many1(p, i), false)
{
    broadcast use group_leaf;
    assert(total(i, p(i), true));
    match p(i) { Ok((r, o)) => { total_many_from(p, r, v1(o)); } _ => {} }
}

pub proof fn sep_from_facts<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S, acc: L<T>)
    ensures sep_from(s, p, i, acc) matches Ok((r, v)) ==> blen(r) <= blen(i) && v@.len() >= acc@.len(),
    decreases blen(i)
{
    match s(i) {
        Ok((i2, _)) => { if blen(i2) != blen(i) { match p(i2) {
            Ok((i3, o)) => { if blen(i3) != blen(i2) && blen(i3) < blen(i) { sep_from_facts(s, p, i3, push(acc, o)); } }
            _ => {} } } }
        _ => {}
    }
}
// a separated list without elements consumes nothing, one with elements consumes something
pub broadcast proof fn seplist_facts<U, T>(s: spec_fn(S) -> R<U>, p: spec_fn(S) -> R<T>, i: S)
    requires total(i, p(i), true),
    ensures #[trigger] sp_seplist(s, p, i) matches Ok((r, v)) ==> if v@.len() == 0 { r == i } else { blen(r) < blen(i) },
{
    match p(i) { Ok((r, o)) => { sep_from_facts(s, p, r, v1(o)); } _ => {} }
}

// ------------------------------------------------------------------ list operations
pub open spec fn any_l<T>(l: L<T>, p: spec_fn(T) -> bool) -> bool { exists|k: int| 0 <= k < l@.len() && #[trigger] p(l@[k]) }
pub broadcast proof fn ext_any<T>(l: L<T>, p: spec_fn(T) -> bool, q: spec_fn(T) -> bool)
    requires forall|x: T| #![trigger p(x)] #![trigger q(x)] p(x) == q(x),
    ensures #![trigger any_l(l, p), any_l(l, q)] any_l(l, p) == any_l(l, q),
{
    if any_l(l, p) { let k = choose|k: int| 0 <= k < l@.len() && #[trigger] p(l@[k]); assert(q(l@[k])); }
    if any_l(l, q) { let k = choose|k: int| 0 <= k < l@.len() && #[trigger] q(l@[k]); assert(p(l@[k])); }
}
pub open spec fn first_o<T>(l: L<T>) -> Option<T> { if l@.len() > 0 { Some(l@[0]) } else { None } }
pub open spec fn last_o<T>(l: L<T>) -> Option<T> { if l@.len() > 0 { Some(l@[l@.len() - 1]) } else { None } }
pub open spec fn init_l<T>(l: L<T>) -> L<T> { if l@.len() > 0 { mk(l@.subrange(0, l@.len() - 1)) } else { l } }
pub open spec fn skip_l<T>(l: L<T>, n: int) -> L<T> { if n <= l@.len() { mk(l@.subrange(n, l@.len() as int)) } else { vnil() } }
pub open spec fn take_l<T>(l: L<T>, n: int) -> L<T> { if n <= l@.len() { mk(l@.subrange(0, n)) } else { l } }
pub broadcast proof fn take_all<T>(l: L<T>) ensures #[trigger] take_l(l, l@.len() as int) == l { assert(l@.subrange(0, l@.len() as int) =~= l@); assert(mk(l@) == l); }
pub open spec fn opt_list<T>(o: Option<T>) -> L<T> { match o { Some(t) => v1(t), None => vnil() } }
pub open spec fn rev_l<T>(l: L<T>) -> L<T> { mk(Seq::new(l@.len(), |k: int| l@[l@.len() - 1 - k])) }
pub open spec fn map_l<T, U>(l: L<T>, f: spec_fn(T) -> U) -> L<U> { mk(Seq::new(l@.len(), |k: int| f(l@[k]))) }
pub open spec fn fold_to<T, A>(l: L<T>, a: A, f: spec_fn(A, T) -> A, k: int) -> A decreases k {
    if k <= 0 || k > l@.len() { a } else { f(fold_to(l, a, f, k - 1), l@[k - 1]) }
}
pub open spec fn fold_l<T, A>(l: L<T>, a: A, f: spec_fn(A, T) -> A) -> A { fold_to(l, a, f, l@.len() as int) }
pub open spec fn eq<T>(a: T, b: T) -> bool { a == b }
pub open spec fn s_vec_len<T>(l: L<T>) -> usize { l@.len() as usize }
pub open spec fn s_at_eof(i: S) -> bool { true }
pub open spec fn has_l<T>(l: L<T>, t: T) -> bool { l@.contains(t) }
