// ------------------------------------------------------------------ below nom: str, char and their iterators
#[derive(Clone, Copy)] pub enum CmpR { Ok, Incomplete, Error }
// byte offset of the k-th character
pub open spec fn bo(s: S, k: int) -> nat { blen_seq(s@.subrange(0, k)) }
pub uninterp spec fn off(s: S, k: int) -> usize;     // the same as usize
pub struct CharIndices { pub s: S, pub at: Ghost<int> }
pub struct Chars { pub s: S, pub at: Ghost<int> }
// TRUSTED: str::char_indices, str::chars, and next, find, zip and position on them
#[verifier::external_body] pub fn x_char_indices(s: S) -> (r: CharIndices) ensures r.s == s, r.at@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn x_chars(s: S) -> (r: Chars) ensures r.s == s, r.at@ == 0 { unimplemented!() }
#[verifier::external_body] pub fn x_ch_next(it: &mut Chars) -> (r: Option<char>)
    requires 0 <= old(it).at@ <= old(it).s@.len(),
    ensures final(it).s == old(it).s, old(it).at@ < old(it).s@.len() ==> r == Some(old(it).s@[old(it).at@]) && final(it).at@ == old(it).at@ + 1,
        old(it).at@ >= old(it).s@.len() ==> r is None && final(it).at@ == old(it).at@,
{ unimplemented!() }
#[verifier::external_body] pub fn x_ci_next(it: &mut CharIndices) -> (r: Option<(usize, char)>)
    requires 0 <= old(it).at@ <= old(it).s@.len(),
    ensures final(it).s == old(it).s,
        old(it).at@ < old(it).s@.len() ==> r is Some && (r->0).0 as nat == bo(old(it).s, old(it).at@) && (r->0).1 == old(it).s@[old(it).at@] && final(it).at@ == old(it).at@ + 1,
        old(it).at@ >= old(it).s@.len() ==> r is None && final(it).at@ == old(it).at@,
{ unimplemented!() }
#[verifier::external_body] pub fn x_ci_find(it: CharIndices, p: Ghost<spec_fn((usize, char)) -> bool>) -> (r: Option<(usize, char)>)
    requires it.at@ == 0,
    ensures match r {
        Some((n, c)) => exists|k: int| 0 <= k < it.s@.len() && n as nat == #[trigger] bo(it.s, k) && c == it.s@[k] && p@((n, c))
            && forall|j: int| 0 <= j < k ==> !p@((off(it.s, j), #[trigger] it.s@[j])),
        None => forall|j: int| 0 <= j < it.s@.len() ==> !p@((off(it.s, j), #[trigger] it.s@[j])),
    },
{ unimplemented!() }
#[verifier::external_body] pub fn x_zip_position(it: (Chars, Chars), p: Ghost<spec_fn((char, char)) -> bool>) -> (r: Option<usize>)
    requires it.0.at@ == 0, it.1.at@ == 0,
    ensures match r {
        Some(n) => n < it.0.s@.len() && n < it.1.s@.len() && p@((it.0.s@[n as int], it.1.s@[n as int])),
        None => forall|j: int| 0 <= j < it.0.s@.len() && j < it.1.s@.len() ==> !p@((#[trigger] it.0.s@[j], it.1.s@[j])),
    },
{ unimplemented!() }
pub open spec fn is_first(t: Seq<char>, s: Seq<char>, k: int) -> bool { occurs(t, s, k) && forall|j: int| 0 <= j < k ==> !occurs(t, s, j) }
// TRUSTED: slicing a str at character boundaries (anything else panics), str::find
#[verifier::external_body] pub fn x_from(s: S, n: usize) -> (r: S)
    requires exists|k: int| 0 <= k <= s@.len() && n as nat == #[trigger] bo(s, k),
    ensures forall|k: int| 0 <= k <= s@.len() && n as nat == #[trigger] bo(s, k) ==> r == skip(s, k),
{ unimplemented!() }
#[verifier::external_body] pub fn x_to(s: S, n: usize) -> (r: S)
    requires exists|k: int| 0 <= k <= s@.len() && n as nat == #[trigger] bo(s, k),
    ensures forall|k: int| 0 <= k <= s@.len() && n as nat == #[trigger] bo(s, k) ==> r == take(s, k),
{ unimplemented!() }
#[verifier::external_body] pub fn x_range(s: S, r: (usize, usize)) -> (o: S)
    requires exists|a: int, b: int| 0 <= a <= b <= s@.len() && r.0 as nat == #[trigger] bo(s, a) && r.1 as nat == #[trigger] bo(s, b),
    ensures forall|a: int, b: int| 0 <= a <= b <= s@.len() && r.0 as nat == #[trigger] bo(s, a) && r.1 as nat == #[trigger] bo(s, b) ==> o@ == s@.subrange(a, b),
{ unimplemented!() }
#[verifier::external_body] pub fn x_str_find(s: S, t: S) -> (r: Option<usize>)
    ensures match r {
        Some(n) => exists|k: int| is_first(t@, s@, k) && n as nat == #[trigger] bo(s, k) && n + blen(t) <= usize::MAX,
        None => forall|j: int| !occurs(t@, s@, j),
    },
{ unimplemented!() }
// TRUSTED: char::is_digit, char::len_utf8
pub open spec fn s_is_digit(c: char, radix: u32) -> bool {
    let v = if 48 <= c as u32 <= 57 { c as u32 - 48 } else if 97 <= c as u32 <= 122 { c as u32 - 87 } else if 65 <= c as u32 <= 90 { c as u32 - 55 } else { 99 };
    v < radix
}
#[verifier::external_body] pub fn x_is_digit(c: char, radix: u32) -> (r: bool) requires 2 <= radix <= 36 ensures r == s_is_digit(c, radix) { unimplemented!() }
#[verifier::external_body] pub fn x_len_utf8(c: char) -> (r: usize) ensures r as nat == w(c) { unimplemented!() }

// ------------------------------------------------------------------ lemmas
pub proof fn bo_split(s: Seq<char>, t: Seq<char>) ensures blen_seq(s + t) == blen_seq(s) + blen_seq(t) decreases s.len()
{
    reveal_with_fuel(blen_seq, 2);
    if s.len() == 0 { assert(s + t =~= t); }
    else {
        let u = s.subrange(1, s.len() as int);
        bo_split(u, t);
        assert((s + t).subrange(1, (s + t).len() as int) =~= u + t);
    }
}
pub proof fn bo_facts(i: S)
    ensures bo(i, 0) == 0, bo(i, i@.len() as int) == blen(i),
        i@.len() > 0 ==> bo(i, 1) == w(i@[0]),
        forall|k: int| 0 < k <= i@.len() ==> #[trigger] bo(i, k) > 0,
        forall|k: int| 0 <= k < i@.len() ==> bo(i, k) < blen(i),
        blen(i) == 0 <==> i@.len() == 0,
        skip(i, 0) == i, take(i, i@.len() as int) == i,
{
    lemma_blen_zero(i@);
    assert(i@.subrange(0, 0) =~= Seq::<char>::empty());
    lemma_blen_zero(i@.subrange(0, 0));
    assert(i@.subrange(0, i@.len() as int) =~= i@);
    assert forall|k: int| 0 < k <= i@.len() implies #[trigger] bo(i, k) > 0 by { lemma_blen_zero(i@.subrange(0, k)); }
    assert forall|k: int| 0 <= k < i@.len() implies bo(i, k) < blen(i) by {
        let a = i@.subrange(0, k); let b = i@.subrange(k, i@.len() as int);
        bo_split(a, b); lemma_blen_zero(b); assert(a + b =~= i@);
    }
    if i@.len() > 0 { reveal_with_fuel(blen_seq, 3); assert(i@.subrange(0, 1).subrange(1, 1) =~= Seq::<char>::empty()); }
}
pub proof fn run_is(k: Cls, s: Seq<char>, n: int)
    requires 0 <= n <= s.len(), forall|j: int| 0 <= j < n ==> in_cls(k, #[trigger] s[j]), n < s.len() ==> !in_cls(k, s[n]),
    ensures run(k, s) == n,
{ lemma_run(k, s); if run(k, s) < n { assert(in_cls(k, s[run(k, s)])); } }
// a text found by looking for the first character outside the class
pub proof fn run_hints(i: S, k: Cls)
    ensures bo(i, 0) == 0, bo(i, i@.len() as int) == blen(i), blen(i) == 0 <==> i@.len() == 0, skip(i, 0) == i, take(i, i@.len() as int) == i,
        forall|n: int| 0 < n <= i@.len() ==> #[trigger] bo(i, n) > 0,
        0 <= run(k, i@) <= i@.len(),
        forall|n: int| #![trigger bo(i, n)] 0 <= n <= i@.len() && (forall|j: int| 0 <= j < n ==> in_cls(k, #[trigger] i@[j])) && (n < i@.len() ==> !in_cls(k, i@[n])) ==> run(k, i@) == n,
        s_run0(i, k) == cut(i, run(k, i@)), s_run1(i, k) == (if run(k, i@) > 0 { cut(i, run(k, i@)) } else { err() }),
{
    reveal(s_run0); reveal(s_run1); bo_facts(i); lemma_run(k, i@);
    assert forall|n: int| #![trigger bo(i, n)] 0 <= n <= i@.len() && (forall|j: int| 0 <= j < n ==> in_cls(k, #[trigger] i@[j])) && (n < i@.len() ==> !in_cls(k, i@[n])) implies run(k, i@) == n by { run_is(k, i@, n); }
}
pub proof fn char_hints(i: S)
    ensures bo(i, 0) == 0, bo(i, i@.len() as int) == blen(i), blen(i) == 0 <==> i@.len() == 0, i@.len() > 0 ==> bo(i, 1) == w(i@[0]),
        forall|c: char| #[trigger] s_char(i, c) == (if i@.len() > 0 && i@[0] == c { Ok((skip(i, 1), c)) } else { err() }),
        s_anychar(i) == (if i@.len() > 0 { Ok((skip(i, 1), i@[0])) } else { err() }),
{ reveal(s_char); reveal(s_anychar); bo_facts(i); }
pub proof fn tag_hints(i: S, t: S)
    ensures s_tag(i, t) == (if is_prefix(t@, i@) { Ok((skip(i, t@.len() as int), take(i, t@.len() as int))) } else { err() }),
        is_prefix(t@, i@) ==> bo(i, t@.len() as int) == blen(t) && blen(t) <= blen(i) && t@.len() <= i@.len(),
        is_prefix(t@, i@) <==> blen(i) >= blen(t) && (forall|j: int| 0 <= j < i@.len() && j < t@.len() ==> #[trigger] i@[j] == t@[j]),
{
    reveal(s_tag);
    if is_prefix(t@, i@) {
        assert(i@.subrange(0, t@.len() as int) == t@);
        assert forall|j: int| 0 <= j < i@.len() && j < t@.len() implies #[trigger] i@[j] == t@[j] by { assert(i@.subrange(0, t@.len() as int)[j] == i@[j]); }
        let b = i@.subrange(t@.len() as int, i@.len() as int);
        bo_split(t@, b); assert(t@ + b =~= i@);
    } else if blen(i) >= blen(t) && (forall|j: int| 0 <= j < i@.len() && j < t@.len() ==> #[trigger] i@[j] == t@[j]) {
        if t@.len() <= i@.len() { assert(i@.subrange(0, t@.len() as int) =~= t@); }
        else {
            let b = t@.subrange(i@.len() as int, t@.len() as int);
            bo_split(i@, b); lemma_blen_zero(b); assert(i@ + b =~= t@);
        }
    }
}
pub open spec fn until_ok(i: S, t: S, k: int) -> bool {
    s_take_until(i, t) == Ok::<(S, S), NErr>((skip(i, k + t@.len()), take(i, k))) && bo(i, k + t@.len()) == bo(i, k) + blen(t) && bo(i, k) + blen(t) <= blen(i)
}
pub proof fn until_at(i: S, t: S, k: int)
    requires t@.len() > 0, is_first(t@, i@, k),
    ensures until_ok(i, t, k),
{
    reveal(s_take_until);
    lemma_first_occ(t@, i@, 0, k);
    assert(first_occ(t@, i@, 0) == k);
    let e = k + t@.len();
    assert(i@.subrange(0, k) + t@ =~= i@.subrange(0, e)) by {
        assert(i@.subrange(k, e) == t@);
        assert forall|j: int| k <= j < e implies i@[j] == t@[j - k] by { assert(i@.subrange(k, e)[j - k] == i@[j]); }
    }
    bo_split(i@.subrange(0, k), t@);
    bo_split(i@.subrange(0, e), i@.subrange(e, i@.len() as int));
    assert(i@.subrange(0, e) + i@.subrange(e, i@.len() as int) =~= i@);
}
pub proof fn until_hints(i: S, t: S)
    requires t@.len() > 0,
    ensures bo(i, 0) == 0,
        forall|k: int| #![trigger bo(i, k)] #![trigger is_first(t@, i@, k)] is_first(t@, i@, k) ==>
            until_ok(i, t, k),
        (forall|j: int| !occurs(t@, i@, j)) ==> s_take_until(i, t) == err::<S>(),
        forall|k: int| 0 <= k <= i@.len() ==> #[trigger] i@.subrange(0, k) == take(i, k)@,
{
    bo_facts(i);
    assert((forall|j: int| !occurs(t@, i@, j)) ==> s_take_until(i, t) == err::<S>()) by { reveal(s_take_until); }
    assert forall|k: int| #![trigger bo(i, k)] #![trigger is_first(t@, i@, k)] is_first(t@, i@, k) implies
        until_ok(i, t, k) by { until_at(i, t, k); }
}
