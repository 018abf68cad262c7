// ------------------------------------------------------------------ executable primitives
// Each of these stands for a function or macro of a dependency (nom 4, regex, std); the contract is assumed.
// TRUSTED: string literal
#[verifier::external_body] pub fn x_sl(s: &str) -> (r: S) ensures r == sl(s) { unimplemented!() }
// TRUSTED: an uninitialised `let x;` (rustc guarantees it is assigned before use)
#[verifier::external_body] pub fn x_undef<T>() -> (r: T) { unimplemented!() }
// TRUSTED: nom tag!
#[verifier::external_body] pub fn x_tag(i: S, t: S) -> (r: R<S>) ensures r == s_tag(i, t) { unimplemented!() }
// TRUSTED: nom char!
#[verifier::external_body] pub fn x_char(i: S, c: char) -> (r: R<char>) ensures r == s_char(i, c) { unimplemented!() }
// TRUSTED: nom anychar
#[verifier::external_body] pub fn x_anychar(i: S) -> (r: R<char>) ensures r == s_anychar(i) { unimplemented!() }
// TRUSTED: nom is_a!, digit, space, multispace, and re_matches! with ^[..]+ / ^[..]*
#[verifier::external_body] pub fn x_run1(i: S, k: Cls) -> (r: R<S>) ensures r == s_run1(i, k) { unimplemented!() }
#[verifier::external_body] pub fn x_run0(i: S, k: Cls) -> (r: R<S>) ensures r == s_run0(i, k) { unimplemented!() }
// TRUSTED: re_matches! with ^[..][..]*, ^[..]{n}, ^(ee|eq|[..])*
#[verifier::external_body] pub fn x_name(i: S, k1: Cls, k2: Cls) -> (r: R<S>) ensures r == s_name(i, k1, k2) { unimplemented!() }
#[verifier::external_body] pub fn x_exact(i: S, k: Cls, n: usize) -> (r: R<S>) ensures r == s_exact(i, k, n as int) { unimplemented!() }
#[verifier::external_body] pub fn x_esc(i: S, e: char, q: char, k: Cls) -> (r: R<S>) ensures r == s_esc(i, e, q, k) { unimplemented!() }
// TRUSTED: nom take_until_and_consume!
#[verifier::external_body] pub fn x_take_until(i: S, t: S) -> (r: R<S>) ensures r == s_take_until(i, t) { unimplemented!() }
// TRUSTED: nom eof!
#[verifier::external_body] pub fn x_eof(i: S) -> (r: R<S>) ensures r == s_eof(i) { unimplemented!() }
// TRUSTED: nom AtEof of CompleteStr
#[verifier::external_body] pub fn x_at_eof(i: S) -> (r: bool) ensures r == true { unimplemented!() }
// TRUSTED: str::len, and nom InputLength of CompleteStr
#[verifier::external_body] pub fn x_str_len(i: S) -> (r: usize) ensures r == s_str_len(i), r as nat == blen(i) { unimplemented!() }
// TRUSTED: Vec / slice / Option methods of std, derived PartialEq, Box::new, String operations
#[verifier::external_body] pub fn x_vec_len<T>(l: L<T>) -> (r: usize) ensures r == s_vec_len(l), r as nat == l@.len() { unimplemented!() }
#[verifier::external_body] pub fn x_vnil<T>() -> (r: L<T>) ensures r == vnil::<T>() { unimplemented!() }
#[verifier::external_body] pub fn x_v1<T>(t: T) -> (r: L<T>) ensures r == v1(t) { unimplemented!() }
#[verifier::external_body] pub fn x_push<T>(l: L<T>, t: T) -> (r: L<T>) ensures r == push(l, t) { unimplemented!() }
#[verifier::external_body] pub fn x_pop<T>(l: L<T>) -> (r: Option<T>) ensures r == last_o(l) { unimplemented!() }
#[verifier::external_body] pub fn x_init<T>(l: L<T>) -> (r: L<T>) ensures r == init_l(l) { unimplemented!() }
#[verifier::external_body] pub fn x_index<T>(l: L<T>, k: usize) -> (r: T) requires k < l@.len() ensures r == l@[k as int] { unimplemented!() }
#[verifier::external_body] pub fn x_last_o<T>(l: L<T>) -> (r: Option<T>) ensures r == last_o(l) { unimplemented!() }
#[verifier::external_body] pub fn x_first_o<T>(l: L<T>) -> (r: Option<T>) ensures r == first_o(l) { unimplemented!() }
#[verifier::external_body] pub fn x_skip_l<T>(l: L<T>, n: usize) -> (r: L<T>) ensures r == skip_l(l, n as int) { unimplemented!() }
#[verifier::external_body] pub fn x_take_l<T>(l: L<T>, n: usize) -> (r: L<T>) ensures r == take_l(l, n as int) { unimplemented!() }
#[verifier::external_body] pub fn x_slice_from<T>(l: L<T>, n: usize) -> (r: L<T>) requires n <= l@.len() ensures r == skip_l(l, n as int) { unimplemented!() }
#[verifier::external_body] pub fn x_slice_to<T>(l: L<T>, n: usize) -> (r: L<T>) requires n <= l@.len() ensures r == take_l(l, n as int) { unimplemented!() }
#[verifier::external_body] pub fn x_map_l<T, U>(l: L<T>, f: Ghost<spec_fn(T) -> U>) -> (r: L<U>) ensures r == map_l(l, f@) { unimplemented!() }
#[verifier::external_body] pub fn x_opt_list<T>(o: Option<T>) -> (r: L<T>) ensures r == opt_list(o) { unimplemented!() }
#[verifier::external_body] pub fn x_rev_l<T>(l: L<T>) -> (r: L<T>) ensures r == rev_l(l) { unimplemented!() }
#[verifier::external_body] pub fn x_any_l<T>(l: L<T>, p: Ghost<spec_fn(T) -> bool>) -> (r: bool) ensures r == any_l(l, p@) { unimplemented!() }
#[verifier::external_body] pub fn x_fold_l<T, A>(l: L<T>, a: A, f: Ghost<spec_fn(A, T) -> A>) -> (r: A) ensures r == fold_l(l, a, f@) { unimplemented!() }
#[verifier::external_body] pub fn x_has_l<T>(l: L<T>, t: T) -> (r: bool) ensures r == has_l(l, t) { unimplemented!() }
#[verifier::external_body] pub fn x_eq<T>(a: T, b: T) -> (r: bool) ensures r == (a == b) { unimplemented!() }
#[verifier::external_body] pub fn x_unbx<T>(t: Bx<T>) -> (r: T) ensures r == unbx(t) { unimplemented!() }
#[verifier::external_body] pub fn x_bx<T>(t: T) -> (r: Bx<T>) ensures r == bx(t) { unimplemented!() }
#[verifier::external_body] pub fn x_snil() -> (r: S) ensures r == snil() { unimplemented!() }
#[verifier::external_body] pub fn x_chs(c: char) -> (r: S) ensures r == chs(c) { unimplemented!() }
#[verifier::external_body] pub fn x_cat<T>(a: L<T>, b: L<T>) -> (r: L<T>) ensures r == cat(a, b) { unimplemented!() }
#[verifier::external_body] pub fn x_as_u32(n: usize) -> (r: u32) ensures r == s_as_u32(n) { unimplemented!() }
// unwrap may only be reached with a value (otherwise it panics)
#[verifier::external_body] pub fn x_unwrap<T>(o: Option<T>) -> (r: T) requires o is Some ensures o == Some(r) { unimplemented!() }
#[verifier::external_body] pub fn x_unwrap_r<T, E>(o: Result<T, E>) -> (r: T) requires o is Ok ensures o == Ok::<T, E>(r) { unimplemented!() }
// TRUSTED: u8::from_str_radix, str::parse::<i64>
#[verifier::external_body] pub fn x_u8_radix(s: S, radix: u32) -> (r: Result<u8, PErr>) requires 2 <= radix <= 36 ensures r == s_u8_radix(s, radix) { unimplemented!() }
#[verifier::external_body] pub fn x_parse_i64(s: S) -> (r: Result<i64, PErr>) ensures r == s_parse_i64(s) { unimplemented!() }
