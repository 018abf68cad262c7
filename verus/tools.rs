// ------------------------------------------------------------------ the two tools: value model and assumed contracts
// The file system and the arguments do not change while a tool runs: what it sees of them are fixed functions.
#[derive(Clone, Copy)] pub struct WErr;
#[derive(Clone, Copy)] pub struct IoErr;
#[derive(Clone, Copy)] pub struct Meta { pub path: S }
#[derive(Clone, Copy)] pub struct File { pub path: S, pub fresh: bool }
#[derive(Clone, Copy)] pub struct Matches;
// used by no tool: declared for the contracts of exec.rs
pub uninterp spec fn s_u8_radix(s: S, radix: u32) -> Result<u8, PErr>;
pub uninterp spec fn s_parse_i64(s: S) -> Result<i64, PErr>;
pub uninterp spec fn argv() -> L<S>;                       // the arguments of the process, its name first
pub uninterp spec fn arg_path() -> Option<S>;              // elm-parser-dump: the positional argument
pub uninterp spec fn arg_quiet() -> bool;                  // elm-parser-dump: -q or --quiet given
pub uninterp spec fn fs_text(p: S) -> Option<S>;           // contents of a readable UTF-8 file
pub uninterp spec fn fs_dir(p: S) -> bool;                 // the path leads to a directory
pub uninterp spec fn p_ext(p: S) -> Option<S>;             // extension of the last part of a path
pub uninterp spec fn p_utf8(p: S) -> bool;
// l lists the path and everything below it, at any depth, each once
pub uninterp spec fn listing(l: L<Result<S, WErr>>, p: S) -> bool;
pub uninterp spec fn ref_file(i: S) -> R<L<Statement>>;    // what ast::file returns (the other verified text)
// what is written to standard output, in order
pub enum Piece { Ch(char), Shown }
// what {:?} and {:#?} make of a path or text, of a list of statements, of a list of names
pub uninterp spec fn dbg_text(s: S) -> S;
pub uninterp spec fn dbg_tree(l: L<Statement>) -> S;
pub uninterp spec fn dbg_names(l: L<S>) -> S;
pub uninterp spec fn dbg_error(e: NErr) -> S;              // the model does not tell errors apart, nor their texts
#[verifier::opaque] pub open spec fn shown(o: Seq<Piece>, s: S) -> Seq<Piece> { o + Seq::new(s@.len(), |k: int| Piece::Ch(s@[k])) }
pub broadcast proof fn shown_cat(o: Seq<Piece>, a: S, b: S) ensures #[trigger] shown(o, cat(a, b)) == shown(shown(o, a), b)
{ reveal(shown); assert(shown(o, cat(a, b)) =~= shown(shown(o, a), b)); }
pub broadcast proof fn shown_v1(o: Seq<Piece>, c: char) ensures #[trigger] shown(o, v1(c)) == o.push(Piece::Ch(c))
{ reveal(shown); assert(shown(o, v1(c)) =~= o.push(Piece::Ch(c))); }
pub broadcast proof fn shown_nil(o: Seq<Piece>) ensures #[trigger] shown(o, snil()) == o
{ reveal(shown); assert(shown(o, snil()) =~= o); }
pub broadcast proof fn shown_push(o: Seq<Piece>, a: S, c: char) ensures #[trigger] shown(o, push(a, c)) == shown(o, a).push(Piece::Ch(c))
{ reveal(shown); assert(shown(o, push(a, c)) =~= shown(o, a).push(Piece::Ch(c))); }
pub struct World { pub out: Ghost<Seq<Piece>> }

#[verifier::external_body] pub fn f_file(i: S) -> (r: R<L<Statement>>) ensures r == ref_file(i) { unimplemented!() }
// TRUSTED: println! and print!: the pieces of the format string and the arguments in order ({:?}, {:#?} by the type of the argument)
#[verifier::external_body] pub fn x_ch(c: char, w: &mut World) ensures final(w).out@ == old(w).out@.push(Piece::Ch(c)) { unimplemented!() }
#[verifier::external_body] pub fn x_show(s: S, w: &mut World) ensures final(w).out@ == shown(old(w).out@, s) { unimplemented!() }
#[verifier::external_body] pub fn x_dbg_text(s: S) -> (r: S) ensures r == dbg_text(s) { unimplemented!() }
#[verifier::external_body] pub fn x_dbg_tree(l: L<Statement>) -> (r: S) ensures r == dbg_tree(l) { unimplemented!() }
#[verifier::external_body] pub fn x_dbg_error(e: NErr) -> (r: S) ensures r == dbg_error(e) { unimplemented!() }
#[verifier::external_body] pub fn x_dbg_names(l: L<S>) -> (r: S) ensures r == dbg_names(l) { unimplemented!() }
#[verifier::external_body] pub fn x_out(p: Piece, w: &mut World) ensures final(w).out@ == old(w).out@.push(p) { unimplemented!() }
// TRUSTED: std::env::args, clap (the arguments declared in main, checked by the lowering)
#[verifier::external_body] pub fn x_args() -> (r: L<S>) ensures r == argv(), argv()@.len() >= 1 { unimplemented!() }
#[verifier::external_body] pub fn x_value_of_path(m: Matches) -> (r: Option<S>) ensures r == arg_path() { unimplemented!() }
#[verifier::external_body] pub fn x_quiet(m: Matches) -> (r: bool) ensures r == arg_quiet() { unimplemented!() }
#[verifier::external_body] pub fn x_exit(w: &mut World) ensures false { unimplemented!() }
// TRUSTED: std::fs::File::open, Read::read_to_string, std::fs::{read_to_string, metadata}, Path
#[verifier::external_body] pub fn x_open(p: S) -> (r: Result<File, IoErr>) ensures fs_text(p) is Some ==> r == Ok::<File, IoErr>(File { path: p, fresh: true }) { unimplemented!() }
#[verifier::external_body] pub fn x_read(f: File, s: S) -> (r: (Result<usize, IoErr>, S))
    ensures f.fresh && fs_text(f.path) is Some ==> r.0 is Ok && r.1 == cat(s, fs_text(f.path)->0) { unimplemented!() }
#[verifier::external_body] pub fn x_read_file(p: S) -> (r: Result<S, IoErr>) ensures fs_text(p) is Some ==> r == Ok::<S, IoErr>(fs_text(p)->0) { unimplemented!() }
#[verifier::external_body] pub fn x_metadata(p: S) -> (r: Result<Meta, IoErr>) ensures fs_text(p) is Some || fs_dir(p) ==> r == Ok::<Meta, IoErr>(Meta { path: p }) { unimplemented!() }
#[verifier::external_body] pub fn x_is_dir(p: S) -> (r: bool) ensures r == fs_dir(p) { unimplemented!() }
#[verifier::external_body] pub fn x_is_file(p: S) -> (r: bool) ensures fs_text(p) is Some || fs_dir(p) ==> r == !fs_dir(p) { unimplemented!() }
#[verifier::external_body] pub fn x_exists(p: S) -> (r: bool) ensures fs_text(p) is Some || fs_dir(p) ==> r { unimplemented!() }
#[verifier::external_body] pub fn x_ext(p: S) -> (r: Option<S>) ensures r == p_ext(p) { unimplemented!() }
#[verifier::external_body] pub fn x_to_str(p: S) -> (r: Option<S>) ensures p_utf8(p) || p == sl("elm") ==> r == Some(p), r is Some ==> r == Some(p) { unimplemented!() }
#[verifier::external_body] pub fn x_lossy(p: S) -> (r: S) ensures p_utf8(p) || p == sl("elm") ==> r == p { unimplemented!() }
// TRUSTED: walkdir::WalkDir (links below the start are not followed)
#[verifier::external_body] pub fn x_walk(p: S) -> (r: L<Result<S, WErr>>) ensures listing(r, p) { unimplemented!() }
#[verifier::external_body] pub fn x_walk_order(l: L<Result<S, WErr>>) -> (r: L<Result<S, WErr>>) ensures forall|p: S| #![auto] listing(l, p) ==> listing(r, p) { unimplemented!() }
#[verifier::external_body] pub fn x_walk_some(l: L<Result<S, WErr>>) -> (r: L<Result<S, WErr>>) { unimplemented!() }
// TRUSTED: Iterator::flat_map and collect, Vec::extend
#[verifier::external_body] pub fn x_flat_l<A, B>(l: L<A>, f: Ghost<spec_fn(A) -> L<B>>) -> (r: L<B>) ensures r == flat_l(l, f@) { unimplemented!() }
#[verifier::external_body] pub fn x_get<T>(l: L<T>, k: usize) -> (r: Option<T>) ensures r == (if k < l@.len() { Some(l@[k as int]) } else { None }) { unimplemented!() }

// ------------------------------------------------------------------ what the properties say
// C22: the names in the explicit lists, in source order
// TRUSTED: syntax trees are finite
pub uninterp spec fn depth(e: ExportSet) -> nat;
pub axiom fn depth_ax(e: ExportSet, k: int)
    ensures match e { ExportSet::SubsetExport(l) => 0 <= k < l@.len() ==> depth(l@[k]) < depth(e), _ => true };
pub open spec fn exp_names(e: ExportSet) -> Seq<S> decreases depth(e), 1nat, 0nat {
    match e { ExportSet::SubsetExport(l) => exp_upto(e, l@, l@.len()), ExportSet::FunctionExport(n) => Seq::empty().push(n), _ => Seq::empty() }
}
// the names in the first k of a list of parts of e
pub open spec fn exp_upto(e: ExportSet, s: Seq<ExportSet>, k: nat) -> Seq<S> decreases depth(e), 0nat, k via exp_upto_dec {
    if k == 0 || k > s.len() || depth(s[k - 1]) >= depth(e) { Seq::empty() } else { exp_upto(e, s, (k - 1) as nat) + exp_names(s[k - 1]) }
}
#[via_fn] proof fn exp_upto_dec(e: ExportSet, s: Seq<ExportSet>, k: nat) {}
pub open spec fn exps_upto(s: Seq<ExportSet>, k: nat) -> Seq<S> decreases k {
    if k == 0 || k > s.len() { Seq::empty() } else { exps_upto(s, (k - 1) as nat) + exp_names(s[k - 1]) }
}
pub open spec fn stmt_names(t: Statement) -> Seq<S> {
    match t { Statement::ImportStatement(_, _, Some(e)) => exp_names(e), _ => Seq::empty() }
}
pub open spec fn stmts_upto(s: Seq<Statement>, k: nat) -> Seq<S> decreases k {
    if k == 0 || k > s.len() { Seq::empty() } else { stmts_upto(s, (k - 1) as nat) + stmt_names(s[k - 1]) }
}
pub open spec fn ref_exp(e: ExportSet) -> L<S> { mk(exp_names(e)) }
pub open spec fn ref_names(l: L<Statement>) -> L<S> { mk(stmts_upto(l@, l@.len())) }
pub open spec fn check_out(p: S, o: Seq<Piece>) -> Seq<Piece> {
    match ref_file(fs_text(p)->0) {
        Ok((_, t)) => shown(o, dbg_names(ref_names(t))).push(Piece::Ch('\n')),
        Err(e) => shown(o, dbg_error(e)).push(Piece::Ch('\n')),
    }
}
// C23
pub open spec fn dump_one(p: S, quiet: bool, o: Seq<Piece>) -> Seq<Piece> {
    match ref_file(fs_text(p)->0) {
        Ok((_, t)) => if quiet { shown(o, dbg_text(p)).push(Piece::Ch(' ')).push(Piece::Ch('p')).push(Piece::Ch('a')).push(Piece::Ch('r')).push(Piece::Ch('s')).push(Piece::Ch('e')).push(Piece::Ch('d')).push(Piece::Ch(' ')).push(Piece::Ch('s')).push(Piece::Ch('u')).push(Piece::Ch('c')).push(Piece::Ch('c')).push(Piece::Ch('e')).push(Piece::Ch('s')).push(Piece::Ch('s')).push(Piece::Ch('f')).push(Piece::Ch('u')).push(Piece::Ch('l')).push(Piece::Ch('l')).push(Piece::Ch('y')).push(Piece::Ch('\n')) } else { shown(o, dbg_tree(t)).push(Piece::Ch('\n')) },
        Err(e) => if quiet { shown(o, dbg_text(p)).push(Piece::Ch(' ')).push(Piece::Ch('f')).push(Piece::Ch('a')).push(Piece::Ch('i')).push(Piece::Ch('l')).push(Piece::Ch('e')).push(Piece::Ch('d')).push(Piece::Ch(' ')).push(Piece::Ch('t')).push(Piece::Ch('o')).push(Piece::Ch(' ')).push(Piece::Ch('p')).push(Piece::Ch('a')).push(Piece::Ch('r')).push(Piece::Ch('s')).push(Piece::Ch('e')).push(Piece::Ch('\n')) } else { shown(o, dbg_error(e)).push(Piece::Ch('\n')) },
    }
}
pub open spec fn elm_file(p: S) -> bool { !fs_dir(p) && p_ext(p) == Some(sl("elm")) }
pub open spec fn walk_upto(s: Seq<Result<S, WErr>>, k: nat, quiet: bool, o: Seq<Piece>) -> Seq<Piece> decreases k {
    if k == 0 || k > s.len() { o } else {
        let b = walk_upto(s, (k - 1) as nat, quiet, o);
        match s[k - 1] { Ok(p) => if elm_file(p) { dump_one(p, quiet, b) } else { b }, Err(_) => b }
    }
}
// every directory below p can be listed, every file read, every path printed
pub open spec fn readable_below(p: S) -> bool {
    forall|l: L<Result<S, WErr>>, k: int| listing(l, p) && 0 <= k < l@.len() ==>
        match #[trigger] l@[k] { Ok(q) => p_utf8(q) && (fs_dir(q) || fs_text(q) is Some), Err(_) => false }
}
pub open spec fn walked(p: S, quiet: bool, o: Seq<Piece>, n: Seq<Piece>) -> bool {
    exists|l: L<Result<S, WErr>>| #[trigger] listing(l, p) && n == walk_upto(l@, l@.len(), quiet, o)
}
pub open spec fn dumped(o: Seq<Piece>, n: Seq<Piece>) -> bool {
    match arg_path() {
        None => n == o,
        Some(p) => if fs_dir(p) { walked(p, arg_quiet(), o, n) } else { n == dump_one(p, arg_quiet(), o) },
    }
}
pub open spec fn dump_pre() -> bool {
    arg_path() matches Some(p) ==> if fs_dir(p) { readable_below(p) } else { fs_text(p) is Some }
}
pub open spec fn check_pre() -> bool { argv()@.len() >= 1 && (argv()@.len() >= 2 ==> fs_text(argv()@[1]) is Some) }
pub open spec fn checked(o: Seq<Piece>, n: Seq<Piece>) -> bool { argv()@.len() >= 2 ==> n == check_out(argv()@[1], o) }

// ------------------------------------------------------------------ lists
pub open spec fn flat_upto<A, B>(l: L<A>, f: spec_fn(A) -> L<B>, k: nat) -> Seq<B> decreases k {
    if k == 0 || k > l@.len() { Seq::empty() } else { flat_upto(l, f, (k - 1) as nat) + f(l@[k - 1])@ }
}
pub open spec fn flat_l<A, B>(l: L<A>, f: spec_fn(A) -> L<B>) -> L<B> { mk(flat_upto(l, f, l@.len())) }
pub open spec fn opt_l<T>(o: Option<T>) -> L<T> { match o { Some(t) => v1(t), None => vnil() } }
pub open spec fn res_l<T, E>(o: Result<T, E>) -> L<T> { match o { Ok(t) => v1(t), Err(_) => vnil() } }
proof fn flat_exp(l: L<ExportSet>, f: spec_fn(ExportSet) -> L<S>, k: nat)
    requires k <= l@.len(), forall|j: int| 0 <= j < l@.len() ==> f(#[trigger] l@[j])@ == exp_names(l@[j]),
    ensures flat_upto(l, f, k) == exps_upto(l@, k),
    decreases k,
{ if k > 0 { flat_exp(l, f, (k - 1) as nat); assert(f(l@[k - 1])@ == exp_names(l@[k - 1])); } }
proof fn flat_stmt(l: L<Statement>, f: spec_fn(Statement) -> L<S>, k: nat)
    requires k <= l@.len(), forall|j: int| 0 <= j < l@.len() ==> f(#[trigger] l@[j])@ == stmt_names(l@[j]),
    ensures flat_upto(l, f, k) == stmts_upto(l@, k),
    decreases k,
{ if k > 0 { flat_stmt(l, f, (k - 1) as nat); assert(f(l@[k - 1])@ == stmt_names(l@[k - 1])); } }
pub broadcast proof fn b_flat_exp(l: L<ExportSet>, f: spec_fn(ExportSet) -> L<S>)
    ensures (forall|j: int| 0 <= j < l@.len() ==> f(#[trigger] l@[j])@ == exp_names(l@[j])) ==> (#[trigger] flat_l(l, f))@ == exps_upto(l@, l@.len()),
{ if forall|j: int| 0 <= j < l@.len() ==> f(#[trigger] l@[j])@ == exp_names(l@[j]) { flat_exp(l, f, l@.len()); } }
pub broadcast proof fn b_flat_stmt(l: L<Statement>, f: spec_fn(Statement) -> L<S>)
    ensures (forall|j: int| 0 <= j < l@.len() ==> f(#[trigger] l@[j])@ == stmt_names(l@[j])) ==> (#[trigger] flat_l(l, f))@ == stmts_upto(l@, l@.len()),
{ if forall|j: int| 0 <= j < l@.len() ==> f(#[trigger] l@[j])@ == stmt_names(l@[j]) { flat_stmt(l, f, l@.len()); } }
proof fn exp_upto_eq(e: ExportSet, k: nat)
    ensures match e { ExportSet::SubsetExport(l) => k <= l@.len() ==> exp_upto(e, l@, k) == exps_upto(l@, k), _ => true },
    decreases k,
{ if k > 0 { exp_upto_eq(e, (k - 1) as nat); depth_ax(e, k - 1); } }
pub broadcast proof fn b_exp(e: ExportSet)
    ensures #[trigger] exp_names(e) == (match e { ExportSet::SubsetExport(l) => exps_upto(l@, l@.len()), ExportSet::FunctionExport(n) => Seq::empty().push(n), _ => Seq::empty() }),
{ if let ExportSet::SubsetExport(l) = e { exp_upto_eq(e, l@.len()); } }
proof fn flat_cat<A, B, C>(l: L<A>, f: spec_fn(A) -> L<B>, g: spec_fn(B) -> L<C>, h: spec_fn(A) -> L<C>, k: nat)
    requires k <= l@.len(), h == (|x: A| flat_l(f(x), g)),
    ensures flat_upto(mk(flat_upto(l, f, k)), g, flat_upto(l, f, k).len()) == flat_upto(l, h, k),
    decreases k,
{
    if k > 0 {
        flat_cat(l, f, g, h, (k - 1) as nat);
        let a = flat_upto(l, f, (k - 1) as nat);
        let b = f(l@[k - 1])@;
        flat_app(a, b, g, b.len());
        assert(mk(b) == f(l@[k - 1]));
    }
}
proof fn flat_pre<A, B>(a: L<A>, b: L<A>, f: spec_fn(A) -> L<B>, k: nat)
    requires k <= a@.len(), k <= b@.len(), forall|j: int| 0 <= j < k ==> a@[j] == b@[j],
    ensures flat_upto(a, f, k) == flat_upto(b, f, k),
    decreases k,
{ if k > 0 { flat_pre(a, b, f, (k - 1) as nat); } }
proof fn flat_app<A, B>(a: Seq<A>, b: Seq<A>, f: spec_fn(A) -> L<B>, k: nat)
    requires k <= b.len(),
    ensures flat_upto(mk(a + b), f, a.len() + k) == flat_upto(mk(a), f, a.len()) + flat_upto(mk(b), f, k),
    decreases k,
{
    if k == 0 { flat_pre(mk(a + b), mk(a), f, a.len()); assert(flat_upto(mk(a), f, a.len()) + Seq::empty() =~= flat_upto(mk(a), f, a.len())); }
    else {
        flat_app(a, b, f, (k - 1) as nat);
        assert((a + b)[a.len() + k - 1] == b[k - 1]);
        assert(flat_upto(mk(a + b), f, a.len() + k) =~= flat_upto(mk(a), f, a.len()) + flat_upto(mk(b), f, k));
    }
}
// one pass over the parts of the parts
pub broadcast proof fn b_flat_flat<A, B, C>(l: L<A>, f: spec_fn(A) -> L<B>, g: spec_fn(B) -> L<C>)
    ensures #[trigger] flat_l(flat_l(l, f), g) == flat_l(l, |x: A| flat_l(f(x), g)),
{ flat_cat(l, f, g, |x: A| flat_l(f(x), g), l@.len()); }
pub broadcast proof fn b_flat_v1<A, B>(t: A, f: spec_fn(A) -> L<B>)
    ensures #[trigger] flat_l(v1(t), f) == f(t),
{
    reveal_with_fuel(flat_upto, 2);
    assert(flat_upto(v1(t), f, 1) =~= f(t)@);
    assert(mk(f(t)@) == f(t));
}
pub broadcast proof fn b_flat_nil<A, B>(f: spec_fn(A) -> L<B>)
    ensures #[trigger] flat_l(vnil::<A>(), f) == vnil::<B>(),
{}
pub broadcast group group_tools { shown_cat, shown_v1, shown_nil, shown_push, b_flat_exp, b_flat_stmt, b_exp, b_flat_flat, b_flat_v1, b_flat_nil }
