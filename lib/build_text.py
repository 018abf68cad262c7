"""assemble the verified text"""
import os, re
import grammar, emit_ref, emit_lem, lower, rx
HERE = os.path.dirname(os.path.abspath(__file__))
V = os.path.join(os.path.dirname(HERE), 'verus')

def signatures(dump):
    """functions of the crate whose parameters or result are not those of the contract: they cannot carry it"""
    L = lower.Lower(dump, {}, rx.Classes())
    bad = {}
    for p, F in grammar.FUNS.items():
        b = L.bodies.get(L.crate + '::' + p)
        if b is None:
            bad[p] = 'no function of this name'
            continue
        try:
            got = [L.tname(q['ty']) for q in b['params']], L.tname(b['ret'])
        except lower.Unsupported as e:
            bad[p] = str(e)
            continue
        want = ['S'] + [emit_ref.ty(t) for _, t in F.params], 'Result<(S, %s), NErr>' % emit_ref.ty(F.ret)
        if got != want: bad[p] = 'signature changed: %s' % (got,)
    return bad

def build(dump, out, inplace=(), exclude=None, only=None, theorems=None, lemmas=()):
    """write the verified text; functions in `exclude` (name -> reason) keep their contract as an assumption;
    with `only`, the others are left out (they have been proved before) and these are helped by the list algebra;
    theorems: the property whose theorems over the reference are proved too ('all', or None for none of them); lemmas: these too"""
    classes = rx.Classes()
    unsupported = dict(exclude or {})
    nosig = signatures(dump)
    con = {p: emit_ref.names(p) for p in grammar.FUNS if p not in nosig}     # the others are inlined by their callers
    unsupported.update(nosig)
    L = lower.Lower(dump, con, classes)
    em = emit_ref.Emit(classes)
    ref = em.all()
    adts = L.emit_adts()
    fns, pairs, helpers = {}, {}, {}
    for p, F in grammar.FUNS.items():
        if p in unsupported or only is not None and p not in only: continue
        try:
            fns[p] = L.function(p, p in inplace)
            if p not in inplace:
                pr = pair_loops(p, fns[p], em)
                if pr:
                    try:
                        fns[p] = L.function(p, False, hooks(pr, p, fns[p]))
                        pairs[p] = pr
                    except lower.NoPair: pass

            helpers[p] = L.helpers
            want = ['S'] + [emit_ref.ty(t) for _, t in F.params]
            if [t for _, t in fns[p][0]] != want or fns[p][1] != 'Result<(S, %s), NErr>' % emit_ref.ty(F.ret):
                t = (fns[p][0], fns[p][1])
                del fns[p]
                raise lower.Unsupported('signature changed: %s' % (t,))
        except lower.Unsupported as e:
            unsupported[p] = str(e)
        except Exception as e:                  # a shape of code the lowering does not know
            unsupported[p] = 'lowering: %s: %s' % (type(e).__name__, e)
        if p in unsupported:
            fns.pop(p, None)
            pairs.pop(p, None)
    o = [open(V + '/prelude.rs').read(), open(V + '/lists.rs').read(), classes_text(classes), adts, open(V + '/actions.rs').read(), ref, open(V + '/exec.rs').read()]
    if only is None: o.append(emit_lem.part(em, theorems) if theorems else '')
    else:
        h = emit_lem.helpers(em)
        o.append(h)
        if lemmas:
            have = {n for n, _ in emit_lem.items(h)}
            o.append('\n'.join(t for n, t in emit_lem.items(emit_lem.part(em, None, lemmas)) if n not in have))
    texts = []
    for p, F in grammar.FUNS.items():
        texts.append((p, '\n'.join(helpers.get(p, []) + ['']) * (p in fns) + exec_fn(p, F, fns.get(p), em, pairs.get(p), only is not None)))
    spans = {}
    text = '\n'.join(o)
    for p, t in texts:
        a = text.count('\n') + 2
        text += '\n' + t
        spans[p] = (a, text.count('\n') + 1)
    text += '\n' + CANARY + '\n} // verus!\nfn main() {}\n'
    open(out, 'w').write(text)
    return spans, unsupported, fns

# both must fail: a proof of false from the lemmas and the assumed contracts would make every other proof worthless
CANARY = '''proof fn vacuity_canary_ghost() { broadcast use {group_leaf, group_ext, group_fold, group_t, blen_many1, seplist_facts, ext_any, group_list}; assert(false); }
fn vacuity_canary_exec(i: S, k: Cls, s: &str, n: u32)
{
    broadcast use {group_leaf, group_ext, group_fold, group_t, blen_many1, seplist_facts, ext_any, group_list};
    let a = x_sl(s); let r = x_tag(i, a); let c = x_char(i, 'a'); let d = x_anychar(i); let e = x_run1(i, k); let f = x_run0(i, k);
    let g = x_name(i, k, k); let h = x_exact(i, k, 2); let j = x_esc(i, 'a', 'b', k); let l = x_take_until(i, a); let m = x_eof(i);
    let o = x_at_eof(i); let p = x_str_len(i); let q = x_vec_len(i); let t = x_u8_radix(i, 16); let u = x_parse_i64(i);
    let v = x_push(x_v1(i), a); let w = x_pop(v); let y = x_init(v); let z = x_rev_l(v); let b1 = x_cat(a, i); let b2 = x_as_u32(p);
    let b3 = x_last_o(v); let b4 = x_first_o(v); let b5 = x_skip_l(v, 1); let b6 = x_eq(a, i); let b7 = x_bx(a); let b8 = x_has_l(v, a);
    let e1 = f_expression_expression(i, n); let e2 = f_file(i); let e3 = f_type__type_annotation(i, n); let e4 = f_statement_statement(i);
    assert(false);
}
'''

def classes_text(c): return c.emit()

SP = {'many0': 'sp_many0', 'many1': 'sp_many1', 'seplist': 'sp_seplist', 'seplist1': 'sp_seplist1'}
KIND = {'many0': 'many0', 'many1': 'many1', 'separated_list': 'seplist', 'separated_nonempty_list': 'seplist1'}

def pair_loops(p, low, em):
    """loops of the code with loops of the reference, in order: hints for the proof only"""
    cl, rl = low[4], em.lifts[p]
    if len(cl) != len(rl) or not cl: return None
    out = []
    params = [n for n, _ in low[0]]
    for c, r in zip(cl, rl):
        if KIND[c['kind']] != r['kind'] or c['role'] != r['role'] or c['ret'] != 'Result<(S, %s), NErr>' % r['ret']: return None
        local = [(w, t) for w, t in zip(c['free'], c['types']) if w not in params]
        m = {}
        for w, t in zip(c['free'], c['types']):
            if w in params: m[w] = ('param', params.index(w))
        rc = list(r['caps'])
        if len(local) == 1 and len(rc) == 1 and local[0][1] == 'u32': m[local[0][0]] = ('cap', rc[0])
        elif not local and not rc: pass
        elif len(local) == 1 and not rc and local[0][1] == 'u32' and ('ind', 'u32') in grammar.FUNS[p].params:
            m[local[0][0]] = ('is', 'ind')
        else: return None
        out.append((c, r, m))
    return out

def hooks(pairs, p, low):
    """texts for the loop parsers of the code, once paired with those of the reference"""
    F = grammar.FUNS[p]
    own = dict(zip([n for n, _ in low[0]][1:], [n for n, _ in F.params]))
    def args(idx):
        c, r, m = pairs[idx]
        inv = {v[1]: w for w, v in m.items() if v[0] == 'cap'}
        return [inv.get(n, n) for n, _ in r['params']]
    def gargs(f):
        c, r, m = pairs[f['idx']]
        inv = {v[1]: w for w, v in m.items() if v[0] == 'cap'}
        gp = [n for n, _ in r['params']]
        if f['whole'] and r['kind'].startswith('sep'): gp += [n for n, _ in pairs[f['idx'] - 1][1]['params'] if n not in gp]
        return [inv.get(n, n) for n in gp]
    def f(x, what):
        if what == 'spec':
            c, r, m = pairs[x]
            return '|z: S| %s(%s)' % (r['name'], ', '.join(['z', 'i'] + args(x)))
        return '%s(%s)' % (x['name'], ', '.join([x['x']] + [w for w, _ in x['caps']] + ['Ghost(i)'] + ['Ghost(%s)' % a for a in gargs(x)]))
    return f

def exec_fn(p, F, low, em, outs_pairs=None, hard=False):
    ex, rf = emit_ref.names(p)
    nul = 'true' if F.nullable else 'false'
    attrs = '#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n'
    pre = ''
    pairs = outs_pairs
    if low:
        ps, ret, body, lits, lifted, outs = low
        names = [n for n, _ in ps]
        lr = reveal_lits(lits | em.lits[p] | (texts_in(em.dbody[p]) if hard else set()), hard)
        if not pairs:
            for c in lifted:
                pre += 'pub open spec fn %s(x: S%s) -> %s\n{ let v_%d = x; %s }\n' % (
                    c['name'], ''.join(', %s: %s' % q for q in zip(c['free'], c['types'])), c['ret'], c['var'], c['body'])
        else:
            own = dict(zip(names[1:], [n for n, _ in F.params]))
            for f in outs:
                c, r, m = pairs[f['idx']]
                gp = list(r['params'])
                two = f['whole'] and r['kind'].startswith('sep')
                if two:
                    gp += [q for q in pairs[f['idx'] - 1][1]['params'] if q not in gp]
                caps = [n for n, _ in gp if n not in own.values()]
                if f['whole'] and caps != r['caps']: return None
                req = ['blen(%s) %s blen(i)' % (f['x'], '<' if r['lt'] else '<=')]
                for w, t in f['caps']:
                    if w in own: req.append('%s == %s' % (w, own[w]))
                    elif w in m and m[w][0] in ('cap', 'is'): req.append('%s == %s' % (w, m[w][1]))
                    elif len(caps) == 1 and t == 'u32': req.append('%s == %s' % (w, caps[0]))
                if f['whole']:
                    cl = lambda r: '|z: S| %s(%s)' % (r['name'], ', '.join(['z', 'i'] + [n for n, _ in r['params']]))
                    val = '%s(%s%s, %s)' % (SP[r['kind']], cl(pairs[f['idx'] - 1][1]) + ', ' if two else '', cl(r), f['x'])
                    nl = r['kind'] in ('many0', 'seplist') or emit_ref.nullable(r['q'])
                else:
                    val = '%s(%s)' % (r['name'], ', '.join([f['x'], 'i'] + [n for n, _ in r['params']]))
                    nl = emit_ref.nullable(r['q'])
                pre += attrs + 'fn %s(%s: S%s, Ghost(i): Ghost<S>%s) -> (r: %s)\n  requires %s,\n  ensures\n    r == %s, // F\n    total(%s, r, %s), // T\n' % (
                    f['name'], f['x'], ''.join(', %s: %s' % q for q in f['caps']), ''.join(', Ghost(%s): Ghost<%s>' % q for q in gp), f['ret'],
                    ', '.join(req), val, f['x'], 'true' if nl else 'false')
                if emit_ref.REC[p]: pre += '  decreases blen(%s), %dnat\n' % (f['x'], (1000 if r['lt'] else 3 * emit_ref.RANK[p]) + f['whole'])
                bc = broadcasts(f['body'], em.lifts[p], val + ('' if f['whole'] else r['body'])) + (['group_list', 'group_fst_leaf', 'fst_tags'] + firsts_in(f['body'] + val + r['body']) if hard else [])
                pre += '{\n' + ('  broadcast use {%s};\n' % ', '.join(bc) if bc else '') + '  proof { %s\n%s  }\n%s\n}\n' % (
                    '' if f['whole'] else 'reveal(%s);' % r['name'], lr, f['body'])
    else:
        names = ['i'] + [n for n, _ in F.params]
        ps = list(zip(names, ['S'] + [emit_ref.ty(t) for _, t in F.params]))
        ret = 'R<%s>' % emit_ref.ty(F.ret)
    o = '' if low else '#[verifier::external_body]\n'
    if low: o += attrs
    o += 'pub fn %s(%s) -> (r: %s)\n' % (ex, ', '.join('%s: %s' % q for q in ps), ret)
    o += '  ensures\n    r == %s(%s), // F\n    total(%s, r, %s), // T\n' % (rf, ', '.join(names), names[0], nul)
    if emit_ref.REC[p]: o += '  decreases blen(%s), %dnat\n' % (names[0], 3 * emit_ref.RANK[p] + 2)
    if not low: return o + '{ unimplemented!() }\n'
    o += '{\n'
    bc = broadcasts(body, em.lifts[p], em.dbody[p])
    if not pairs and '_from(' in body: bc += ['group_ext', 'blen_many1']
    if hard: bc += ['group_list', 'group_fst_leaf', 'fst_tags'] + firsts_in(body + em.dbody[p])
    if bc: o += '  broadcast use {%s};\n' % ', '.join(bc)
    if pairs:
        for a, b in zip(names, ['i'] + [n for n, _ in F.params]): o += '  let ghost %s = %s;\n' % (b, a)
    o += '  proof { u_%s(%s); reveal(def_%s);\n' % (rf, ', '.join(names), rf)
    if not pairs: o += ''.join('reveal(%s);' % l['name'] for l in em.lifts[p])
    o += lr + '  }\n'
    return pre + o + body + '\n}\n'

def texts_in(t):
    esc = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0'}
    o = set()
    for m in re.findall(r'\bsl\("((?:[^"\\]|\\.)*)"\)', t):
        if '\\u' not in m: o.add(re.sub(r'\\(.)', lambda x: esc.get(x.group(1), x.group(1)), m))
    return o

def reveal_lits(ls, hard=False):
    o = ''.join('    assert(sl(%s)@.len() == %d) by { reveal_strlit(%s); };\n' % (lower.rs_str(l), len(l), lower.rs_str(l)) for l in sorted(ls))
    if not hard: return o
    o += ''.join('    reveal_strlit(%s);\n' % lower.rs_str(l) for l in sorted(ls))
    for l in sorted(ls):
        q = lower.rs_str(l)
        if not l: o += '    assert(sl(%s) == snil()) by { reveal_strlit(%s); assert(sl(%s)@ =~= snil()@); };\n' % (q, q, q)
        if 2 <= len(l) <= 4:
            x = ['v1(%s)' % lower.rs_char(c) for c in l]
            x = ', '.join('cat(' + y for y in x[:-1]) + ', ' + x[-1] + ')' * (len(x) - 1)
            o += '    assert(sl(%s) == %s) by { reveal_strlit(%s); assert(sl(%s)@ =~= %s@); };\n' % (q, x, q, q, x)
        if len(l) == 1: o += '    assert(sl(%s) == v1(%s)) by { reveal_strlit(%s); assert(sl(%s)@ =~= v1(%s)@); };\n' % (q, lower.rs_char(l), q, q, lower.rs_char(l))
    for a in sorted(ls):
        for b in sorted(ls):
            k = len(os.path.commonprefix([a, b]))
            if a < b and k < len(a): o += '    assert(sl(%s)@[%d] != sl(%s)@[%d]);\n' % (lower.rs_str(a), k, lower.rs_str(b), k)
            if a and b and a + b in ls:
                x, y, z = map(lower.rs_str, (a, b, a + b))
                o += '    assert(sl(%s) == cat(sl(%s), sl(%s))) by { %s assert(sl(%s)@ =~= cat(sl(%s), sl(%s))@); };\n' % (
                    z, x, y, ' '.join('reveal_strlit(%s);' % q for q in (x, y, z)), z, x, y)
    return o

FIRSTS = set(emit_lem.eligible())
def firsts_in(t): return ['fst_' + x for x in sorted(set(re.findall(r'\b(?:f|ref)_(\w+)\(', t))) if x in FIRSTS]

LEAF = ['tag', 'char', 'anychar', 'run0', 'run1', 'name', 'exact', 'esc', 'take_until', 'eof']
def broadcasts(body, lifts, rbody):
    o = []
    both = body + rbody
    for l in LEAF:
        if re.search(r'\b[xs]_%s\(' % l, both): o.append('t_' + l)
    for p in grammar.FUNS:
        ex, rf = emit_ref.names(p)
        if re.search(r'\b(%s|%s)\(' % (ex, rf), both): o.append('t_' + rf)
    for l in lifts:
        if re.search(r'\b%s\(' % l['name'], both): o.append('t' + l['name'])
    if 'sp_many1(' in both: o.append('blen_many1')
    if 'sp_seplist(' in both: o.append('seplist_facts')
    if 'fold_to' in body or 'fold_l' in body or re.search(r'\bw_\w+_\d+\(', body): o.append('group_fold')
    if 'any_l' in body: o.append('ext_any')
    return o

if __name__ == '__main__':
    import sys, json
    r = build(json.load(open(sys.argv[1])), sys.argv[2])
    print(r[1])
