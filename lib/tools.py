"""C22 and C23: the two tools. Their functions are verified against contracts; the tools themselves are run on made-up files."""
import json, os, random, re, shutil, threading, time
from concurrent.futures import ThreadPoolExecutor
import lower, lower_tools, pipe, rx
from pipe import log
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
CRATE = {'C22': 'elm_parser_check', 'C23': 'elm_parser_dump'}
BIN = {'C22': 'elm-parser-check', 'C23': 'elm-parser-dump'}

# ------------------------------------------------------------------------------------------- the proof
CANARY = '''proof fn vacuity_canary_ghost() { broadcast use group_tools; assert(false); }
fn vacuity_canary_exec(p: S, q: bool, m: Matches, c: char, w: &mut World)
    requires dump_pre(), check_pre(), readable_below(p), fs_text(p) is Some
{
    broadcast use group_tools;
    x_ch(c, w); x_out(Piece::Shown, w);  x_show(x_dbg_text(p), w); let a = x_args(); let v = x_dbg_names(a); let b = x_value_of_path(m); let d = x_quiet(m);
    let e = x_open(p); let s = x_read_file(p); let f = x_metadata(p); let g = x_is_dir(p); let h = x_is_file(p); let i = x_exists(p);
    let j = x_ext(p); let k = x_to_str(p); let l = x_lossy(p); let n = x_walk(p); let o = x_walk_order(n); let u = x_get(a, 1); let r = f_file(p); if let Err(e) = r { let x = x_dbg_error(e); }
    assert(false);
}
'''
def lit_facts(lits):
    """what writing a literal text means, character by character"""
    o = ''
    for k, l in enumerate(sorted(lits)):
        q = lower.rs_str(l)
        chain = 'o' + ''.join('.push(Piece::Ch(%s))' % lower.rs_char(c) for c in l)
        o += 'pub broadcast proof fn lit_%d(o: Seq<Piece>) ensures #[trigger] shown(o, sl(%s)) == %s { reveal(shown); reveal_strlit(%s); assert(shown(o, sl(%s)) =~= %s); }\n' % (k, q, chain, q, q, chain)
    return o + 'pub broadcast group group_lits { shown_nil, %s }' % ', '.join('lit_%d' % k for k in range(len(lits)))
def build(pid, d, out, exclude):
    """write the verified text: (spans, unsupported)"""
    con = lower_tools.CONTRACTS[pid]
    L = lower_tools.ToolLower(d, {'ast::file': ('f_file', 'ref_file')}, rx.Classes())
    unsup, sigs = dict(exclude), {}
    for path, tys, ex, rf, text, world in con:
        b = L.bodies.get(L.crate + '::' + path)
        if not b: unsup[path] = 'no function of this name'; continue
        try: got = [L.tname(p['ty']) for p in b['params']]
        except Exception as e: unsup[path] = str(e); continue
        if got != [t.split(':')[-1] for t in tys]: unsup[path] = 'signature changed: %s' % got; continue
        if not world and L.tname(b['ret']) != 'L<S>': unsup[path] = 'signature changed'; continue
        sigs[path] = b
    L.contracts.update({p: (ex, rf) for p, _, ex, rf, _, wd in con if p in sigs and not wd})
    L.eff = {p: ex for p, _, ex, rf, _, wd in con if p in sigs and wd}
    lit = rx.Classes()
    text = open(VERIF + '/verus/prelude.rs').read() + '\n' + lit.emit().replace('match k {\n} }', 'false }') + '\n' + L.emit_adts() + '\n' + open(VERIF + '/verus/exec.rs').read() + '\n' + open(VERIF + '/verus/tools.rs').read()
    spans = {}
    lits = set()
    for path, tys, ex, rf, ctext, world in con:
        if path not in sigs: continue
        b = sigs[path]
        names = ['a%d' % k for k in range(len(b['params']))]
        body = None
        if path not in unsup:
            try:
                goal = None
                L.helpers = []
                if path == 'main': goal = 'checked(old(w).out@, w.out@)' if pid == 'C22' else 'dumped(old(w).out@, w.out@)'
                ps, ret, body, _, _, _ = L.fn(path, goal)
                names = [n for n, _ in ps]
                lits |= L.lits
            except lower_tools.Unsupported as e: unsup[path] = str(e)
            except Exception as e: unsup[path] = 'lowering: %s: %s' % (type(e).__name__, e)
        ret = L.tname(b['ret'])
        params = ['%s: %s' % (n, t.split(':')[-1]) for n, t in zip(names, tys)] + (['w: &mut World'] if world else [])
        c = ctext.format(*names)
        if world and ret != '()': c = '(r: %s)%s' % (ret, c)
        if not world: c = c
        head = 'fn %s(%s)%s%s' % (ex, ', '.join(params), ' -> ' if c.startswith('(r') else '', c)
        if path in unsup: f = '#[verifier::external_body] %s { unimplemented!() }' % head
        else: f = '#[verifier::exec_allows_no_decreases_clause] %s\n{\nbroadcast use {group_tools, group_lits};\n%s\n}' % (head, body)
        if path not in unsup: f = '\n'.join(L.helpers + [f])
        a = text.count('\n') + 2
        text += '\n// ---- %s\n%s\n' % (path, f)
        spans[path] = (a, text.count('\n') + 1)
    text += '\n' + lit_facts(lits) + '\n' + CANARY + '\n} // verus!\nfn main() {}\n'
    open(out, 'w').write(text)
    return spans, unsup, {}

def prove(pid, w, d):
    return pipe.prove(w, d, builder=lambda d, out, inplace, exclude, only=None: build(pid, d, out, exclude), rounds=3)

# ------------------------------------------------------------------------------------------- running the tools
class Bin:
    def __init__(s, w): s.w, s.why, s.dir = w, None, None
    def build(s):
        c, o, e = pipe.run(['cargo', 'build', '--offline', '--locked', '--target-dir', s.w.path('bin')], cwd=pipe.REPO, env=pipe.env())
        if c: raise pipe.Broken('the tools do not build: ' + e.decode(errors='replace')[-2000:])
        s.dir = s.w.path('bin/debug')
        log('tools built')
        return s
    def run(s, name, args, cwd, timeout=60):
        c, o, e = pipe.run([os.path.join(s.dir, name)] + args, timeout, cwd=cwd, env=pipe.env(RUST_BACKTRACE='0'))
        return c, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')

UNESC = {'n': '\n', 't': '\t', 'r': '\r', '0': '\0', '"': '"', '\\': '\\', "'": "'"}
def unquote(q):
    return re.sub(r'\\(u\{([0-9a-f]+)\}|.)', lambda m: chr(int(m.group(2), 16)) if m.group(2) else UNESC.get(m.group(1), m.group(0)), q)
QUOTED = re.compile(r'"((?:[^"\\]|\\.)*)"')

# ---- files with a known meaning
LOW = ['a', '_', 'f', 'map', 'x1', 'fooBar', 'zZ_9', 'exposing1', 'importX', 'typeOf', 'asIs', 'inX', 'letter', 'ofN', 'portX', 'where_', 'infix', 'effect', 'm' * 40]
UP = ['A', 'List', 'Maybe', 'Z9_a', 'ImportT', 'Html', 'X' * 30]
OPS = ['+', '|>', '<|', '++', '::', '==', '/=', '&&', '||', '<<', '>>', '|.', '|=', '-', '*', '//', '^', '\\\\', '?', '%', '#', '@', '~', '!', '<$>', '>=>', '$']
def q(s): return '"' + s.replace('\\', '\\\\').replace('"', '\\"') + '"'
class Gen:
    def __init__(s, rnd): s.r = rnd
    def low(s): return s.r.choice(LOW) if s.r.random() < .7 else s.r.choice('abcdefghijklmnopqrstuvwxyz') + ''.join(s.r.choice('abzAZ019_') for _ in range(s.r.randrange(4))) + '_q'
    def up(s): return s.r.choice(UP)
    def op(s):
        while True:
            n = s.r.choice(OPS) if s.r.random() < .6 else ''.join(s.r.choice('+-\\/*=.$<>:&|^?%#@~!') for _ in range(s.r.choice([1, 2, 2, 3, 3, 4, 6])))
            if n not in ('=', '.', '..', '->', '--', '|', ':'): return n
    def mod(s): return '.'.join(s.up() for _ in range(s.r.choice([1, 1, 2, 3, 5])))
    def item(s):
        """(text, names, debug form) of one entry of an exposing list"""
        k = s.r.randrange(10)
        if k < 4: n = s.low(); return n, [n], 'FunctionExport(%s)' % q(n)
        if k < 6: n = s.op(); return '(%s)' % n, [n], 'FunctionExport(%s)' % q(n)
        t = s.up()
        if k == 6: return t, [], 'TypeExport(%s,None)' % q(t)
        if k == 7: return t + '(..)', [], 'TypeExport(%s,Some(AllExport))' % q(t)
        cs = [s.up() for _ in range(s.r.choice([1, 2, 3]))]
        return '%s(%s)' % (t, ', '.join(cs)), [], 'TypeExport(%s,Some(SubsetExport([%s])))' % (q(t), ','.join('FunctionExport(%s)' % q(c) for c in cs))
    def exposing(s, n=None):
        if n is None: n = s.r.choice([1, 1, 2, 3, 4, 6])
        if s.r.random() < .15: return '(..)', [], 'AllExport'
        it = [s.item() for _ in range(n)]
        if s.r.random() < .3: it.append(s.r.choice(it))             # the same name again
        sep = s.r.choice([', ', ',', ' , ', ',  ', ',\n    ', '\n  , '])
        sp = s.r.choice(['', '', ' '])
        return '(' + sp + sep.join(x[0] for x in it) + sp + ')', [m for x in it for m in x[1]], 'SubsetExport([%s])' % ','.join(x[2] for x in it)
    def imp(s, n=None):
        m = s.mod()
        text, names, alias, ex = 'import ' + m, [], 'None', 'None'
        if s.r.random() < .3: a = s.up(); text += ' as ' + a; alias = 'Some(%s)' % q(a)
        if s.r.random() < .85: t, names, ex = s.exposing(n); text += ' exposing ' + t; ex = 'Some(%s)' % ex
        return text, names, 'ImportStatement([%s],%s,%s)' % (','.join(q(x) for x in m.split('.')), alias, ex)
    def other(s):
        """a statement that imports nothing"""
        k = s.r.randrange(9)
        n = s.low()
        if k == 0: t = s.low(); return '-- import A exposing (%s)' % t, None
        if k == 1: return '{- import A exposing (%s)\n-}' % n, None
        if k == 2: return 'fn %s = "import A exposing (%s)"' % (n, n), None
        if k == 3: return 'fn = let g = %s in case g of\n  A -> 1\n  _ -> 2' % (n + ' 1'), None
        if k == 4: return 'type T = A | B (List Int)', None
        if k == 5: return 'type alias R = { f : Int, g : String }', None
        if k == 6: return 'infixl 4 +++', None
        if k == 7: return 'fn : Int -> Int\nfn x = x + 1', None
        return 'port out : String -> Cmd msg', None
    def module(s):
        m = s.mod()
        t, _, ex = s.exposing()
        k = s.r.choice(['module', 'port module', 'module'])
        return '%s %s exposing %s' % (k, m, t), '%s([%s],%s)' % ('ModuleDeclaration' if k == 'module' else 'PortModuleDeclaration', ','.join(q(x) for x in m.split('.')), ex)
    def file(s, big=False):
        """(text, names imported)"""
        parts, names = [], []
        if s.r.random() < .6: parts.append(s.module()[0])
        n = s.r.choice([0, 1, 1, 2, 3, 5, 8]) if not big else 60
        for _ in range(n):
            if s.r.random() < .75:
                t, ns, _ = s.imp(s.r.choice([None, None, None, None, 40]) if not big else None)
                parts.append(t); names += ns
            else: parts.append(s.other()[0])
        if not parts: parts.append('x = 1')
        if s.r.random() < .3 and parts:                       # the same import again
            t, ns, _ = s.imp(); parts += [t, t]; names += ns + ns
        return s.r.choice(['\n', '\n\n', '\n\n\n']).join(parts) + s.r.choice(['', '\n', '\n\n']), names

# literals of the tools' code that are not those of the reference tree: hints for the generators, nothing more
SIZES = []
def hints(strs, nums):
    for x in sorted(strs):
        if not 0 < len(x) <= 60 or '/' in x or '\0' in x: continue
        if re.fullmatch(r'[a-z][A-Za-z0-9_]*', x): LOW.extend([x] * 6 + [x + 'q', x + 'Q9'])
        if re.fullmatch(r'[A-Z][A-Za-z0-9_]*', x): UP.extend([x] * 4 + [x + 'q'])
        if re.fullmatch(r'[-+\\/*=.$<>:&|^?%#@~!]+', x): OPS.extend(y for y in (x, x + '+', '+' + x) if y not in ('=', '.', '..', '->', '--', '|', ':'))
        DIRS.extend([x, x + 'x', 'x' + x])
        ELMS.extend([y for y in (x + '.elm', x + 'x.elm', 'x' + x + '.elm', x) if y.endswith('.elm') and y not in ('.elm', '..elm')])
        OTHERS.extend([y for y in ('a' + x, 'a.' + x, x) if not y.endswith('.elm') and y not in ('.', '..')])
    for l in (DIRS, ELMS, OTHERS): l[:] = [x for k, x in enumerate(l) if x not in l[:k] and x not in ('.', '..') and len(x.encode()) < 250]
    SIZES.extend(m for n in nums for m in (n - 1, n, n + 1, n + 2) if 0 < m < 3000)

def c22_cases(rnd, n):
    fixed = [('import A exposing (a)', ['a']), ('import A', []), ('import A exposing (..)', []), ('module A exposing (a, b)', []),
             ('import A exposing (a, a, a)\nimport A exposing (a)', ['a'] * 4), ('import A exposing (T(..), U, V(A, B))', []),
             ('import A exposing (T(A), a)\n\nimport B as C exposing ((+), b)', ['a', '+', 'b']),
             ('x = 1', []), ('import B exposing (z)\nimport A exposing (a)', ['z', 'a'])]
    for k in [33, 70, 130, 260, 1100] + SIZES:
        fixed.append(('import A exposing (%s)' % ', '.join('n%d' % j for j in range(k)), ['n%d' % j for j in range(k)]))
    fixed.append(('\n'.join('import A%d exposing (f%d)' % (j, j) for j in range(140)), ['f%d' % j for j in range(140)]))
    for t, ns in fixed: yield t, ns
    g = Gen(rnd)
    for k in range(n): yield g.file(big=k % 25 == 7)

NAMES = ['a', 'in put', 'in.elm', "q'uote", 'é日', 'a.b.c', 'UP', '-dash', 'x' * 100, '..a']
def c22(b, w, rnd, tier):
    """run elm-parser-check; [failing case], number of runs"""
    os.makedirs(w.path('s22'))
    todo = list(c22_cases(rnd, 300 if tier == 'quick' else 6000))
    def one(kc):
        k, (text, names) = kc
        d = w.path('s22', str(k))
        os.makedirs(d)
        fn = 'in.elm' if k % 4 else NAMES[(k // 4) % len(NAMES)]
        open(os.path.join(d, fn), 'w', newline='').write(text)
        c, o, e = b.run(BIN['C22'], [fn], d)
        # a file the dump tool does not accept says nothing about this property
        ok = None
        got = [unquote(x) for x in QUOTED.findall(o)]
        rest = re.sub(r'[\s,]', '', QUOTED.sub('', o))
        bad = None
        if got != names or rest != '[]':
            _, po, _ = b.run(BIN['C23'], ['-q', './' + fn], d)
            ok = 'parsed successfully' in po
            if ok: bad = {'text': text, 'file': fn, 'expected': names, 'reported': got, 'exit': c, 'stdout': o[:2000], 'stderr': e[:500]}
        shutil.rmtree(d)
        return bad, ok is False
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, enumerate(todo)))
    return [x for x, _ in res if x], {'runs': len(res), 'files_that_did_not_parse': sum(1 for _, s in res if s), 'names_expected': sum(len(n) for _, n in todo)}

# ---- C23
GOOD = [('x = 1\n', None), ('module A exposing (..)\n\nx = 1\n', None), ('-- only a comment\n', None), ('import A', '[ImportStatement(["A"],None,None)]'),
        ('{- ' + 'y' * 200000 + ' -}\nx = 1', None), ('\n'.join('f%d x = g x %d' % (k, k) for k in range(150)), None), ('x = "é日本😀"', None), ('x = 1\r\ny = 2\r\n', None)]
FAILS = ['x =', '', ' ', '(', 'x = 1\n )', 'module\n', '\ufeffx = 1', 'x = "open', 'X = 1', '{- open', 'x = 1\n' * 50 + '=', 'x =\r\n  1\r\n', 'x =\r 1', 'x\t= 1', 'x = 1 \x00', '\x0cx = 1', '\x0bx = 1', 'x = 1\u00a0', 'x = 1\u0085', 'x = a\u2028b', '\ufeff', '\t', '\n',
         'x = 1\n\x1a', 'x = "a\nb"', 'import A exposing (a)\r\n  y', 'x =\n1', 'f x =\r\n  x\r\n', '-- a\n=', '{- a -} -}', '\u200bx = 1', 'x = 1 -', '\\x = 1', '#x = 1', '// x']
DIRS = ['src', 'A', 'd.elm', '.hidden', 'with space', 'é', "q'x", 'elm', 'node_modules', 'elm-stuff', 'target', 'tests', 'x.y', '.git', '_build', 'z' * 60]
OTHERS = ['a.ELM', 'a.elm.bak', 'a.elmx', '.elm', 'elm', 'a.el', 'a.elm~', 'a.elm ', 'README', 'a.js', 'a.elm.', 'Aelm', 'a.hs', '.a.elm.swp', 'a.elm#']
ELMS = ['A.elm', 'b.elm', '.h.elm', 'a.b.elm', 'with space.elm', 'é日.elm', 'q"q.elm', "q'q.elm", 'back\\slash.elm', '..elm', 'a..elm', '-q.elm', 'x' * 120 + '.elm', 'tab\t.elm', 'elm.elm', 'Main.elm', '1.elm', 'Test.elm']
class Tree:
    def __init__(s, rnd): s.r, s.files, s.dirs, s.links = rnd, {}, set(), []
    def content(s, big=True):
        if s.r.random() < .55:
            t, _ = s.r.choice(GOOD if big else GOOD[:4]); return t, True
        return s.r.choice(FAILS), False
    def add(s, d, depth):
        for _ in range(s.r.choice([0, 1, 2, 3, 5])):
            if s.r.random() < .7: s.files[d + s.r.choice(ELMS)] = s.content()
            else: s.files[d + s.r.choice(OTHERS)] = s.content(False)
        if depth:
            for _ in range(s.r.choice([0, 1, 1, 2])):
                n = d + s.r.choice(DIRS) + '/'
                s.dirs.add(n); s.add(n, depth - 1)
    def write(s, root):
        for d in s.dirs: os.makedirs(os.path.join(root, d), exist_ok=True)
        for f, (t, _) in s.files.items():
            os.makedirs(os.path.dirname(os.path.join(root, f)) or root, exist_ok=True)
            open(os.path.join(root, f), 'w', newline='', encoding='utf8').write(t)
        for l, t in s.links: os.symlink(t, os.path.join(root, l))
    def elm(s): return {f: ok for f, (_, ok) in s.files.items() if f.endswith('.elm') and os.path.basename(f) != '.elm'}

def c23_trees(rnd, n):
    t = Tree(rnd)                                             # deep
    d = ''
    for k in range(45):
        d += 'd%d/' % k; t.dirs.add(d); t.files[d + 'L%d.elm' % k] = ('x = 1', True) if k % 3 else ('x =', False)
    yield t
    for n_ in [x for x in SIZES if x < 120]:                  # sizes that the code speaks of
        t = Tree(rnd); d = ''
        for k in range(n_): d += 'd/'
        t.dirs.add(d); t.files[d + 'L.elm'] = ('x = 1', True)
        for k in range(n_): t.files['F%d.elm' % k] = ('x = %d' % k, True)
        yield t
    t = Tree(rnd)                                             # wide
    for k in range(700): t.files['m/F%03d.elm' % k] = ('x = %d' % k, True) if k % 7 else ('=', False)
    yield t
    t = Tree(rnd)                                             # many directories, with nothing else of interest
    for k in range(120): t.dirs.add('e%d/' % k); t.files['e%d/A.elm' % k] = ('x =', False) if k == 3 else ('x = 1', True)
    yield t
    t = Tree(rnd)                                             # every name
    for x in ELMS: t.files[x] = t.content(False); t.files['sub/' + x] = t.content(False)
    for x in OTHERS: t.files[x] = t.content(False); t.files['sub/' + x] = t.content(False)
    for x in DIRS: t.dirs.add('dd/' + x + '/'); t.files['dd/' + x + '/In.elm'] = t.content(False)
    yield t
    t = Tree(rnd)                                             # every content
    for k, (x, _) in enumerate(GOOD): t.files['G%d.elm' % k] = (x, True)
    for k, x in enumerate(FAILS): t.files['B%d.elm' % k] = (x, False)
    yield t
    t = Tree(rnd)                                             # the same text again and again; a link to a directory
    for k in range(12): t.files['p%d/Same.elm' % k] = ('x = 1', True) if k != 5 else ('x =', False)
    t.links = [('again', 'p0')]
    yield t
    for k in range(n):
        t = Tree(rnd); t.add('', rnd.choice([1, 2, 3, 5]))
        # a directory and a file of the same name cannot both be
        t.files = {f: c for f, c in t.files.items() if f + '/' not in t.dirs}
        yield t

LINE = re.compile(r'^"((?:[^"\\]|\\.)*)" (parsed successfully|failed to parse)$')
def squeeze(s): return re.sub(r'[\s,]', '', s)
def c23(b, w, rnd, tier):
    runs, bad, stats = 0, [], {'runs': 0, 'files': 0, 'trees': 0}
    flags = [['-q'], ['--quiet']]
    def tree(kt):
        k, t = kt
        top = w.path('s23', str(k)); root = top + '/root'
        os.makedirs(root)
        t.write(root)
        out = []
        forms = [('root', top), ('root/', top), ('./root', top), ('.', root), (root, '/'), ('../root', root)]
        for j in (k, k + 3) if k > 5 else (k, k + 1, k + 3):
            arg, cwd = forms[j % len(forms)]
            f = flags[j % 2]
            a = f + [arg] if j % 3 else [arg] + f
            c, o, e = b.run(BIN['C23'], a, cwd, 200)
            got, extra = [], []
            for l in o.split('\n')[:-1] if o.endswith('\n') else o.split('\n'):
                m = LINE.match(l)
                if m: got.append((os.path.normpath(os.path.join(cwd, unquote(m.group(1)))), m.group(2) == 'parsed successfully'))
                elif l: extra.append(l)
            want = sorted((os.path.normpath(os.path.join(root, f)), ok) for f, ok in t.elm().items())
            if sorted(got) != want or extra or not (o.endswith('\n') or not o):
                miss = [x for x in want if x not in got]; more = [x for x in got if x not in want or got.count(x) > 1]
                out.append({'tree': {f: (c[:80], ok) for f, (c, ok) in list(t.files.items())[:400]}, 'links': t.links, 'arguments': a, 'in': cwd.replace(top, '<scratch>'),
                            'missing': [x[0].replace(top, '<scratch>') for x in miss][:10], 'unexpected': [[x[0].replace(top, '<scratch>'), x[1]] for x in more][:10], 'other_output': extra[:5], 'exit': c, 'stderr': e[:300]})
                break
        if not out and len(t.files) < 120:
            # without quiet mode: what each file gives by itself, in some order
            arg, cwd = forms[(k + 1) % len(forms)]
            c, o, e = b.run(BIN['C23'], [arg], cwd, 200)
            got = sorted(chunks(o))
            want = sorted(alone(t.files[f][0]) for f in t.elm())
            if got != want:
                out.append({'tree': {f: (c[:80], ok) for f, (c, ok) in t.files.items()}, 'links': t.links, 'arguments': [arg], 'in': cwd.replace(top, '<scratch>'),
                            'expected': 'the output for each file by itself', 'missing': [x[:300] for x in want if want.count(x) > got.count(x)][:5],
                            'unexpected': [x[:300] for x in got if got.count(x) > want.count(x)][:5], 'exit': c, 'stderr': e[:300]})
        shutil.rmtree(top)
        return out, (3, len(t.elm()))
    memo, lock = {}, threading.Lock()
    def alone(text):
        with lock:
            if text not in memo:
                d = w.path('s23a'); os.makedirs(d, exist_ok=True)
                open(d + '/A.elm', 'w', newline='', encoding='utf8').write(text)
                memo[text] = b.run(BIN['C23'], ['A.elm'], d)[1]
            return memo[text]
    def chunks(o):
        # the lines of one value start with a space or close what is open
        out = []
        for l in o.split('\n')[:-1] if o.endswith('\n') or not o else o.split('\n'):
            if out and (l[:1] in (' ', ']', ')', '}') and not out[-1][-1] == '[]'): out[-1].append(l)
            else: out.append([l])
        return ['\n'.join(x) + '\n' for x in out]
    def single(kc):
        k, (name, text, ok, dbg) = kc
        d = w.path('s23f', str(k)); os.makedirs(d)
        open(os.path.join(d, name), 'w', newline='', encoding='utf8').write(text)
        p = './' + name if k % 2 or name.startswith('-') else name
        out = []
        f = flags[k % 2]
        c, o, e = b.run(BIN['C23'], f + [p] if k % 3 else [p] + f, d)
        m = LINE.match(o[:-1]) if o.endswith('\n') else None
        if not m or os.path.normpath(unquote(m.group(1))) != os.path.normpath(p) or (m.group(2) == 'parsed successfully') != ok:
            out.append({'file': name, 'text': text[:2000], 'length': len(text), 'parses': ok, 'mode': 'quiet', 'stdout': o[:500], 'exit': c, 'stderr': e[:300]})
        c, o, e = b.run(BIN['C23'], [p], d)
        is_tree = o.startswith('[') 
        if not o.endswith('\n') or is_tree != ok or (dbg and squeeze(o) != squeeze(dbg)):
            out.append({'file': name, 'text': text[:2000], 'length': len(text), 'parses': ok, 'mode': 'not quiet', 'expected': dbg, 'stdout': o[:500], 'exit': c, 'stderr': e[:300]})
        shutil.rmtree(d)
        return out, (2, 1)
    g = Gen(rnd)
    S = []
    for k, n in enumerate(ELMS + OTHERS + ['in', 'in.txt', '.x']):
        S.append((n, *( ('x = 1', True) if k % 3 else ('x =', False)), None))
    for t, dbg in GOOD: S.append(('A.elm', t, True, dbg))
    for t, dbg in json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'shown.json'))): S.append(('A.elm', t, True, dbg))     # every kind of node
    for t in FAILS: S.append(('A.elm', t, False, None))
    for k in range(60 if tier == 'quick' else 1500):
        parts = [g.module()] if k % 2 else []
        for _ in range(rnd.choice([1, 2, 4])):
            t, _, dbg = g.imp(); parts.append((t, dbg))
        S.append(('R.elm', '\n'.join(p for p, _ in parts), True, '[%s]' % ','.join(x for _, x in parts)))
        if k % 5 == 0: S.append(('R.elm', '\n'.join(p for p, _ in parts) + rnd.choice(['\n)', '\nx =', '\n\n0 = 1', '\n\n"']), False, None))
    with ThreadPoolExecutor(8) as ex:
        r1 = ex.map(tree, enumerate(c23_trees(rnd, 40 if tier == 'quick' else 800)))
        r2 = ex.map(single, enumerate(S))
        for n, r in (('trees', r1), ('single_files', r2)):
            for out, (c, files) in r:
                bad += out
                stats[n] = stats.get(n, 0) + 1
                stats['runs'] += c; stats['files'] += files
    return bad, stats

# ------------------------------------------------------------------------------------------- the check
BASE_LITERALS = {'', 'file not found', 'something went wrong reading the file', 'elm-parser-dump', 'path', 'elm', '0.1', 'quiet', 'q'}
def check_literals():
    import check
    s, n = check.baseline_literals()
    return s | BASE_LITERALS, n
def main(pid, tier, seed, rep):
    t0 = time.time()
    run = {'C22': c22, 'C23': c23}[pid]
    con = lower_tools.CONTRACTS[pid]
    with pipe.Work() as w:
        st = {}
        def A():
            ds = pipe.dump(w)
            d = ds.get(CRATE[pid])
            try:
                if d is None: raise ValueError('the crate %s is not there' % CRATE[pid])
                st['lits'] = pipe.literals({'bodies': [x for x in d['bodies'] if '::ast::' not in x['body']['d']]})
                st['proof'] = prove(pid, w, d)
            except Exception as e:
                st['proof'] = {'ok': False, 'why': '%s: %s' % (type(e).__name__, e), 'failed': {}, 'unsupported': {}, 'wall': 0, 'rounds': 0}
        def B():
            b = Bin(w).build()
            st['bad'], st['stats'] = run(b, w, random.Random(seed), tier)
            log('tool runs: %s, %d failing' % (st['stats'], len(st['bad'])))
            st['bin'] = b
        pipe.both(A, B)
        pr = st['proof']
        bs, bn = check_literals()
        ls, ln = st.get('lits', (set(), set()))
        ls, ln = {x for x in ls - bs if x}, ln - bn
        if not st['bad'] and (ls or ln or not pr['ok'] or pr['failed'] or pr['unsupported']):
            hints(ls, ln)
            shutil.rmtree(w.path('s22'), ignore_errors=True)
            for x in os.listdir(w.path('.')):
                if x.startswith('s23'): shutil.rmtree(w.path(x), ignore_errors=True)
            st['bad'], st2 = run(st['bin'], w, random.Random(seed + 1), tier)
            st['stats'] = {k: v + st2.get(k, 0) for k, v in st['stats'].items()}
            log('more tool runs: %s, %d failing' % (st2, len(st['bad'])))
        if pr['ok'] and pr['canary'] < 2: raise pipe.Broken('the vacuity canaries were not refuted')
        failed = {f: e for f, e in pr['failed'].items() if any(x['kind'] != 'rlimit' for x in e)}
        if st['bad']:
            x = min(st['bad'], key=lambda x: len(json.dumps(x)))
            rep.violation({'property': pid, 'kind': 'failing input', 'input': x, 'all': st['bad'][:5], 'failed_obligations': failed, 'unsupported': pr['unsupported']})
        elif failed:
            rep.violation({'property': pid, 'kind': 'failed obligation', 'obligations': failed, 'verifier': 'verus', 'searched': st['stats']}, nff=True)
        evidence(pid, tier, seed, rep, st, pr, con, t0, w)
    log('done')
    return 1 if rep.violations else 0

def evidence(pid, tier, seed, rep, st, pr, con, t0, w):
    import check
    os.makedirs(check.EV, exist_ok=True)
    names = [c[0] for c in con]
    tr, ext, ass = check.trusted_scan(pr['file']) if pr.get('file') else ([], 0, 0)
    proved = [n for n in names if pr['ok'] and n not in pr['failed'] and n not in pr['unsupported']]
    cov = {
        'obligations': pr.get('verified', 0) + pr.get('errors', 0), 'discharged': pr.get('verified', 0),
        'obligation_unit': 'verification units of Verus (functions, loops, lemmas)',
        'checker_cmd': 'python3 check.py %s (thirdump -> lib/tools.py -> verus)' % pid, 'back_end': 'Verus 0.2026.09.13 / Z3',
        'functions_under_contract': names, 'functions_proved': proved, 'functions_failed': sorted(pr['failed']),
        'functions_bounded_only': pr['unsupported'] if pr['ok'] else {n: str(pr.get('why'))[:400] for n in names},
        'vacuity_canaries_refuted': pr.get('canary', 0), 'verifier_wall_s': round(pr['wall'], 1),
        'trusted_base': check.ALWAYS[:4] + ['assumed contract: ' + x for x in tr] + [
            'ast::file returns what the contracts of the library checks (C01 to C21) say: here it is an unknown function of the text; the tools compile their own copy of the same source',
            'the file system and the arguments do not change during a run; every directory below the path can be listed and every Elm file read as UTF-8',
            'get_export_set_imports passed to flat_map terminates because syntax trees are finite'],
        'assumption_scan': {'external_body': ext, 'assume_or_admit': ass},
        'runs': dict(st['stats'], role='the tools on made-up files and directories: bounded, not counted as proof'),
    }
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov,
          'assumptions': cov['trusted_base'], 'wall_s': round(time.time() - t0, 1), 'violations': len(rep.violations)}
    json.dump(ev, open(os.path.join(check.EV, pid + '.json'), 'w'), indent=1)
