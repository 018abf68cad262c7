"""The machinery shared by all checks: THIR dump -> verified text -> Verus, and the differential harness."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('ELM_REPO', '/repo')
sys.path.insert(0, HERE)
import build_text, emit_oracle, emit_ref, grammar, lower

class Broken(Exception):
    """the machinery itself cannot give an answer"""

T0 = time.time()
def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, file=sys.stderr, flush=True)

def run(cmd, timeout=600, **kw):
    p = subprocess.Popen(cmd, stdout=kw.pop('stdout', subprocess.PIPE), stderr=kw.pop('stderr', subprocess.PIPE),
                         stdin=kw.pop('stdin', subprocess.DEVNULL), start_new_session=True, **kw)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        o, e = p.communicate()
        return -9, (o or b''), (e or b'') + b'\n(timed out)'
    return p.returncode, o or b'', e or b''

class Work:
    def __enter__(s):
        s.dir = tempfile.mkdtemp(prefix='elmverif.', dir=os.environ.get('TMPDIR', '/tmp'))
        return s
    def __exit__(s, *a):
        shutil.rmtree(s.dir, ignore_errors=True)
    def path(s, *p):
        return os.path.join(s.dir, *p)

# ------------------------------------------------------------------------------------------- typed bodies of the code
def env(**kw):
    e = dict(os.environ)
    for k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC_WORKSPACE_WRAPPER', 'CARGO_TARGET_DIR', 'CARGO_BUILD_TARGET_DIR'): e.pop(k, None)
    e['CARGO_NET_OFFLINE'] = 'true'
    e.update(kw)
    return e

def dump(w):
    """{crate: typed bodies} for every crate of the repository, from its current working tree, and for nom as it is compiled for it"""
    c, o, e = run(['cargo', '+nightly', 'build', '--offline', '--locked', '--target-dir', w.path('td')], cwd=VERIF + '/thirdump', env=env())
    if c: raise Broken('thirdump does not build: ' + e.decode()[-3000:])
    sysroot = run(['rustc', '+nightly', '--print', 'sysroot'])[1].decode().strip()
    os.makedirs(w.path('thir'))
    c, o, e = run(['cargo', '+nightly', 'check', '--offline', '--locked', '--target-dir', w.path('check')], cwd=REPO,
        env=env(RUSTC_WORKSPACE_WRAPPER=w.path('td/debug/thirdump'), RUSTC_WRAPPER=VERIF + '/thirdump/nomwrap.sh', THIRDUMP_BIN=w.path('td/debug/thirdump'),
                THIRDUMP_OUT=w.path('thir'), LD_LIBRARY_PATH=sysroot + '/lib'))
    if c: raise Broken('the code does not compile, or its typed bodies cannot be read: ' + e.decode()[-3000:])
    return {os.path.basename(p)[:-5]: json.load(open(p)) for p in glob.glob(w.path('thir', '*.json'))}

def literals(d):
    strs, nums = set(), set()
    def walk(x):
        if isinstance(x, dict):
            if x.get('k') == 'lit' and x.get('lk') in ('str', 'char'): strs.add(x['v'] if isinstance(x['v'], str) else str(x['v']))
            elif x.get('k') == 'lit' and x.get('lk') == 'int':
                try: nums.add(int(x['v']))
                except ValueError: pass
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(d['bodies'])
    return strs, nums

# ------------------------------------------------------------------------------------------- the verifier
VERUS_ARGS = ['--multiple-errors', '4', '--output-json', '--time-expanded', '--error-format=json']

def kind_of(d):
    m = d['message']
    texts = ' '.join(t['text'] for s in d['spans'] for t in s['text'])
    if 'rlimit' in m.lower() or 'resource limit' in m.lower(): return 'rlimit'
    if 'decreases' in m or 'termination' in m: return 'termination'
    if 'precondition' in m: return 'precondition'
    if 'postcondition' in m:
        lab = ' '.join(t['text'] for s in d['spans'] for t in s['text'] if 'failed this postcondition' in (s.get('label') or ''))
        return 'contract' if '// F' in lab else 'totality' if '// T' in lab else 'postcondition'
    if 'overflow' in m or 'underflow' in m: return 'arithmetic'
    return 'assertion'

def verus(w, name, timeout, extra=(), threads=8):
    src, out, err = w.path(name + '.rs'), w.path(name + '.json'), w.path(name + '.err')
    t = time.time()
    cmd = 'ulimit -s unlimited; exec verus %s %s' % (src, ' '.join(VERUS_ARGS + ['--num-threads', str(threads)] + list(extra)))
    c, o, e = run(['bash', '-c', cmd], timeout, env=env(RUST_MIN_STACK='2147483648'), cwd=w.dir,
                  stdout=open(out, 'wb'), stderr=open(err, 'wb'))
    res = {}
    try: res = json.load(open(out))
    except ValueError: pass
    diags = []
    for l in open(err, errors='replace'):
        try: d = json.loads(l)
        except ValueError: continue
        if d.get('level') == 'error' and not d['message'].startswith('aborting'): diags.append(d)
    return {'rc': c, 'res': res, 'diags': diags, 'wall': time.time() - t, 'tail': open(err, errors='replace').read()[-1500:]}

CANARY = 'vacuity_canary'

def prove(w, d, builder=None, rounds=4, theorems=None):
    """verify the code; result: which functions are proved, which obligations fail, which functions are out of reach"""
    import emit_lem
    lemmas = {} if builder else {'theorems': theorems}
    builder = builder or build_text.build
    broken = None
    exclude, inplace = {}, set()
    wall = 0.0
    final = None
    rnd, attempt = 0, 0
    while rnd < rounds:
        rnd += 1
        # a second and a third attempt at what failed: with the list algebra, in either of the two forms of a loop
        B = builder(d, w.path('v%d.rs' % rnd), inplace, exclude, **dict({'only': set(final['failed']), **({'lemmas': set(final['lemmas'])} if lemmas else {})} if final else {}, **lemmas))
        spans, unsup = B[0], B[1]
        lines = open(w.path('v%d.rs' % rnd)).read().split('\n')
        r = verus(w, 'v%d' % rnd, 120 if final else 300, ['--rlimit', '20'] if final else [])
        wall += r['wall']
        vr = r['res'].get('verification-results', {})
        def owner(dg):
            for s in sorted(dg['spans'], key=lambda s: not s['is_primary']):
                for p, (a, b) in spans.items():
                    if a <= s['line_start'] <= b: return p
            return None
        def ghost(dg):
            k = [s['line_start'] for s in dg['spans'] if s['is_primary']]
            k = k[0] - 1 if k else 0
            while k > 0 and not re.match(r'\s*(pub )?(open )?(broadcast )?(axiom |proof |exec |spec )*fn ', lines[k]): k -= 1
            m = re.search(r'fn (\w+)', lines[k])
            return m.group(1) if m else '?'
        log('verus round %d: %s (%.1fs, %d unsupported)' % (rnd, {k: vr.get(k) for k in ('verified', 'errors', 'encountered-vir-error')}, r['wall'], len(unsup)))
        if vr.get('encountered-vir-error') or not vr.get('verified', 0) + vr.get('errors', 0):
            # the text is not accepted: leave out the functions at fault
            bad = {}
            for dg in r['diags']:
                p = owner(dg)
                if p: bad.setdefault(p, 'not accepted by the verifier: ' + dg['message'][:200])
            bad = {p: m for p, m in bad.items() if p not in unsup}
            if final:    # only this form is not accepted: the first result stands
                if not inplace and attempt < 2: attempt, inplace = 2, set(final['failed']); continue
                return final
            if not bad and lemmas.get('theorems'):
                # the theorems do not fit the types of this tree: the code is proved without them
                broken, lemmas['theorems'] = (r['diags'][0]['message'] if r['diags'] else r['tail'])[:300], None
                continue
            if not bad:
                return {'ok': False, 'why': 'the verifier does not accept the text: ' + (r['diags'][0]['message'] if r['diags'] else r['tail']),
                        'failed': {}, 'unsupported': unsup, 'wall': wall, 'rounds': rnd, 'spans': spans}
            exclude.update(bad)
            continue
        failed, lem, canary = {}, {}, 0
        for dg in r['diags']:
            p = owner(dg)
            g = None if p else ghost(dg)
            if g and g.startswith(CANARY): canary += 1; continue
            e = {'kind': kind_of(dg), 'message': dg['message'],
                 'at': [{'label': s.get('label'), 'text': ' '.join(t['text'].strip() for t in s['text'])[:300]} for s in dg['spans']],
                 'rendered': (dg.get('rendered') or '')[:3000]}
            if p: failed.setdefault(p, []).append(e)
            else: lem.setdefault(g, []).append(e)
        res = {'ok': True, 'verified': vr['verified'], 'errors': vr['errors'] - canary, 'canary': canary, 'failed': failed, 'lemmas': lem,
               'unsupported': unsup, 'spans': spans, 'times': r['res'].get('times-ms', {}), 'wall': wall, 'rounds': rnd,
               'theorems_left_out': broken, 'low': B[2], 'file': w.path('v%d.rs' % rnd), 'inplace': sorted(inplace), 'excluded': dict(exclude)}
        if failed or lem: log('not proved: %s' % ', '.join(sorted(failed) + sorted(str(x) for x in lem)))
        if final:       # a function that is proved in either form is proved
            for p in list(final['failed']):
                if p not in failed: del final['failed'][p]; final['retried'].append(p)
            for p in list(final['lemmas']):
                if p not in lem: del final['lemmas'][p]
            final.update(wall=wall, rounds=rnd)
        else:
            final = res
            final['retried'] = []
        final['errors'] = sum(map(len, final['failed'].values())) + sum(map(len, final['lemmas'].values()))
        attempt += 1
        if not final['failed'] and not final['lemmas'] or attempt == 3: return final
        inplace = set(final['failed']) if attempt == 2 else set()
    return final or {'ok': False, 'why': 'gave up after %d rounds' % rounds, 'failed': {}, 'unsupported': dict(exclude), 'wall': wall, 'rounds': rnd, 'spans': {}}

def leaves(w, crate, nom):
    """verify the contracts of nom's leaf parsers, each as it is expanded in the code or written in nom; what is not proved stays an assumption"""
    import nomlow
    t = time.time()
    res = {'proved': [], 'failed': {}, 'assumed': {}, 'ms': None, 'trusted': [], 'regex': []}
    try:
        if nom is None: raise Broken('no typed bodies of nom')
        obs, spans = nomlow.build(nom, crate, w.path('leaf.rs'))
        r = verus(w, 'leaf', 120, threads=3)
        vr = r['res'].get('verification-results', {})
        lines = open(w.path('leaf.rs')).read().split('\n')
        bad, other, canary = {}, [], 0
        for dg in r['diags']:
            k = [s['line_start'] for s in dg['spans'] if s['is_primary']] or [0]
            ks = [s['line_start'] for s in dg['spans']]
            o = [n for n, (a, b) in spans.items() if any(a <= x <= b for x in ks)]
            if o: bad.setdefault(o[0], '%s: %s' % (kind_of(dg), dg['message']))
            elif any('vacuity_canary' in lines[j] for x in k for j in range(max(0, x - 12), x)): canary += 1
            else: other.append(dg['message'])
        if vr.get('encountered-vir-error') or not vr.get('verified') or other: raise Broken((other + list(bad.values()) + [r['tail']])[0][:300])
        if not canary: raise Broken('the vacuity canary was not refuted')
        for o in obs:
            n = '%s%s' % (o['mac'], ' in ' + ', '.join(o['where']) if o['where'] else '')
            if o.get('shape'): res['regex'].append(o)
            if 'text' not in o: res['assumed'][n] = o['why']
            elif o['name'] in bad:
                res['failed'].update({f: 'the contract of %s is not proved: %s' % (o['mac'], bad[o['name']]) for f in o['where']})
                res['assumed'][n] = bad[o['name']]
            else: res['proved'].append('%s: r == %s' % (n, o['spec']))
        res.update(ms=r['res'].get('times-ms', {}).get('smt', {}).get('total'), canary=canary,
                   trusted=[l[len('// TRUSTED:'):].strip() for l in lines if l.startswith('// TRUSTED:')])
    except Exception as e:
        res['why'] = '%s: %s' % (type(e).__name__, e)
    res['wall'] = round(time.time() - t, 1)
    log('leaf contracts: %d proved, %d assumed%s (%.1fs)' % (len(res['proved']), len(res['assumed']), ' ' + res['why'] if 'why' in res else '', res['wall']))
    return res

# ------------------------------------------------------------------------------------------- the differential harness
def fast_regex(dst):
    """a copy of the regex crate that compiles each expression once: nom compiles it at every use, which is most of the time a search takes"""
    src = glob.glob(os.path.join(os.environ.get('CARGO_HOME') or os.path.expanduser('~/.cargo'), 'registry/src/*/regex-1.0.0'))
    try:
        def sub(f, *rs):
            t = open(dst + f).read()
            for a, b in rs:
                if t.count(a) < 1: raise ValueError(a)
                t = t.replace(a, b)
            open(dst + f, 'w').write(t)
        shutil.copytree(src[0], dst, ignore=shutil.ignore_patterns('tests', 'examples', 'benches', 'Cargo.toml.orig', '.cargo*'))
        t = open(dst + '/Cargo.toml').read()
        t = re.sub(r'\[\[(test|bench|example)\]\]\n(?:[^\[\n].*\n|\n)*', '', t)
        t = re.sub(r'\[dev-dependencies[^\]]*\]\n(?:[^\[\n].*\n|\n)*', '', t)
        t = re.sub(r'\[profile[^\]]*\]\n(?:[^\[\n].*\n|\n)*', '', t)
        open(dst + '/Cargo.toml', 'w').write(t)
        sub('/src/exec.rs', ('    cache: CachedThreadLocal<ProgramCache>,', '    cache: Arc<CachedThreadLocal<ProgramCache>>,'),
            ('cache: CachedThreadLocal::new() }', 'cache: Arc::new(CachedThreadLocal::new()) }'),
            ('            cache: CachedThreadLocal::new(),', '            cache: self.cache.clone(),'))
        sub('/src/re_unicode.rs', ('        RegexBuilder::new(re).build()\n', """        thread_local!(static SEEN: ::std::cell::RefCell<::std::collections::HashMap<String, Regex>> = Default::default());
        if let Some(r) = SEEN.with(|s| s.borrow().get(re).cloned()) { return Ok(r); }
        let r = RegexBuilder::new(re).build()?;
        SEEN.with(|s| s.borrow_mut().insert(re.to_string(), r.clone()));
        Ok(r)
"""))
        return True
    except (IndexError, OSError, ValueError) as e:
        log('regex is used as it is: %r' % e)
        shutil.rmtree(dst, ignore_errors=True)
        return False

class Harness:
    def __init__(s, w):
        s.w, s.dir, s.entries, s.why = w, w.path('harness'), list(emit_oracle.ENTRIES), None
        s.dropped = {}
    def build(s):
        t = time.time()
        shutil.copytree(VERIF + '/harness', s.dir, ignore=shutil.ignore_patterns('target'))
        c = open(s.dir + '/Cargo.toml').read().replace('../../repo', REPO)
        s.cached = fast_regex(s.dir + '/regex')
        open(s.dir + '/Cargo.toml', 'w').write(c + ('\n[patch.crates-io]\nregex = { path = "regex" }\n' if s.cached else ''))
        c0 = c
        for _ in range(4):
            open(s.dir + '/src/oracle.rs', 'w').write(emit_oracle.Emit(s.entries).all())
            ent = emit_oracle.emit_entries(s.entries)
            open(s.dir + '/src/entries.rs', 'w').write(ent)
            c, o, e = run(['cargo', 'build', '--release', '--offline', '--message-format=json', '--target-dir', s.w.path('htgt')], cwd=s.dir,
                          env=env(RUSTFLAGS='--cfg elm_verif'))
            if c == 0:
                s.bin = s.w.path('htgt/release/harness')
                log('harness built (%.1fs)%s' % (time.time() - t, ' without %s' % sorted(s.dropped) if s.dropped else ''))
                return s
            el = ent.split('\n')
            bad, msgs = set(), []
            for l in o.decode(errors='replace').split('\n'):
                try: m = json.loads(l)
                except ValueError: continue
                if m.get('reason') != 'compiler-message' or m['message']['level'] != 'error': continue
                msgs.append(m['message'].get('rendered') or m['message']['message'])
                for sp in m['message']['spans']:
                    if sp['file_name'].endswith('entries.rs'):
                        x = re.search(r'// ENTRY (\S+)', el[sp['line_start'] - 1])
                        if x: bad.add(x.group(1))
            if not bad and s.cached:
                s.cached = False
                shutil.rmtree(s.dir + '/regex')
                shutil.copy(VERIF + '/harness/Cargo.lock', s.dir)
                open(s.dir + '/Cargo.toml', 'w').write(c0)
                continue
            if not bad:
                s.why = 'the harness does not build: ' + (msgs[0] if msgs else e.decode(errors='replace'))[-1500:]
                s.bin = None
                log(s.why)
                return s
            for b in bad: s.dropped[b] = 'not callable as expected'
            s.entries = [x for x in s.entries if x not in bad]
        s.bin, s.why = None, 'the harness does not build'
        return s
    def search(s, cfg, secs, seed, dic, maxw=24, threads=8):
        """run one search; (witnesses, stats, samples)"""
        ents = [x for x in cfg['entries'] if x in s.entries]
        if not s.bin or not ents: return [], {'cases': 0, 'distinct': 0}, []
        given = [x for x in cfg.get('given', []) if x in s.entries]
        lg = s.w.path('last')
        for p in glob.glob(lg + '.*'): os.unlink(p)
        cmd = [s.bin, 'search', '--entries', ','.join(ents), '--targets', ','.join(cfg.get('targets', [])) or 'none', '--given', ','.join(given),
               '--mode', cfg.get('mode', 'full'), '--seed', str(seed), '--secs', str(secs), '--max', str(maxw), '--threads', str(threads), '--log', lg]
        if dic: cmd += ['--dict', dic]
        c, o, e = run(cmd, secs + 60)
        ws, st, sa = [], {'cases': 0, 'distinct': 0}, []
        for l in o.decode(errors='replace').split('\n'):
            try: x = json.loads(l)
            except ValueError: continue
            if not isinstance(x, dict) or 'kind' not in x: continue
            if x['kind'] == 'stats': st = x
            elif x['kind'] in ('sample', 'again'): sa.append(x)
            else:
                x['given'], x['mode'] = given, cfg.get('mode', 'full')
                ws.append(x)
        if c not in (0, 3):
            # the process died (a stack overflow, say): the last cases are in the logs
            for p in glob.glob(lg + '.*'):
                try: f, ind, ir, text = open(p, encoding='utf8', errors='replace').read().split('\x02')[0].split('\x01')
                except ValueError: continue
                x = {'entry': f, 'ind': int(ind), 'ir': int(ir), 'text': text, 'given': given, 'mode': cfg.get('mode', 'full')}
                if s.one(x) is None:
                    ws.append(dict(x, kind='died', want=None, got={'died': c}))
        return ws, st, sa
    def regexes(s, obs, secs):
        """bounded: nom's re_matches! against the contracts its expressions are given: [(pattern, functions, result)]"""
        def line(p, sh):
            ks, ps = [x for x in sh[1:] if isinstance(x, tuple)], [str(x) for x in sh[1:] if isinstance(x, int)]
            return '\t'.join([','.join(str(ord(c)) for c in p), sh[0], ','.join(ps)] + [','.join('%d-%d' % r for r in k) for k in ks])
        if not s.bin or not obs: return []
        f = s.w.path('regexes')
        open(f, 'w').write(''.join(line(o['regex'], o['shape']) + '\n' for o in obs))
        c, out, e = run([s.bin, 'regex', '--file', f, '--secs', str(secs)], secs * 3 + 60)
        out = [json.loads(l) for l in out.decode(errors='replace').split('\n') if l.startswith('{')]
        return [(o['regex'], o['where'], r) for o, r in zip(obs, out)] if len(out) == len(obs) else []
    def one(s, x):
        """replay one case on the code; None if the process dies"""
        c, o, e = run([s.bin, 'one', '--entry', x['entry'], '--ind', str(x['ind']), '--ir', str(x['ir']), '--given', ','.join(x.get('given', [])),
                       '--mode', x.get('mode', 'full')], 60, stdin=feed(x['text']))
        try: return json.loads(o.decode(errors='replace').strip().split('\n')[-1])
        except ValueError: return None

def feed(text):
    f = tempfile.TemporaryFile()
    f.write(text.encode('utf8', 'surrogatepass'))
    f.seek(0)
    return f

def both(*fs):
    """run in parallel; exceptions are raised here"""
    out, exc = [None] * len(fs), []
    def g(k):
        try: out[k] = fs[k]()
        except BaseException as e: exc.append(e)
    ts = [threading.Thread(target=g, args=(k,)) for k in range(len(fs))]
    for t in ts: t.start()
    for t in ts: t.join()
    if exc: raise exc[0]
    return out
