#!/usr/bin/env python3
"""check.py <property> [--thorough]: decide one property for the current tree of /repo."""
import json, os, re, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'lib'))
import emit_lem, grammar, pipe, props
from pipe import log

TIER = 'thorough' if '--thorough' in sys.argv or os.environ.get('VERIF_TIER') == 'thorough' else 'quick'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
EV = os.path.join(HERE, 'evidence')

class Report:
    def __init__(s, pid):
        s.pid, s.violations, s.notes = pid, [], []
    def violation(s, data, nff=False):
        os.makedirs(EV, exist_ok=True)
        p = os.path.join(EV, '%s.replay%s.json' % (s.pid, len(s.violations) or ''))
        json.dump(data, open(p, 'w'), indent=1, ensure_ascii=True)
        s.violations.append(p)
        print('VIOLATION property=%s replay=%s%s' % (s.pid, p, ' no-failing-input-found' if nff else ''), flush=True)

def known(pid):
    """findings recorded for the property: [{'what', ..}]"""
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        m = re.match(r'known: property=(\w+) (\{.*?\}) (.*)', l)
        if m and m.group(1) == pid: out.append(dict(json.loads(m.group(2)), what=m.group(3)))
    return out

def baseline_literals():
    x = json.load(open(os.path.join(HERE, 'lib', 'baseline_literals.json')))
    return set(x['strs']), set(x['nums'])

def dictionary(w, d):
    """literals of the code that are not those of the reference tree: hints for the generators, nothing more"""
    bs, bn = baseline_literals()
    st, nu = pipe.literals(d)
    new_s, new_n = sorted(st - bs), sorted(nu - bn)
    p = w.path('dict')
    open(p, 'w').write('\x01'.join(['s' + x for x in new_s] + ['n%d' % x for x in new_n]))
    return p, new_s, new_n

def cone(fs):
    import emit_ref
    seen, todo = [], list(fs)
    while todo:
        f = todo.pop()
        if f in seen: continue
        seen.append(f)
        todo += emit_ref.calls(grammar.FUNS[f].body, [])
    return seen

EFFECT = re.compile(r'^(std::(io|fs|net|process|env|thread|os|time|sync::mpsc|sync::mutex|sync::poison|sync::rwlock|sync::nonpoison)\b|std::rt|core::sync::atomic|core::cell::|std::hash::random|std::collections::hash::.*RandomState|core::ptr::.*(read|write)_volatile|rand|libc)')
CACHE = re.compile(r'\b(OnceLock|LazyLock|OnceCell|LazyCell|Lazy)<.*(Regex|HashSet<&|\[&|Vec<&)')
# the order of what comes out of a hash map is not the same each time
HASHED = re.compile(r'^std::collections::hash::(map|set)::(Iter|IterMut|IntoIter|Keys|IntoKeys|Values|ValuesMut|IntoValues|Drain|ExtractIf|Union|Intersection|Difference|SymmetricDifference)$')
def effects(d):
    """uses, in the bodies of the parser, of anything that is not a function of its arguments: [(function, uses)]"""
    types = d['types']
    eff = {k: t['d'] for k, t in enumerate(types) if t['k'] in ('fndef', 'adt') and EFFECT.match(t.get('d', ''))}
    hashed = {k: t['d'] for k, t in enumerate(types) if t['k'] == 'adt' and HASHED.match(t.get('d', ''))}
    stat = {s['d']: s for s in d['statics'] if s['mut'] or not s['freeze'] and not CACHE.search(s['ty'])}
    out = []
    for b in d['bodies']:
        found = set()
        def walk(x):
            if isinstance(x, dict):
                if x.get('k') == 'static' and (x['d'] in stat or not x['d'].startswith(d['crate'])): found.add('static ' + x['d'])
                if x.get('k') == 'zst' and x.get('ty') in eff: found.add(eff[x['ty']])
                if isinstance(x.get('ty'), int) and x['ty'] in hashed: found.add('order of ' + hashed[x['ty']])
                for v in x.values(): walk(v)
            elif isinstance(x, list):
                for v in x: walk(v)
        walk(b['body'])
        if found: out.append((b['body']['d'], sorted(found)))
    return out

def trusted_scan(path):
    """mechanical scan of the verified text for assumptions"""
    out, ext, ass = [], 0, 0
    last = None
    for l in open(path):
        if l.startswith('// TRUSTED:'): out.append(l[len('// TRUSTED:'):].strip())
        if 'external_body' in l: ext += 1
        if re.search(r'\b(assume|admit)\s*\(|assume_specification|external_type_specification|\baxiom\b', l): ass += 1
    return out, ext, ass

ALWAYS = [
    'rustc: the typed bodies (THIR) that the nightly compiler gives to thirdump are those of the program that the stable compiler builds',
    'lib/lower.py: the translation of typed bodies to Verus (nom macros are already expanded there; values replace references, as nothing is mutated through them)',
    'Verus, vstd and Z3',
    'error payloads (positions, ErrorKind, context stacks) are dropped: an error is only Error, Failure or Incomplete',
    'the derived PartialEq and Clone of the syntax tree types are structural equality and copying (that they are derived is checked)',
    'enough stack and memory for the nesting of the text given',
]

def main(pid):
    if pid in ('C22', 'C23'):
        import tools
        return tools.main(pid, TIER, SEED, Report(pid))
    rep = Report(pid)
    own = props.OWNERS[pid]
    t0 = time.time()
    with pipe.Work() as w:
        st = {'ev': threading.Event()}
        def A():
            try:
                ds = pipe.dump(w)
                st['d'] = ds['elm_parser']
                st['all'] = ds
                st['dict'] = dictionary(w, st['d'])
            finally: st['ev'].set()
            log('typed bodies read')
            leaf = threading.Thread(target=lambda: st.__setitem__('leaf', pipe.leaves(w, st['d'], ds.get('nom'))))
            leaf.start()
            try: st['proof'] = pipe.prove(w, st['d'], theorems=pid if TIER == 'quick' else 'all')
            except pipe.Broken: raise
            except Exception as e:
                import traceback
                st['proof'] = {'ok': False, 'why': 'the verified text could not be made: %s: %s' % (type(e).__name__, e), 'failed': {}, 'unsupported': {}, 'wall': 0, 'rounds': 0, 'spans': {}}
                log(traceback.format_exc())
            leaf.join()
            for f, m in st['leaf']['failed'].items():
                if st['proof']['ok']: st['proof']['unsupported'].setdefault(f, m)
        def B():
            h = st['h'] = pipe.Harness(w).build()
            st['ev'].wait()
            st['base'] = search(h, props.SEARCH[pid], 8 if TIER == 'quick' else 240, st, 4 if TIER == 'quick' else 8, SEED)
        st['cases'], st['distinct'], st['samples'] = 0, 0, []
        def search(h, cfgs, secs, st, threads, seed):
            ws = []
            tot = sum(c['w'] for c in cfgs)
            for k, c in enumerate(cfgs):
                a, s, sa = h.search(c, max(1.0, secs * c['w'] / tot), seed * 1000 + k, st.get('dict', [None])[0], threads=threads)
                ws += a
                st['cases'] += s.get('cases', 0)
                st['distinct'] += s.get('distinct', 0)
                st['samples'] += [x for x in sa if x['kind'] == 'sample'][:6]
                st.setdefault('again', []).extend(x for x in sa if x['kind'] == 'again')
            return ws
        pipe.both(A, B)
        pr, h = st['proof'], st['h']
        st['regex'] = h.regexes(st['leaf']['regex'], 2 if TIER == 'quick' else 60)
        for p, fs, r in st['regex']:
            if r['wrong'] and pr['ok']:
                for f in fs: pr['unsupported'].setdefault(f, 're_matches!(%r) is not what it is taken for: %s' % (p, r['wrong']))
        if not pr['ok'] and not h.bin:
            raise pipe.Broken('neither the verifier nor the harness can be used: %s; %s' % (pr['why'], h.why))
        if pr['ok'] and pr['canary'] < 2:
            raise pipe.Broken('the vacuity canaries were not refuted: the assumptions are contradictory')
        log('base search: %d cases, %d distinct, %d failing inputs' % (st['cases'], st['distinct'], len(st['base'])))
        failed, unsup = pr['failed'], pr['unsupported']
        ws = list(st['base'])
        again_bad = []
        if pid == 'C24':
            ws += c24_search(w, h, st)
        rel = [x for x in ws if props.relevant(pid, x)]
        susp = sorted(set(failed) | set(unsup)) if pr['ok'] else []
        kinds = {'C01': ('totality', 'termination', 'precondition', 'arithmetic', 'postcondition'), 'C24': ()}.get(pid)
        def matters(f):
            return f in own and any(e['kind'] != 'rlimit' and (kinds is None or e['kind'] in kinds) for e in failed[f])
        ownf = [f for f in failed if matters(f)]
        mine = [f for f in susp if f in own]
        if pid in ('C01', 'C24'): mine = ownf + [f for f in unsup]
        if not pr['ok'] and not rel:
            # nothing could be verified: a longer bounded search is all there is
            rel += more_search(search, h, pid, st, props.SEARCH[pid], 60 if TIER == 'quick' else 300, ws)
        elif pid == 'C24' and susp and not rel:
            # what is not known to be a function of its arguments, called twice
            rel += more_search(search, h, pid, st, [dict(c, targets=susp) for c in props.SEARCH[pid]], 40 if TIER == 'quick' else 400, ws)
        elif susp and not rel:
            # the functions in question, reached from the top, with the parts of other properties as they are
            cf = []
            if mine:
                cf = [dict(c, targets=mine) for c in props.SEARCH[pid]]
                if pid != 'C01': cf.append(props.cfg(props.TOPS + [props.TERM, props.FUNC], mine, [], w=0.6))
            else:
                cf = [props.cfg(props.TOPS + [props.EXPR, props.TERM, props.FUNC], susp, [])]
            rel += more_search(search, h, pid, st, cf, (60 if mine else 40) if TIER == 'quick' else 400, ws)
        if rel:
            x = min(rel, key=lambda x: len(x['text']))
            conf = h.one(x) if x['kind'] != 'output' else {'wrong': 'output'}
            rep.violation({'property': pid, 'kind': 'failing input', 'input': x, 'replayed': conf,
                           'all': sorted(rel, key=lambda x: len(x['text']))[:10],
                           'how': 'text %r given to %s (indentation %d): see want (reference grammar) and got (the code)' % (x['text'], x['entry'], x['ind']),
                           'failed_obligations': failed, 'unsupported': unsup})
        elif ownf:
            other = [x for x in ws if any(props.relevant(q, x) for q in props.PRED if q != pid)]
            if other and pid != 'C01':
                rep.notes.append('failed obligations in %s are explained by an input that does not concern this property: %r' % (ownf, other[0]['text']))
            else:
                rep.violation({'property': pid, 'kind': 'failed obligation', 'obligations': {f: failed[f] for f in ownf},
                               'verifier': 'verus', 'searched': {'cases': st['cases'], 'distinct': st['distinct']}}, nff=True)
        if pid == 'C24' and not rep.violations:
            bad = effects(st['d'])
            if bad:
                rep.violation({'property': pid, 'kind': 'failed obligation', 'obligation': 'every function of the parser is a function of its arguments only',
                               'uses': bad, 'statics': st['d']['statics']}, nff=True)
        if pid == 'C01': c01_known(w, h, rep)
        evidence(pid, rep, st, pr, own, t0, w)
    log('done')
    return 1 if rep.violations else 0

def more_search(search, h, pid, st, cfgs, secs, ws):
    end = time.time() + secs
    k = 0
    while time.time() < end:
        k += 1
        new = search(h, cfgs, 10, st, 8, SEED * 77 + k)
        ws += new
        rel = [x for x in new if props.relevant(pid, x)]
        log('targeted search: %d cases so far, %d failing inputs, %d relevant' % (st['cases'], len(ws), len(rel)))
        if rel: return rel
    return []

def c24_search(w, h, st):
    out = []
    if not h.bin: return out
    # nothing may be written
    cap = w.path('captured')
    import subprocess
    for k, c in enumerate(props.SEARCH['C24']):
        ents = [x for x in c['entries'] if x in h.entries]
        cmd = [h.bin, 'search', '--entries', ','.join(ents), '--targets', 'none', '--mode', 'effects', '--seed', str(SEED), '--secs', '5' if TIER == 'quick' else '60',
               '--threads', '1', '--capture', cap]
        if st.get('dict'): cmd += ['--dict', st['dict'][0]]
        _, o, e = pipe.run(cmd, 200)
        for l in o.decode(errors='replace').split('\n'):
            try: x = json.loads(l)
            except ValueError: continue
            if x.get('kind') == 'stats':
                st['cases'] += x['cases']; st['effect_cases'] = x['cases']
            elif x.get('kind') == 'output': out.append(dict(x, given=[], mode='effects'))
        if os.path.exists(cap) and os.path.getsize(cap) and not out:
            out.append({'kind': 'output', 'entry': ents[0], 'ind': 0, 'ir': 0, 'text': '', 'want': None, 'got': {'captured': open(cap, errors='replace').read()[:500]}, 'given': [], 'mode': 'effects'})
    # the same in a fresh process
    n = 0
    for x in st.get('again', [])[:40]:
        y = h.one(dict(x, mode='real'))
        n += 1
        if y is not None and y != x['got']:
            out.append({'kind': 'not repeatable', 'entry': x['entry'], 'ind': x['ind'], 'ir': x['ir'], 'text': x['text'], 'want': y, 'got': x['got'], 'given': [], 'mode': 'real'})
    st['fresh'] = n
    return out

def c01_known(w, h, rep):
    """the recorded finding: each listed input still fails, on an ordinary 8 MB stack"""
    for x in known('C01'):
        if not h.bin: return
        text = x['prefix'] + x['unit'] * x['times']
        c, o, e = pipe.run(['bash', '-c', 'ulimit -s 8192; exec %s one --entry %s --ind 0 --mode real --stack 8' % (h.bin, x['entry'])], 100, stdin=pipe.feed(text))
        if not o.strip(): print('KNOWN-FINDING: property=C01 %s' % x['what'], flush=True)
        else: rep.notes.append('the recorded finding no longer fails: ' + x['what'])

def evidence(pid, rep, st, pr, own, t0, w):
    os.makedirs(EV, exist_ok=True)
    fns = [f for f in cone(own)]
    proved = [f for f in fns if f not in pr['failed'] and f not in pr['unsupported']] if pr['ok'] else []
    tr, ext, ass = trusted_scan(pr['file']) if pr.get('file') else ([], 0, 0)
    leaf = st['leaf']
    if 'why' not in leaf: tr = [x.replace(', and nom InputLength of CompleteStr', '') for x in tr if not x.startswith('nom ')] + ['nom leaf parser %s: %s%s' % (*q, ' (bounded check: leaf_contracts)' if q[0].startswith('re_matches') else '') for q in sorted(leaf['assumed'].items())] + ['(below nom) ' + x for x in leaf['trusted']]
    smt = pr.get('times', {}).get('smt', {})
    per = {}
    def walk(x):
        if isinstance(x, dict):
            if 'function' in x and 'time' in x: per[x['function']] = x
            for v in x.values(): walk(v)
        elif isinstance(x, list):
            for v in x: walk(v)
    walk(smt)
    cov = {
        'obligations': pr.get('verified', 0) + pr.get('errors', 0),
        'discharged': pr.get('verified', 0),
        'obligation_unit': 'verification units of Verus (functions, loop pieces, lemmas, termination checks): each is all the conditions of one function',
        'checker_cmd': 'python3 check.py %s (thirdump -> lib/build_text.py -> verus all.rs --num-threads 8)' % pid,
        'back_end': 'Verus 0.2026.09.13 / Z3',
        'trusted_base': ALWAYS + ['assumed contract: ' + x for x in tr],
        'assumption_scan': {'external_body': ext, 'assume_or_admit': ass},
        'functions_of_the_property': own if len(own) < 60 else len(own),
        'functions_in_cone': len(fns),
        'functions_proved_in_cone': len(proved),
        'functions_bounded_only': {f: pr['unsupported'][f] for f in fns if f in pr['unsupported']} if pr['ok'] else 'all: ' + str(pr.get('why'))[:500],
        'functions_failed': {f: [e['kind'] for e in pr['failed'][f]] for f in fns if f in pr['failed']},
        'other_failed': sorted(f for f in pr['failed'] if f not in fns),
        'failed_lemmas': sorted(pr.get('lemmas', {})),
        'theorems_over_the_reference': {'proved': [x for x in emit_lem.theorem_names(pid) if x not in pr.get('lemmas', {})] if pr['ok'] and not pr.get('theorems_left_out') else [],
                                        'left_out': pr.get('theorems_left_out') if pr['ok'] else 'no proof'},
        'leaf_contracts': {'what': 'contracts of the nom macros and functions at the bottom of the grammar, each proved for nom\'s own code as it is expanded in the code or called by it',
                           'proved': len(leaf['proved']), 'assumed': leaf['assumed'], 'solver_ms': leaf['ms'], 'wall_s': leaf['wall'], 'back_end': 'Verus / Z3',
                           'regular_expressions': {'role': 'bounded: re_matches! with the regex crate against the contract of each expression, on every single character and on all texts up to the given length over the characters at which its classes change',
                                                   'results': [dict(r, expression=p, functions=fs) for p, fs, r in st.get('regex', [])]},
                           **({'not_checked': leaf['why']} if 'why' in leaf else {'contracts': leaf['proved']})},
        'vacuity_canaries_refuted': pr.get('canary', 0),
        'solver_ms': smt.get('total', None) or smt.get('smt-run', None),
        'slowest': sorted(([f, x['time']] for f, x in per.items()), key=lambda q: -q[1])[:5],
        'verifier_wall_s': round(pr['wall'], 1), 'verifier_rounds': pr['rounds'],
        'differential': {'role': 'looks for a failing input; bounded, not counted as proof', 'cases': st['cases'], 'distinct_accepted': st['distinct'],
                         'samples': [x['text'] for x in st['samples'][:8]], 'entries_not_callable': st['h'].dropped if st.get('h') else {}},
    }
    if pid == 'C24': cov['effects'] = {'cases_with_output_captured': st.get('effect_cases', 0), 'repeated_in_a_fresh_process': st.get('fresh', 0), 'statics': st['d']['statics']}
    if rep.notes: cov['notes'] = rep.notes
    json.dump({'property': pid, 'tier': TIER, 'seed': SEED, 'level': 'proof', 'coverage': cov,
               'assumptions': ALWAYS, 'wall_s': round(time.time() - t0, 1), 'violations': len(rep.violations)},
              open(os.path.join(EV, pid + '.json'), 'w'), indent=1)

if __name__ == '__main__':
    try: sys.exit(main(sys.argv[1]))
    except pipe.Broken as e:
        print('check %s: no answer: %s' % (sys.argv[1], e), file=sys.stderr)
        sys.exit(2)
