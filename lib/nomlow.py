"""The leaf contracts of verus/prelude.rs, proved for nom's own code.

verus/exec.rs gives the leaf parsers of nom (tag!, char!, is_a!, take_until_and_consume!, eof!, digit, multispace, ...) contracts without
bodies.  Here the bodies are verified: every expansion of such a macro in the code (from its typed bodies) and every nom function
the code calls, with the nom functions below them (typed bodies of the nom crate, taken from the same cargo run) put in their place, the trait
methods resolved for CompleteStr, &str and char through the headers of nom's own impls.  What is left without a body are methods of str,
char and their iterators (verus/nom.rs).  References, copies and error payloads are erased as in lower.py.
"""
import json, re
import lower, rx
from lower import Unsupported, rs_char, rs_str

ASSOC = {'Item': 'char', 'RawItem': 'char', 'Iter': 'CharIndices', 'IterElem': 'Chars'}     # of the impls for CompleteStr
UNITS = {'Context': 'Ctx', 'ErrorKind': 'EK', 'Needed': 'Needed'}
FUNS = {'digit', 'digit0', 'digit1', 'multispace', 'multispace0', 'multispace1', 'space', 'space0', 'space1', 'anychar', 'alpha', 'alpha0', 'alpha1', 'alphanumeric', 'alphanumeric0',
        'alphanumeric1', 'hex_digit', 'hex_digit0', 'hex_digit1', 'oct_digit', 'oct_digit0', 'oct_digit1'}

def short(t):
    """a type as written in an impl header, without lifetimes and paths"""
    t = re.sub(r"&'\w+ ", '&', t)
    t = re.sub(r"<'\w+>", '', t)
    t = re.sub(r"'\w+, ", '', t)
    return re.sub(r'\b\w+::', '', t)

class Clo:
    def __init__(s, src, e, env): s.src, s.e, s.env = src, e, env

class Src:
    """the typed bodies of one crate"""
    def __init__(s, d):
        s.D, s.T, s.X = d, d['types'], d['expns']
        s.bodies, s.impls = {}, {}
        for b in d['bodies']:
            if not b['body']: continue
            s.bodies[b['body']['d']] = b
            if b['impl']: s.impls[short(b['impl']), b['body']['d'].split('::')[-1]] = b
    def ty(s, i, ts):
        t = s.T[i]
        k = t['k']
        if k == 'ref':
            x = s.ty(t['a'][0], ts)
            return '&str' if x == 'str' else x
        if k == 'adt':
            a = [s.ty(x, ts) for x in t['a']]
            n = t['d'].split('::')[-1]
            return n + ('<%s>' % ', '.join(a) if a and n.startswith('Range') else '')
        if k == 'param': return ts.get(t['n'], '?')
        if k == 'other':
            m = re.search(r'::(\w+)\) *\}, args: \[(\w+)', t['n'])
            if m and ts.get(m.group(2)) == 'CompleteStr': return ASSOC.get(m.group(1), '?')
            return '?'
        return t.get('n', k)

class Nom:
    def __init__(s, nom, crate):
        s.nom, s.own = Src(nom), Src(crate)
        s.n, s.depth = 0, 0
        s.lits = set()

    def fresh(s, p='t'):
        s.n += 1
        return '%s%d' % (p, s.n)
    def strip(s, e):
        while e['k'] in ('borrow', 'deref', 'coerce', 'never'): e = e['e']
        return e
    def E(s, src, e, env, m):
        f = getattr(s, 'e_' + e['k'], None)
        if not f: raise Unsupported(e['k'])
        return f(src, e, env, m)
    def e_borrow(s, src, e, env, m): return s.E(src, e['e'], env, m)
    e_deref = e_coerce = e_never = e_borrow
    def e_var(s, src, e, env, m):
        v = env[src, e['v']]
        if isinstance(v, Clo): raise Unsupported('closure as a value')
        return v
    def e_lit(s, src, e, env, m):
        if e['lk'] == 'str':
            s.lits.add(e['v'])
            return ('x_sl(%s)' if m == 'exec' else 'sl(%s)') % rs_str(e['v'])
        if e['lk'] == 'char': return rs_char(e['v'])
        if e['lk'] == 'bool': return str(e['v']).lower()
        if e['lk'] == 'int': return str(e['v'])
        raise Unsupported('literal')
    def e_un(s, src, e, env, m):
        if e['op'] != 'Not': raise Unsupported(e['op'])
        return '!(%s)' % s.E(src, e['e'], env, m)
    def e_bin(s, src, e, env, m):
        op = {'Eq': '==', 'Ne': '!=', 'Ge': '>=', 'Gt': '>', 'Le': '<=', 'Lt': '<', 'Add': '+'}.get(e['op'])
        if not op: raise Unsupported(e['op'])
        return '(%s %s %s)' % (s.E(src, e['a'], env, m), op, s.E(src, e['b'], env, m))
    def e_logic(s, src, e, env, m):
        return '(%s %s %s)' % (s.E(src, e['a'], env, m), {'And': '&&', 'Or': '||'}[e['op']], s.E(src, e['b'], env, m))
    def e_tuple(s, src, e, env, m):
        return '(%s)' % ', '.join(s.E(src, x, env, m) for x in e['es'])
    def e_field(s, src, e, env, m):
        if src.ty(e['e']['ty'], env['ts']) == 'CompleteStr': return s.E(src, e['e'], env, m)
        raise Unsupported('field')
    def e_adt(s, src, e, env, m):
        a = e['adt'].split('::')[-1]
        fs = [x for _, x in e['fields']]
        if a in UNITS: return UNITS[a]
        if a == 'CompleteStr': return s.E(src, fs[0], env, m)
        if a in ('Result', 'Option'): return e['variant'] + ('(%s)' % ', '.join(s.E(src, x, env, m) for x in fs) if fs else '')
        if a == 'Err' and e['adt'].startswith('nom::'): return 'NErr::%s(%s)' % (e['variant'], s.E(src, fs[0], env, m))
        if a == 'CompareResult': return 'CmpR::' + e['variant']
        if a.startswith('Range'): return '(%s)' % ', '.join(s.E(src, x, env, m) for x in fs)
        raise Unsupported('value of ' + a)
    def e_if(s, src, e, env, m):
        if not e['f']: raise Unsupported('if without else')
        return 'if %s { %s } else { %s }' % (s.E(src, e['c'], env, m), s.E(src, e['t'], env, m), s.E(src, e['f'], env, m))

    def pat(s, src, p, env):
        """(pattern, condition)"""
        k = p['k']
        if k == 'wild': return '_', []
        if k == 'deref': return s.pat(src, p['sub'], env)
        if k == 'bind':
            n = s.fresh('v')
            env[src, p['v']] = n
            if p.get('sub'): raise Unsupported('@')
            return n, []
        if k == 'const':
            v = re.sub(r'_[a-z0-9]+$', '', p['v'])
            if v in ('true', 'false') or v.isdigit(): return v, []
            raise Unsupported('constant')
        if k == 'variant':
            a = p['adt'].split('::')[-1]
            if a in UNITS: return '_', []
            n = ('' if a in ('Result', 'Option') else {'Err': 'NErr::', 'CompareResult': 'CmpR::'}[a]) + p['variant']
            if not p['nf']: return n, []
            subs = dict((i, q) for i, q in p['subs'])
            return '%s(%s)' % (n, ', '.join(s.pat(src, subs[i], env)[0] if i in subs else '_' for i in range(p['nf']))), []
        if k == 'leaf':
            t = src.T[p['ty']]
            subs = dict((i, q) for i, q in p['subs'])
            if t['k'] == 'tuple': return '(%s)' % ', '.join(s.pat(src, subs[i], env)[0] if i in subs else '_' for i in range(len(t['a']))), []
        raise Unsupported('pattern ' + k)

    def e_match(s, src, e, env, m):
        o = 'match %s {' % s.E(src, e['s'], env, m)
        for a in e['arms']:
            if a['g']: raise Unsupported('guard')
            v = dict(env)
            p, _ = s.pat(src, a['p'], v)
            o += ' %s => { %s }' % (p, s.E(src, a['b'], v, m))
        return o + ' }'

    def e_block(s, src, e, env, m):
        b = e['b']
        env = dict(env)
        o = ''
        f = s.any_loop(src, b, env, m)
        if f: return f
        for st in b['stmts']:
            if st['k'] != 'let' or st.get('else'): raise Unsupported('statement')
            t = src.ty(st['p']['ty'], env['ts']) if st['p']['k'] == 'bind' else ''
            i = s.strip(st['i'])
            if i['k'] == 'closure' and st['p']['k'] == 'bind':
                env[src, st['p']['v']] = Clo(src, i, env)
                continue
            x = s.E(src, st['i'], env, m)
            p, _ = s.pat(src, st['p'], env)
            o += 'let %s%s = %s; ' % ('mut ' if t in ('CharIndices', 'Chars') and m == 'exec' else '', p, x)
        if not b['e']: raise Unsupported('block without value')
        x = s.E(src, b['e'], env, m)
        return '{ %s%s }' % (o, x) if o else x

    def any_loop(s, src, b, env, m):
        """{ for x in text.chars() { if c { return K; } } V } with K, V constants and a literal text"""
        if len(b['stmts']) != 1 or b['stmts'][0]['k'] != 'expr' or not b['e'] or b['e']['k'] != 'lit': return None
        e = s.strip(b['stmts'][0]['e'])
        if e['k'] != 'match' or e.get('src') != 'ForLoopDesugar' or m != 'spec': return None
        it = e['s']['args'][0]
        lp = e['arms'][0]['b']['e']['b']['stmts'][0]['e']
        arm = lp['arms'][1]
        body = s.strip(arm['b'])
        while body['k'] == 'block' and not body['b']['stmts']: body = s.strip(body['b']['e'])
        if body['k'] != 'if' or body['f']: return None
        r = s.strip(body['t'])
        if r['k'] != 'block' or len(r['b']['stmts']) != 1: return None
        r = s.strip(r['b']['stmts'][0]['e'])
        if r['k'] != 'return' or r['e']['k'] != 'lit': return None
        c = s.strip(it)
        if c['k'] != 'call' or src.T[c['fty']].get('d') != 'core::str::{impl#0}::chars': return None
        tx = s.E(src, c['args'][0], env, m)
        lit = next((l for l in s.lits if tx == 'sl(%s)' % rs_str(l)), None)
        if lit is None: return None
        v = dict(env)
        bnd = arm['p']['subs'][0][1]
        if bnd['k'] != 'bind': return None
        conds = []
        for ch in lit:            # the loop, for each character of the literal
            v[src, bnd['v']] = rs_char(ch)
            conds.append(s.E(src, body['c'], v, 'spec'))
        return 'if %s { %s } else { %s }' % (' || '.join(conds) or 'false', s.E(src, r['e'], env, m), s.E(src, b['e'], env, m))

    def closure(s, src, e, env):
        e = s.strip(e)
        if e['k'] == 'var' and isinstance(env.get((src, e['v'])), Clo): return env[src, e['v']]
        if e['k'] == 'closure': return Clo(src, e, env)
        raise Unsupported('function value')
    def beta(s, c, args, m):
        """the closure's body with its parameters bound to args (texts)"""
        ps = c.e['body']['params'][1:]
        env = dict(c.env)
        o = ''
        for p, a in zip(ps, args):
            q, _ = s.pat(c.src, p['p'], env)
            o += 'let %s = %s; ' % (q, a)
        return '{ %s%s }' % (o, s.E(c.src, c.e['body']['value'], env, m))
    def pred(s, c, ty):
        x = s.fresh('q')
        return 'Ghost(|%s: %s| %s)' % (x, ty, s.beta(c, [x], 'spec'))

    def fn(s, b, args, targs, m):
        """a function of nom in the place of its call"""
        s.depth += 1
        if s.depth > 12: raise Unsupported('depth')
        body = b['body']
        env = {'ts': dict(zip(b.get('gnames', []), targs))}
        o = ''
        for p, a in zip(body['params'], args):
            if isinstance(a, Clo): env[s.nom, p['p']['v']] = a; continue
            if re.fullmatch(r'sl\("(?:[^"\\]|\\.)*"\)', a) and p['p']['k'] == 'bind': env[s.nom, p['p']['v']] = a; continue
            q, _ = s.pat(s.nom, p['p'], env)
            o += 'let %s = %s; ' % (q, a)
        x = s.E(s.nom, body['value'], env, m)
        s.depth -= 1
        return '{ %s%s }' % (o, x)

    def e_call(s, src, e, env, m):
        t = src.T[e['fty']]
        if t['k'] != 'fndef': raise Unsupported('call')
        d, a = t['d'], e['args']
        n = d.split('::')[-1]
        targs = [src.ty(x, env['ts']) for x in t['a']]
        V = lambda k: s.E(src, a[k], env, m)
        if d == 'core::ops::function::Fn::call':
            return s.beta(s.closure(src, a[0], env), [s.E(src, x, env, m) for x in s.strip(a[1])['es']], m)
        if d == 'core::clone::Clone::clone': return V(0)
        if d.startswith('core::char::methods::'):
            if n == 'is_digit': return ('x_is_digit(%s, %s)' if m == 'exec' else 's_is_digit(%s, %s)') % (V(0), V(1))
            if n == 'len_utf8' and m == 'exec': return 'x_len_utf8(%s)' % V(0)
            if n in ('is_ascii_alphabetic', 'is_ascii_digit', 'is_ascii_alphanumeric', 'is_ascii_hexdigit'): return ('x_' if m == 'exec' else 's_') + '%s(%s)' % (n, V(0))
            raise Unsupported(d)
        if d.startswith('nom::'):
            args = []
            for x in a:
                try: args.append(s.closure(src, x, env))
                except Unsupported: args.append(s.E(src, x, env, m))
            if d in s.nom.bodies: return s.fn(s.nom.bodies[d], args, targs, m)
            tr = d.split('::')[-2]
            key = '<%s as %s%s>' % (targs[0], tr, '<%s>' % ', '.join(targs[1:]) if targs[1:] and tr in ('Slice', 'Compare', 'FindSubstring', 'FindToken') else '')
            b = s.nom.impls.get((key, n))
            if not b: raise Unsupported('no impl ' + key)
            return s.fn(b, args, [], m)
        if m == 'spec': raise Unsupported(d + ' in a specification')
        if d.startswith('core::str::'):
            if n == 'len': return 'x_str_len(%s)' % V(0)
            if n == 'chars': return 'x_chars(%s)' % V(0)
            if n == 'char_indices': return 'x_char_indices(%s)' % V(0)
            if n == 'find' and targs == ['&str']: return 'x_str_find(%s, %s)' % (V(0), V(1))
        if d == 'core::ops::index::Index::index' and targs[0] == 'str':
            f = {'RangeFrom<usize>': 'x_from', 'RangeTo<usize>': 'x_to', 'Range<usize>': 'x_range'}.get(targs[1])
            if f: return '%s(%s, %s)' % (f, V(0), V(1))
        if d == 'core::option::{impl#0}::unwrap': return 'x_unwrap(%s)' % V(0)
        if d == 'core::option::{impl#0}::map':
            x = s.fresh('v')
            return 'match %s { Some(%s) => { Some(%s) } None => { None } }' % (V(0), x, s.beta(s.closure(src, a[1], env), [x], m))
        if d.startswith('core::iter::traits::iterator::Iterator::'):
            it = targs[0]
            x = s.strip(a[0])
            if n == 'next' and it in ('Chars', 'CharIndices'):
                f = {'Chars': 'x_ch_next', 'CharIndices': 'x_ci_next'}[it]
                if x['k'] == 'var': return '%s(&mut %s)' % (f, s.E(src, x, env, m))
                y = s.fresh('v')
                return '{ let mut %s = %s; %s(&mut %s) }' % (y, s.E(src, x, env, m), f, y)
            if n == 'find' and it == 'CharIndices' and x['k'] == 'call':
                return 'x_ci_find(%s, %s)' % (V(0), s.pred(s.closure(src, a[1], env), '(usize, char)'))
            if n == 'zip' and targs[1] == 'Chars': return '(%s, %s)' % (V(0), V(1))
            if n == 'position' and x['k'] == 'call' and it == 'Zip':
                return 'x_zip_position(%s, %s)' % (V(0), s.pred(s.closure(src, a[1], env), '(char, char)'))
        raise Unsupported(d)

# ------------------------------------------------------------------------------------------- the obligations
def tkey(src, i):
    t = src.T[i]
    if t['k'] == 'closure': return 'closure'
    return [t['k'], t.get('d'), t.get('n'), [tkey(src, x) for x in t.get('a', [])]]

def key(src, e, names):
    """the expansion, up to names of variables and places in the text"""
    if isinstance(e, dict):
        o = {}
        for k, v in e.items():
            if k in ('x', 'l', 'lbl', 'file', 'line', 'end', 'd') and not (k == 'd' and e.get('k') == 'const'): continue
            if k == 'ty' or k == 'fty': o[k] = tkey(src, v); continue
            if k == 'v' and e.get('k') in ('var', 'bind'): o[k] = names.setdefault(v, len(names)); continue
            if k == 'n' and e.get('k') == 'bind': continue
            o[k] = key(src, v, names)
        return o
    if isinstance(e, list): return [key(src, x, names) for x in e]
    return e

def sites(crate):
    """[(function, macro, expression)] and the nom functions called, from the code"""
    src = Src(crate)
    L = lower.Lower(crate, {}, rx.Classes())
    out, funs = [], {}
    def walk(e, fn, inside):
        if isinstance(e, dict):
            if 'k' in e:
                mac = L.mac(e)
                if mac in lower.LEAVES and not inside and e['k'] in ('block', 'match', 'if', 'call'):
                    out.append((fn, mac, e))
                    inside = True
                if e['k'] == 'call' and not inside:
                    d = L.callee(e) or ''
                    if d.startswith('nom::') and d.split('::')[-1] in FUNS: funs.setdefault(d, []).append(fn)
                elif e['k'] == 'zst' and not inside:
                    t = crate['types'][e['ty']]
                    if t['k'] == 'fndef' and t['d'].startswith('nom::') and t['d'].split('::')[-1] in FUNS: funs.setdefault(t['d'], []).append(fn)
            for v in e.values():
                if isinstance(v, (dict, list)): walk(v, fn, inside)
        elif isinstance(e, list):
            for v in e: walk(v, fn, inside)
    for p, b in src.bodies.items():
        if '::test' not in p: walk(b['body']['value'], p, False)
    return out, funs

HINT = {'run': 'run_hints(i, %s);', 'tag': 'tag_hints(i, %s);', 'char': 'char_hints(i);', 'until': 'until_hints(i, %s);', 'eof': 'reveal(s_eof); lemma_blen_zero(i@);'}

def hint(spec):
    m = re.match(r's_run[01]\(\w+, (.*)\)$', spec)
    if m: return 'run_hints(i, %s);' % m.group(1)
    m = re.match(r's_(tag|take_until)\(\w+, (.*)\)$', spec)
    if m: return ('tag_hints(i, %s);' if m.group(1) == 'tag' else 'until_hints(i, %s);') % m.group(2)
    if 's_eof' in spec: return 'reveal(s_eof); lemma_blen_zero(i@);'
    return 'char_hints(i);'

def obligations(nom, crate):
    """[{name, what, where, text | why}], the classes used"""
    cls = rx.Classes()
    L = lower.Lower(crate, {}, cls)
    found, funs = sites(crate)
    out, by = [], {}
    src = Src(crate)
    for fn, mac, e in found:
        names = {}
        k = json.dumps(key(src, e, names), sort_keys=True)
        if k in by:
            by[k]['where'].append(fn)
            continue
        o = by[k] = {'name': 'leaf_%d' % len(out), 'mac': mac, 'where': [fn]}
        out.append(o)
        if mac == 're_matches':
            o['why'] = 'the regex crate'
            try:
                r = [n for n in L.find(e, lambda n: n['k'] == 'call' and (L.callee(n) or '').endswith('::new')) if 'regex' in L.callee(n)]
                o['regex'] = L.lit_str(r[0]['args'][0])
                o['shape'] = rx.shape(o['regex'])
            except (Unsupported, rx.Unsupported, KeyError, IndexError, TypeError, ValueError) as x: o['why'] += ': %s' % x
            continue
        try:
            N = Nom(nom, crate)
            bound, used = set(), []
            def w(n):
                if n['k'] == 'bind': bound.add(n['v'])
                if n['k'] == 'var': used.append((n['v'], n['ty']))
            L.walk(e, w)
            free = sorted({v for v, _ in used} - bound)
            if len(free) != 1 or any(L.tname(t) != 'S' for v, t in used if v == free[0]): raise Unsupported('the input of the macro')
            env = {free[0]: 'i'}
            L.lits = set()
            spec = L.leaf(mac, e, env, 'spec')
            m = re.fullmatch(r'\{ let (\w+) = i; (.*) \}', spec)
            if m: spec = m.group(2).replace(m.group(1), 'i') if mac != 'one_of' else spec
            N.own = src
            body = N.E(src, e, {'ts': {}, (src, free[0]): 'i'}, 'exec')
            o['spec'] = spec
            o['text'] = text(o['name'], spec, body, 'char' if mac in ('char', 'one_of', 'none_of') else 'S', L.lits | N.lits)
        except (Unsupported, KeyError, IndexError, TypeError) as x:
            o['why'] = '%s: %s' % (type(x).__name__, x)
    for d in sorted(funs):
        o = {'name': 'leaf_%d' % len(out), 'mac': d, 'where': sorted(set(funs[d]))}
        out.append(o)
        try:
            N = Nom(nom, crate)
            spec = fun_spec(L, d)
            body = N.fn(N.nom.bodies[d], ['i'], ['CompleteStr'], 'exec')
            o['spec'] = spec
            o['text'] = text(o['name'], spec, body, 'char' if d.endswith('anychar') else 'S', N.lits)
        except (Unsupported, KeyError, IndexError, TypeError) as x:
            o['why'] = '%s: %s' % (type(x).__name__, x)
    for tr, n, ty, spec in (('AtEof', 'at_eof', 'bool', 'true'), ('InputLength', 'input_len', 'usize', 's_str_len(i)')):
        o = {'name': 'leaf_%d' % len(out), 'mac': '%s of CompleteStr' % tr, 'where': [], 'spec': spec}
        out.append(o)
        try:
            N = Nom(nom, crate)
            body = N.fn(N.nom.impls['<CompleteStr as %s>' % tr, n], ['i'], [], 'exec')
            o['text'] = 'fn %s(i: S) -> (r: %s)\n  ensures r == %s,\n{\n  %s\n}\n' % (o['name'], ty, spec, body)
        except (Unsupported, KeyError, IndexError, TypeError) as x: o['why'] = '%s: %s' % (type(x).__name__, x)
    up = users(crate)
    for o in out: o['where'] = sorted(set().union(*[up(f) for f in o['where']]))
    return out, cls

def users(crate):
    """the functions under contract that a body belongs to: itself, or those that (through others that are not) use it"""
    import grammar
    src, pre = Src(crate), crate['crate'] + '::'
    uses = {}
    def walk(x, fn):
        if isinstance(x, dict):
            if x.get('k') == 'zst':
                t = crate['types'][x['ty']]
                if t['k'] == 'fndef' and t['d'].startswith(pre): uses.setdefault(t['d'], set()).add(fn)
            for v in x.values(): walk(v, fn)
        elif isinstance(x, list):
            for v in x: walk(v, fn)
    for p, b in src.bodies.items(): walk(b['body'], p)
    def up(f, seen=None):
        seen = seen if seen is not None else set()
        if f[len(pre):] in grammar.FUNS: return {f[len(pre):]}
        if f in seen: return set()
        seen.add(f)
        return set().union(*[up(g, seen) for g in uses.get(f, ())], set())
    return up

CANARY = '''fn vacuity_canary_leaf(i: S, t: S, c: char) requires i@.len() > 3, t@.len() == 2, is_first(t@, i@, 1)
{
  proof { bo_facts(i); bo_facts(t); tag_hints(i, t); char_hints(i); until_hints(i, t); }
  let mut a = x_chars(i); let b = x_ch_next(&mut a); let mut d = x_char_indices(i); let e = x_ci_next(&mut d);
  let f = x_ci_find(x_char_indices(i), Ghost(|q: (usize, char)| q.1 == 'x')); let g = x_zip_position((x_chars(i), x_chars(t)), Ghost(|q: (char, char)| q.0 != q.1));
  let n = x_str_find(i, t); let u = x_len_utf8(c); let v = x_is_digit(c, 10); let z = x_from(i, 0); let y = x_to(i, 0); let l = x_str_len(i);
  match f { Some(q) => { let m = x_from(i, q.0); let o = x_to(i, q.0); } None => {} }
  match n { Some(q) => { let m = x_range(i, (0, q)); } None => {} }
  assert(false);
}
'''
def fun_spec(L, d):
    return L.nom_fun(d.split('::')[-1], ['i'], 'spec')

def text(name, spec, body, ty, lits):
    rl = ''.join(' reveal_strlit(%s);' % rs_str(l) for l in sorted(lits))
    rl += ''.join(' assert(sl(%s)@.len() == %d);' % (rs_str(l), len(l)) for l in sorted(lits))
    return '''#[verifier::spinoff_prover]
fn %s(i: S) -> (r: R<%s>)
  ensures r == %s,
{
  proof {%s %s }
  %s
}
''' % (name, ty, spec, rl, hint(spec), body)

def build(nom, crate, out):
    import os
    V = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'verus')
    obs, cls = obligations(nom, crate)
    ex = [l for l in open(V + '/exec.rs') if re.search(r' fn x_(sl|str_len|unwrap)\b', l)]
    t = '\n'.join([open(V + '/prelude.rs').read(), cls.emit(), ''.join(ex), open(V + '/nom.rs').read()])
    spans = {}
    for o in obs:
        if 'text' in o:
            a = t.count('\n') + 2
            t += '\n' + o['text']
            spans[o['name']] = (a, t.count('\n') + 1)
    t += '\n' + CANARY + '} // verus!\nfn main() {}\n'
    open(out, 'w').write(t)
    return obs, spans
