"""Loops over lists, as folds: the variables a loop assigns are its state, each round is a function of state and element.
The same text serves as the specification of a round and as what the verified function executes.
    for x in list { .. }                     fold over list
    for i in a..b { .. v[i] .. }             fold over v[a..b]      (i only ever indexes v)
    while i < b { .. v[i] ..; i += 1 }       fold over v[i..b]
    while i > 0 { i -= 1; .. v[i] .. }       fold over v[..i] reversed
    while let Some(x) = v.pop() / it.next()  fold over v reversed / it
`break` and `continue`: after a break the remaining rounds leave the state as it is."""
import re

class Loop:
    """lst(mode) -> text, pattern, body statement, after: [(variable, text)] what else has changed once it is over"""
    def __init__(s, lst, pat, body, after=()): s.lst, s.pat, s.body, s.after = lst, pat, body, list(after)

def own(low, e, kinds, inside=False):
    """nodes of these kinds below e, not inside closures (nor inside further loops)"""
    o = []
    def go(x):
        if isinstance(x, list):
            for y in x: go(y)
        elif isinstance(x, dict):
            k = x.get('k')
            if k in kinds and 'l' in x: o.append(x)
            if k == 'closure' or (k == 'loop' and inside): return
            for y in x.values():
                if isinstance(y, (dict, list)): go(y)
    go(e)
    return o

def state(low, body):
    """variables assigned by the body and not its own"""
    out = set(low.assigned(body))
    decl = {n['v'] for n in bindings(low, body)}
    return sorted(out - decl)

def bindings(low, e):
    o = []
    def go(x):
        if isinstance(x, list):
            for y in x: go(y)
        elif isinstance(x, dict):
            if x.get('k') == 'bind': o.append(x)
            for y in x.values():
                if isinstance(y, (dict, list)): go(y)
    go(e)
    return o

def block_stmts(low, e):
    """statements of a body as expressions / lets, flattened: [stmt], or None"""
    x = low.strip(e)
    if x['k'] != 'block': return [{'k': 'expr', 'e': x}]
    st = list(x['b']['stmts'])
    if x['b']['e'] is not None: st.append({'k': 'expr', 'e': x['b']['e']})
    if len(st) == 1 and st[0]['k'] == 'expr' and low.strip(st[0]['e'])['k'] == 'block': return block_stmts(low, st[0]['e'])
    return st

def mkblock(e, st):
    return {'k': 'block', 'b': {'stmts': st, 'e': None}, 'ty': e['ty'], 'x': -1, 'l': e.get('l', 0)}

def inner(low, e):
    x = low.strip(e)
    while x['k'] == 'block':
        st = x['b']['stmts']
        if len(st) == 1 and x['b']['e'] is None and st[0]['k'] == 'expr': x = low.strip(st[0]['e'])
        elif not st and x['b']['e'] is not None: x = low.strip(x['b']['e'])
        else: break
    return x

def is_break(low, e):
    x = inner(low, e)
    return x['k'] == 'break' and not x.get('e')

def subst_index(low, body, i, found):
    """body with v[i] replaced by an element variable; found: {list variable}; None when i occurs otherwise"""
    low.newvar += 1
    el = low.newvar
    bad = []
    ty = []
    def go(x):
        if isinstance(x, list): return [go(y) for y in x]
        if not isinstance(x, dict): return x
        if x.get('k') in ('call', 'index'):
            v = index_of(low, x, i)
            if v is not None:
                found.add(v)
                ty.append(x['ty'])
                return {'k': 'var', 'v': el, 'ty': x['ty'], 'x': -1, 'l': x.get('l', 0)}
        if x.get('k') == 'var' and x.get('v') == i: bad.append(1)
        return {a: go(b) if isinstance(b, (dict, list)) else b for a, b in x.items()}
    r = go(body)
    if bad or len(found) != 1: return None
    return r, {'k': 'bind', 'v': el, 'ty': ty[0], 'sub': None}

def index_of(low, x, i):
    if x['k'] == 'index': a = [x['a'], x['b']]
    elif low.callee(x) == 'core::ops::index::Index::index': a = x['args']
    else: return None
    b, c = low.strip(a[0]), low.strip(a[1])
    if b['k'] == 'var' and c['k'] == 'var' and c['v'] == i: return (b['v'], b['ty'])
    return None

def step(low, st, i, op):
    """is the statement i += 1 (i -= 1)?"""
    if st['k'] != 'expr': return False
    x = low.strip(st['e'])
    one = lambda y: low.strip(y)['k'] == 'lit' and low.strip(y)['v'] in ('1', 1)
    var = lambda y: low.strip(y)['k'] == 'var' and low.strip(y)['v'] == i
    if x['k'] == 'assignop': return x['op'].replace('Assign', '') == op and var(x['a']) and one(x['b'])
    if x['k'] == 'assign':
        y = low.strip(x['b'])
        return var(x['a']) and y['k'] == 'bin' and y['op'] == op and var(y['a']) and one(y['b'])
    return False

def fixed(low, e, body):
    """does the body leave the variables of e alone?"""
    return not {n['v'] for n in low.find(e, lambda n: n['k'] == 'var')} & set(low.assigned(body))

def recognise(low, e, env):
    """Loop or None, for a `for` (match) or a `loop` node"""
    f = low.for_loop(e) if e['k'] == 'match' else None
    if f:
        sc, pat, body = f
        arg = low.strip(sc['args'][0])
        rev = False
        while arg['k'] == 'call' and (low.callee(arg) or '').startswith('core::iter::traits::') and low.callee(arg).split('::')[-1] in ('rev', 'into_iter'):
            if low.callee(arg).endswith('::rev'): rev = not rev
            arg = low.strip(arg['args'][0])
        if arg['k'] == 'adt' and arg['adt'] in ('core::ops::range::Range', 'core::ops::Range', 'core::range::Range') and pat['k'] == 'bind':
            fs = dict(arg['fields'])
            found = set()
            r = subst_index(low, body, pat['v'], found)
            if not r: return None
            body2, pat2 = r
            v, ty = found.pop()
            if v in low.assigned(body): return None
            text = lambda m: wrap(low, span(low, v, ty, fs['start'], fs['end'], env, m), rev, m)
            return Loop(text, pat2, body2)
        return Loop(lambda m: low.list_of(sc, env, m), pat, body)
    if e['k'] != 'loop': return None
    x = inner(low, e['e'])
    if x['k'] == 'if' and x['f'] is not None and is_break(low, x['f']):
        c, body = x['c'], x['t']
        if c['k'] == 'let': return drain(low, c['p'], c['e'], body, env)
        return counted(low, c, body, env)
    if x['k'] == 'match' and len(x['arms']) == 2 and all(a['g'] is None for a in x['arms']):
        a, b = x['arms']
        if is_break(low, a['b']): a, b = b, a
        if is_break(low, b['b']): return drain(low, a['p'], x['s'], a['b'], env)
    return None

def drain(low, p, e, body, env):
    x = low.strip(e)
    if x['k'] != 'call' or p['k'] != 'variant' or p['variant'] != 'Some': return None
    d = low.callee(x) or ''
    n = d.split('::')[-1]
    v = low.strip(x['args'][0])
    if v['k'] != 'var' or v['v'] in low.assigned(body): return None
    name = low.E(v, env, 'spec')
    t = low.tname(v['ty'])
    if not t.startswith('L<'): return None
    nil = lambda m: low.xprim('vnil::<%s>' % t[2:-1], [], m)
    pat = p['subs'][0][1]
    if d.startswith('alloc::vec') and n == 'pop': return Loop(lambda m: wrap(low, name, True, m), pat, body, [(v['v'], nil)])
    if d == 'core::iter::traits::iterator::Iterator::next': return Loop(lambda m: name, pat, body, [(v['v'], nil)])
    return None

def counted(low, c, body, env):
    c = low.strip(c)
    if c['k'] != 'bin': return None
    a, b, op = low.strip(c['a']), low.strip(c['b']), c['op']
    if op in ('Gt', 'Ge') and b['k'] == 'var' or op == 'Ne' and a['k'] != 'var': a, b, op = b, a, {'Gt': 'Lt', 'Ge': 'Le', 'Ne': 'Ne'}[op]
    st = block_stmts(low, body)
    if a['k'] != 'var' or not st or low.tname(a['ty']) != 'usize': return None
    i = a['v']
    zero = b['k'] == 'lit' and b['v'] in ('0', 0)
    found = set()
    if zero and op in ('Gt', 'Ne') and step(low, st[0], i, 'Sub'):
        r = subst_index(low, mkblock(body, st[1:]), i, found)
        if not r: return None
        v, ty = found.pop()
        if v in low.assigned(body): return None
        return Loop(lambda m: wrap(low, low.xprim('take_l', [low.E({'k': 'var', 'v': v, 'ty': ty, 'x': -1}, env, m), 'v_%d' % i], m), True, m), r[1], r[0], [(i, lambda m: '0usize')])
    if op == 'Lt' and step(low, st[-1], i, 'Add') and fixed(low, b, body):
        r = subst_index(low, mkblock(body, st[:-1]), i, found)
        if not r: return None
        v, ty = found.pop()
        if v in low.assigned(body): return None
        return Loop(lambda m: span(low, v, ty, a, b, env, m), r[1], r[0], [(i, lambda m: '(if v_%d < %s { %s } else { v_%d })' % (i, low.E(b, env, m), low.E(b, env, m), i))])
    return None

def is_len(low, e, v):
    x = low.strip(e)
    if x['k'] != 'call' or (low.callee(x) or '').split('::')[-1] != 'len': return False
    y = low.strip(x['args'][0])
    return y['k'] == 'var' and y['v'] == v

def span(low, v, ty, a, b, env, m):
    t = low.E({'k': 'var', 'v': v, 'ty': ty, 'x': -1}, env, m)
    if not is_len(low, b, v): t = low.xprim('take_l', [t, low.E(b, env, m)], m)
    x = low.strip(a)
    if x['k'] == 'lit' and x['v'] in ('0', 0): return t
    return low.xprim('skip_l', [t, low.E(a, env, m)], m)

def wrap(low, t, rev, m): return low.xprim('rev_l', [t], m) if rev else t

# ---------------------------------------------------------------- statements as functions of the state
class Round:
    def __init__(s, low, vs, m, brk):
        """vs: the state (variable numbers); brk: is there a break?"""
        s.low, s.vs, s.m, s.brk = low, vs, m, brk

    def tup(s, vs=None, done='false'):
        vs = s.vs if vs is None else vs
        xs = ['v_%d' % v for v in vs] + ([done] if s.brk and vs is s.vs else [])
        return pack(xs)

    def run(s, st, env, k):
        """text of the rest of the round from the statements st on; k() is what follows"""
        low, m = s.low, s.m
        if not st: return k()
        x, rest = st[0], st[1:]
        nxt = lambda env2=env: s.run(rest, env2, k)
        if x['k'] == 'let':
            if x.get('els'): raise low.Unsupported('let else in a loop')
            env2 = dict(env)
            t = low.let(x['p'], x['i'], env2, m)
            return '{ %s %s }' % (t, nxt(env2))
        e = low.strip(x['e'])
        if low.is_noise(e): return nxt()
        if e['k'] == 'block': return s.run(block_stmts(low, e), dict(env), nxt)
        if e['k'] in ('assign', 'assignop') or e['k'] == 'call':
            ch = low.change(e, env, m)
            if ch is None:
                if e['k'] == 'call' and not low.assigned(e): return nxt()      # a value nobody uses
                raise low.Unsupported('statement in a loop')
            return '{ %s %s }' % (' '.join('let v_%d = %s;' % q for q in ch), nxt())
        if e['k'] == 'continue': return s.tup()
        if e['k'] == 'break':
            if e.get('e'): raise low.Unsupported('break with a value')
            return s.tup(done='true')
        lp = recognise(low, e, env)
        if lp:
            vs, t = fold(low, lp, env, m)
            after = ' '.join('let v_%d = %s;' % (v, f(m)) for v, f in lp.after)
            return '{ let %s = %s; %s %s }' % (pack(['v_%d' % v for v in vs]) if vs else '_', t, after, nxt())
        if e['k'] in ('if', 'match'):
            jumps = own(low, e, ('break', 'continue'), True)
            vs = state(low, e)
            if jumps: leaf = nxt
            else: leaf = lambda: pack(['v_%d' % v for v in vs])
            sub = lambda y: s.run(block_stmts(low, y), dict(env), leaf) if y is not None else leaf()
            if e['k'] == 'if':
                c = e['c']
                if c['k'] == 'let':
                    p, g = low.gpat(c['p'], m)
                    t = low.arms(low.E(c['e'], env, m), [(p, g, sub(e['t'])), ('_', None, sub(e['f']))], m)
                else: t = 'if %s { %s } else { %s }' % (low.E(c, env, m), sub(e['t']), sub(e['f']))
            else:
                if low.desugar(e) in ('ForLoop', 'QuestionMark'): raise low.Unsupported('loop')
                o = []
                for a in e['arms']:
                    p, g = low.gpat(a['p'], m)
                    if a['g'] is not None:
                        h = low.E(a['g'], env, m)
                        g = '%s && (%s)' % (g, h) if g else h
                    o.append((p, g, sub(a['b'])))
                t = low.arms(low.E(e['s'], env, m), o, m)
            if jumps: return t
            if not vs: return nxt()
            return '{ let %s = %s; %s }' % (pack(['v_%d' % v for v in vs]), t, nxt())
        if e['k'] == 'tuple' and not e['es']: return nxt()
        raise low.Unsupported('statement in a loop: ' + e['k'])

def pack(xs): return xs[0] if len(xs) == 1 else '(%s)' % ', '.join(xs)

def fold(low, lp, env, m):
    """(state variables, text of the fold: the value is the state at the end)"""
    vs = state(low, lp.body)
    if not vs: raise low.Unsupported('loop without effect')
    brk = bool(own(low, lp.body, ('break',), True))
    if own(low, lp.body, ('return',)): raise low.Unsupported('return in a loop')
    tys = [low.tname(low.vt['v_%d' % v]) for v in vs]
    sty = pack(tys + ['bool'] * brk)
    et = low.tname(lp.pat['ty'])
    env2 = dict(env)
    for b in bindings(low, lp.pat): env2.pop(b['v'], None)
    l = lp.lst(m)
    mut0 = low.mut
    low.mut = set()
    low.func += 1
    def body(mode, st, el):
        r = Round(low, vs, mode, brk)
        t = r.run(block_stmts(low, lp.body), env2, r.tup)
        if brk: t = 'if brk_%d { %s } else { %s }' % (n, r.tup(done='true'), t)
        return '{ let %s = %s; let %s = %s; %s }' % (pack(['v_%d' % v for v in vs] + ['brk_%d' % n] * brk), st, low.pat(lp.pat), el, t)
    low.loops += 1
    n = low.loops
    g1, g2 = low.fresh('g'), low.fresh('g')
    bound0, low.bound = low.bound, set()
    fb = body('spec', g1, g2)
    f = '|%s: %s, %s: %s| %s' % (g1, sty, g2, et, fb)
    init = pack(['v_%d' % v for v in vs] + ['false'] * brk)
    if m == 'spec':
        t = 'fold_l(%s, %s, %s)' % (l, init, f)
        if brk: t = '{ let %s = %s; %s }' % (pack(['v_%d' % v for v in vs] + ['_']), t, pack(['v_%d' % v for v in vs]))
    else:
        bt = body('exec', 'st_%d' % n, 'el_%d' % n)
        inner = {'v_%d' % v for v in vs} | low.bound
        free = []
        for v in re.findall(r'\bv_\d+\b', fb + bt):
            if v not in inner and v not in free: free.append(v)
        # the loop is a function of its own
        ftys = [low.tname(low.vt[v]) for v in free]
        name = 'w_%s_%d' % (low.fname, n)
        t = '''fn {name}(l_{n}: L<{et}>, a0_{n}: {sty}{ps}) -> (r: {sty})
  ensures r == fold_l(l_{n}, a0_{n}, {f})
{
let ghost f_{n} = {f};
let mut st_{n}: {sty} = a0_{n};
let mut k_{n}: usize = 0;
let n_{n}: usize = x_vec_len(l_{n});
while k_{n} < n_{n}
 invariant k_{n} <= n_{n}, n_{n} == l_{n}@.len(), st_{n} == fold_to(l_{n}, a0_{n}, f_{n}, k_{n} as int),
 decreases n_{n} - k_{n}
{
let el_{n} = x_index(l_{n}, k_{n});
st_{n} = {body};
k_{n} = k_{n} + 1;
}
st_{n}
}'''
        ps = ''.join(', %s: %s' % q for q in zip(free, ftys))
        for a, b in (('{ps}', ps), ('{name}', name), ('{et}', et), ('{f}', f), ('{sty}', sty), ('{body}', bt), ('{n}', str(n))): t = t.replace(a, b)
        low.helpers.append('#[verifier::spinoff_prover]\n#[verifier::loop_isolation(false)]\n' + t)
        t = '%s(%s)' % (name, ', '.join([l, init] + free))
        if brk: t = '{ let %s = %s; %s }' % (pack(['v_%d' % v for v in vs] + ['_']), t, pack(['v_%d' % v for v in vs]))
    low.bound = bound0 | low.bound
    low.func -= 1
    low.mut = mut0
    return vs, t

def exec_text(low, lp, env):
    """the loop as a statement"""
    vs, t = fold(low, lp, env, 'exec')
    o = '{\n'
    z = low.fresh('z')
    o += 'let %s = %s;\n' % (z, t)
    for k, v in enumerate(vs): o += 'v_%d = %s;\n' % (v, z if len(vs) == 1 else '%s.%d' % (z, k))
    for v, f in lp.after: o += 'v_%d = %s;\n' % (v, f('exec'))
    return o + '}'
