"""Removes `return`, `?` and let-else from a typed body by moving what follows into the branches that go on:
    { if c { return a; } rest }        ->  if c { a } else { rest }
    { let p = x?; rest }               ->  match x { Ok(p) => rest, Err(e) => Err(e) }
    for x in [a, b] { .. return .. }   ->  the body once per element of a constant array
The order of evaluation is kept.  Raises NoRet where this cannot be done (a return out of a loop)."""
import copy
import loops

class NoRet(Exception): pass

class Conv:
    def __init__(s, low, ret):
        s.low, s.ret, s.copies, s.memo = low, ret, 0, {}

    def has(s, e):
        """is there a return (of this body) below e?"""
        if isinstance(e, list): return any(map(s.has, e))
        if not isinstance(e, dict): return False
        i = id(e)
        if i in s.memo: return s.memo[i][1]
        k = e.get('k')
        r = k == 'return' or k != 'closure' and (k == 'let' and bool(e.get('els')) or any(s.has(v) for v in e.values() if isinstance(v, (dict, list))))
        s.memo[i] = (e, r)
        return r

    def node(self, e, **kw):
        return dict({"ty": self.ret, 'x': -1, 'l': e.get('l', 0)}, **kw)

    def seq(s, first, rest):
        """first; rest"""
        return s.node(first, k='block', b={'stmts': [{'k': 'expr', 'e': first}], 'e': rest})

    def var(s, ty):
        s.low.newvar += 1
        v = s.low.newvar
        return {'k': 'bind', 'v': v, 'ty': ty, 'sub': None}, {'k': 'var', 'v': v, 'ty': ty, 'x': -1, 'l': 0}

    def dup(s):
        s.copies += 1
        if s.copies > 60: raise NoRet('too many copies')

    def conv(s, e, k):
        """e with its returns taken out; its value goes to k"""
        if e is None: return k({'k': 'tuple', 'es': [], 'ty': -1, 'x': -1, 'l': 0})
        if not s.has(e): return k(e)
        t = e['k']
        if t == 'return': return s.conv(e['e'], lambda v: v)
        if t == 'never': return s.conv(e['e'], lambda v: k(dict(e, e=v)))
        if t in ('borrow', 'deref', 'coerce', 'cast', 'un', 'field'): return s.conv(e['e'], lambda v: k(dict(e, e=v)))
        if t == 'block':
            b = e['b']
            return s.stmts(e, b['stmts'], b['e'], k)
        if t == 'if':
            if e['c']['k'] == 'let':
                return s.conv(e['c']['e'], lambda v: s.branch(e, k, dict(e['c'], e=v)))
            if e['c']['k'] == 'logic' and s.has(e['c']): raise NoRet('return in a condition')
            return s.conv(e['c'], lambda v: s.branch(e, k, v))
        if t == 'match':
            q = s.question(e)
            if q is not None: return s.conv(q, lambda v: s.unwrap(e, v, k))
            f = s.low.for_loop(e)
            if f: return s.unroll(e, f, k)
            if any(s.has(a['g']) for a in e['arms']): raise NoRet('return in a guard')
            def arms(v):
                o = []
                for a in e['arms']:
                    if not s.diverges(a['b']): s.dup()
                    o.append(dict(a, b=s.conv(a['b'], k)))
                return s.node(e, k='match', s=v, arms=o, src='Normal')
            return s.conv(e['s'], arms)
        if t in ('call', 'tuple', 'array', 'adt', 'bin', 'assign', 'assignop', 'index'):
            return s.parts(e, k)
        raise NoRet('return inside ' + t)

    def branch(s, e, k, c):
        for x in (e['t'], e['f']):
            if not s.diverges(x): s.dup()
        return s.node(e, k='if', c=c, t=s.conv(e['t'], k), f=s.conv(e['f'], k))

    def parts(s, e, k):
        """an expression with operands: those up to the last one with a return go into variables, in order"""
        key = {'call': 'args', 'tuple': 'es', 'array': 'es', 'adt': 'fields'}.get(e['k'])
        if key: xs = [x[1] for x in e[key]] if key == 'fields' else e[key]
        else: xs = [e['b']] if e['k'] in ('assign', 'assignop') else [e['a'], e['b']]
        last = max(i for i, x in enumerate(xs) if s.has(x)) if any(map(s.has, xs)) else -1
        if last < 0: raise NoRet('return inside ' + e['k'])
        def back(ys):
            if key == 'fields': return dict(e, fields=[[x[0], y] for x, y in zip(e['fields'], ys)])
            if key: return dict(e, **{key: ys})
            if len(ys) == 1: return dict(e, b=ys[0])
            return dict(e, a=ys[0], b=ys[1])
        def go(i, ys):
            if i > last: return k(back(ys + xs[i:]))
            if not s.has(xs[i]) and s.simple(xs[i]): return go(i + 1, ys + [xs[i]])
            def bound(v):
                p, u = s.var(v['ty'] if v['ty'] >= 0 else xs[i]['ty'])
                return s.node(e, k='block', b={'stmts': [{'k': 'let', 'p': p, 'i': v, 'els': None}], 'e': go(i + 1, ys + [u])})
            return s.conv(xs[i], bound)
        return go(0, [])

    def simple(s, e):
        while e['k'] in ('borrow', 'deref', 'coerce'): e = e['e']
        return e['k'] in ('var', 'lit', 'const', 'zst', 'closure')

    def stmts(s, e, st, tail, k):
        if not st:
            if tail is None: return k({'k': 'tuple', 'es': [], 'ty': -1, 'x': -1, 'l': 0})
            return s.conv(tail, k)
        x, rest = st[0], st[1:]
        go = lambda: s.stmts(e, rest, tail, k)
        if x['k'] == 'expr':
            if s.diverges(x['e']): return s.conv(x['e'], lambda v: v)
            return s.conv(x['e'], lambda v: go() if v['k'] == 'tuple' and not v['es'] else s.cons({'k': 'expr', 'e': v}, go(), e))
        if x.get('els'):
            return s.conv(x['i'], lambda v: s.node(e, k='match', s=v, src='Normal', arms=[
                {'p': x['p'], 'g': None, 'b': go()}, {'p': {'k': 'wild', 'ty': x['p']['ty']}, 'g': None, 'b': s.conv(x['els'], lambda u: u)}]))
        if x['i'] is None: return s.cons(x, go(), e)
        return s.conv(x['i'], lambda v: s.cons(dict(x, i=v), go(), e))

    def cons(s, st, rest, e):
        return s.node(e, k='block', b={'stmts': [st], 'e': rest})

    def diverges(s, e):
        """does control never come out of e?"""
        if e is None: return False
        t = e['k']
        if t == 'return': return True
        if t in ('never', 'borrow', 'coerce'): return s.diverges(e['e'])
        if t == 'block':
            b = e['b']
            return any(s.diverges(x['e'] if x['k'] == 'expr' else x['i']) for x in b['stmts']) or s.diverges(b['e'])
        if t == 'if': return s.diverges(e['t']) and s.diverges(e['f'])
        if t == 'match': return s.question(e) is None and s.low.desugar(e) != 'ForLoop' and bool(e['arms']) and all(s.diverges(a['b']) for a in e['arms'])
        return False

    def question(s, e):
        sc = s.low.strip(e['s'])
        if s.low.desugar(e) == 'QuestionMark' or e.get('src') == 'TryDesugar':
            if sc['k'] == 'call' and s.low.callee(sc) == 'core::ops::try_trait::Try::branch': return sc['args'][0]
        return None

    def unwrap(s, e, v, k):
        T = s.low.T
        vt, rt = T[v['ty']], T[s.ret]
        if vt['k'] != 'adt' or rt['k'] != 'adt' or vt['d'] != rt['d']: raise NoRet('? between different types')
        if vt['d'] == 'core::option::Option':
            p, u = s.var(vt['a'][0])
            return s.node(e, k='match', s=v, src='Normal', arms=[
                {'p': s.vp(vt['d'], 'Some', v['ty'], [p]), 'g': None, 'b': k(u)},
                {'p': s.vp(vt['d'], 'None', v['ty'], []), 'g': None, 'b': s.node(e, k='adt', adt=vt['d'], variant='None', enum=True, fields=[], base=None)}])
        if vt['d'] != 'core::result::Result': raise NoRet('? on ' + vt['d'])
        if s.low.tname(vt['a'][1]) != s.low.tname(rt['a'][1]): raise NoRet('? converts the error')
        p, u = s.var(vt['a'][0])
        q, w = s.var(vt['a'][1])
        return s.node(e, k='match', s=v, src='Normal', arms=[
            {'p': s.vp(vt['d'], 'Ok', v['ty'], [p]), 'g': None, 'b': k(u)},
            {'p': s.vp(vt['d'], 'Err', v['ty'], [q]), 'g': None, 'b': s.node(e, k='adt', adt=vt['d'], variant='Err', enum=True, fields=[['0', w]], base=None)}])

    def vp(s, adt, var, ty, subs):
        return {'k': 'variant', 'adt': adt, 'variant': var, 'ty': ty, 'nf': len(subs), 'subs': [[i, q] for i, q in enumerate(subs)]}

    def unroll(s, e, f, k):
        sc, p, body = f
        els = s.low.const_elems(s.list_arg(sc))
        if els is None or len(els) > 40: return s.flagged(e, sc, p, body, k)
        if s.low.find(body, lambda n: n['k'] in ('break', 'continue')): raise NoRet('break in a loop with return')
        st = []
        for x in els:
            st.append({'k': 'expr', 'e': {'k': 'block', 'b': {'stmts': [{'k': 'let', 'p': p, 'i': x, 'els': None}, {'k': 'expr', 'e': body}], 'e': None}, 'ty': -1, 'x': -1, 'l': 0}})
        return s.stmts(e, st, None, k)

    def flagged(s, e, sc, p, body, k):
        """for x in list { .. return c .. }, c a constant and nothing else changed by the loop:
           found = false; for x in list { .. found = true .. }; if found { c } else { rest }"""
        low = s.low
        if loops.state(low, body): raise NoRet('return out of a loop with effects')
        if loops.own(low, body, ('break',), True): raise NoRet('break in a loop with return')
        rets = loops.own(low, body, ('return',))
        cs = [low.strip(r['e']) if r.get('e') is not None else None for r in rets]
        if any(c is None or not s.constant(c) for c in cs) or len({low.E(c, {}, 'spec') for c in cs}) != 1: raise NoRet('return of different values in a loop')
        tb = next((i for i, x in enumerate(low.T) if x.get('n') == 'bool'), None)
        if tb is None: raise NoRet('no bool')
        low.newvar += 1
        v = low.newvar
        bind = {'k': 'bind', 'v': v, 'ty': tb, 'sub': None}
        use = {'k': 'var', 'v': v, 'ty': tb, 'x': -1, 'l': e.get('l', 0)}
        lit = lambda b: {'k': 'lit', 'lk': 'bool', 'v': b, 'ty': tb, 'x': -1, 'l': 0}
        ids = {id(r) for r in rets}
        jump = lambda r: {'k': 'block', 'ty': r['ty'], 'x': -1, 'l': r.get('l', 0), 'b': {'stmts': [
            {'k': 'expr', 'e': {'k': 'assign', 'a': use, 'b': lit(True), 'ty': -1, 'x': -1, 'l': 0}},
            {'k': 'expr', 'e': {'k': 'continue', 'ty': r['ty'], 'x': -1, 'l': 0}}], 'e': None}}
        def go(x):
            if isinstance(x, list): return [go(y) for y in x]
            if not isinstance(x, dict): return x
            if id(x) in ids: return jump(x)
            return {a: go(b) if isinstance(b, (dict, list)) else b for a, b in x.items()}
        loop = go(e)
        if s.has(loop): raise NoRet('return out of a loop')
        s.dup()
        return s.node(e, k='block', b={'stmts': [
            {'k': 'let', 'p': bind, 'i': lit(False), 'els': None}, {'k': 'expr', 'e': loop}],
            'e': s.node(e, k='if', c=use, t=cs[0], f=k({'k': 'tuple', 'es': [], 'ty': -1, 'x': -1, 'l': 0}))})

    def constant(s, c):
        if c['k'] == 'lit': return True
        return c['k'] == 'adt' and not c.get('base') and all(s.constant(s.low.strip(x[1])) for x in c['fields']) or c['k'] == 'tuple' and all(s.constant(s.low.strip(x)) for x in c['es'])

    def list_arg(s, sc):
        x = s.low.strip(sc['args'][0])
        while x['k'] == 'call' and (s.low.callee(x) or '').split('::')[-1] in ('iter', 'into_iter', 'cloned', 'copied'): x = s.low.strip(x['args'][0])
        return x

def convert(low, body):
    """the body (a function's or closure's value expression) without returns"""
    v = body['value']
    c = Conv(low, v['ty'])
    if not c.has(v): return v
    return c.conv(v, lambda x: x)
