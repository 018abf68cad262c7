"""Reference grammar (grammar.py) -> Verus spec functions ref_*, their T lemmas, ranks."""
import grammar, rx
from lower import rs_str, rs_char, regex_text

def names(path):
    n = path.replace('ast::', '', 1).replace('::', '_')
    return 'f_' + n, 'ref_' + n

def calls(p, acc):
    if p.k == 'call': acc.append(p.f)
    for q in kids(p): calls(q, acc)
    return acc

def kids(p):
    if p.k in ('opt', 'many0', 'many1', 'map', 'mapres'): return [p.p]
    if p.k in ('seplist', 'seplist1'): return [p.sep, p.p]
    if p.k == 'alt': return p.ps
    if p.k == 'seq': return [q for _, q in p.items]
    return []

def free_args(p, bound):
    """identifiers used as arguments of calls in p that p does not bind itself"""
    o = []
    if p.k == 'call': o += [a for a in p.args if a.isidentifier() and a not in bound]
    if p.k == 'seq':
        b = set(bound)
        for n, q in p.items:
            o += [a for a in free_args(q, b) if a not in o]
            if n: b.add(n)
    else:
        for q in kids(p): o += [a for a in free_args(q, bound) if a not in o]
    return o

def loops(p):
    return p.k in ('many0', 'many1', 'seplist', 'seplist1') or any(loops(q) for q in kids(p))

def leaves(p, acc):
    m = {'is_a': 'run1', 'digit': 'run1', 'multispace0': 'run0', 'multispace': 'run1', 'space1': 'run1'}
    if p.k == 're': acc.add(rx.shape(p.p)[0])
    else: acc.add(m.get(p.k, p.k))
    for q in kids(p): leaves(q, acc)
    return acc

def nullable(p):
    k = p.k
    if k in ('opt', 'many0', 'multispace0', 'eof'): return True
    if k == 'seplist': return True
    if k in ('map', 'mapres', 'many1'): return nullable(p.p)
    if k == 'seplist1': return nullable(p.p)
    if k == 'alt': return any(map(nullable, p.ps))
    if k == 'seq': return all(nullable(q) for _, q in p.items)
    if k == 'call': return grammar.FUNS[p.f].nullable
    if k == 're':
        sh = rx.shape(p.p)
        return sh[0] in ('run0', 'esc')
    return False

def left(p, acc):
    """calls that may happen at the very input"""
    if p.k == 'call': acc.append(p.f)
    elif p.k == 'seq':
        for _, q in p.items:
            left(q, acc)
            if not nullable(q): break
    elif p.k in ('seplist', 'seplist1'):
        left(p.p, acc)
    else:
        for q in kids(p): left(q, acc)
    return acc

def sccs():
    G = {f: set(calls(F.body, [])) for f, F in grammar.FUNS.items()}
    index, low, st, on, out = {}, {}, [], set(), []
    def go(v):
        index[v] = low[v] = len(index)
        st.append(v); on.add(v)
        for w in G[v]:
            if w not in index:
                go(w); low[v] = min(low[v], low[w])
            elif w in on: low[v] = min(low[v], index[w])
        if low[v] == index[v]:
            c = []
            while True:
                w = st.pop(); on.discard(w); c.append(w)
                if w == v: break
            out.append(c)
    for v in G:
        if v not in index: go(v)
    comp, rec = {}, {}
    for i, c in enumerate(out):
        for v in c:
            comp[v] = i
            rec[v] = len(c) > 1 or v in G[v]
    return comp, rec

COMP, REC = sccs()

def ranks():
    r = {}
    def go(f, seen):
        if f in r: return r[f]
        if f in seen: raise Exception('left recursion through ' + f)
        m = 0
        for g in left(grammar.FUNS[f].body, []):
            if COMP[g] == COMP[f]: m = max(m, 1 + go(g, seen | {f}))
        r[f] = m
        return m
    for f in grammar.FUNS: go(f, frozenset())
    return r
RANK = ranks()

class Emit:
    def __init__(s, classes):
        s.c = classes
        s.n = 0
        s.lits = {}
        s.lifts = {}
        s.dbody = {}
        s.lift = False
        s.plain = False
    def fresh(s, p='x'):
        s.n += 1
        return '%s%d' % (p, s.n)

    def run(s, f, chars, x):
        return '%s(%s, %s)' % (f, x, s.c.id(rx.of(chars)))

    def P(s, p, x, le):
        """text of parser p at input text x.  le: 'eq' x is the function's input; 'le' only blen(x) <= blen(i)
        is needed/known; 'lt' strictly shorter"""
        k = p.k
        if k == 'tag':
            s.cur.add(p.t)
            return 's_tag(%s, sl(%s))' % (x, rs_str(p.t))
        if k == 'char': return 's_char(%s, %s)' % (x, rs_char(p.c))
        if k == 'is_a': return s.run('s_run1', p.cs, x)
        if k == 're': return regex_text(rx.shape(p.p), s.c, x, 's')
        if k == 'digit': return s.run('s_run1', '0123456789', x)
        if k == 'multispace0': return s.run('s_run0', ' \t\r\n', x)
        if k == 'multispace': return s.run('s_run1', ' \t\r\n', x)
        if k == 'space1': return s.run('s_run1', ' \t', x)
        if k == 'anychar': return 's_anychar(%s)' % x
        if k == 'take_until':
            s.cur.add(p.t)
            return 's_take_until(%s, sl(%s))' % (x, rs_str(p.t))
        if k == 'eof': return 's_eof(%s)' % x
        if k == 'call':
            t = '%s(%s)' % (names(p.f)[1], ', '.join([x] + p.args))
            if COMP[p.f] == COMP[s.f] and REC[s.f] and le != 'eq' and not s.plain:
                return '(if 0 <= blen(%s) %s blen(i) { %s } else { err() })' % (x, '<=' if le == 'le' else '<', t)
            return t
        if k == 'seq':
            o = ''
            tail = ''
            first = True
            cur, l = x, le
            for n, q in p.items:
                nx, e = s.fresh(), s.fresh('e')
                o += 'match %s { Err(%s) => err(), Ok((%s, %s)) => ' % (s.P(q, cur, l), e, nx, n or '_')
                tail += ' }'
                cur = nx
                l = 'lt' if not nullable(q) or l == 'lt' else 'le'
            return o + 'Ok((%s, %s))' % (cur, p.res) + tail
        if k == 'alt':
            o = 'err()'
            for q in reversed(p.ps):
                a, b = s.fresh('r'), s.fresh('e')
                o = 'match %s { Ok(%s) => Ok(%s), Err(%s) => %s }' % (s.P(q, x, le), a, a, b, o)
            return o
        if k == 'opt':
            return 'opt(%s, %s)' % (s.P(p.p, x, le), x)
        if k == 'map':
            a, e = s.fresh(), s.fresh('e')
            return 'match %s { Ok((%s, %s)) => Ok((%s, %s)), Err(%s) => err() }' % (s.P(p.p, x, le), a, p.v, a, p.e, e)
        if k == 'mapres':
            a, b, e = s.fresh(), s.fresh('o'), s.fresh('e')
            return 'match %s { Ok((%s, %s)) => match (%s) { Some(%s) => Ok((%s, %s)), None => err() }, Err(%s) => err() }' % (
                s.P(p.p, x, le), a, p.v, p.e, b, a, b, e)
        lam = lambda q, l, role='p': s.lam(p.k, q, l, role)
        lc = 'le' if le in ('eq', 'le') else 'lt'
        if k == 'many0': return 'sp_many0(%s, %s)' % (lam(p.p, lc), x)
        if k == 'many1': return 'sp_many1(%s, %s)' % (lam(p.p, lc), x)
        if k == 'seplist': return 'sp_seplist(%s, %s, %s)' % (lam(p.sep, 'lt' if not nullable(p.p) else lc, 's'), lam(p.p, lc), x)
        if k == 'seplist1': return 'sp_seplist1(%s, %s, %s)' % (lam(p.sep, 'lt' if not nullable(p.p) else lc, 's'), lam(p.p, lc), x)
        raise Exception(k)

    def lam(s, kind, q, l, role):
        v = s.fresh('z')
        if not s.lift:
            return '|%s: S| %s' % (v, s.P(q, v, l))
        F = grammar.FUNS[s.f]
        slot = len(s.lifted)
        s.lifted.append(None)
        caps = [c for c in free_args(q, set()) if c not in [n for n, _ in F.params]]
        name = 'l_%s_%d' % (names(s.f)[0][2:], slot + 1)
        ps = F.params + [(c, 'u32') for c in caps]
        s.lifted[slot] = {'name': name, 'body': s.P(q, 'z', l), 'caps': caps, 'params': ps, 'kind': kind, 'role': role, 'ret': pty(q), 'lt': l == 'lt', 'q': q}
        return '|%s: S| %s(%s)' % (v, name, ', '.join([v, 'i'] + [n for n, _ in ps]))

    def fn(s, path):
        F = grammar.FUNS[path]
        s.f = path
        s.cur = set()
        ps = ''.join(', %s: %s' % q for q in F.params)
        ex, rf = names(path)
        ret = ty(F.ret)
        s.lift = False
        s.lifted = []
        body = s.P(F.body, 'i', 'eq')
        s.lits[path] = set(s.cur)
        s.lift = True
        lbody = s.P(F.body, 'i', 'eq')
        s.dbody[path] = lbody
        s.lift = False
        nul = 'true' if F.nullable else 'false'
        s.lits[path] = set(s.cur)
        args = ''.join(', ' + n for n, _ in F.params)
        o = '#[verifier::opaque]\npub open spec fn %s(i: S%s) -> R<%s>\n' % (rf, ps, ret)
        if REC[path]: o += '  decreases blen(i), %dnat\n' % RANK[path]
        o += '{ clamp(i, %s, %s) }\n' % (body if REC[path] else lbody, nul)
        o += 'pub broadcast proof fn t_%s(i: S%s) ensures total(i, #[trigger] %s(i%s), %s)\n{ reveal(%s); }\n' % (
            rf, ps, rf, args, nul, rf)
        s.lifts[path] = s.lifted
        if True:
            # the same body as a non-recursive function, and the proof that it is the same
            o += '#[verifier::opaque]\npub open spec fn def_%s(i: S%s) -> R<%s>\n{ clamp(i, %s, %s) }\n' % (rf, ps, ret, lbody, nul)
            for l in s.lifted:
                o += '#[verifier::opaque]\npub open spec fn %s(z: S, i: S%s) -> R<%s>\n{ %s }\n' % (l['name'], ''.join(', %s: %s' % q for q in l['params']), l['ret'], l['body'])
            for l in s.lifted:
                o += 'pub broadcast proof fn t%s(z: S, i: S%s) ensures total(z, #[trigger] %s(z, i%s), %s)\n{ reveal(%s); %s broadcast use {group_leaf, group_ext, blen_many1%s}; }\n' % (
                    l['name'], ''.join(', %s: %s' % q for q in l['params']), l['name'], ''.join(', ' + n for n, _ in l['params']),
                    'true' if nullable(l['q']) else 'false', l['name'], ' '.join('reveal_strlit(%s);' % rs_str(x) for x in sorted(s.cur)),
                    ''.join(', t_' + names(g)[1] for g in sorted(set(calls(l['q'], [])))) + ''.join(', t' + m['name'] for m in s.lifted if m['name'] + '(' in l['body']))
            rv = sorted({path} | {g for g in calls(F.body, []) if COMP[g] == COMP[path] and REC[path]})
            o += '#[verifier::spinoff_prover]\npub proof fn u_%s(i: S%s) ensures %s(i%s) == def_%s(i%s)\n{ %s reveal(def_%s); %s }\n' % (
                rf, ps, rf, args, rf, args, 'broadcast use {group_leaf, group_ext, group_t};' if loops(F.body) else '', rf, ' '.join(['reveal(%s);' % names(g)[1] for g in rv] + ['reveal(%s);' % l['name'] for l in s.lifted]))
        return o

    def equations(s, but=()):
        """the grammar as equations: without the guards and clamps that make the definitions well-founded"""
        o = []
        for p in grammar.FUNS:
            if p in but: continue
            F = grammar.FUNS[p]
            s.f, s.cur, s.lift, s.plain, s.lifted = p, set(), False, True, []
            body = s.P(F.body, 'i', 'eq')
            s.plain = False
            rf = names(p)[1]
            ps = ''.join(', %s: %s' % q for q in F.params)
            args = ''.join(', ' + n for n, _ in F.params)
            lits = ' '.join('assert(sl(%s)@.len() == %d) by { reveal_strlit(%s); };' % (rs_str(x), len(x), rs_str(x)) for x in sorted(s.cur))
            bc = ['t_' + names(g)[1] for g in sorted(set(calls(F.body, [])))] + ['t_' + ('' if l != 'x' else '') + l for l in sorted(leaves(F.body, set())) if l in LEAFT]
            bc += ['t' + l['name'] for l in s.lifts[p]]
            if loops(F.body): bc += ['group_ext', 'group_total', 'seplist_facts']
            o.append('#[verifier::spinoff_prover] #[verifier::rlimit(50)]\npub proof fn eq_%s(i: S%s) ensures %s(i%s) == (%s)\n{ %su_%s(i%s); reveal(def_%s); %s %s }' % (
                rf[4:], ps, rf, args, body, 'broadcast use {%s}; ' % ', '.join(bc) if bc else '', rf, args, rf,
                ' '.join('reveal(%s);' % l['name'] for l in s.lifts[p]), lits))
        return '\n'.join(o)

    def all(s):
        o = ['pub open spec fn clamp<T>(i: S, r: R<T>, nullable: bool) -> R<T> { if total(i, r, nullable) { r } else { err() } }']
        for p in grammar.FUNS: o.append(s.fn(p))
        o.append('pub broadcast group group_t { %s }' % ', '.join('t_' + names(p)[1] for p in grammar.FUNS))
        return '\n'.join(o)

LEAFT = {'tag', 'char', 'anychar', 'run0', 'run1', 'name', 'exact', 'esc', 'take_until', 'eof'}

def ty(t):
    import re
    return re.sub(r'\bVecM<', 'L<', re.sub(r'\bStr\b', 'S', t))

import re as _re
def text_ty(x, env):
    """type of a result text"""
    x = x.strip()
    if x in env: return env[x]
    if x.startswith('(') and x.endswith(')'):
        parts, d, cur = [], 0, ''
        for c in x[1:-1]:
            if c in '([{': d += 1
            if c in ')]}': d -= 1
            if c == ',' and d == 0: parts.append(cur); cur = ''
            else: cur += c
        parts.append(cur)
        return '(%s)' % ', '.join(text_ty(q, env) for q in parts)
    m = _re.match(r'^(st|cl|v1)\((.*)\)$', x)
    if m:
        if m.group(1) == 'st': return 'S'
        t = text_ty(m.group(2), env)
        return t if m.group(1) == 'cl' else 'L<%s>' % t
    m = _re.match(r'^(Type|Expression|Statement|ExportSet|LetEntry|SpacesContent)::', x)
    if m: return m.group(1)
    if x == '0u32' or x.startswith('len32('): return 'u32'
    raise Exception('type of ' + x)

def pty(p):
    k = p.k
    if k in ('char', 'anychar'): return 'char'
    if k in ('tag', 'is_a', 're', 'digit', 'multispace0', 'multispace', 'space1', 'take_until', 'eof'): return 'S'
    if k == 'call': return ty(grammar.FUNS[p.f].ret)
    if k == 'opt': return 'Option<%s>' % pty(p.p)
    if k in ('many0', 'many1', 'seplist', 'seplist1'): return 'L<%s>' % pty(p.p)
    if k == 'alt': return pty(p.ps[0])
    if k == 'seq':
        return text_ty(p.res, dict([(n, pty(q)) for n, q in p.items if n], ind='u32'))
    if k == 'map': return text_ty(p.e, {p.v: pty(p.p), 'ind': 'u32'})
    raise Exception('type of ' + k)
