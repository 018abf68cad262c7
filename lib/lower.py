"""Mechanical lowering of the compiler's THIR (thirdump JSON) to Verus text.

Value semantics: references, boxes' addresses and clones are erased, String / &str / CompleteStr become S,
Vec / slice / array become L<T>.  Control flow (match, if, loop, break, blocks, assignments) is kept as is.
Leaf nom macros and std functions become the primitives of verus/prelude.rs, which carry assumed contracts.
Anything else raises Unsupported: the function is then out of the verifier's reach.
"""
import re
import loops, noret, rx

class Unsupported(Exception):
    pass

LOOPS = {'many0', 'many1', 'separated_list', 'separated_nonempty_list'}
LEAVES = {'tag', 'char', 'one_of', 'none_of', 'is_a', 're_matches', 'take_until_and_consume', 'eof'}

def rs_str(s):
    o = '"'
    for c in s:
        if c == '\\': o += '\\\\'
        elif c == '"': o += '\\"'
        elif c == '\n': o += '\\n'
        elif c == '\t': o += '\\t'
        elif c == '\r': o += '\\r'
        elif 32 <= ord(c) < 127: o += c
        else: o += '\\u{%x}' % ord(c)
    return o + '"'

def rs_char(c):
    if c == "'": return "'\\''"
    if c == '"': return "'\"'"
    return "'" + rs_str(c)[1:-1] + "'"

STR_ADTS = {'nom::types::CompleteStr', 'alloc::string::String'}
UNIT_ADTS = {'nom::internal::Context': 'Ctx', 'nom::verbose_errors::Context': 'Ctx', 'nom::simple_errors::Context': 'Ctx', 'nom::util::ErrorKind': 'EK', 'nom::internal::Needed': 'Needed',
             'core::num::error::ParseIntError': 'PErr', 'core::num::ParseIntError': 'PErr'}

ITER_ADTS = {'alloc::vec::into_iter::IntoIter', 'core::slice::iter::Iter', 'core::array::iter::IntoIter'}
ITER_OVER = {'core::iter::adapters::%s' % x for x in ('rev::Rev', 'skip::Skip', 'cloned::Cloned', 'copied::Copied', 'take::Take', 'peekable::Peekable')}

class NoPair(Exception):
    pass

def template(v):
    """pieces of a fmt::Arguments template: text or None (the next argument)"""
    out, k, idx = [], 0, 0
    while k < len(v):
        b = v[k]; k += 1
        if b == 0: break
        if b < 0x80: out.append(bytes(v[k:k + b]).decode()); k += b
        elif b == 0x80:
            n = v[k] | v[k + 1] << 8; k += 2
            out.append(bytes(v[k:k + n]).decode()); k += n
        elif b >= 0xC0:
            o = b - 0xC0
            flags = 0
            if o & 1: flags = int.from_bytes(bytes(v[k:k + 4]), 'little'); k += 4
            if o & 2 or o & 4: raise Unsupported('width or precision in a format')
            if o & 8: idx = v[k] | v[k + 1] << 8; k += 2
            if o & ~15: raise Unsupported('format')
            out.append((idx, flags)); idx += 1
        else: raise Unsupported('format')
    return out

class ByHand:
    """a body that cannot be lowered"""
    def __init__(s, why): s.why = why
    def __getitem__(s, k): raise Unsupported(s.why)
    def get(s, k, d=None): raise Unsupported(s.why)

class Clo:
    def __init__(s, e, env):
        s.e, s.env = e, env

class Lower:
    Unsupported = Unsupported
    def __init__(s, dump, contracts, classes, crate='elm_parser'):
        s.D = dump
        s.T = dump['types']
        s.X = dump['expns']
        s.contracts = contracts      # path (without crate) -> (exec name, ref name, extra-param count)
        s.classes = classes
        s.crate = dump['crate']
        s.bodies = {}
        for b in dump['bodies']:
            if b['body']:
                s.bodies[b['body']['d']] = b['body']
        s.adts = {a['d']: a for a in dump['adts']}
        s.byhand(dump)
        s.lits = set()
        s.n = 0
        s.depth = 0
        s.loops = 0
        s.effects = []
        s.mut = set()
        s.inlined = []
        s.bound, s.vt, s.helpers = set(), {}, []
        s.lifted = []
        s.inplace = False
        s.pairs = None
        s.subst = {}
        s.outs = []
        s.lastlift = -1
        s.seen = set()
        s.fname = 'f'
        s.newvar = 10 ** 6
        s.norets = {}
        s.pguards = []
        s.pure = 0        # inside a closure whose text is specification only: nothing that can panic
        s.func = 0        # inside a loop taken as a fold: no assignments but those of the fold

    # ---------------------------------------------------------------- impls written by hand
    USES_CLONE = {'clone', 'cloned', 'clone_from', 'to_owned', 'to_vec', 'extend_from_slice', 'resize', 'resize_with', 'repeat', 'concat', 'make_mut', 'unwrap_or_clone', 'cycle'}
    USES_EQ = {'eq', 'ne', 'contains', 'dedup', 'starts_with', 'ends_with', 'strip_prefix', 'strip_suffix', 'eq_by'}
    def byhand(s, dump):
        """copies and comparisons are those of the value model for derived impls only: functions that use others cannot be lowered"""
        hand = {'Clone': set(), 'PartialEq': set()}
        for i in dump.get('impls', ()):
            mt = re.match(r'<([\w:]+)(?:<.*>)? as (?:std|core)::(?:clone::Clone|cmp::PartialEq)', i['t'])
            if mt and not i['derived']: hand['Clone' if 'clone::Clone' in i['t'] else 'PartialEq'].add(s.crate + '::' + mt.group(1))
        if not any(hand.values()): return
        def bad(trait):
            # the types that contain one of these
            r = set(hand[trait])
            while True:
                n = {a['d'] for a in dump['adts'] if any(s.mentions(f[1], r) for v in a['variants'] for f in v['fields'])}
                if n <= r: return r
                r |= n
        bads = {t: bad(t) for t in hand}
        uses = {}
        for k, t in enumerate(s.T):
            if t['k'] != 'fndef' or t['d'].startswith(s.crate + '::'): continue
            n = t['d'].split('::')[-1]
            for trait, names in (('Clone', s.USES_CLONE), ('PartialEq', s.USES_EQ)):
                if n in names and any(s.mentions(a, bads[trait]) for a in t['a']): uses[k] = trait
        def used(x):
            if isinstance(x, dict):
                for k in ('ty', 'fty'):
                    if x.get(k) in uses: return uses[x[k]]
                x = list(x.values())
            if isinstance(x, list):
                for v in x:
                    r = used(v)
                    if r: return r
        for d, b in list(s.bodies.items()):
            u = used(b)
            if u: s.bodies[d] = ByHand('%s written by hand for %s' % (u, ', '.join(sorted(hand[u]))))
    def mentions(s, i, names, seen=()):
        t = s.T[i]
        return t['k'] == 'adt' and t['d'] in names or any(s.mentions(a, names) for a in t.get('a', ()) if isinstance(a, int) and a != i)

    # ---------------------------------------------------------------- types
    def tname(s, i):
        t = s.T[i]
        k = t['k']
        if k == 'ref':
            return s.tname(t['a'][0])
        if k == 'adt':
            d = t['d']
            if d in STR_ADTS: return 'S'
            if d in UNIT_ADTS: return UNIT_ADTS[d]
            if d == 'alloc::vec::Vec': return 'L<%s>' % s.tname(t['a'][0])
            if d == 'alloc::boxed::Box': return 'Bx<%s>' % s.tname(t['a'][0])
            if d == 'core::option::Option': return 'Option<%s>' % s.tname(t['a'][0])
            if d == 'core::result::Result': return 'Result<%s>' % ', '.join(s.tname(a) for a in t['a'])
            if d == 'nom::internal::Err': return 'NErr'
            if d in ITER_ADTS:
                a = [x for x in t['a'] if s.T[x]['k'] != 'lifetime']
                return 'L<%s>' % s.tname(a[0])
            if d in ITER_OVER: return s.tname(t['a'][0])
            if d == 'core::str::iter::Chars': return 'S'
            if d in s.adts and s.adts[d]['local']:
                return d.split('::')[-1]
            raise Unsupported('type ' + d)
        if k == 'tuple':
            if not t['a']: return '()'
            return '(' + ', '.join(s.tname(a) for a in t['a']) + (',)' if len(t['a']) == 1 else ')')
        if k in ('slice', 'array'):
            return 'L<%s>' % s.tname(t['a'][0])
        n = t.get('n')
        if n == 'str': return 'S'
        if n in ('bool', 'char', 'u8', 'u16', 'u32', 'u64', 'usize', 'i8', 'i16', 'i32', 'i64', 'isize'):
            return n
        raise Unsupported('type %s' % (n or k))

    def emit_adts(s):
        o = []
        for a in s.D['adts']:
            if not a['local'] or a['generics'] or not a['d'].startswith(s.crate + '::ast'):
                continue
            n = a['d'].split('::')[-1]
            def flds(v):
                if 'Fn' in (v['ctor'] or ''):
                    return '(%s)' % ', '.join('pub ' * (a['kind'] == 'struct') + s.tname(f[1]) for f in v['fields'])
                if not v['fields']:
                    return ''
                return ' { %s }' % ', '.join(('pub ' if a['kind'] == 'struct' else '') + f[0] + ': ' + s.tname(f[1]) for f in v['fields'])
            if a['kind'] == 'struct':
                v = a['variants'][0]
                o.append('pub struct %s%s%s' % (n, flds(v), ';' if 'Fn' in (v['ctor'] or '') or not v['fields'] else ''))
            elif a['kind'] == 'enum':
                o.append('pub enum %s { %s }' % (n, ', '.join(v['n'] + flds(v) for v in a['variants'])))
            else:
                raise Unsupported('union')
            o.append('impl Clone for %s { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { *self } }' % n)
            o.append('impl Copy for %s {}' % n)
        return '\n'.join(o)

    # ---------------------------------------------------------------- helpers
    def mac(s, e):
        x = e.get('x', -1)
        if x is None or x < 0: return None
        m = s.X[x]
        return m['n'] if m['k'] == 'macro' else None
    def desugar(s, e):
        x = e.get('x', -1)
        if x is None or x < 0: return None
        m = s.X[x]
        return m['n'] if m['k'] == 'desugar' else None

    def strip(s, e):
        while e is not None and e['k'] in ('borrow', 'deref', 'coerce', 'never') and not s.unboxes(e):
            e = e['e']
        return e
    def unboxes(s, e):
        if e['k'] != 'deref' or e['e'] is None: return False
        t = s.T[e['e']['ty']]
        return t['k'] == 'adt' and t['d'] == 'alloc::boxed::Box'

    def walk(s, e, f):
        """call f on every expression node below e (closures included)"""
        if isinstance(e, dict):
            if 'k' in e:
                f(e)
            for v in e.values():
                if isinstance(v, (dict, list)):
                    s.walk(v, f)
        elif isinstance(e, list):
            for v in e:
                s.walk(v, f)

    def find(s, e, pred):
        out = []
        s.walk(e, lambda n: out.append(n) if pred(n) else None)
        return out

    def callee(s, e):
        if e['k'] != 'call': return None
        t = s.T[e['fty']]
        return t['d'] if t['k'] == 'fndef' else None

    def callee_args(s, e):
        return s.T[e['fty']].get('a', [])

    def lit_str(s, e):
        e = s.strip(e)
        if e and e['k'] == 'lit' and e['lk'] == 'str':
            return e['v']
        if e and e['k'] == 'const':
            b = s.bodies.get(e['d'])
            if b: return s.lit_str(b['value'])
        raise Unsupported('literal expected')

    def S_lit(s, v, mode):
        s.lits.add(v)
        return ('x_sl(%s)' if mode == 'exec' else 'sl(%s)') % rs_str(v)

    def prim(s, name, args, mode):
        return ('x_' if mode == 'exec' else 's_') + name + '(' + ', '.join(args) + ')'
    def xprim(s, name, args, mode):
        return ('x_' if mode == 'exec' else '') + name + '(' + ', '.join(args) + ')'

    def fresh(s, p='t'):
        s.n += 1
        return '%s_%d' % (p, s.n)

    # ---------------------------------------------------------------- patterns
    def pat(s, p, env=None):
        k = p['k']
        if k == 'wild': return '_'
        if k == 'bind':
            n = 'v_%d' % p['v']
            s.bound.add(n)
            s.vt[n] = p['ty']
            if p['v'] in s.mut: n = 'mut ' + n
            if p.get('sub'): return '%s @ (%s)' % (n, s.pat(p['sub']))
            return n
        if k == 'deref': return s.pat(p['sub'])
        if k == 'variant':
            adt = p['adt']
            if adt in UNIT_ADTS: return '_'
            vn = s.vpath(adt, p['variant'])
            subs = {i: q for i, q in p['subs']}
            nf = p['nf']
            named = s.variant_named(adt, p['variant'])
            if named:
                return vn + ' { ' + ''.join('%s: %s, ' % (fn, s.pat(subs[i]) if i in subs else '_') for i, fn in enumerate(named)) + '}'
            if nf == 0: return vn
            return vn + '(' + ', '.join(s.pat(subs[i]) if i in subs else '_' for i in range(nf)) + ')'
        if k == 'leaf':
            t = s.T[p['ty']]
            subs = {i: q for i, q in p['subs']}
            if t['k'] == 'tuple':
                n = len(t['a'])
                return '(' + ', '.join(s.pat(subs[i]) if i in subs else '_' for i in range(n)) + (',)' if n == 1 else ')')
            if t['k'] == 'adt':
                if t['d'] in STR_ADTS and len(subs) == 1:      # CompleteStr(x)
                    return s.pat(subs[0])
                if t['d'] in s.adts and s.adts[t['d']]['kind'] == 'struct':
                    v = s.adts[t['d']]['variants'][0]
                    fs = ['%s: %s' % (f[0], s.pat(subs[i]) if i in subs else '_') for i, f in enumerate(v['fields'])]
                    return t['d'].split('::')[-1] + ' { ' + ', '.join(fs) + ' }'
            raise Unsupported('pattern')
        if k == 'const':
            t = s.tname(p['ty'])
            v = p['v']
            if t == 'bool': return v
            if t in ('u8', 'u32', 'u64', 'usize', 'i32', 'i64'):
                return v if not v[-1].isalpha() else v
            if t in ('char', 'S'):
                n = s.fresh('q')
                s.pguards.append((n, [s.const_text(p)]))
                return n
            raise Unsupported('constant pattern')
        if k == 'or':
            under = [s.under(q) for q in p['pats']]
            if all(q['k'] == 'const' and s.tname(q['ty']) in ('char', 'S') for q in under):
                n = s.fresh('q')
                s.pguards.append((n, [s.const_text(q) for q in under]))
                return n
            g = len(s.pguards)
            o = ' | '.join(s.pat(q) for q in p['pats'])
            if len(s.pguards) > g: raise Unsupported('alternative literal patterns')
            return o
        raise Unsupported('pattern ' + k)

    def under(s, p):
        while p['k'] == 'deref': p = p['sub'] if 'sub' in p else p['p']
        return p

    def const_text(s, p):
        """a text or character constant of a pattern: (mode) -> text"""
        v = p['v']
        if s.tname(p['ty']) == 'S':
            m = re.match(r'^(?:Branch\()?\[(.*?)\]\)?(?:: .*)?$', v)
            if not m: raise Unsupported('constant pattern ' + v[:40])
            b = bytes(int(re.match(r'\d+', x.strip()).group(0)) for x in m.group(1).split(',') if x.strip())
            x = b.decode('utf8')
            s.lits.add(x)
            return lambda m: ('x_sl(%s)' if m == 'exec' else 'sl(%s)') % rs_str(x)
        m = re.match(r"^'(.*)'$", v, re.S)
        if not m: raise Unsupported('constant pattern ' + v[:40])
        x = m.group(1)
        if x.startswith('\\'):
            u = re.match(r'^\\u\{([0-9a-fA-F]+)\}$', x)
            x = chr(int(u.group(1), 16)) if u else {'\\n': '\n', '\\t': '\t', '\\r': '\r', "\\'": "'", '\\"': '"', '\\\\': '\\', '\\0': '\0'}.get(x)
        if not x or len(x) != 1: raise Unsupported('constant pattern ' + v[:40])
        return lambda m: rs_char(x)

    def gpat(s, p, m):
        """(pattern, condition or None): literals in the pattern become a condition"""
        saved, s.pguards = s.pguards, []
        o = s.pat(p)
        gs, s.pguards = s.pguards, saved
        c = ' && '.join('(' + ' || '.join(s.xprim('eq', [n, f(m)], m) for f in fs) + ')' for n, fs in gs)
        return o, c or None

    def arms(s, t, arms, m):
        """match t with arms (pattern, condition or None, body)"""
        if m == 'exec' or not any(c for _, c, _ in arms):
            return 'match %s {\n%s}' % (t, ''.join('%s%s => { %s }\n' % (p, ' if ' + c if c else '', b) for p, c, b in arms))
        v = s.fresh('m')
        o = 'arbitrary()'
        rest = list(arms)
        plain = []
        while rest and not rest[-1][1]: plain.insert(0, rest.pop())
        if plain: o = 'match %s {\n%s}' % (v, ''.join('%s => { %s }\n' % (p, b) for p, _, b in plain))
        for p, c, b in reversed(rest):
            if p == '_' : o = 'if %s { %s } else { %s }' % (c, b, o)
            else: o = 'match %s { %s => { if %s { %s } else { %s } } _ => { %s } }' % (v, p, c or 'true', b, o, o)
        return '{ let %s = %s; %s }' % (v, t, o)

    def vpath(s, adt, v):
        if adt == 'core::option::Option' or adt == 'core::result::Result': return v
        if adt == 'nom::internal::Err': return 'NErr::' + v
        if adt in s.adts and s.adts[adt]['local']:
            return adt.split('::')[-1] + '::' + v
        raise Unsupported('variant of ' + adt)

    def variant_named(s, adt, v):
        a = s.adts.get(adt)
        if not a or not a['local']: return None
        for w in a['variants']:
            if w['n'] == v and w['fields'] and 'Fn' not in (w['ctor'] or ''):
                return [f[0] for f in w['fields']]
        return None

    # ---------------------------------------------------------------- expressions
    def E(s, e, env, m):
        """text of expression e; m: 'exec' or 'spec'"""
        if e is None: return '()'
        if m == 'exec' and id(e) in s.subst:
            return s.outline(e, s.subst.pop(id(e)), env)
        mac = s.mac(e)
        if mac in LEAVES and e['k'] in ('block', 'match', 'if', 'call'):
            return s.leaf(mac, e, env, m)
        if m == 'spec' and mac in LOOPS and e['k'] in ('block', 'match'):
            return s.loop_spec(mac, e, env)
        if m == 'exec' and mac in LOOPS and e['k'] in ('block', 'match') and not s.inplace and (e.get('x'), len(s.inlined)) not in s.seen:
            s.seen.add((e.get('x'), len(s.inlined)))
            _, _, sep, el = s.loop_parts(e)
            if sep: s.lam(sep, env, mac, 's')
            s.lam(el, env, mac)
            if s.pairs:
                if mac != 'many0':
                    ids = set()
                    for lp in s.find(e, lambda n: n['k'] == 'loop' and n.get('x') == e.get('x')):
                        s.walk(lp, lambda n: ids.add(id(n)))
                    ms = [n for n in s.find(e, lambda n: n['k'] == 'match' and n.get('x') == e.get('x')) if id(n) not in ids]
                    if ms and s.tname(ms[0]['s']['ty']) == s.tname(el[0]['ty']): s.subst[id(ms[0]['s'])] = s.lastlift
                return s.outline(e, s.lastlift, env, True)
        return getattr(s, 'e_' + e['k'], s.e_other)(e, env, m)

    def e_other(s, e, env, m):
        raise Unsupported('expression ' + e['k'])

    def e_var(s, e, env, m):
        v = e['v']
        b = env.get(v)
        if isinstance(b, Clo):
            raise Unsupported('closure used as a value')
        if isinstance(b, str):
            return b
        return 'v_%d' % v

    def e_borrow(s, e, env, m):
        if e.get('mut') and s.strip(e)['k'] == 'var' and s.strip(e)['v'] in s.mut:
            raise Unsupported('mutable borrow')
        return s.E(e['e'], env, m)
    def e_deref(s, e, env, m):
        x = s.E(e['e'], env, m)
        return s.xprim('unbx', [x], m) if s.unboxes(e) else x
    def e_coerce(s, e, env, m): return s.E(e['e'], env, m)
    def e_never(s, e, env, m): return s.E(e['e'], env, m)

    def e_lit(s, e, env, m):
        lk, v = e['lk'], e['v']
        if lk == 'str': return s.S_lit(v, m)
        if lk == 'char': return rs_char(v)
        if lk == 'bool': return str(v).lower()
        if lk == 'int':
            t = s.tname(e['ty'])
            return '%s%s' % (v, t)
        raise Unsupported('literal ' + lk)

    def e_un(s, e, env, m):
        if e['op'] == 'Not' and s.tname(e['ty']) == 'bool':
            return '!(%s)' % s.E(e['e'], env, m)
        raise Unsupported('operator ' + e['op'])

    def e_logic(s, e, env, m):
        return '(%s %s %s)' % (s.E(e['a'], env, m), {'And': '&&', 'Or': '||'}[e['op']], s.E(e['b'], env, m))

    def e_bin(s, e, env, m):
        op = {'Eq': '==', 'Ne': '!=', 'Lt': '<', 'Le': '<=', 'Gt': '>', 'Ge': '>=', 'Add': '+', 'Sub': '-', 'Mul': '*'}.get(e['op'])
        t = s.tname(s.strip_ty(e['a']))
        if not op or t not in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'char', 'bool', 'isize'):
            raise Unsupported('operator %s on %s' % (e['op'], t))
        a, b = s.E(e['a'], env, m), s.E(e['b'], env, m)
        r = '(%s %s %s)' % (a, op, b)
        if e['op'] in ('Add', 'Sub', 'Mul') and s.pure: raise Unsupported('arithmetic inside a closure')
        if e['op'] in ('Add', 'Sub', 'Mul') and m == 'spec':
            r = '(%s as %s)' % (r, t)
        return r

    def strip_ty(s, e): return e['ty']

    def e_cast(s, e, env, m):
        a = s.E(e['e'], env, m)
        f, t = s.tname(e['e']['ty']), s.tname(e['ty'])
        if f == t: return a
        size = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}
        if f in size and t in size and size[f] <= size[t]:
            return '(%s as %s)' % (a, t)
        if f == 'usize' and t == 'u32': return s.prim('as_u32', [a], m)
        if f == 'u8' and t == 'char': return '(%s as char)' % a
        if f == 'char' and t in ('u32', 'u64'): return '(%s as %s)' % (a, t)
        raise Unsupported('cast %s to %s' % (f, t))

    def e_tuple(s, e, env, m):
        xs = [s.E(x, env, m) for x in e['es']]
        if not xs: return '()'
        return '(' + ', '.join(xs) + (',)' if len(xs) == 1 else ')')

    def e_array(s, e, env, m):
        r = s.xprim('vnil::<%s>' % s.tname(s.T[e['ty']]['a'][0]), [], m)
        for x in e['es']:
            r = s.xprim('push', [r, s.E(x, env, m)], m)
        if len(e['es']) == 1:
            return s.xprim('v1', [s.E(e['es'][0], env, m)], m)
        return r

    def e_adt(s, e, env, m):
        if e['adt'].startswith('core::ops::range::'): return '()'        # only range_index looks at it
        adt = e['adt']
        if adt in UNIT_ADTS: return UNIT_ADTS[adt]
        if adt in STR_ADTS: return s.E(e['fields'][0][1], env, m)
        if e.get('base'): raise Unsupported('struct update')
        if e['enum']:
            return s.build(adt, e['variant'], [(f, s.E(x, env, m)) for f, x in e['fields']])
        if adt in s.adts and s.adts[adt]['local']:
            return adt.split('::')[-1] + ' { ' + ', '.join('%s: %s' % (f, s.E(x, env, m)) for f, x in e['fields']) + ' }'
        raise Unsupported('struct ' + adt)

    def build(s, adt, variant, fields):
        vn = s.vpath(adt, variant)
        if not fields: return vn
        if s.variant_named(adt, variant):
            return vn + ' { ' + ', '.join('%s: %s' % f for f in fields) + ' }'
        return vn + '(' + ', '.join(t for _, t in sorted(fields, key=lambda f: int(f[0]))) + ')'

    def e_field(s, e, env, m):
        t = s.T[e['e']['ty']]
        while t['k'] == 'ref': t = s.T[t['a'][0]]
        a = s.E(e['e'], env, m)
        if t['k'] == 'adt' and t['d'] in STR_ADTS: return a
        return '%s.%s' % (a, e['f'] if t['k'] == 'adt' else e['fi'])

    def e_const(s, e, env, m):
        b = s.bodies.get(e['d'])
        if b is None: raise Unsupported('constant ' + e['d'])
        return s.E(b['value'], {}, m)

    def e_zst(s, e, env, m):
        t = s.T[e['ty']]
        if t['k'] == 'fndef':
            raise Unsupported('function value')
        raise Unsupported('zst')

    def e_if(s, e, env, m):
        c = e['c']
        t = s.E(e['t'], env, m)
        f = s.E(e['f'], env, m) if e['f'] else '{ }' if m == 'exec' else '()'
        if c['k'] == 'let':
            p, g = s.gpat(c['p'], m)
            return s.arms(s.E(c['e'], env, m), [(p, g, t), ('_', None, f)], m)
        if s.find(c, lambda n: n['k'] == 'let'): raise Unsupported('let chain')
        return 'if %s { %s } else { %s }' % (s.E(c, env, m), t, f)

    def e_match(s, e, env, m):
        lp = loops.recognise(s, e, env) if s.desugar(e) == 'ForLoop' else None
        if lp:
            if m == 'spec' or s.func: raise Unsupported('loop in specification mode')
            return loops.exec_text(s, lp, env)
        if s.desugar(e) == 'ForLoop': raise Unsupported('for loop')
        if s.desugar(e) == 'QuestionMark': raise Unsupported('? operator')
        o = []
        sc = s.E(e['s'], env, m)
        for a in e['arms']:
            p, c = s.gpat(a['p'], m)
            if a['g'] is not None:
                g = s.E(a['g'], env, m)
                c = '%s && (%s)' % (c, g) if c else g
            o.append((p, c, s.E(a['b'], env, m)))
        return s.arms(sc, o, m)

    def is_noise(s, e):
        """if let Err(Error(e2)) = out { unify_types(..) }  - an empty function, no value"""
        e = s.strip(e)
        if e['k'] == 'if' and e['c']['k'] == 'let':
            return s.strip(e['c']['e'])['k'] == 'var' and s.is_noise(e['t']) and (e['f'] is None or s.is_noise(e['f']))
        if e['k'] == 'block':
            b = e['b']
            xs = [st['e'] if st['k'] == 'expr' else None for st in b['stmts']] + ([b['e']] if b['e'] else [])
            return all(x is not None and s.is_noise(x) for x in xs)
        if e['k'] == 'call':
            d = s.callee(e)
            return bool(d) and d.split('::')[-1].startswith('unify_types') and s.empty_body(d)
        return e['k'] == 'tuple' and not e['es']

    def empty_body(s, d):
        b = s.bodies.get(d)
        if not b: return False
        v = b['value']
        return v['k'] == 'block' and not v['b']['stmts'] and (v['b']['e'] is None or (v['b']['e']['k'] == 'tuple' and not v['b']['e']['es']))

    def e_block(s, e, env, m):
        b = e['b']
        if not b['stmts'] and b['e'] is not None and s.strip(b['e'])['k'] not in ('loop',):
            return s.E(b['e'], env, m)
        env = dict(env)
        o = '{\n'
        for st in b['stmts']:
            if st['k'] == 'expr':
                if s.is_noise(st['e']): continue
                if m == 'spec': raise Unsupported('statement in specification mode')
                o += s.stmt(st['e'], env) + '\n'
            else:
                if st.get('els'): raise Unsupported('let else')
                o += s.let(st['p'], st['i'], env, m) + '\n'
        if b['e'] is not None:
            if b['e']['k'] == 'loop':
                if m == 'spec': raise Unsupported('loop')
                o += s.E(b['e'], env, m) + '\n'
            else:
                o += s.E(b['e'], env, m) + '\n'
        elif m == 'spec':
            o += '()\n'
        return o + '}'

    def clo_of(s, e, env):
        """Clo / fn path when e denotes a function value, else None"""
        x = s.strip(e)
        if x['k'] == 'closure': return Clo(x, env)
        if x['k'] == 'var' and isinstance(env.get(x['v']), Clo): return env[x['v']]
        if x['k'] == 'zst' and s.T[x['ty']]['k'] == 'fndef': return Clo(x, env)
        return None

    def let(s, p, i, env, m):
        if i is None:
            if m == 'spec': raise Unsupported('deferred initialisation')
            return 'let %s: %s = x_undef();' % (s.pat(p), s.tname(p['ty']))
        c = s.clo_of(i, env)
        if c is not None:
            if p['k'] != 'bind': raise Unsupported('closure pattern')
            env[p['v']] = c
            return ''
        init = s.E(i, env, m)
        if p['k'] == 'bind':
            env.pop(p['v'], None)
            return 'let %s: %s = %s;' % (s.pat(p), s.tname(p['ty']), init)
        return 'let %s = %s;' % (s.pat(p), init)

    def stmt(s, e, env):
        x = s.strip(e)
        if x['k'] == 'call':
            ch = s.change(x, env, 'exec')
            if ch is not None: return ' '.join('v_%d = %s;' % q for q in ch)
        if x['k'] in ('assign', 'assignop', 'break', 'loop', 'match', 'if', 'block', 'continue'):
            t = s.E(x, env, 'exec')
            return t + ('' if t.rstrip().endswith('}') and x['k'] != 'break' else ';')
        return 'let _ = ' + s.E(x, env, 'exec') + ';'

    def place(s, e):
        x = s.strip(e)
        while x['k'] == 'call' and s.callee(x) == 'core::ops::deref::DerefMut::deref_mut': x = s.strip(x['args'][0])
        if x['k'] == 'var': return 'v_%d' % x['v']
        raise Unsupported('place')

    def change(s, x, env, m):
        """what an assignment or a method with a &mut local does: [(variable, new value)], or None"""
        if x['k'] == 'assign': return [(int(s.place(x['a'])[2:]), s.E(x['b'], env, m))]
        if x['k'] == 'assignop':
            op = {'AddAssign': '+', 'SubAssign': '-', 'Add': '+', 'Sub': '-', 'MulAssign': '*', 'Mul': '*', 'BitOrAssign': '||', 'BitOr': '||', 'BitAndAssign': '&&', 'BitAnd': '&&'}.get(x['op'])
            ty = s.tname(x['a']['ty'])
            p = s.place(x['a'])
            if op in ('||', '&&') and ty == 'bool': return [(int(p[2:]), '(%s %s %s)' % (s.E(x['b'], env, m), op, p))]
            if ty == 'S' and op == '+': return [(int(p[2:]), s.xprim('cat', [p, s.E(x['b'], env, m)], m))]
            if not op or ty not in ('u32', 'usize', 'u64', 'i64', 'i32') or op in ('||', '&&'): raise Unsupported('assign operator')
            b = s.E(x['b'], env, m)
            return [(int(p[2:]), '(%s %s %s)' % (p, op, b) if m == 'exec' else '((%s %s %s) as %s)' % (p, op, b, ty))]
        if x['k'] != 'call': return None
        d = s.callee(x) or ''
        n = d.split('::')[-1]
        vec, txt, sli = d.startswith('alloc::vec::'), d.startswith('alloc::string::'), d.startswith('core::slice::')
        if d == 'core::ops::arith::AddAssign::add_assign' and s.tname(x['args'][0]['ty']) == 'S': txt, n = True, 'push_str'
        if not ((vec and n in ('push', 'extend_from_slice', 'append', 'clear', 'truncate')) or (txt and n in ('push', 'push_str', 'clear')) or (sli and n == 'reverse')
                or (d == 'core::iter::traits::collect::Extend::extend')): return None
        v = s.place(x['args'][0])
        ty = s.tname(x['args'][0]['ty'])
        a = x['args'][1:]
        one = lambda t: [(int(v[2:]), t)]
        if n == 'push': return one(s.xprim('push', [v, s.E(a[0], env, m)], m))
        if n in ('push_str', 'extend_from_slice'): return one(s.xprim('cat', [v, s.E(a[0], env, m)], m))
        if n == 'extend': return one(s.xprim('cat', [v, s.list_of_or_vec(a[0], env, m)], m))
        if n == 'append':
            w = s.place(a[0])
            return one(s.xprim('cat', [v, w], m)) + [(int(w[2:]), s.xprim('vnil', [], m))]
        if n == 'reverse': return one(s.xprim('rev_l', [v], m))
        if n == 'truncate': return one(s.xprim('take_l', [v, s.E(a[0], env, m)], m))
        return one(s.xprim('vnil', [], m))

    def list_of_or_vec(s, e, env, m):
        try: return s.list_of(e, env, m)
        except Unsupported:
            t = s.tname(e['ty'])
            if t.startswith('L<') or t == 'S': return s.E(e, env, m)
            if t.startswith('Option<'): return s.xprim('opt_list', [s.E(e, env, m)], m)
            raise

    def e_assign(s, e, env, m):
        if m == 'spec' or s.func: raise Unsupported('assignment')
        (v, x), = s.change(e, env, m)
        return 'v_%d = %s' % (v, x)
    e_assignop = e_assign

    def e_break(s, e, env, m):
        if m == 'spec' or e.get('e'): raise Unsupported('break')
        return 'break'

    def e_return(s, e, env, m):
        if m == 'spec' or s.depth: raise Unsupported('return')
        return 'return ' + s.E(e['e'], env, m)

    def value(s, b):
        """the body b without early returns, where that can be had"""
        if id(b) not in s.norets:
            try: s.norets[id(b)] = (b, noret.convert(s, b))
            except noret.NoRet: s.norets[id(b)] = (b, b['value'])
        return s.norets[id(b)][1]

    # ---------------------------------------------------------------- calls
    def apply(s, f, args, env, m):
        """apply function value f (Clo) to argument texts [(text|Clo, tyindex)]"""
        x = f.e
        if x['k'] == 'zst':
            t = s.T[x['ty']]
            d = t['d']
            if '{constructor' in d:
                parts = d.split('::')
                if parts[-1].startswith('{constructor'): parts = parts[:-1]
                adt, var = '::'.join(parts[:-1]), parts[-1]
                if adt not in s.adts and '::'.join(parts) in s.adts:    # tuple struct
                    raise Unsupported('struct constructor value')
                if '::'.join(parts) in STR_ADTS: return args[0]
                return s.build(adt, var, [(str(i), a) for i, a in enumerate(args)])
            return s.call_path(d, t.get('a', []), args, None, env, m)
        b = x['body']
        ps = b['params']
        ps = [p for p in ps if p['p'] is not None]
        if len(ps) != len(args): raise Unsupported('closure arity')
        env2 = dict(f.env)
        s.depth += 1
        if s.depth > 60: raise Unsupported('inlining depth')
        o = '{ '
        for p, a in zip(ps, args):
            if isinstance(a, Clo):
                if p['p']['k'] != 'bind': raise Unsupported('closure pattern')
                env2[p['p']['v']] = a
            elif p['p']['k'] == 'wild' and m == 'spec':
                pass
            else:
                o += 'let %s = %s; ' % (s.pat(p['p']) + (': ' + s.tname(p['p']['ty']) if p['p']['k'] in ('bind', 'wild') else ''), a)
                if p['p']['k'] == 'bind': env2.pop(p['p']['v'], None)
        o += s.E(s.value(b), env2, m) + ' }'
        s.depth -= 1
        return o

    def ghost_fn(s, f, env, nargs=1):
        """spec closure text for function value f"""
        vs = [s.fresh('g') for _ in range(nargs)]
        x = f.e
        if x['k'] == 'closure':
            ps = [p for p in x['body']['params'] if p['p'] is not None]
            tys = [s.tname(p['ty']) for p in ps]
        else:
            raise Unsupported('function value in list operation')
        s.pure += 1
        r = '|%s| %s' % (', '.join('%s: %s' % z for z in zip(vs, tys)), s.apply(f, vs, env, 'spec'))
        s.pure -= 1
        return r

    def e_call(s, e, env, m):
        d = s.callee(e)
        if d is None:
            # call through a local closure variable
            f = s.clo_of(e['fun'], env) if e.get('fun') else None
            if f: return s.apply(f, [s.arg(a, env, m) for a in e['args']], env, m)
            raise Unsupported('indirect call')
        if d in ('core::ops::function::Fn::call', 'core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut'):
            f = s.clo_of(e['args'][0], env)
            if f is None: raise Unsupported('call of an unknown function value')
            tup = s.strip(e['args'][1])
            if tup['k'] != 'tuple': raise Unsupported('call arguments')
            return s.apply(f, [s.arg(a, env, m) for a in tup['es']], env, m)
        # methods that mutate a local through &mut
        if m == 'exec' and not s.func:
            ch = s.change(e, env, m)
            if ch is not None: return '{ %s }' % ' '.join('v_%d = %s;' % q for q in ch)
        if d.startswith('alloc::vec') and d.endswith('::pop'):
            if m == 'spec' or s.func: raise Unsupported('pop')
            v = s.place(e['args'][0])
            t = s.fresh()
            return '{ let %s = x_pop(%s); %s = x_init(%s); %s }' % (t, v, v, v, t)
        if d.startswith('alloc::vec') and d.endswith('::remove') and s.strip(e['args'][1])['k'] == 'lit' and s.strip(e['args'][1])['v'] in ('0', 0):
            if m == 'spec' or s.func: raise Unsupported('remove')
            v = s.place(e['args'][0])
            t = s.fresh()
            return '{ let %s = x_index(%s, 0usize); %s = x_skip_l(%s, 1usize); %s }' % (t, v, v, v, t)
        if d == 'alloc::fmt::format': return s.format(e['args'][0], env, m)
        # vec![..]
        if d == 'alloc::boxed::box_assume_init_into_vec_unsafe':
            arr = s.find(e, lambda n: n['k'] == 'array')
            if not arr: raise Unsupported('vec!')
            return s.E(arr[0], env, m)
        if s.is_iter_any(d):
            return s.iter_op(d, e, env, m)
        args = [s.arg(a, env, m) for a in e['args']] if not s.lazy(d) else e['args']
        return s.call_path(d, s.callee_args(e), args, e, env, m)

    def arg(s, a, env, m):
        c = s.clo_of(a, env)
        return c if c is not None else s.E(a, env, m)

    def lazy(s, d): return False

    def is_iter_any(s, d):
        return d.startswith('core::iter::traits::iterator::Iterator::') or d.startswith('core::iter::traits::collect::')

    # iterator chains denote lists
    def list_of(s, e, env, m):
        x = s.strip(e)
        if x['k'] == 'call':
            d = s.callee(x)
            if d is None: raise Unsupported('iterator')
            n = d.split('::')[-1]
            if d.startswith('core::slice::') and n in ('iter', 'into_iter'): return s.E(x['args'][0], env, m)
            if d.startswith('core::str::') and n == 'chars': return s.E(x['args'][0], env, m)
            if d == 'core::iter::traits::collect::IntoIterator::into_iter':
                inner = s.strip(x['args'][0])
                try:
                    return s.list_of(inner, env, m)
                except Unsupported:
                    t = s.tname(inner['ty'])
                    if t.startswith('L<') : return s.E(inner, env, m)
                    raise
            if d.startswith('core::iter::traits::iterator::Iterator::'):
                if n == 'skip': return s.xprim('skip_l', [s.list_of(x['args'][0], env, m), s.E(x['args'][1], env, m)], m)
                if n == 'take': return s.xprim('take_l', [s.list_of(x['args'][0], env, m), s.E(x['args'][1], env, m)], m)
                if n == 'rev': return s.xprim('rev_l', [s.list_of(x['args'][0], env, m)], m)
                if n == 'chain': return s.xprim('cat', [s.list_of(x['args'][0], env, m), s.list_of_or_vec(x['args'][1], env, m)], m)
                if n == 'map':
                    f = s.clo_of(x['args'][1], env)
                    if not f: raise Unsupported('map')
                    l, g = s.list_of(x['args'][0], env, m), s.ghost_fn(f, env)
                    return 'x_map_l(%s, Ghost(%s))' % (l, g) if m == 'exec' else 'map_l(%s, %s)' % (l, g)
                if n in ('cloned', 'copied', 'by_ref', 'peekable'): return s.list_of(x['args'][0], env, m)
        if x['k'] == 'var':
            t = s.T[x['ty']]
            while t['k'] == 'ref': t = s.T[t['a'][0]]
            if t['k'] == 'adt' and (t['d'] in ITER_ADTS or t['d'] in ITER_OVER or t['d'] == 'core::str::iter::Chars'): return s.E(x, env, m)
        raise Unsupported('iterator')

    def const_iter(s, e):
        """elements of an iterator over a constant array, in order"""
        x = s.strip(e)
        while x['k'] == 'call' and (s.callee(x) or '').split('::')[-1] in ('iter', 'into_iter', 'cloned', 'copied') and not s.callee(x).startswith(s.crate): x = s.strip(x['args'][0])
        els = s.const_elems(x) if x['k'] in ('const', 'array', 'block') else None
        return els if els is not None and len(els) <= 60 else None

    def any_text(s, it, pred, env, m):
        """is there an element of the iterator that satisfies pred (text -> text, as specification)?"""
        x = s.strip(it)
        d = s.callee(x) if x['k'] == 'call' else None
        n = (d or '').split('::')[-1]
        if d and d.startswith('core::iter::traits::iterator::Iterator::') and n in ('map', 'filter', 'flat_map', 'flatten', 'rev'):
            inner = x['args'][0]
            if n == 'rev': return s.any_text(inner, pred, env, m)
            if n == 'flatten': return s.any_text(inner, lambda g, ty: s.any_l(g, ty, pred), env, m)
            f = s.clo_of(x['args'][1], env)
            if not f or f.e['k'] != 'closure': raise Unsupported('function value in list operation')
            if n == 'map': return s.any_text(inner, lambda g, ty: '({ let h = %s; %s })' % (s.apply(f, [g], env, 'spec'), pred('h', f.e['body']['value']['ty'])), env, m)
            if n == 'filter': return s.any_text(inner, lambda g, ty: '(%s && %s)' % (s.apply(f, [g], env, 'spec'), pred(g, ty)), env, m)
            body = f.e['body']
            ps = [p for p in body['params'] if p['p'] is not None]
            def flat(g, ty):
                env2 = dict(f.env)
                if ps[0]['p']['k'] != 'bind': raise Unsupported('closure pattern')
                env2.pop(ps[0]['p']['v'], None)
                return '({ let %s = %s; %s })' % (s.pat(ps[0]['p']), g, s.any_text(body['value'], pred, env2, 'spec'))
            return s.any_text(inner, flat, env, m)
        l = s.list_of(it, env, m)
        return s.any_l(l, None, pred, m, s.iter_elem(it))

    def iter_elem(s, e):
        """type (index) of the elements of an iterator expression"""
        t = s.T[e['ty']]
        while t['k'] == 'ref': t = s.T[t['a'][0]]
        while t['k'] == 'adt' and t['d'] in ITER_OVER:
            t = s.T[t['a'][0]]
            while t['k'] == 'ref': t = s.T[t['a'][0]]
        if t['k'] == 'adt' and (t['d'] in ITER_ADTS or t['d'] == 'alloc::vec::Vec') or t['k'] in ('slice', 'array'):
            return [x for x in t['a'] if s.T[x]['k'] != 'lifetime'][0]
        raise Unsupported('iterator')

    def any_l(s, l, ty, pred, m='spec', elem=None):
        if elem is None:
            t = s.T[ty]
            while t['k'] == 'ref': t = s.T[t['a'][0]]
            if not (t['k'] == 'adt' and t['d'] == 'alloc::vec::Vec' or t['k'] == 'slice'): raise Unsupported('iterator')
            elem = t['a'][0]
        v = s.fresh('g')
        s.pure += 1
        g = '|%s: %s| %s' % (v, s.tname(elem), pred(v, elem))
        s.pure -= 1
        return 'x_any_l(%s, Ghost(%s))' % (l, g) if m == 'exec' else 'any_l(%s, %s)' % (l, g)

    def iter_op(s, d, e, env, m):
        n = d.split('::')[-1]
        if n in ('any', 'all', 'find', 'position'):
            f = s.clo_of(e['args'][1], env)
            if not f: raise Unsupported(n)
            els = s.const_iter(e['args'][0])
            if els is not None:
                xs = [s.E(x, {}, m) for x in els]
                ap = ['({ %s })' % s.apply(f, [x], env, m) for x in xs]
                if n == 'any': return '(%s)' % (' || '.join(ap) or 'false')
                if n == 'all': return '(%s)' % (' && '.join(ap) or 'true')
                o = 'None'
                for k in reversed(range(len(xs))): o = 'if %s { Some(%s) } else { %s }' % (ap[k], xs[k] if n == 'find' else '%dusize' % k, o)
                return o
            if n == 'any': return s.any_text(e['args'][0], lambda g, ty: '({ %s })' % s.apply(f, [g], env, 'spec'), env, m)
            if n == 'all': return '!(%s)' % s.any_text(e['args'][0], lambda g, ty: '!({ %s })' % s.apply(f, [g], env, 'spec'), env, m)
            raise Unsupported(n)
        if n == 'fold':
            f = s.clo_of(e['args'][2], env)
            if not f: raise Unsupported('fold')
            g = s.ghost_fn(f, env, 2)
            l = s.list_of(e['args'][0], env, m)
            a = s.E(e['args'][1], env, m)
            return 'x_fold_l(%s, %s, Ghost(%s))' % (l, a, g) if m == 'exec' else 'fold_l(%s, %s, %s)' % (l, a, g)
        if n in ('next', 'next_back', 'last', 'nth', 'count'):
            x = s.strip(e['args'][0])
            if n == 'count': return s.prim('vec_len', [s.list_of(x, env, m)], m)
            if x['k'] == 'var' and n != 'last':
                if m == 'spec' or s.func: raise Unsupported('iterator used in specification mode')
                v = s.list_of(x, env, m)
                t = s.fresh()
                if n == 'nth': raise Unsupported('nth')
                if n == 'next': return '{ let %s = x_first_o(%s); %s = x_skip_l(%s, 1usize); %s }' % (t, v, v, v, t)
                return '{ let %s = x_last_o(%s); %s = x_init(%s); %s }' % (t, v, v, v, t)
            if n == 'nth': return s.xprim('first_o', [s.xprim('skip_l', [s.list_of(x, env, m), s.E(e['args'][1], env, m)], m)], m)
            return s.xprim('first_o' if n == 'next' else 'last_o', [s.list_of(x, env, m)], m)
        if n == 'collect' and (s.tname(e['ty']).startswith('L<') or s.tname(e['ty']) == 'S'):
            l = s.iter_elem_name(e['args'][0])
            if s.tname(e['ty']) in ('S', 'L<char>') and l != 'char': raise Unsupported('collect into a text')
            return s.list_of(e['args'][0], env, m)
        return s.list_of(e, env, m)

    def iter_elem_name(s, e):
        try: return s.tname(s.iter_elem(e))
        except Unsupported: return None

    OPT, RES = 'core::option::', 'core::result::'

    def call_path(s, d, targs, args, e, env, m):
        n = d.split('::')[-1]
        short = d[len(s.crate) + 2:] if d.startswith(s.crate + '::') else None
        ap = lambda f, *xs: s.apply(f, list(xs), env, m) if isinstance(f, Clo) else s.bad('function argument')
        # ---- functions of the crate
        if short is not None:
            if '{constructor' in n:
                parts = d.split('::')[:-1]
                return s.build('::'.join(parts[:-1]), parts[-1], [(str(i), a) for i, a in enumerate(args)])
            if short in s.contracts:
                ex, rf = s.contracts[short]
                return '%s(%s)' % (ex if m == 'exec' else rf, ', '.join(args))
            b = s.bodies.get(d)
            if b is None: raise Unsupported('function ' + d)
            if n.startswith('_unify') and args and isinstance(args[0], Clo):
                return ap(args[0], *args[1:])
            if d in s.inlined: raise Unsupported('recursive helper ' + d)
            ps = b['params']
            env2 = {}
            s.inlined.append(d)
            s.depth += 1
            o = '{ '
            if len(ps) != len(args): raise Unsupported('arity')
            muts = s.assigned(s.value(b))
            s.mut |= muts
            for p, a in zip(ps, args):
                if isinstance(a, Clo): env2[p['p']['v']] = a
                else: o += 'let %s = %s; ' % (s.pat(p['p']) + (': ' + s.tname(p['p']['ty']) if p['p']['k'] in ('bind', 'wild') else ''), a)
            o += s.E(s.value(b), env2, m) + ' }'
            s.depth -= 1
            s.inlined.pop()
            return o
        # ---- identities of the value model
        if d in ('core::clone::Clone::clone', 'core::ops::deref::Deref::deref', 'core::convert::AsRef::as_ref',
                 'core::borrow::Borrow::borrow', 'alloc::borrow::ToOwned::to_owned', 'core::convert::Into::into',
                 'core::convert::From::from') and len(args) == 1:
            if d in ('core::convert::From::from', 'core::convert::Into::into'):
                a, b = (s.tname(targs[1]), s.tname(targs[0])) if n == 'from' else (s.tname(targs[0]), s.tname(targs[1]))
                return s.conv(a, b, args[0], m)
            if e is not None:
                a, b = s.tname(e['args'][0]['ty']), s.tname(e['ty'])
                if a != b and d != 'core::ops::deref::Deref::deref': raise Unsupported('conversion %s to %s' % (a, b))
            return args[0]
        if d == 'core::hint::must_use': return args[0]
        if d.startswith('core::slice::') and n in ('iter', 'into_iter') or d.startswith('core::str::') and n == 'chars': return args[0]
        if d == 'alloc::string::ToString::to_string':
            t = s.tname(targs[0])
            if t == 'S': return args[0]
            if t == 'char': return s.xprim('chs', [args[0]], m)
            raise Unsupported('to_string of ' + t)
        if d.startswith('alloc::string::') and n in ('as_str', 'as_ref', 'into_boxed_str'): return args[0]
        if d.startswith('alloc::string::') and n == 'new': return s.xprim('snil', [], m)
        if (d.startswith('alloc::string::') or d.startswith('core::str::')) and n == 'len': return s.prim('str_len', args, m)
        if (d.startswith('alloc::string::') or d.startswith('core::str::')) and n == 'is_empty': return '(%s == 0usize)' % s.prim('str_len', args, m)
        if d.startswith('alloc::slice') and n == 'to_vec' or d.startswith('alloc::vec') and n == 'as_slice': return args[0]
        if d.startswith('alloc::boxed::') and n == 'new': return s.xprim('bx', args, m)
        if d.startswith('alloc::vec::'):
            if n == 'new': return s.xprim('vnil::<%s>' % s.tname(targs[0]), [], m)
            if n == 'with_capacity': return s.xprim('vnil::<%s>' % s.tname(targs[0]), [], m)
            if n == 'is_empty': return '(%s == 0usize)' % s.prim('vec_len', args, m)
            if n == 'len': return s.prim('vec_len', args, m)
        if d.startswith('core::slice::') and n == 'len': return s.prim('vec_len', args, m)
        if d.startswith('core::slice::') and n == 'is_empty': return '(%s == 0usize)' % s.prim('vec_len', args, m)
        if d.startswith('core::slice::') and n == 'last': return s.xprim('last_o', args, m)
        if d.startswith('core::slice::') and n == 'first': return s.xprim('first_o', args, m)
        if d.startswith('core::slice::') and n == 'split_first':
            t, h = s.fresh(), s.fresh()
            return '{ let %s = %s; match %s { Some(%s) => Some((%s, %s)), None => None } }' % (t, args[0], s.xprim('first_o', [t], m), h, h, s.xprim('skip_l', [t, '1'], m))
        if d.startswith('core::slice::') and n == 'contains':
            els = s.const_elems(e['args'][0]) if e is not None else None
            if els is None: return s.xprim('has_l', args, m)
            t = s.fresh()
            eqs = [s.xprim('eq', [t, s.E(x, {}, m)], m) for x in els]
            return '{ let %s = %s; %s }' % (t, args[1], ' || '.join(eqs) or 'false')
        if d == 'core::ops::index::Index::index':
            if s.pure: raise Unsupported('indexing inside a closure')
            r = s.range_index(args, e, m)
            if r: return r
            if s.tname(targs[1]) != 'usize': raise Unsupported('range index')
            return s.xprim('index', args, m) if m == 'exec' else '%s@[%s as int]' % tuple(args)
        if d == 'core::ops::arith::Add::add' and s.tname(targs[0]) == 'S': return s.xprim('cat', args, m)
        if d in ('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne'):
            if s.tname(targs[0]) != s.tname(targs[1]): raise Unsupported('comparison')
            r = s.xprim('eq', args, m)
            return r if n == 'eq' else '!(%s)' % r
        if d in ('core::default::Default::default',):
            t = s.tname(e['ty']) if e else ''
            if t == 'S' : return s.xprim('snil', [], m)
            if t.startswith('L<'): return s.xprim('vnil', [], m)
        # ---- Option / Result combinators, by definition
        if d.startswith(s.OPT):
            t = s.fresh()
            if n == 'map': return 'match %s { Some(%s) => Some(%s), None => None }' % (args[0], t, ap(args[1], t))
            if n == 'and_then': return 'match %s { Some(%s) => %s, None => None }' % (args[0], t, ap(args[1], t))
            if n == 'unwrap_or': return 'match %s { Some(%s) => %s, None => %s }' % (args[0], t, t, args[1])
            if n == 'unwrap_or_else': return 'match %s { Some(%s) => %s, None => %s }' % (args[0], t, t, ap(args[1]))
            if n == 'unwrap_or_default':
                ty = s.tname(e['ty']) if e is not None else ''
                z = s.xprim('snil', [], m) if ty == 'S' else s.xprim('vnil', [], m) if ty.startswith('L<') else {'u32': '0u32', 'usize': '0usize', 'bool': 'false'}.get(ty)
                if z: return 'match %s { Some(%s) => %s, None => %s }' % (args[0], t, t, z)
            if n == 'map_or': return 'match %s { Some(%s) => %s, None => %s }' % (args[0], t, ap(args[2], t), args[1])
            if n == 'map_or_else': return 'match %s { Some(%s) => %s, None => %s }' % (args[0], t, ap(args[2], t), ap(args[1]))
            if n == 'or': return 'match %s { Some(%s) => Some(%s), None => %s }' % (args[0], t, t, args[1])
            if n == 'or_else': return 'match %s { Some(%s) => Some(%s), None => %s }' % (args[0], t, t, ap(args[1]))
            if n == 'ok_or': return 'match %s { Some(%s) => Ok(%s), None => Err(%s) }' % (args[0], t, t, args[1])
            if n == 'ok_or_else': return 'match %s { Some(%s) => Ok(%s), None => Err(%s) }' % (args[0], t, t, ap(args[1]))
            if n in ('unwrap', 'expect') and m == 'exec': return 'x_unwrap(%s)' % args[0]
            if n == 'is_some': return '(match %s { Some(_) => true, None => false })' % args[0]
            if n == 'is_none': return '(match %s { Some(_) => false, None => true })' % args[0]
            if n in ('cloned', 'copied', 'as_ref'): return args[0]
        if d.startswith(s.RES):
            t = s.fresh()
            f = s.fresh()
            if n == 'map': return 'match %s { Ok(%s) => Ok(%s), Err(%s) => Err(%s) }' % (args[0], t, ap(args[1], t), f, f)
            if n == 'map_err': return 'match %s { Ok(%s) => Ok(%s), Err(%s) => Err(%s) }' % (args[0], t, t, f, ap(args[1], f))
            if n == 'and_then': return 'match %s { Ok(%s) => %s, Err(%s) => Err(%s) }' % (args[0], t, ap(args[1], t), f, f)
            if n == 'or_else': return 'match %s { Ok(%s) => Ok(%s), Err(%s) => %s }' % (args[0], t, t, f, ap(args[1], f))
            if n == 'ok': return 'match %s { Ok(%s) => Some(%s), Err(_) => None }' % (args[0], t, t)
            if n == 'unwrap_or': return 'match %s { Ok(%s) => %s, Err(_) => %s }' % (args[0], t, t, args[1])
            if n == 'is_ok': return '(match %s { Ok(_) => true, Err(_) => false })' % args[0]
            if n == 'is_err': return '(match %s { Ok(_) => false, Err(_) => true })' % args[0]
            if n in ('unwrap', 'expect') and m == 'exec': return 'x_unwrap_r(%s)' % args[0]
        # ---- conversions with assumed contracts
        if d.startswith('core::num::') and n == 'from_str_radix':
            t = s.tname(e['ty']) if e else ''
            if t == 'Result<u8, PErr>': return s.prim('u8_radix', args, m)
            raise Unsupported('from_str_radix to ' + t)
        if d.startswith('core::str::') and n in ('parse', 'from_str'):
            t = s.tname(e['ty']) if e else 'Result<%s, PErr>' % s.tname(targs[0])
            if t == 'Result<i64, PErr>': return s.prim('parse_i64', args, m)
            raise Unsupported('parse to ' + t)
        # ---- nom functions
        if d.startswith('nom::'):
            x = s.nom_fun(n, args, m)
            if x: return x
            if d.endswith('AtEof::at_eof') and s.tname(targs[0]) == 'S': return s.prim('at_eof', args, m)
            if d.endswith('InputLength::input_len') and s.tname(targs[0]) == 'S': return s.prim('str_len', args, m)
        raise Unsupported('call of ' + d)

    NOM = {'digit': '0123456789', 'multispace': ' \t\r\n', 'space': ' \t', 'hex_digit': '0123456789abcdefABCDEF', 'oct_digit': '01234567'}
    def nom_fun(s, n, args, m):
        """nom's character functions (their contracts are proved in nomlow.py)"""
        if n.rstrip('01') in s.NOM: return s.leaf_run('s_run0' if n.endswith('0') else 's_run1', s.NOM[n.rstrip('01')], args[0], m)
        if n == 'anychar': return s.prim('anychar', args, m)
        return None

    def bad(s, w): raise Unsupported(w)

    def range_index(s, args, e, m):
        """l[a..], l[..b], l[a..b] of a list"""
        if e is None or len(e['args']) != 2: return None
        r = s.strip(e['args'][1])
        if r['k'] != 'adt' or not r['adt'].startswith('core::ops::range::') : return None
        if s.tname(e['args'][0]['ty']) == 'S': raise Unsupported('slice of a text')
        k = r['adt'].split('::')[-1]
        f = dict(r['fields'])
        l = args[0]
        if k not in ('Range', 'RangeFrom', 'RangeTo', 'RangeFull'): raise Unsupported('range index')
        if 'end' in f: l = ('x_slice_to' if m == 'exec' else 'take_l') + '(%s, %s)' % (l, s.E(f['end'], {}, m))
        if 'start' in f: l = ('x_slice_from' if m == 'exec' else 'skip_l') + '(%s, %s)' % (l, s.E(f['start'], {}, m))
        return l

    def conv(s, a, b, x, m):
        """From / Into between value types"""
        if a == b: return x
        size = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64}
        if a == 'u8' and b == 'char': return '(%s as char)' % x
        if a == 'char' and b in ('u32', 'u64'): return '(%s as %s)' % (x, b)
        if a in size and b in size and size[a] <= size[b]: return '(%s as %s)' % (x, b)
        if a == 'char' and b == 'S': return s.xprim('chs', [x], m)
        if b == 'Option<%s>' % a: return 'Some(%s)' % x
        if b == 'Bx<%s>' % a: return s.xprim('bx', [x], m)
        raise Unsupported('conversion %s to %s' % (a, b))

    def fmt_parts(s, e):
        """pieces of a fmt::Arguments expression: text, or (expression, display / debug, flags)"""
        x = s.strip(e)
        nm = {}
        while x['k'] == 'block':
            for st in x['b']['stmts']:
                if st['k'] != 'let' or st['p']['k'] != 'bind': raise Unsupported('format')
                nm[st['p']['v']] = s.strip(st['i'])
            if x['b']['e'] is None: raise Unsupported('format')
            x = s.strip(x['b']['e'])
        if x['k'] == 'match' and len(x['arms']) == 1 and x['arms'][0]['p']['k'] == 'bind':
            nm[x['arms'][0]['p']['v']] = s.strip(x['s'])
            x = s.strip(x['arms'][0]['b'])
            while x['k'] == 'block' and not x['b']['stmts']: x = s.strip(x['b']['e'])
        if x['k'] != 'call': raise Unsupported('format')
        n = s.callee(x).split('::')[-1]
        if n in ('from_str', 'from_str_nonconst', 'new_const'): return [s.lit_str(x['args'][0])], []
        if n != 'new': raise Unsupported('format')
        t = s.strip(x['args'][0])
        if t['k'] != 'lit': raise Unsupported('format')
        v = t['v'] if isinstance(t['v'], list) else [int(q) for q in re.findall(r'\d+', t['v'])]
        arr = s.strip(x['args'][1])
        if arr['k'] == 'var': arr = nm[arr['v']]
        if arr['k'] != 'array': raise Unsupported('format')
        vals = []
        for a in arr['es']:
            a = s.strip(a)
            c = s.callee(a).split('::')[-1] if a['k'] == 'call' else ''
            if c not in ('new_debug', 'new_display'): raise Unsupported('format argument')
            q = s.strip(a['args'][0])
            if q['k'] == 'field':
                tup = s.strip(q['e'])
                if tup['k'] != 'var': raise Unsupported('format argument')
                q = nm[tup['v']]['es'][q['fi']]
            vals.append((q, c))
        return template(v), vals

    def format(s, e, env, m):
        parts, vals = s.fmt_parts(e)
        xs = []
        for q, c in vals:
            ty = s.tname(q['ty'])
            if c != 'new_display' or ty not in ('S', 'char'): raise Unsupported('format of ' + ty)
            t = s.E(q, env, m)
            xs.append(t if ty == 'S' else s.xprim('chs', [t], m))
        o = None
        for p in parts:
            if not isinstance(p, str) and p[1]: raise Unsupported('format flags')
            t = s.S_lit(p, m) if isinstance(p, str) else xs[p[0]]
            o = t if o is None else s.xprim('cat', [o, t], m)
        return o or s.xprim('snil', [], m)

    def const_elems(s, e):
        x = s.strip(e)
        if x['k'] == 'const':
            b = s.bodies.get(x['d'])
            if b is None: return None
            return s.const_elems(b['value'])
        if x['k'] == 'array': return x['es']
        if x['k'] == 'block' and not x['b']['stmts'] and x['b']['e']: return s.const_elems(x['b']['e'])
        return None

    # ---------------------------------------------------------------- leaf macros
    def leaf_run(s, f, chars, arg, m):
        k = s.classes.id(rx.of(chars))
        return '%s(%s, %s)' % (f if m == 'spec' else 'x' + f[1:], arg, k)

    def leaf(s, mac, e, env, m):
        cs = lambda name: s.find(e, lambda n: n['k'] == 'call' and (s.callee(n) or '').endswith(name))
        if mac == 'tag':
            c = cs('Compare::compare')
            if len(c) != 1: raise Unsupported('tag!')
            t = s.lit_str(c[0]['args'][1])
            return s.prim('tag', [s.E(c[0]['args'][0], env, m), s.S_lit(t, m)], m)
        if mac == 'char':
            c = cs('InputIter::iter_elements')
            l = s.find(e, lambda n: n['k'] == 'bin' and n['op'] == 'Eq')
            if not c or len(l) != 1: raise Unsupported('char!')
            ch = s.strip(l[0]['b'])
            if ch['k'] != 'lit' or ch['lk'] != 'char': raise Unsupported('char!')
            return s.prim('char', [s.E(c[0]['args'][0], env, m), rs_char(ch['v'])], m)
        if mac in ('one_of', 'none_of'):         # by definition, from single characters
            c, f = cs('InputIter::iter_elements'), cs('FindToken::find_token')
            if not c or len(f) != 1: raise Unsupported(mac)
            inp = s.leaf_input(e, c[0]['args'][0], env, m)
            chars = s.lit_str(f[0]['args'][0])
            x = s.fresh()
            if mac == 'none_of':
                r, q = s.fresh(), s.fresh()
                return 'match %s { Ok((%s, %s)) => if %s { Err(NErr::Error(Ctx)) } else { Ok((%s, %s)) }, Err(%s) => Err(%s) }' % (
                    s.prim('anychar', [inp], m), r, q, ' || '.join('%s == %s' % (q, rs_char(c)) for c in chars) or 'false', r, q, x, x)
            o = 'Err(NErr::Error(Ctx))'
            for ch in reversed(chars): o = 'match %s { Ok(%s) => Ok(%s), Err(_) => %s }' % (s.prim('char', [x, rs_char(ch)], m), x + 'o', x + 'o', o)
            return '{ let %s = %s; %s }' % (x, inp, o)
        if mac == 'is_a':
            c = cs('InputTakeAtPosition::split_at_position1')
            f = cs('FindToken::find_token')
            n = s.find(e, lambda n: n['k'] == 'un' and n['op'] == 'Not')
            if len(c) != 1 or len(f) != 1 or len(n) != 1: raise Unsupported('is_a!')
            inp = s.leaf_input(e, c[0]['args'][0], env, m)
            return s.leaf_run('s_run1', s.lit_str(f[0]['args'][0]), inp, m)
        if mac == 're_matches':
            r = [n for n in cs('::new') if 'regex' in s.callee(n)]
            sl = cs('Slice::slice')
            if len(r) != 1 or not sl: raise Unsupported('re_matches!')
            p = s.lit_str(r[0]['args'][0])
            inp = s.E(sl[0]['args'][0], env, m)
            t = s.regex(p, inp, m)
            a, b, x = s.fresh(), s.fresh(), s.fresh()
            return 'match %s { Ok((%s, %s)) => Ok((%s, %s)), Err(%s) => Err(%s) }' % (t, a, b, a, s.xprim('v1', [b], m), x, x)
        if mac == 'take_until_and_consume':
            c = cs('FindSubstring::find_substring')
            if len(c) != 1: raise Unsupported(mac)
            inp = s.leaf_input(e, c[0]['args'][0], env, m)
            return s.prim('take_until', [inp, s.S_lit(s.lit_str(c[0]['args'][1]), m)], m)
        if mac == 'eof':
            c = cs('AtEof::at_eof')
            if len(c) != 1: raise Unsupported(mac)
            return s.prim('eof', [s.E(c[0]['args'][0], env, m)], m)
        raise Unsupported(mac)

    def leaf_input(s, e, a, env, m):
        """the macro first copies its input: let input = <input>;"""
        x = s.strip(a)
        if x['k'] == 'var' and e['k'] == 'block':
            for st in e['b']['stmts']:
                if st['k'] == 'let' and st['p']['k'] == 'bind' and st['p']['v'] == x['v']:
                    return s.E(st['i'], env, m)
        return s.E(a, env, m)

    def regex(s, p, inp, m):
        try:
            sh = rx.shape(p)
        except (rx.Unsupported, IndexError, ValueError) as ex:
            raise Unsupported('regular expression %r: %s' % (p, ex))
        if sh is None: raise Unsupported('regular expression %r' % p)
        return regex_text(sh, s.classes, inp, 'x' if m == 'exec' else 's')

    # ---------------------------------------------------------------- nom loops
    def loop_parts(s, e):
        """(loop node, body block, cur var, sep (expr, param) or None, elem (expr, param))"""
        lp = s.find_shallow(e, 'loop')
        if lp is None: raise Unsupported('loop macro without loop')
        return s.loop_body_parts(lp)

    def find_shallow(s, e, kind):
        """first node of that kind whose own macro is the loop macro"""
        for n in s.find(e, lambda n: n['k'] == kind):
            if s.mac(n) in LOOPS and n.get('x') == e.get('x'): return n
        return None

    def loop_body_parts(s, lp):
        b = lp['e']
        while b['k'] != 'block' or (not b['b']['stmts'] and b['b']['e'] and b['b']['e']['k'] == 'block'):
            b = b['e'] if b['k'] != 'block' else b['b']['e']
        st = b['b']['stmts']
        if not st or st[0]['k'] != 'let' or st[0]['p']['k'] != 'bind': raise Unsupported('loop shape')
        inp = st[0]['p']['v']
        cl = s.strip(st[0]['i'])
        if cl['k'] != 'call' or s.callee(cl) != 'core::clone::Clone::clone': raise Unsupported('loop shape')
        cur = s.strip(cl['args'][0])
        if cur['k'] != 'var': raise Unsupported('loop shape')
        rest = [x['e'] for x in st[1:] if x['k'] == 'expr'] + ([b['b']['e']] if b['b']['e'] else [])
        rest = [s.strip(x) for x in rest]
        if len(rest) != 1 or rest[0]['k'] != 'match': raise Unsupported('loop shape')
        mt = rest[0]
        mac = s.mac(lp)
        if mac in ('many0', 'many1'):
            return b, cur['v'], None, (mt['s'], inp)
        # separated lists: inside the Ok((i2, _)) arm there is a second match
        for a in mt['arms']:
            if a['p']['k'] == 'variant' and a['p']['variant'] == 'Ok':
                i2 = a['p']['subs'][0][1]
                i2 = [q for i, q in i2['subs'] if i == 0][0]['v']
                inner = [n for n in s.find(a['b'], lambda n: n['k'] == 'match') if n.get('x') == lp.get('x')]
                if not inner: raise Unsupported('loop shape')
                return b, cur['v'], (mt['s'], inp), (inner[0]['s'], i2)
        raise Unsupported('loop shape')

    def lam(s, pe, env, lp=None, role='p'):
        """spec closure of one loop parser, lifted to a named spec function of its input and the captured variables"""
        e, v = pe
        env2 = dict(env)
        env2.pop(v, None)
        saved = s.bound
        s.bound = {'v_%d' % v}
        if lp is not None and s.inplace is False:
            slot = len(s.lifted)
            s.lifted.append(None)
        n0 = s.n
        s.n = 0                              # same text for the same loop wherever it is generated
        body = s.E_in(e, env2)
        s.n = n0
        bound = s.bound
        s.bound = saved | bound
        free = []
        for w in re.findall(r'\bv_\d+\b', body):
            if w not in bound and w not in free: free.append(w)
        if lp is None or s.inplace:
            x = s.fresh('x')
            return '|%s: S| { let v_%d = %s; %s }' % (x, v, x, body)
        ren = {}
        key = (re.sub(r'\bv_\d+\b', lambda m: m.group(0) if m.group(0) not in bound else ren.setdefault(m.group(0), 'b%d' % len(ren)), body), role)
        got = [f for f in s.lifted if f and f['key'] == key]
        if got:
            del s.lifted[slot:]
            f = got[0]
        else:
            f = {'key': key, 'name': 'c_%s_%d' % (s.fname, sum(1 for g in s.lifted if g) + 1), 'var': v, 'body': body, 'free': free,
                 'types': [s.tname(s.vt[w]) for w in free], 'role': role, 'kind': lp, 'ret': s.tname(e['ty'])}
            s.lifted[slot] = f
        z = s.fresh('x')
        s.lastlift = s.lifted.index(f)
        return '|%s: S| %s(%s)' % (z, f['name'], ', '.join([z] + free))

    def outline(s, e, idx, env, whole=False):
        """the parser expression e of a loop becomes a function of its own, under the contract of loop parser idx"""
        saved = s.bound
        s.bound = set()
        s.depth += 1
        body = s.E(e, env, 'exec')
        s.depth -= 1
        bound = s.bound
        s.bound = saved | bound
        free = []
        for w in re.findall(r'\bv_\d+\b', body):
            if w not in bound and w not in free: free.append(w)
        if any('v_%d' % v in free for v in s.assigned(e)): raise Unsupported('assignment in a loop parser')
        tys = [s.tname(s.vt[w]) for w in free]
        xs = [w for w, t in zip(free, tys) if t == 'S']
        if len(xs) != 1: raise NoPair()
        muts = {'v_%d' % v for v in s.assigned(e)}
        caps = [(w, t) for w, t in zip(free, tys) if w != xs[0]]
        f = {'name': 'e_%s_%d' % (s.fname, len(s.outs) + 1), 'x': xs[0], 'caps': caps, 'idx': idx, 'body': body, 'ret': s.tname(e['ty']), 'whole': whole}
        s.outs.append(f)
        return s.pairs(f, 'call')

    def E_in(s, e, env):
        return s.E(e, env, 'spec')

    SP = {'many0': 'sp_many0', 'many1': 'sp_many1', 'separated_list': 'sp_seplist', 'separated_nonempty_list': 'sp_seplist1'}

    def loop_spec(s, mac, e, env):
        _, _, sep, el = s.loop_parts(e)
        if e['k'] != 'block': raise Unsupported('loop shape')
        # the input the loop starts from: the first copy made by the macro
        start = None
        for st in e['b']['stmts']:
            if st['k'] == 'let' and s.tname(st['p']['ty']) == 'S':
                start = st['i']
                break
        if start is None: raise Unsupported('loop shape')
        a = ([s.lam(sep, env, mac, 's')] if sep else []) + [s.lam(el, env, mac), s.E(start, env, 'spec')]
        return '%s(%s)' % (s.SP[mac], ', '.join(a))

    def e_loop(s, e, env, m):
        if m == 'spec': raise Unsupported('loop')
        mac = s.mac(e)
        if mac not in LOOPS:
            lp = loops.recognise(s, e, env)
            if lp and not s.func: return loops.exec_text(s, lp, env)
            raise Unsupported('loop')
        b, cur, sep, el = s.loop_body_parts(e)
        asg = s.find(b, lambda n: n['k'] == 'assign' and n.get('x') is not None)
        pushes = s.find(b, lambda n: n['k'] == 'call' and (s.callee(n) or '').startswith('alloc::vec') and s.callee(n).endswith('::push') and n.get('x') == e.get('x'))
        if len(pushes) != 1: raise Unsupported('loop shape')
        acc = s.strip(pushes[0]['args'][0])['v']
        own = {s.strip(a['a'])['v']: a for a in asg if s.strip(a['a'])['k'] == 'var'}
        others = [v for v in own if v != cur and s.declared_outside(v, b)]
        if len(others) > 1: raise Unsupported('loop shape')
        s.loops += 1
        k = s.loops
        c, a = 'v_%d' % cur, 'v_%d' % acc
        o = ''
        def lam(pe, role='p'):
            t = s.lam(pe, env, mac, role)
            if not s.pairs: return t
            s.subst[id(pe[0])] = s.lastlift
            return s.pairs(s.lastlift, 'spec')
        if sep: o += 'let ghost ps_%d = %s;\n' % (k, lam(sep, 's'))
        o += 'let ghost p_%d = %s;\n' % (k, lam(el))
        o += 'let ghost c0_%d = %s; let ghost a0_%d = %s;\n' % (k, c, k, a)
        fr = (lambda x, y: 'sep_from(ps_%d, p_%d, %s, %s)' % (k, k, x, y)) if sep else (lambda x, y: 'many_from(p_%d, %s, %s)' % (k, x, y))
        whole = fr('c0_%d' % k, 'a0_%d' % k)
        inv = ['%s == %s' % (fr(c, a), whole)]
        ens = []
        if others:
            ov = 'v_%d' % others[0]
            t = s.tname(own[others[0]]['a']['ty'])
            if t.startswith('Option<NErr'):
                inv.append('%s is None' % ov)
                ens.append('match %s { Some(e) => %s == Err::<(S, %s), NErr>(e), None => %s == Ok::<(S, %s), NErr>((%s, %s)) }'
                           % (ov, whole, s.vecty(acc, pushes[0]), whole, s.vecty(acc, pushes[0]), c, a))
            elif t.startswith('Result<'):
                ens.append('%s == %s' % (ov, whole))
                ens.append('total(c0_%d, %s, true)' % (k, ov))
            else: raise Unsupported('loop shape')
        else:
            ens.append('%s == Ok::<(S, %s), NErr>((%s, %s))' % (whole, s.vecty(acc, pushes[0]), c, a))
        common = ['blen(%s) <= blen(c0_%d)' % (c, k)]
        o += 'loop\n invariant_except_break %s,\n invariant %s,\n ensures %s,\n decreases blen(%s)\n' % (
            ', '.join(inv), ', '.join(common), ', '.join(ens), c)
        body = s.E(b, env, 'exec')
        o += body if body.startswith('{') else '{ %s }' % body
        return o

    def vecty(s, v, push):
        t = s.T[push['args'][0]['ty']]
        while t['k'] == 'ref': t = s.T[t['a'][0]]
        return 'L<%s>' % s.tname(t['a'][0])

    def declared_outside(s, v, b):
        binds = s.find(b, lambda n: n['k'] == 'bind' and n.get('v') == v)
        return not binds

    # ---------------------------------------------------------------- for loops over lists
    def for_loop(s, e):
        if s.desugar(e) != 'ForLoop' or e['k'] != 'match': return None
        sc = s.strip(e['s'])
        if sc['k'] != 'call' or s.callee(sc) != 'core::iter::traits::collect::IntoIterator::into_iter': return None
        lp = s.strip(e['arms'][0]['b'])
        if lp['k'] != 'loop': return None
        b = lp['e']
        while b['k'] == 'block':
            st = b['b']['stmts']
            if len(st) == 1 and not b['b']['e'] and st[0]['k'] == 'expr': b = s.strip(st[0]['e'])
            elif not st and b['b']['e']: b = s.strip(b['b']['e'])
            else: return None
        if b['k'] != 'match': return None
        for a in b['arms']:
            p = a['p']
            if p['k'] == 'variant' and p['variant'] == 'Some':
                return sc, p['subs'][0][1], a['b']
        return None

    # ---------------------------------------------------------------- functions
    def assigned(s, body):
        out = set()
        for n in s.find(body, lambda n: n['k'] in ('assign', 'assignop')):
            x = s.strip(n['a'])
            if x['k'] == 'var': out.add(x['v'])
        for n in s.find(body, lambda n: n['k'] == 'borrow' and n.get('mut')):
            x = s.strip(n['e'])
            if x['k'] == 'var': out.add(x['v'])
        for n in s.find(body, lambda n: n['k'] == 'call' and n.get('args')):       # through an automatic dereference
            d = s.callee(n) or ''
            if d.split('::')[-1] in ('reverse', 'deref_mut'):
                x = s.strip(n['args'][0])
                if x['k'] == 'var': out.add(x['v'])
        return out

    def function(s, path, inplace=False, pairs=None):
        """(params [(name, type)], return type, body text, string literals)"""
        b = s.bodies[s.crate + '::' + path]
        s.lits = set()
        s.n = 0
        s.loops = 0
        s.depth = 0
        s.inlined = []
        s.helpers = []
        s.pguards, s.pure, s.func = [], 0, 0
        s.bound, s.vt, s.lifted, s.seen, s.lastlift = set(), {}, [], set(), -1
        s.inplace = inplace
        s.pairs, s.subst, s.outs = pairs, {}, []
        s.fname = s.contracts[path][0][2:] if path in s.contracts else 'x'
        s.mut = s.assigned(s.value(b))
        ps = []
        pre = ''
        for i, p in enumerate(b['params']):
            if p['p']['k'] != 'bind': raise Unsupported('parameter pattern')
            ps.append(('v_%d' % p['p']['v'], s.tname(p['ty'])))
            s.vt['v_%d' % p['p']['v']] = p['ty']
            if p['p']['v'] in s.mut:
                pre += 'let mut v_%d = v_%d;\n' % (p['p']['v'], p['p']['v'])
        ret = s.tname(b['ret'])
        body = s.E(s.value(b), {}, 'exec')
        return ps, ret, pre + body, set(s.lits), list(s.lifted), list(s.outs)

def regex_text(sh, classes, inp, px):
    if sh[0] == 'name': return '%s_name(%s, %s, %s)' % (px, inp, classes.id(sh[1]), classes.id(sh[2]))
    if sh[0] == 'run1': return '%s_run1(%s, %s)' % (px, inp, classes.id(sh[1]))
    if sh[0] == 'run0': return '%s_run0(%s, %s)' % (px, inp, classes.id(sh[1]))
    if sh[0] == 'exact': return '%s_exact(%s, %s, %d)' % (px, inp, classes.id(sh[1]), sh[2])
    if sh[0] == 'esc': return '%s_esc(%s, %s, %s, %s)' % (px, inp, rs_char(chr(sh[1])), rs_char(chr(sh[2])), classes.id(sh[3]))
