"""Character classes and regular expressions, brought to a canonical form.

A class is a sorted tuple of disjoint inclusive (lo, hi) code point ranges.
parse(pattern) -> AST; shape(pattern) -> ('name', k1, k2) | ('run1', k) | ('run0', k) | ('exact', k, n)
| ('esc', esc, q, k) | None when outside the recognised shapes.
"""
MAX = 0x10ffff

class Unsupported(Exception):
    pass

def norm(rs):
    rs = sorted(rs)
    out = []
    for a, b in rs:
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return tuple(out)

def neg(rs):
    out = []
    p = 0
    for a, b in norm(rs):
        if a > p:
            out.append((p, a - 1))
        p = b + 1
    if p <= MAX:
        out.append((p, MAX))
    return tuple(out)

def of(s):
    return norm([(ord(c), ord(c)) for c in s])

ESC = {'n': '\n', 't': '\t', 'r': '\r'}

def _r(t): return norm([(ord(t[i]), ord(t[i + 1])) for i in range(0, len(t), 2)])
POSIX = {'alnum': _r('azAZ09'), 'alpha': _r('azAZ'), 'digit': _r('09'), 'lower': _r('az'), 'upper': _r('AZ'), 'word': _r('azAZ09__'),
         'xdigit': _r('09afAF'), 'space': norm([(9, 13), (32, 32)]), 'blank': norm([(9, 9), (32, 32)]), 'ascii': ((0, 127),),
         'cntrl': ((0, 31), (127, 127)), 'graph': ((33, 126),), 'print': ((32, 126),), 'punct': norm([(33, 47), (58, 64), (91, 96), (123, 126)])}

def simple(a):
    """alternatives that are single characters of classes and stand side by side: one class"""
    if a[0] != 'alt': return a
    xs = []
    for x in a[1]:
        if x[0] == 'alt': xs += x[1]
        else: xs.append(x)
    out = []
    for x in xs:
        if out and x[0] == 'cls' and out[-1][0] == 'cls': out[-1] = ('cls', norm(list(out[-1][1]) + list(x[1])))
        elif out and out[-1][0] == x[0] == 'seq' and len(x[1]) == len(out[-1][1]) == 2 and x[1][0] == out[-1][1][0] and x[1][1][0] == out[-1][1][1][0] == 'cls':
            out[-1] = ('seq', (x[1][0], ('cls', norm(list(out[-1][1][1][1]) + list(x[1][1][1])))))
        else: out.append(x)
    return out[0] if len(out) == 1 else ('alt', tuple(out))

def parse(p):
    pos = 0
    def peek():
        return p[pos] if pos < len(p) else None
    def alt():
        nonlocal pos
        xs = [seq()]
        while peek() == '|':
            pos += 1
            xs.append(seq())
        return xs[0] if len(xs) == 1 else ('alt', tuple(xs))
    def seq():
        xs = []
        while peek() not in (None, ')', '|'):
            xs.append(quant())
        return xs[0] if len(xs) == 1 else ('seq', tuple(xs))
    def quant():
        nonlocal pos
        a = atom()
        c = peek()
        if c == '*':
            pos += 1; a = ('star', a)
        elif c == '+':
            pos += 1; a = ('plus', a)
        elif c == '?':
            pos += 1; a = ('opt', a)
        elif c == '{':
            j = p.index('}', pos)
            body = p[pos + 1:j]
            if not body.isdigit():
                raise Unsupported('repetition {%s}' % body)
            pos = j + 1
            a = ('rep', a, int(body))
        if peek() in ('?', '+', '*', '{') and c in ('*', '+', '?', '{'):
            raise Unsupported('lazy or stacked quantifier')
        return a
    def esc():
        nonlocal pos
        pos += 1
        c = p[pos]
        pos += 1
        if c in ESC:
            return of(ESC[c])
        if c == 'd' or c == 'w' or c == 's' or c.isalnum():
            raise Unsupported('escape \\' + c)   # \d, \w, \s are Unicode classes
        return of(c)
    def atom():
        nonlocal pos
        c = p[pos]
        if c == '(':
            pos += 1
            if p.startswith('?:', pos):
                pos += 2
            elif peek() == '?':
                raise Unsupported('group flag')
            a = simple(alt())
            if peek() != ')':
                raise Unsupported('unclosed group')
            pos += 1
            return a
        if c == '[':
            return ('cls', cls())
        if c == '.':
            pos += 1
            return ('cls', neg(of('\n')))
        if c == '\\':
            return ('cls', esc())
        if c in '^$':
            raise Unsupported('anchor inside')
        pos += 1
        return ('cls', of(c))
    def cls():
        nonlocal pos
        pos += 1
        inv = False
        if peek() == '^':
            inv = True
            pos += 1
        rs = []
        first = True
        while True:
            c = peek()
            if c is None:
                raise Unsupported('class')
            if c == ']' and not first:
                pos += 1
                break
            first = False
            if p.startswith('[:', pos):
                j = p.index(':]', pos)
                k = p[pos + 2:j]
                if k.lstrip('^') not in POSIX: raise Unsupported('class ' + k)
                pos = j + 2
                rs += neg(POSIX[k[1:]]) if k[0] == '^' else POSIX[k]
                continue
            if c == '[':
                rs += cls()
                continue
            if p.startswith('&&', pos) or p.startswith('--', pos) or p.startswith('~~', pos):
                raise Unsupported('class operator')
            if c == '\\':
                e = esc()
                lo = e[0][0]
            else:
                lo = ord(c)
                pos += 1
            if peek() == '-' and pos + 1 < len(p) and p[pos + 1] != ']':
                pos += 1
                if peek() == '\\':
                    hi = esc()[0][0]
                else:
                    hi = ord(p[pos])
                    pos += 1
                if hi < lo:
                    raise Unsupported('range')
                rs.append((lo, hi))
            else:
                rs.append((lo, lo))
        rs = norm(rs)
        return neg(rs) if inv else rs
    if not p.startswith('^'):
        raise Unsupported('regular expression without leading ^')
    pos = 1
    r = simple(alt())
    if pos != len(p):
        raise Unsupported('regular expression syntax')
    return r

def flat(a):
    if a[0] == 'seq':
        out = []
        for x in a[1]:
            f = flat(x)
            out += f
        return out
    return [a]

def shape(p):
    a = parse(p)
    if p.startswith('^') and a[0] == 'alt' and not p.startswith('^('):
        raise Unsupported('top-level alternation with anchor')
    f = flat(a)
    out = []
    for x in f:   # merge X X* into plus where they are the same class
        out.append(x)
    f = out
    if len(f) == 1:
        x = f[0]
        if x[0] == 'cls':
            return ('exact', x[1], 1)
        if x[0] == 'plus' and x[1][0] == 'cls':
            return ('run1', x[1][1])
        if x[0] == 'star' and x[1][0] == 'cls':
            return ('run0', x[1][1])
        if x[0] == 'rep' and x[1][0] == 'cls' and x[2] > 0:
            return ('exact', x[1][1], x[2])
        if x[0] == 'star' and x[1][0] == 'alt' and len(x[1][1]) == 2:
            a1, a3 = [flat(y) for y in x[1][1]]
            if len(a1) == 2 and len(a3) == 1 and a1[0][0] == a1[1][0] == a3[0][0] == 'cls':
                cs = lambda y: [c for lo, hi in y[1] for c in range(lo, hi + 1)] if sum(hi - lo + 1 for lo, hi in y[1]) <= 2 else []
                e, s = cs(a1[0]), set(cs(a1[1]))
                if len(e) == 1 and e[0] in s and len(s) == 2:
                    q = (s - set(e)).pop()
                    return ('esc', e[0], q, a3[0][1])
        return None
    if len(f) == 2 and f[0][0] == 'star' and f[0][1] == f[1] and f[1][0] == 'cls': f = [f[1], f[0]]
    if len(f) == 2:
        x, y = f
        if x[0] == 'cls' and y[0] == 'star' and y[1][0] == 'cls':
            if x[1] == y[1][1]:
                return ('run1', x[1])
            return ('name', x[1], y[1][1])
    if f and all(x == f[0] and x[0] == 'cls' for x in f):
        return ('exact', f[0][1], len(f))
    return None

class Classes:
    """classes used in one verified text"""
    def __init__(s):
        s.ids = {}
    def id(s, rs):
        if rs not in s.ids:
            s.ids[rs] = 'K%d' % len(s.ids)
        return 'Cls::' + s.ids[rs]
    def emit(s):
        o = ['#[derive(Clone, Copy)] pub enum Cls { %s }' % ', '.join(s.ids.values() or ['K0'])]
        o.append('pub open spec fn in_cls(k: Cls, c: char) -> bool { match k {')
        for rs, n in s.ids.items():
            conds = []
            for a, b in rs:
                conds.append('(c as u32) == %du32' % a if a == b else '(%du32 <= (c as u32) && (c as u32) <= %du32)' % (a, b))
            o.append('  Cls::%s => %s,' % (n, ' || '.join(conds) or 'false'))
        o.append('} }')
        return '\n'.join(o)

if __name__ == '__main__':
    for p in [r'^([a-z][a-zA-Z0-9_]*)', r'^([-+\\-\\/*=.$<>:&|^?%#@~!]+)', r'^(.*)', r'^[0-9a-fA-F]{2}', r'^(\\\\|\\"|[^"\n])*', r'^([^"]*)', r'^[A-Z][[:word:]]*', r'^([a-z](?:[a-z]|[A-Z]|[0-9_])*)', r'^(\\["\\]|[^"\n])*', r'^([a-z]|[A-Z]x)']:
        print(p, shape(p))
