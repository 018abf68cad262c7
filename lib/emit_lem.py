"""Lemmas about the reference grammar, one per nonterminal: what is left of the input is a tail of it."""
import grammar, rx
from emit_ref import names, calls, kids, COMP, REC, RANK
from lower import rs_str

NOEQ = {'ast::helpers::spaces_or_new_lines_and_indent'}       # by hand, in verus/lemmas.rs

def suffixes(em):
    o = []
    for p, F in grammar.FUNS.items():
        rf = names(p)[1]
        ps = ''.join(', %s: %s' % q for q in F.params)
        args = ''.join(', ' + n for n, _ in F.params)
        cs = sorted(set(calls(F.body, [])))
        out = [g for g in cs if COMP[g] != COMP[p]]
        own = [g for g in cs if COMP[g] == COMP[p]]
        bc = ['group_sfx'] + ['t' + l['name'] for l in em.lifts[p] if p in NOEQ] + ['sfx_' + names(g)[1][4:] for g in out] + ['t_' + names(g)[1] for g in cs] + ['group_leaf', 'group_total']
        body = 'broadcast use {%s};\n' % ', '.join(bc)
        if p not in NOEQ: body += '  eq_%s(i%s);\n' % (rf[4:], args)
        else:
            body += '  u_%s(i%s); reveal(def_%s);\n' % (rf, args, rf)
            for l in reversed(em.lifts[p]):
                body += '  assert forall|z: S| sfx(z, #[trigger] %s(z, i%s)) by { reveal(%s); }\n' % (l['name'], args, l['name'])
        for g in own:
            G = grammar.FUNS[g]
            gp = ''.join(', %s: %s' % ('b_' + n, t) for n, t in G.params)
            ga = ''.join(', b_' + n for n, _ in G.params)
            rel = '<=' if RANK[g] < RANK[p] else '<'
            o_ = '#[trigger] %s(z%s)' % (names(g)[1], ga)
            body += '  assert forall|z: S%s| blen(z) %s blen(i) implies sfx(z, %s) by { sfx_%s(z%s); }\n' % (gp, rel, o_, names(g)[1][4:], ga)
        o.append('#[verifier::spinoff_prover] #[verifier::rlimit(40)]\npub broadcast proof fn sfx_%s(i: S%s) ensures sfx(i, #[trigger] %s(i%s))\n%s{ %s}' % (
            rf[4:], ps, rf, args, '  decreases blen(i), %dnat\n' % RANK[p] if REC[p] else '', body))
    return '\n'.join(o)

# ------------------------------------------------------------------ first characters
FULL = ((0, 0x10ffff),)
def merge(rs):
    o = []
    for a, b in sorted(rs):
        if o and a <= o[-1][1] + 1: o[-1] = (o[-1][0], max(b, o[-1][1]))
        else: o.append((a, b))
    return tuple(o)
def of(cs): return merge((ord(c), ord(c)) for c in cs)

def first(q):
    """(characters it may start with, may it accept without reading)"""
    k = q.k
    if k == 'tag': return of(q.t[0]), False
    if k == 'char': return of(q.c), False
    if k == 'is_a': return of(q.cs), False
    if k == 'digit': return of('0123456789'), False
    if k in ('multispace', 'space1', 'multispace0'): return of(' \t\r\n' if k != 'space1' else ' \t'), k == 'multispace0'
    if k == 'anychar': return FULL, False
    if k in ('take_until', 'eof'): return FULL, True
    if k == 're':
        sh = rx.shape(q.p)
        return (FULL, True) if sh[0] == 'esc' else (sh[1], sh[0] == 'run0')
    if k in ('opt', 'many0'): return first(q.p)[0], True
    if k == 'seplist': return first(q.p)[0], True
    if k == 'mapres' and q.p.k == 'seplist' and 'app_left' in q.e: return first(q.p)[0], False     # an empty application is refused
    if k in ('many1', 'seplist1', 'map', 'mapres'): return first(q.p)
    if k == 'alt':
        l = [first(p) for p in q.ps]
        return merge(r for f, _ in l for r in f), any(n for _, n in l)
    if k == 'seq':
        o = []
        for _, p in q.items:
            f, n = first(p)
            o += f
            if not n: return merge(o), False
        return merge(o), True
    if k == 'call':
        f, n = first(grammar.FUNS[q.f].body)
        return f, n or grammar.FUNS[q.f].nullable
    raise ValueError(k)

def cond(rs):
    return ' || '.join('(c as u32) == %du32' % a if a == b else '(%du32 <= (c as u32) && (c as u32) <= %du32)' % (a, b) for a, b in rs) or 'false'

def eligible():
    """nonterminals whose first character says something"""
    o = []
    for p, F in grammar.FUNS.items():
        fs, nul = first(F.body)
        if not (nul or F.nullable or fs == FULL): o.append(names(p)[1][4:])
    return o

def firsts(em):
    o, g = [], eligible()
    for p, F in grammar.FUNS.items():
        fs, nul = first(F.body)
        if nul or F.nullable or fs == FULL: continue
        rf = names(p)[1]
        ps = ''.join(', %s: %s' % q for q in F.params)
        args = ''.join(', ' + n for n, _ in F.params)
        acc = set()
        leftmost(F.body, acc)
        bc = ['group_fst_leaf'] + sorted('fst_' + names(x)[1][4:] for x in acc if names(x)[1][4:] in g) + ['fstl_' + l['name'] for l in em.lifts[p] if p in NOEQ]
        body = 'broadcast use {%s};' % ', '.join(bc)
        lits = {q.t for q in tags(F.body, [])}
        body += ' '.join(' reveal_strlit(%s);' % rs_str(l) for l in sorted(lits))
        if p in NOEQ:
            # spaces | comment | newlines, in two nested loops
            l2, l1 = em.lifts[p][-1]['name'], em.lifts[p][0]['name']
            body += ' u_%s(i%s); reveal(def_%s); reveal(%s); reveal(%s);' % (rf, args, rf, l1, l2)
            bc += []
            body = body.replace(', fstl_%s' % l1, '').replace(', fstl_%s' % l2, '')
        else: body += ' eq_%s(i%s);' % (rf[4:], args)
        o.append('pub open spec fn in_fst_%s(c: char) -> bool { %s }' % (rf[4:], cond(fs)))
        o.append('#[verifier::spinoff_prover] #[verifier::rlimit(40)]\npub broadcast proof fn fst_%s(i: S%s) ensures #[trigger] %s(i%s) is Ok ==> i@.len() > 0 && in_fst_%s(i@[0])\n{ %s }' % (
            rf[4:], ps, rf, args, rf[4:], body))
    o.append('pub broadcast group group_fst { group_fst_leaf, fst_tags, %s }' % ', '.join('fst_' + x for x in g))
    return '\n'.join(o)

def leftmost(q, acc):
    """nonterminals that may be the first thing read"""
    if q.k == 'call': acc.add(q.f)
    elif q.k == 'seq':
        for _, p in q.items:
            leftmost(p, acc)
            if not first(p)[1]: break
    elif q.k in ('seplist', 'seplist1'): leftmost(q.p, acc)
    elif q.k == 'alt':
        for p in q.ps: leftmost(p, acc)
    elif q.k in ('opt', 'many0', 'many1', 'map', 'mapres'): leftmost(q.p, acc)

def tags(q, acc):
    if q.k == 'tag': acc.append(q)
    for p in kids(q): tags(p, acc)
    return acc

def helpers(em): return em.equations(NOEQ) + '\n' + firsts(em)

def all(em): return em.equations(NOEQ) + '\n' + suffixes(em) + '\n' + firsts(em)

CLS = {'word': 'a-zA-Z0-9_', 'lower': 'a-z', 'upper': 'A-Z', 'digit': '0-9', 'hex': '0-9a-fA-F', 'oper': r'-+\-\\/*=.$<>:&|^?%#@~!',
       'spaces1': ' \t', 'space': ' ', 'spnl': ' \n', 'line': None, 'comma': ',', 'noquote': '^"', 'strch': '^"\n', 'blank': ' \t\r\n'}

def theorems(em):
    """verus/lemmas.rs with the classes of the text it is put into"""
    import os, re, rx
    def cls(m):
        c = CLS[m.group(1)]
        k = rx.shape('^(.*)' if c is None else '^[%s]' % c)[1]
        return em.c.id(k)
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'verus', 'lemmas.rs')
    return re.sub(r'@(%s)\b' % '|'.join(CLS), cls, open(here).read())

# ------------------------------------------------------------------ the part of the lemmas a property rests on
def items(text):
    """top-level items of a text in the style of verus/lemmas.rs: an item begins in column 0"""
    import re
    o, cur = [], []
    def flush():
        if cur:
            t = '\n'.join(cur)
            m = re.search(r"\b(?:fn|group|type|struct|const|enum) (\w+)", t)
            o.append((m and m.group(1), t))
            cur.clear()
    fresh = False           # only attributes so far
    for l in text.split('\n'):
        if l.startswith('//') or not l.strip(): continue
        if l.startswith('#['):
            if not fresh: flush()
            fresh = True
        elif l.startswith(('pub ', 'proof ', 'broadcast ')):
            if not fresh: flush()
            fresh = False
        cur.append(l)
    flush()
    return o

def select(text, roots):
    """the items named in roots (a predicate over names) and all they mention"""
    import re
    its = items(text)
    by = {n: t for n, t in its}
    words = {n: set(re.findall(r'\w+', t)) & set(by) for n, t in by.items()}
    need, todo = set(), [n for n in by if n and roots(n)]
    while todo:
        n = todo.pop()
        if n in need: continue
        need.add(n)
        todo += words[n]
    return '\n'.join(t for n, t in its if n in need), need

def part(em, pid=None, names=()):
    """pid: the theorems of that property; 'all': everything; names: these lemmas"""
    text = all(em) + '\n' + theorems(em)
    if pid == 'all': return text
    pre = 'p_%s_' % pid.lower() if pid else None
    return select(text, lambda n: n in names or pre and n.startswith(pre))[0]

def theorem_names(pid=None):
    """names of the theorems (p_cNN_...) of a property"""
    import os, re
    here = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'verus', 'lemmas.rs')
    return [n for n in re.findall(r'^pub (?:broadcast )?proof fn (p_c\d\d_\w+)', open(here).read(), re.M) if not pid or n.startswith('p_%s_' % pid.lower())]
