"""Reference grammar (grammar.py) -> executable Rust: oracle parsers o_* and text generators g_*.

Used only to look for a concrete failing input once an obligation has failed, and as the bounded stand-in for
functions outside the verifier's reach."""
import re
import grammar, emit_ref, rx
from lower import rs_str, rs_char

def ty(t):
    return re.sub(r'\bBx<', 'Box<', re.sub(r'\bVecM<', 'Vec<', re.sub(r'\bStr\b', 'String', t)))

INF = 99

class Emit:
    def __init__(s, entries=()):
        s.entries = set(entries)   # functions whose real implementation can be called
        s.n = 0
        s.sites = []         # per place in the grammar: the function it is in
        s.alts = []          # per alternative: set of functions called directly in it
        s.funs = list(grammar.FUNS)
        s.idx = {p: k for k, p in enumerate(s.funs)}
        s.mind = s.min_depths()

    def fresh(s, p='x'):
        s.n += 1
        return '%s%d' % (p, s.n)

    # ------------------------------------------------------------ oracle
    def P(s, p, x):
        """an expression of type Option<(&str, T)>"""
        k = p.k
        if k == 'tag': return 'p_tag(%s, %s)' % (x, rs_str(p.t))
        if k == 'char': return 'p_char(%s, %s)' % (x, rs_char(p.c))
        if k == 'is_a': return 'p_isa(%s, %s)' % (x, rs_str(p.cs))
        if k == 're': return 'p_re(%s, %s)' % (x, rs_str(p.p))
        if k == 'digit': return 'p_isa(%s, "0123456789")' % x
        if k == 'multispace0': return 'p_isa0(%s, " \\t\\r\\n")' % x
        if k == 'multispace': return 'p_isa(%s, " \\t\\r\\n")' % x
        if k == 'space1': return 'p_isa(%s, " \\t")' % x
        if k == 'anychar': return 'p_any(%s)' % x
        if k == 'take_until': return 'p_until(%s, %s)' % (x, rs_str(p.t))
        if k == 'eof': return 'p_eof(%s)' % x
        if k == 'call': return '%s(%s)' % (o_name(p.f), ', '.join([x] + p.args))
        if k == 'seq':
            o = '(|| { '
            cur = x
            for n, q in p.items:
                nx = s.fresh()
                o += 'let (%s, %s) = %s?; ' % (nx, n or '_', s.P(q, cur))
                cur = nx
            return o + 'Some((%s, %s)) })()' % (cur, p.res)
        if k == 'alt':
            return '(|| { %sNone })()' % ''.join('let r = %s; if r.is_some() { return r; } ' % s.P(q, x) for q in p.ps)
        if k == 'opt':
            return '(match %s { Some((y, t)) => Some((y, Some(t))), None => Some((%s, None)) })' % (s.P(p.p, x), x)
        a = s.fresh()
        if k == 'map': return '%s.map(|(%s, %s)| (%s, %s))' % (s.P(p.p, x), a, p.v, a, p.e)
        if k == 'mapres': return '%s.and_then(|(%s, %s)| { let o = %s; o.map(|t| (%s, t)) })' % (s.P(p.p, x), a, p.v, p.e, a)
        f = lambda q: '&mut |%s: &\'a str| %s' % (a, s.P(q, a))
        if k in ('many0', 'many1'): return 'p_%s(%s, %s)' % (k, x, f(p.p))
        if k in ('seplist', 'seplist1'): return 'p_%s(%s, %s, %s)' % (k, x, f(p.sep), f(p.p))
        raise Exception(k)

    # ------------------------------------------------------------ generators
    def min_depths(s):
        m = {p: INF for p in s.funs}
        s.mind = m
        D = s.dist()
        rec = {p for p in s.funs if any(p in D[q] for q in D[p] if q != p)}      # part of a cycle
        reach = {p for p in s.funs if set(D[p]) & rec}
        for _ in range(200):
            ch = False
            for p in s.funs:
                d = 1 + s.md(grammar.FUNS[p].body) if p in reach else 0
                if d < m[p]: m[p] = d; ch = True
            if not ch: break
        return m
    def md(s, p):
        k = p.k
        if k == 'call': return s.mind[p.f]
        if k in ('opt', 'many0', 'seplist'): return 0
        if k == 'mapres' and p.p.k in ('many0', 'seplist'): return s.md(p.p.p)       # empty lists are usually not accepted
        if k in ('map', 'mapres', 'many1'): return s.md(p.p)
        if k == 'seplist1': return s.md(p.p)
        if k == 'alt': return min(map(s.md, p.ps))
        if k == 'seq': return max([s.md(q) for _, q in p.items] + [0])
        return 0

    def alt_id(s, q):
        s.alts.append((set(emit_ref.calls(q, [])), s.md(q)))
        return len(s.alts) - 1
    def G(s, p, least=0):
        """statements that append a text of p to g.out; value: u32"""
        k = p.k
        if k == 'tag': return 'g.put(%s)' % rs_str(p.t)
        if k == 'char': return 'g.put(%s)' % rs_str(p.c)
        if k == 'is_a': return 'g.isa(%s, 1)' % rs_str(p.cs)
        if k == 're': return 'g.re(%s)' % rs_str(p.p)
        if k == 'digit': return 'g.digits()'
        if k == 'multispace0': return 'g.ws(0, " \\t\\r\\n")'
        if k == 'multispace': return 'g.ws(1, " \\t\\r\\n")'
        if k == 'space1': return 'g.ws(1, " \\t")'
        if k == 'anychar': return 'g.anychar()'
        if k == 'take_until': return 'g.until(%s)' % rs_str(p.t)
        if k == 'eof': return '0u32'
        if k == 'call':
            i = s.site()
            a = ['g.ir(%d, %s)' % (i, x) if x.startswith('IR::') or x == 'ir' else 'g.ind(%d, %s)' % (i, x) for x in p.args]
            q = ''.join('let a%d = %s; ' % z for z in enumerate(a))
            return '{ if g.other(%d) { any(g) } else { %s%s(g%s) } }' % (i, q, g_name(p.f), ''.join(', a%d' % j for j in range(len(a))))
        if k == 'seq':
            bound = {a for _, q in p.items for a in emit_ref.free_args(q, set())}
            i = s.site()
            ids = [s.alt_id(q) for _, q in p.items]
            return '{ let m = g.m(%d); let st = g.way(&%s); %s0u32 }' % (i, ids, ''.join('let %s = { let mut r = %s; let h = g.hush(st, %d); for _ in 0..g.times(m, %d) { r = %s; } g.speak(h); r }; ' % (n if n in bound else '_', s.ind, j, j, s.G(q)) for j, (n, q) in enumerate(p.items)))
        if k == 'alt':
            ids = [s.alt_id(q) for q in p.ps]
            return '{ if g.other(%d) { any(g) } else { match g.alt(&%s) { %s_ => %s } } }' % (s.site(), ids, ''.join('%d => %s, ' % (j, s.G(q)) for j, q in enumerate(p.ps[:-1])), s.G(p.ps[-1]))
        if k == 'opt':
            return 'if g.opt(%d) { %s } else { 0u32 }' % (s.alt_id(p.p), s.G(p.p))
        if k == 'mapres': return s.G(p.p, 1)
        if k == 'map': return s.G(p.p)
        lo = max(least, 0 if k in ('many0', 'seplist') else 1)
        cnt = 'g.count(%d, %d)' % (lo, s.alt_id(p.p))
        if k in ('many0', 'many1'): return '{ let m = g.m(%d); let c0 = %s; let c = g.cnt(m, c0); let st = g.one(c); for j in 0..c { let h = g.hush(st, j); let _ = %s; g.speak(h); } 0u32 }' % (s.site(), cnt, s.G(p.p))
        return '{ let m = g.m(%d); let c0 = %s; let c = g.cnt(m, c0); let st = g.one(c); for j in 0..=c { for _ in 0..g.seps(m, j, c) { let _ = %s; } if j < c { let h = g.hush(st, j); let _ = %s; g.speak(h); } } 0u32 }' % (s.site(), cnt, s.G(p.sep), s.G(p.p))
    def site(s):
        s.sites.append(s.cur)
        return len(s.sites) - 1

    def dist(s):
        """shortest call distance between functions"""
        G = {p: set(emit_ref.calls(grammar.FUNS[p].body, [])) for p in s.funs}
        D = {}
        for p in s.funs:
            d = {p: 0}
            fr = [p]
            while fr:
                nx = []
                for q in fr:
                    for r in G[q]:
                        if r not in d: d[r] = d[q] + 1; nx.append(r)
                fr = nx
            D[p] = d
        return D

    def all(s):
        o = ['// Generated from lib/grammar.py by lib/emit_oracle.py.', '#![allow(unused_variables, unused_mut, unused_parens, clippy::all)]',
             'use crate::prim::*;', 'use crate::gen::G;']
        for p, F in grammar.FUNS.items():
            ps = ''.join(', %s: %s' % q for q in F.params)
            o.append('pub fn %s<\'a>(i: &\'a str%s) -> Option<(&\'a str, %s)> { tick(); %s %s }' % (o_name(p), ps, ty(F.ret),
                'if given(%d) { return crate::entries::t_%s(i%s); }' % (s.idx[p], o_name(p)[2:], ''.join(', ' + n for n, _ in F.params)) if p in s.entries else 'given(127);',
                act(s.P(F.body, 'i'))))
        groups = []
        for p, F in grammar.FUNS.items():
            ps = ''.join(', %s: %s' % q for q in F.params)
            s.cur, s.ind = s.idx[p], 'ind' if any(n == 'ind' for n, _ in F.params) else '0u32'
            if p.endswith('::spaces_or_new_lines_and_indent'):
                body = '{ let a = g.out.len(); g.layout(ind, ir); let t = g.out[a..].to_string(); match %s(&t, ind, ir) { Some((_, n)) => n, None => ind } }' % o_name(p)
            elif p.endswith('::opt_spaces_or_new_lines_and_indent'):
                body = '{ if g.coin(2) { %s(g, ind, ir) } else { ind } }' % g_name(H + 'spaces_or_new_lines_and_indent')
            elif p.endswith('::new_line_and_same_indent'):
                body = '{ g.newline(ind); ind }'
            else: body = s.G(F.body)
            if F.ret not in groups: groups.append(F.ret)
            if F.ret != 'u32': body = 'if g.again(%d) { 0u32 } else { %s }' % (groups.index(F.ret), body)
            o.append('pub fn %s(g: &mut G%s) -> u32 { g.enter(%d); let r = %s; g.leave%s; r }' % (g_name(p), ps, s.idx[p], body, '()' if F.ret == 'u32' else '_as(%d)' % groups.index(F.ret)))
        o.append('pub static SITES: &[usize] = &%s;' % s.sites)
        o.append('pub fn any(g: &mut G) -> u32 { let k = g.rng.below(FUNS.len()); generate(FUNS[k], g, g.inds.last().copied().unwrap_or(0), IR::GTE) }')
        D = s.dist()
        rows = []
        for cs, md in s.alts:
            rows.append('&[%s]' % ', '.join(str(min([1 + D[c].get(t, INF) for c in cs] + [INF])) for t in s.funs))
        o.append('pub static DIST: &[&[u8]] = &[%s];' % ',\n  '.join(rows))
        o.append('pub static MIND: &[u8] = &[%s];' % ', '.join(str(min(md, INF)) for _, md in s.alts))
        o.append('pub static FUNS: &[&str] = &[%s];' % ', '.join(rs_str(p) for p in s.funs))
        o.append('pub static NULLABLE: &[&str] = &[%s];' % ', '.join(rs_str(p) for p, F in grammar.FUNS.items() if F.nullable))
        def dispatch(name, params, value, none):
            arms = ''.join('%s => %s,\n' % (rs_str(p), value(p)) for p in s.funs)
            return 'pub fn %s { match f { %s _ => %s } }' % (params, arms, none)
        def args(p): return ''.join(', ' + n for n, _ in grammar.FUNS[p].params)
        o.append(dispatch('oracle', "oracle<'a>(f: &str, i: &'a str, ind: u32, ir: IR) -> Option<(&'a str, String)>",
            lambda p: '%s(i%s).map(|(r, t)| (r, format!("{:?}", t)))' % (o_name(p), args(p)), 'panic!("unknown function")'))
        o.append(dispatch('generate', 'generate(f: &str, g: &mut G, ind: u32, ir: IR) -> u32',
            lambda p: '%s(g%s)' % (g_name(p), args(p)), 'panic!("unknown function")'))
        return '\n'.join(o) + '\n'

def act(t):
    return re.sub(r'\bcl\((\w+)\)', r'\1.clone()', re.sub(r'\bst\((\w+)\)', r'st(\1.clone())', t))

# functions reachable from outside the crate under cfg(elm_verif)
ENTRIES = ['ast::file', 'ast::statement::statements', 'ast::statement::statement', 'ast::expression::expression', 'ast::expression::term',
    'ast::expression::function::function', 'ast::type_::type_annotation', 'ast::type_::type_', 'ast::type_::type_constructor'] + [grammar.H + n for n in (
    'lo_name', 'function_name', 'up_name', 'module_name', 'operator', 'spaces', 'spaces0', 'spaces_and_newlines', 'spaces_or_new_lines_and_indent',
    'opt_spaces_or_new_lines_and_indent', 'new_line_and_same_indent')]

def emit_entries(entries):
    """one line per entry point, so that a compile error can be traced to it"""
    o = ['// Generated by lib/emit_oracle.py.', '#![allow(unused_variables)]', 'use crate::prim::*;', 'use crate::{conv, typed, Res};', 'use nom::types::CompleteStr as C;', 'use elm_parser::ast;']
    if any('IR' in [t for _, t in grammar.FUNS[p].params] for p in entries):
        o.append('fn ir_(ir: IR) -> ast::helpers::IR { match ir { IR::EQ => ast::helpers::IR::EQ, IR::GT => ast::helpers::IR::GT, IR::GTE => ast::helpers::IR::GTE } }')
    def call(p): return '%s(C(i)%s)' % (p, ''.join(', ir_(ir)' if t == 'IR' else ', ' + n for n, t in grammar.FUNS[p].params))
    for p in entries:
        F = grammar.FUNS[p]
        o.append("pub fn t_%s<'a>(i: &'a str%s) -> Option<(&'a str, %s)> { typed(%s) } // ENTRY %s" % (
            o_name(p)[2:], ''.join(', %s: %s' % q for q in F.params), ty(F.ret), call(p), p))
    o.append("pub fn real(f: &str, i: &str, ind: u32, ir: IR) -> Res { match f {")
    for p in entries: o.append('%s => conv(i, %s), // ENTRY %s' % (rs_str(p), call(p), p))
    o.append('_ => panic!("no such entry") } }')
    return '\n'.join(o) + '\n'

H = grammar.H
def o_name(p): return 'o_' + p.replace('ast::', '', 1).replace('::', '_')
def g_name(p): return 'g_' + p.replace('ast::', '', 1).replace('::', '_')

if __name__ == '__main__':
    import sys
    open(sys.argv[1] + '/oracle.rs', 'w').write(Emit(ENTRIES).all())
    open(sys.argv[1] + '/entries.rs', 'w').write(emit_entries(ENTRIES))
