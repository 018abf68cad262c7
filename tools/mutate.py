#!/usr/bin/env python3
"""Small mechanical changes to the parser that the tests do not notice: what the proof and the search say about each.
mutate.py survivors FILE.json [N] [SEED]   picks N changes, keeps those that compile and pass the tests
mutate.py judge FILE.json [FROM]           proof and search for each that is kept"""
import json, os, random, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/lib'); sys.path.insert(0, H)
R = '/tmp/w/mut%d' % os.getpid()
RULES = [
    (r'IR::EQ', ['IR::GTE', 'IR::GT']), (r'IR::GT\b', ['IR::GTE', 'IR::EQ']), (r'IR::GTE', ['IR::GT', 'IR::EQ']),
    (r'\bnew_indent\)', ['indentation)', '0)']), (r'\bindentation\)', ['0)', 'indentation + 1)']), (r'\bindentation, IR', ['0, IR', 'indentation + 1, IR']),
    (r'\bassignment_indentation\)', ['indentation)']), (r'\bnew_if_indent\)', ['indentation)']), (r'\bnew_else_indent\)', ['indentation)', 'new_if_indent)']),
    (r'separated_nonempty_list!', ['separated_list!']), (r'separated_list!', ['separated_nonempty_list!']), (r'many0!', ['many1!']), (r'many1!', ['many0!']),
    (r'\bmultispace0\b(?!;|,\s*space)', ['multispace', 'opt!(spaces_and_newlines)', 'opt!(nom::space)']), (r'\bmultispace >>', ['spaces_and_newlines >>', 'multispace0 >>', 'space1 >>']),
    (r'\bspaces >>', ['spaces0 >>', 'opt!(spaces) >>', 'call!(spaces_or_new_lines_and_indent, 0, IR::GT) >>', 'call!(spaces_or_new_lines_and_indent, 0, IR::GTE) >>']),
    (r'\bopt!\(spaces_and_newlines\)', ['opt!(spaces)', 'spaces_and_newlines']), (r'spaces_and_newlines, tag', ['spaces, tag']), (r'\), spaces_and_newlines\)', ['), spaces)']),
    (r'space1, call', ['spaces_and_newlines, call', 'multispace, call', "char!(' '), call"]),
    (r'opt!\((call!\([^()]*(?:\([^()]*\)[^()]*)*\))\)', [r'\1']),
    (r'call!\(opt_spaces_or_new_lines_and_indent, (\w+), (IR::\w+)\)', [r'call!(spaces_or_new_lines_and_indent, \1, \2)']),
    (r'call!\(spaces_or_new_lines_and_indent, (\w+), (IR::\w+)\)', [r'call!(opt_spaces_or_new_lines_and_indent, \1, \2)', r'map!(multispace, |_| \1)', r'map!(spaces, |_| \1)']),
    (r'call!\(expression, (\w+)\)', [r'call!(term, \1)', r'call!(application_or_var, \1)', r'call!(binary, \1)']), (r'call!\(term, (\w+)\)', [r'call!(expression, \1)', r'map!(variable, |v| v)']),
    (r'call!\(type_, (\w+)\)', [r'call!(type_annotation, \1)', r'call!(type_constructor, \1)', 'type_variable']), (r'call!\(type_annotation, (\w+)\)', [r'call!(type_, \1)']),
    (r'call!\(type_parameter, (\w+)\)', [r'call!(type_, \1)']), (r'\bup_name\b(?=[ ,)\n]|$)(?!\s*[<};])', ['lo_name']), (r'\blo_name\b(?=[ ,)\n])(?!\s*[<};])', ['up_name', 'function_name']),
    (r'skip\(2\)', ['skip(1)']), (r'\.rev\(\)', ['']), (r'== 1\b', ['<= 2']), (r'has_new_line \|\|', ['has_new_line &&']), (r'!has_new_line', ['has_new_line']),
    (r'\.last\(\)', ['.first()']), (r'\.any\(', ['.all(']), (r'\(SpacesContent::Comment, 0\)', ['(SpacesContent::Comment, indentation)', '(SpacesContent::NewLineAndSpaces, 0)']),
    (r'tag!\(", "\)', ['tag!(",")', "delimited!(opt!(spaces), char!(','), opt!(spaces))"]), (r"char!\('=", ["is_a!(\"=\""]), (r"char!\('\.'\)", ["is_a!(\".\")", "delimited!(spaces0, char!('.'), spaces0)"]),
    (r'\]\*', [']+', ']?']), (r'\]\+', [']', ']*']), (r'a-z', ['a-y']), (r'A-Z', ['A-Y']), (r'0-9', ['0-8']), (r'\{2\}', ['{1}', '{1,2}']), (r'\^\(', ['(']),
    (r'"exposing"', ['"expose"']), (r'i64>', ['i32>', 'u32>', 'u64>']), (r'v\[0\]', ['v[v.len() - 1]']), (r', "where"', ['']), (r', "alias"', ['']), (r' "else",', ['']), (r', "--"', ['']), (r', "\.\."', ['']), (r', "\|"', ['']),
    (r"opt!\(alt!\(char!\('\+'\) \| char!\('-'\)\)\)", ["opt!(char!('-'))", "opt!(char!('+'))"]), (r'as u32', ['as u8 as u32', 'as u32 / 4 * 4']),
    (r'alt!\(char!', ['alt!(char!']), (r'\(name, ', ['(name.clone(), ']), (r'spaces0', ['spaces']), (r'"infixl"', ['"infix"']), (r'eof!\(\)', ['opt!(eof!())']),
    (r'separated_list!\(', ['map!(opt!(separated_nonempty_list!(']), (r'\\n\]', [']']), (r'\^\(\.\*\)', ['^([^\\\\r\\\\n]*)', '^(.+)']), (r'take_until_and_consume!\("-}"\)', ['terminated!(take_until!("-}"), tag!("-}"))', 'take_until_and_consume!("\\n-}")']),
]
def sh(cmd, cwd=None, timeout=900):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def all_mutants():
    out = []
    for dp, _, fs in os.walk('/repo/src/ast'):
        for f in sorted(fs):
            p = os.path.join(dp, f)
            s = open(p).read().split('#[cfg(test)]')[0]
            for pat, subs in RULES:
                for m in re.finditer(pat, s):
                    ln = s[:m.start()].count('\n') + 1
                    if re.match(r'\s*(use|//)', s.split('\n')[ln - 1]): continue
                    for sub in subs:
                        t = m.expand(sub) if '\\' in sub else sub
                        if t != m.group(0): out.append((os.path.relpath(p, '/repo'), ln, m.start(), m.end(), t, m.group(0)))
            # neighbouring alternatives exchanged, or one left out
            for m in re.finditer(r'(?<=\n)( *(?:\||  )+ )([^\n|]+)\n( *\| +)([^\n|]+)\n', s):
                ln = s[:m.start()].count('\n') + 1
                out.append((os.path.relpath(p, '/repo'), ln, m.start(), m.end(), m.group(1) + m.group(4) + '\n' + m.group(3) + m.group(2) + '\n', m.group(0)))
                out.append((os.path.relpath(p, '/repo'), ln, m.start(), m.end(), m.group(1) + m.group(2) + '\n', m.group(0)))
    return out
def apply(m):
    p = os.path.join(R, m[0])
    s = open(os.path.join('/repo', m[0])).read()
    assert s[m[2]:m[3]] == m[5]
    open(p, 'w').write(s[:m[2]] + m[4] + s[m[3]:])
def undo(m): shutil.copyfile(os.path.join('/repo', m[0]), os.path.join(R, m[0]))
def survivors(out, n, seed):
    ms = all_mutants()
    random.Random(seed).shuffle(ms)
    kept = []
    for m in ms[:n]:
        apply(m)
        c, o = sh('timeout 300 cargo test --lib --offline --locked -- --test-threads 8', R)
        r = re.search(r'(\d+) passed; (\d+) failed', o)
        undo(m)
        ok = c == 0
        print('SURVIVES' if ok else 'killed' if r else 'no build', m[0], m[1], repr(m[5])[:60], '->', repr(m[4])[:80], flush=True)
        if ok: kept.append(m); json.dump(kept, open(out, 'w'))
    print(len(kept), 'of', n, 'of', len(ms))
def judge(path, start):
    os.environ['ELM_REPO'] = R
    import pipe, props
    pipe.log = lambda *a: None
    for k, m in enumerate(json.load(open(path))):
        if k < start: continue
        apply(m)
        t = time.time()
        try:
            with pipe.Work() as w:
                st = {}
                def A():
                    d = pipe.dump(w)['elm_parser']
                    st['p'] = pipe.prove(w, d)
                def B(): st['h'] = pipe.Harness(w).build()
                pipe.both(A, B)
                p, h = st['p'], st['h']
                susp = sorted(set(p['failed']) | set(p['unsupported']))
                ws = []
                cfgs = [props.cfg(props.TOPS + [props.TERM, props.FUNC], susp, [])] + [c for q in props.SEARCH for c in props.SEARCH[q] if q not in ('C24', 'C01')]
                for j, c in enumerate(cfgs):
                    if ws: break
                    a, _, _ = h.search(c, 10 if j == 0 else 3, 5 + j, None)
                    ws += a
                rel = sorted({q for x in ws for q in props.PRED if props.relevant(q, x)})
                print('%3d %.0fs' % (k, time.time() - t), m[0], m[1], repr(m[5])[:50], '->', repr(m[4])[:60], '|', 'BROKEN ' + p['why'][:200] if not p['ok'] else '',
                      'failed', sorted(f.split('::')[-1] for f in p['failed']), 'unsupported', p['unsupported'] or '', '|', repr(min((x['text'] for x in ws), key=len)) if ws else 'NO INPUT', ' '.join(rel),
                      '| PROVED BUT WRONG' if ws and p['ok'] and not susp else '', flush=True)
        except Exception as e: print('%3d' % k, m[:2], 'EXC', repr(e)[:300], flush=True)
        undo(m)
if __name__ == '__main__':
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', R], check=True)
    try:
        if sys.argv[1] == 'survivors': survivors(sys.argv[2], int((sys.argv[3:] or [100])[0]), int((sys.argv[4:] or [1])[0]))
        else: judge(sys.argv[2], int((sys.argv[3:] or [0])[0]))
    finally: shutil.rmtree(R, ignore_errors=True)
