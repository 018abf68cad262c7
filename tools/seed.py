#!/usr/bin/env python3
"""Plants a change: seed.py NAME (definition in tools/seeds.py) makes seeded/NAME after confirming it in a scratch copy.
The change must compile, pass the stable tests, and its demonstration must pass without it and fail with it."""
import json, os, re, shutil, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/tools')
S = '/tmp/w/seedcopy'
DEMO = '''#!/bin/bash
# %s
here=$(cd "$(dirname "$0")" && pwd)
bin=$PWD/target/debug/%s
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
%s
'''
TREE = 'cp "$here/input.elm" "$d/input.elm" && cd "$d" && timeout 60 "$bin" %s input.elm > out.txt 2> err.txt\ndiff "$here/expected.txt" out.txt'
def sh(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode(errors='replace')
def fresh():
    if not os.path.exists(S):
        sh('mkdir -p %s && cp -a /repo/. %s' % (S, S))
    sh('git checkout -q -- . && git clean -fdq -e target', S)
    # follow /repo's head
    sh('git fetch -q /repo HEAD && git checkout -q FETCH_HEAD', S)
def build():
    return sh('CARGO_NET_OFFLINE=true cargo build --workspace --offline --locked', S)
def tests():
    c, o = sh('cargo test --workspace --no-fail-fast --offline --locked -- --test-threads 8', S)
    return sum(int(x) for x in re.findall(r'(\d+) passed', o)), sum(int(x) for x in re.findall(r'(\d+) failed', o)), o
def make(name, sd):
    fresh()
    out = os.path.join(H, 'seeded', name)
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    if 'elm' in sd:
        open(out + '/input.elm', 'w').write(sd['elm'])
        body = TREE % ('-q' if sd.get('quiet') else '')
        if sd.get('tool') == 'elm-parser-check': body = TREE % ''
    else: body = sd['demo']
    open(out + '/demo.sh', 'w').write(DEMO % (sd['breaks'], sd.get('tool', 'elm-parser-dump'), body.strip()))
    for k, v in sd.get('files', {}).items(): open(os.path.join(out, k), 'w').write(v)
    c, o = build()
    assert c == 0, o
    if 'elm' in sd:
        sh('cp %s/input.elm /tmp/w/input.elm && cd /tmp/w && %s/target/debug/%s %s input.elm > %s/expected.txt 2>/dev/null' % (out, S, sd.get('tool', 'elm-parser-dump'), '-q' if sd.get('quiet') else '', out))
    c, o = sh('bash %s/demo.sh' % out, S)
    if c != 0: return 'the demonstration fails without the change: ' + o
    for f, a, b in sd['edits']:
        p = os.path.join(S, 'src', f)
        s = open(p).read()
        assert s.count(a) >= 1, (f, a)
        n = sd.get('nth', {}).get(a, 0)
        i = -1
        for _ in range(n + 1): i = s.index(a, i + 1)
        s = s[:i] + b + s[i + len(a):]
        open(p, 'w').write(s)
    c, o = build()
    if c: return 'does not compile: ' + o[-1500:]
    p, f, o = tests()
    if (p, f) != (471, 0): return 'tests: %d passed, %d failed\n%s' % (p, f, '\n'.join(re.findall(r'test .*FAILED', o)))
    c, o = sh('bash %s/demo.sh' % out, S)
    if c == 0: return 'the demonstration passes with the change'
    sh('git diff > %s/patch.diff' % out, S)
    json.dump({'property': sd['property'], 'needs': sd['needs'], 'what_it_breaks': sd['breaks']}, open(out + '/meta.json', 'w'), indent=1)
    return 'ok: ' + o[-300:]
if __name__ == '__main__':
    import seeds
    for n in sys.argv[1:] or seeds.SEEDS:
        try: r = make(n, seeds.SEEDS[n])
        except Exception as e: r = 'failed: %r' % e
        print('=====', n, r, flush=True)
        if not r.startswith('ok'): shutil.rmtree(os.path.join(H, 'seeded', n), ignore_errors=True)
