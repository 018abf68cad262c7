#!/usr/bin/env python3
"""Runs, from a copy of /verif, the checks against scratch copies of /repo with each planted change applied.
try_seeds.py [-p PATCHDIR] [name[:PID,PID]] ..."""
import json, os, subprocess, sys, shutil, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
base = H + '/seeded'
if args[:1] == ['-p']: base, args = os.path.abspath(args[1]), args[2:]
tag = str(os.getpid())
V, R = '/tmp/w/try%s/verif' % tag, '/tmp/w/try%s/repo' % tag
os.makedirs(os.path.dirname(V))
subprocess.run(['cp', '-a', H, V])
subprocess.run(['cp', '-a', '/repo', R])
try:
    for n in args or sorted(os.listdir(base)):
        n, _, pids = n.partition(':')
        pat = os.path.join(base, n, 'patch.diff') if os.path.isdir(os.path.join(base, n)) else os.path.join(base, n)
        if not pids: pids = json.load(open(os.path.join(base, n, 'meta.json')))['property']
        subprocess.run(['git', '-C', R, 'checkout', '-q', '--', '.'])
        c = subprocess.run(['git', '-C', R, 'apply', pat])
        if c.returncode: print(n, 'does not apply'); continue
        for pid in pids.split(','):
            t = time.time()
            p = subprocess.run(['python3', 'check.py', pid], cwd=V, env=dict(os.environ, ELM_REPO=R, VERIF_SEED='1', VERIF_TIER='quick'), stdout=subprocess.PIPE, stderr=subprocess.PIPE)
            o = p.stdout.decode().strip().replace('/tmp/w/try%s/' % tag, '')
            x = ''
            if 'replay=' in o:
                try:
                    j = json.load(open(V + '/evidence/%s.replay.json' % pid))
                    x = json.dumps(j.get('input') and [j['input']['entry'], j['input']['text']] or list(j.get('obligations', {})) or j)[:200]
                except Exception as e: x = repr(e)
            print(n, pid, p.returncode, '%.0fs' % (time.time() - t), o[:200], x, '' if p.returncode in (0, 1) else p.stderr.decode()[-800:], flush=True)
finally:
    shutil.rmtree('/tmp/w/try' + tag)
