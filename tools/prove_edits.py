#!/usr/bin/env python3
"""The verification part only, on scratch copies of /repo with each edit of /verif/refactorings applied:
what cannot be lowered and what fails.  prove_edits.py [name…]"""
import os, re, shutil, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H + '/lib')
R = '/tmp/w/pe%d' % os.getpid()
os.environ['ELM_REPO'] = R
import pipe
pipe.log = lambda *a: None
base = H + '/refactorings/'
for n in sys.argv[1:] or sorted(os.listdir(base)):
    n = n.replace('.diff', '')
    if n.startswith(('check-', 'dump-')): continue
    shutil.rmtree(R, ignore_errors=True)
    subprocess.run(['cp', '-a', '/repo', R], check=True)
    subprocess.run(['git', '-C', R, 'apply', base + n + '.diff'], check=True)
    t = time.time()
    try:
        with pipe.Work() as w:
            d = pipe.dump(w)['elm_parser']
            p = pipe.prove(w, d)
            print(n, '%.0fs' % (time.time() - t), 'ok' if p['ok'] else 'BROKEN ' + p['why'][:300], 'rounds', p['rounds'],
                  {f: [(e['kind'], e.get('text', '')[:80]) for e in x][:2] for f, x in p['failed'].items()} or '', {f: str(x)[:150] for f, x in p['unsupported'].items()} or '', flush=True)
    except Exception as e: print(n, 'EXC', repr(e)[:300], flush=True)
shutil.rmtree(R, ignore_errors=True)
