#!/usr/bin/env python3
"""muts.py PROPS FILE < lines 'old|||new': many single-line mutations at once; one line of result each (development aid)."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
props, f = sys.argv[1:3]
f = f.removeprefix("/repo/").removeprefix("crates/")
assert not os.path.isabs(f)
def one(l):
    o, n, *_ = l.split('|||')
    cnt = None
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/crates', d + '/crates', ignore=shutil.ignore_patterns('target', 'tests', 'node_modules', 'fixtures'))
        for x in os.listdir('/repo'):
            if os.path.isfile('/repo/' + x): shutil.copy('/repo/' + x, d)
        p = os.path.join(d, 'crates', f)
        s = open(p).read()
        o, n = o.replace('\\n', '\n'), n.replace('\\n', '\n')
        if o not in s: return f'NOPAT  {l[:120]}'
        open(p, 'w').write(s.replace(o, n, 1))
        res, first = [], ''
        for q in props.split(','):
            r = subprocess.run([sys.executable, '/verif/run.py', q], env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/evidence'}, capture_output=True, text=True)
            if r.returncode:
                res.append(q + ('' if r.returncode == 1 else f'({r.returncode})'))
                if not first:
                    lines = [x for x in (r.stdout + r.stderr).split('\n') if x and not x.startswith(('KNOWN', 'VIOLATION'))]
                    first = (lines or [''])[0][:160]
        return f'{"caught" if res else "MISSED"} {",".join(res):12} {l[:110]} :: {first}'
    finally:
        shutil.rmtree(d)
with ThreadPoolExecutor(7) as ex:
    for r in ex.map(one, [l.rstrip('\n') for l in sys.stdin if l.strip()]): print(r, flush=True)
