#!/usr/bin/env python3
"""mut.py PROP[,PROP] FILE OLD NEW [N]: runs checks on a scratch copy of /repo's sources with one textual change (development aid)."""
import os, shutil, subprocess, sys, tempfile
props, f, old, new = sys.argv[1:5]
d = tempfile.mkdtemp(prefix='mut')
try:
    shutil.copytree('/repo/crates', d + '/crates', ignore=shutil.ignore_patterns('target', 'tests', 'node_modules', 'fixtures'))
    for n in os.listdir('/repo'):
        if os.path.isfile('/repo/' + n):
            shutil.copy('/repo/' + n, d)
    p = os.path.join(d, 'crates', f)
    s = open(p).read()
    if old not in s:
        sys.exit('pattern not found')
    s = s.replace(old, new, int(sys.argv[5]) if len(sys.argv) > 5 else 1)
    open(p, 'w').write(s)
    for q in props.split(','):
        r = subprocess.run([sys.executable, '/verif/run.py', q], env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/evidence'}, capture_output=True, text=True)
        lines = (r.stdout + r.stderr).split('\n')
        print(r.returncode, '|', '\n    '.join(l[:420] for l in lines[:int(os.environ.get('N', '3'))]))
finally:
    shutil.rmtree(d)
