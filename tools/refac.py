#!/usr/bin/env python3
"""refac.py SPECFILE [ID..]: applies behaviour-preserving edits (python literal list of dicts: id, file, props, edits) and reports checks that raise alarms (development aid).
All edits together are first built against /repo, so that each is valid Rust; NOBUILD=1 skips that."""
import os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
R = '/repo'
specs = eval(open(sys.argv[1]).read())
want = sys.argv[2:]
specs = [s for s in specs if not want or s['id'] in want]


def apply(root, s):
    for e in s['edits']:
        f, old, new = e if len(e) == 3 else (s['file'], *e)
        p = f'{root}/crates/{f}'
        t = open(p).read()
        if t.count(old) < 1:
            raise SystemExit(f"{s['id']}: pattern missing: {old[:80]}")
        open(p, 'w').write(t.replace(old, new, 1))


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


if not os.environ.get('NOBUILD'):
    assert not sh('git status --porcelain', cwd=R).stdout.strip(), 'repo not clean'
    groups, rest = [], list(specs)
    while rest:
        try:
            left = []
            for s in rest:
                snap = {f: open(f'{R}/crates/{f}').read() for f in {(e[0] if len(e) == 3 else s['file']) for e in s['edits']}}
                try:
                    apply(R, s)
                except SystemExit as x:
                    for f, t in snap.items():
                        open(f'{R}/crates/{f}', 'w').write(t)
                    left.append(s)
            if len(left) == len(rest):
                print('cannot apply', [s['id'] for s in left])
                break
            r = sh('bash /opt/vp/build.sh')
            if r.returncode:
                print('BUILD FAILS', '\n'.join(l for l in r.stdout.split('\n') if 'error' in l or '-->' in l)[-1500:])
                print(r.stdout[-1200:])
                sys.exit(1)
            t = sh('bash /opt/vp/test.sh /tmp/refac.json')
            if '31 passed, 0 failed' not in t.stdout:
                print('TESTS FAIL', t.stdout[-1500:])
            rest = left
        finally:
            sh('git checkout -- .', cwd=R)
    sh('bash /opt/vp/build.sh')


def one(s):
    d = tempfile.mkdtemp(prefix='refac')
    out = []
    try:
        shutil.copytree(R + '/crates', d + '/crates', ignore=shutil.ignore_patterns('target', 'tests', 'node_modules', 'fixtures'))
        for n in os.listdir(R):
            if os.path.isfile(R + '/' + n):
                shutil.copy(R + '/' + n, d)
        try:
            apply(d, s)
        except SystemExit as x:
            return s, [str(x)]
        for q in s['props'].split(','):
            r = subprocess.run([sys.executable, '/verif/run.py', q], env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/evidence'}, capture_output=True, text=True)
            if r.returncode:
                out.append(q + ' ' + '\n     '.join(l[:330] for l in (r.stdout + r.stderr).split('\n')[:int(os.environ.get('N', '3'))]))
    finally:
        shutil.rmtree(d)
    return s, out


n = 0
with ThreadPoolExecutor(7) as ex:
    for s, out in ex.map(one, specs):
        if out:
            n += 1
            print(s['id'], 'NOISY', '\n   '.join(out))
print(f'{len(specs)} refactorings, {n} noisy')
