#!/usr/bin/env python3
"""plant.py SPECFILE [ID..]: makes seeded bugs from a spec (python literal list of dicts) and confirms them against /repo (development aid).

dict: id, property, file, edits [(old,new)..], needs, breaks, demo (text of demo.rs) or sh (text of demo.sh), files {name: text}"""
import json, os, shutil, subprocess, sys
R, V = '/repo', '/verif'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def clean():
    sh('git checkout -- .', cwd=R)


def build():
    r = sh('bash /opt/vp/build.sh')
    return r.returncode == 0, r.stdout[-1500:]


assert not sh('git status --porcelain', cwd=R).stdout.strip(), 'repo not clean'
specs = eval(open(sys.argv[1]).read())
want = sys.argv[2:]
todo = []
for s in specs:
    if want and s['id'] not in want:
        continue
    d = f"{V}/seeded/{s['id']}"
    os.makedirs(d, exist_ok=True)
    try:
        for f, old, new in [(e if len(e) == 3 else (s['file'], *e)) for e in s['edits']]:
            p = f'{R}/crates/{f}'
            t = open(p).read()
            assert t.count(old) >= 1, (s['id'], 'pattern missing', old)
            assert t.count(old) == 1, (s['id'], 'pattern not unique', old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=R).stdout
    finally:
        clean()
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    if 'demo' in s:
        open(d + '/demo.rs', 'w').write(s['demo'].strip() + '\n')
        shutil.copy(V + '/tools/demo/rs.sh', d + '/demo.sh')
    else:
        open(d + '/demo.sh', 'w').write(s['sh'].strip() + '\n')
    for n, t in s.get('files', {}).items():
        open(f'{d}/{n}', 'w').write(open(V + '/tools/bugs/' + t[1:]).read() if t.startswith('@') else t)
    todo.append(s)

ok, log = build()
assert ok, log
bad = set()
for s in todo:
    r = sh(f"bash {V}/seeded/{s['id']}/demo.sh", cwd=R, timeout=300)
    if r.returncode != 0:
        print(s['id'], 'DEMO FAILS ON CLEAN TREE', r.returncode, r.stdout[-800:])
        bad.add(s['id'])
for s in todo:
    i = s['id']
    try:
        r = sh(f'git apply {V}/seeded/{i}/patch.diff', cwd=R)
        if r.returncode:
            print(i, 'PATCH', r.stdout)
            continue
        ok, log = build()
        if not ok:
            print(i, 'DOES NOT BUILD', log)
            bad.add(i)
            continue
        sh('bash /opt/vp/test.sh /tmp/plant.json')
        t = json.load(open('/tmp/plant.json'))
        np = len(t['passed']) if isinstance(t['passed'], list) else t['passed']
        if np < 31:
            print(i, 'TESTS', np, t['failed'])
            bad.add(i)
        r = sh(f'bash {V}/seeded/{i}/demo.sh', cwd=R, timeout=300)
        if r.returncode == 0:
            print(i, 'DEMO PASSES WITH THE BUG', r.stdout[-600:])
            bad.add(i)
        c = sh(f"python3 {V}/run.py {s['property']}", cwd=V, env={**os.environ, 'VERIF_EVIDENCE': '/tmp/plant_ev'})
        print(i, 'ok' if i not in bad else 'BAD', '| check', 'CAUGHT' if c.returncode == 1 else 'MISSED', '|', '\n'.join(l[:260] for l in c.stdout.split('\n')[1:2]), '| demo:', r.stdout.strip()[-160:])
    finally:
        clean()
build()
