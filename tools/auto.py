#!/usr/bin/env python3
"""auto.py PROPS FILE [SKIP]: mutates every line of FILE mechanically, and lists the changes no check of PROPS reports (development aid)."""
import os, re, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
props, f = sys.argv[1:3]
props = props.split(',')
src = open('/repo/crates/' + f).read().split('\n')
end = next((i for i, l in enumerate(src) if l.startswith('#[cfg(test)]')), len(src))
SWAP = [('==', '!='), ('!=', '=='), ('&&', '||'), ('||', '&&'), ('<=', '<'), (' < ', ' <= '), (' > ', ' >= '), ('>=', '>'), ('true', 'false'), ('false', 'true'), (' + ', ' - '), (' - ', ' + '),
        ('.is_some()', '.is_none()'), ('.is_none()', '.is_some()'), ('.is_ok()', '.is_err()'), ('if !', 'if '), ('if let', 'if let'), ('..=', '..'), ('first()', 'last()'), ('.to_lowercase()', ''),
        ('.to_ascii_lowercase()', ''), ('.to_uppercase()', ''), ('.to_ascii_uppercase()', ''), ('to_lowercase', 'to_uppercase'), ('starts_with', 'ends_with'), ('ends_with', 'starts_with'),
        ('.any(', '.all('), ('.all(', '.any('), ('continue', 'break'), ('break', 'continue'), ('.rev()', ''), ('.and_then', '.and_then'), ('unwrap_or(false)', 'unwrap_or(true)'), ('Some(', 'None; Some('),
        ('.min(', '.max('), ('.max(', '.min('), ('.trim()', ''), ('file_name', 'file_stem'), ('code_id', 'debug_id'), ('debug_id', 'code_id'), ('code_file', 'debug_file'), ('debug_file', 'code_file'),
        ('find(', 'rfind('), ('split_once', 'rsplit_once'), ('rsplit_once', 'split_once'), ('return None;', ''), ('return true;', ''), ('return false;', ''), ('Ok(true)', 'Ok(false)'), ('Ok(false)', 'Ok(true)')]
muts = []
for i, l in enumerate(src[:end]):
    t = l.strip()
    if not t or t.startswith(('//', 'use ', '#[derive', '#!', '///', '}')):
        continue
    code = l.split(' // ')[0]
    for a, b in SWAP:
        if a == b:
            continue
        for m in re.finditer(re.escape(a), code):
            if a in ('true', 'false', 'continue', 'break', 'find(', 'code_id', 'debug_id', 'code_file', 'debug_file', 'file_name') and (m.start() and (code[m.start() - 1].isalnum() or code[m.start() - 1] == '_')):
                continue
            if a == '||' and re.search(r'\|\|', code) and re.search(r'[(,=] *$', code[:m.start()]):
                continue
            muts.append((i, code[:m.start()] + b + code[m.end():]))
    for m in re.finditer(r'"((?:[^"\\]|\\.)*)"', code):
        if 'expect' in code or 'context(' in code or 'help' in code or 'tracing' in code:
            continue
        muts.append((i, code[:m.start()] + '"' + m[1] + 'x"' + code[m.end():]))
        if m[1] and '{' not in m[1] and '\\' not in m[1]:
            muts.append((i, code[:m.start()] + '"' + m[1][1:] + '"' + code[m.end():]))
    for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.]|")', re.sub(r'"[^"]*"', lambda k: '"' + 'x' * (len(k[0]) - 2) + '"', code)):
        muts.append((i, code[:m.start()] + str(int(m[1]) + 1) + code[m.end():]))
    if t.endswith(';') and not t.startswith(('let ', 'use ', 'type ', 'const ', 'static ', 'pub ')):
        muts.append((i, ''))
    if ' => ' in t and t.endswith(','):
        muts.append((i, ''))
    if t.startswith('.') and not t.endswith(('{', ';')):
        muts.append((i, ''))
    for m in re.finditer(r'\.\w+\((?:[^()]*)\)(?=[.;,)?]|$)', code):
        if m[0] not in ('.unwrap()',):
            muts.append((i, code[:m.start()] + code[m.end():]))
seen = set()
muts = [x for x in muts if not (x in seen or seen.add(x))]
skip = int(sys.argv[3]) if len(sys.argv) > 3 else 0


def one(x):
    i, new = x
    d = tempfile.mkdtemp(prefix='mut')
    try:
        shutil.copytree('/repo/crates', d + '/crates', ignore=shutil.ignore_patterns('target', 'tests', 'node_modules', 'fixtures'))
        for n in os.listdir('/repo'):
            if os.path.isfile('/repo/' + n): shutil.copy('/repo/' + n, d)
        t = list(src); t[i] = new
        open(os.path.join(d, 'crates', f), 'w').write('\n'.join(t))
        for q in props:
            r = subprocess.run([sys.executable, '/verif/run.py', q], env={**os.environ, 'VERIF_REPO': d, 'VERIF_EVIDENCE': d + '/evidence'}, capture_output=True, text=True)
            if r.returncode:
                return x, q
        return x, None
    finally:
        shutil.rmtree(d)


print(len(muts), 'mutants', flush=True)
with ThreadPoolExecutor(int(os.environ.get('J', '6'))) as ex:
    for n, ((i, new), q) in enumerate(ex.map(one, muts[skip:])):
        if q is None:
            print(f'SURVIVES {f}:{i + 1}\n  - {src[i].strip()}\n  + {new.strip()}', flush=True)
print('done', flush=True)
