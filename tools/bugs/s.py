"""Runs symsorter on small Breakpad files in a scratch folder; the test is read from stdin."""
import os, shutil, subprocess, sys, tempfile
D = tempfile.mkdtemp()
BIN = '/opt/vp/ws/target/debug/symsorter'


def sym(path, ident, sources=()):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, 'w') as fh:
        fh.write(f'MODULE Linux x86_64 {ident} app\n')
        for i, s in enumerate(sources):
            fh.write(f'FILE {i} {s}\n')
        fh.write('FUNC 1000 30 0 main\n')
        for i, s in enumerate(sources):
            fh.write(f'{0x1000 + i:x} 1 {i + 1} {i}\n')
        fh.write('PUBLIC 2000 0 other\n')


def files(root):
    return sorted(os.path.relpath(os.path.join(d, f), root) for d, _, fs in os.walk(root) for f in fs)


def data(f):
    return open(f, 'rb').read()


def run(*args):
    r = subprocess.run([BIN, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def check(good, info):
    print(str(info)[:2000])
    os.chdir('/')
    shutil.rmtree(D)
    sys.exit(0 if good else 1)


test = sys.stdin.read()
os.chdir(D)
exec(test)
