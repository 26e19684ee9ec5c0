"""Runs wasm-split on small modules in a scratch folder; the test is read from stdin."""
import os, shutil, subprocess, sys, tempfile
D = tempfile.mkdtemp()
BIN = '/opt/vp/ws/target/debug/wasm-split'


def leb(n):
    out = b''
    while True:
        b, n = n & 127, n >> 7
        out += bytes([b | (128 if n else 0)])
        if not n:
            return out


def custom(name, data):
    body = leb(len(name)) + name.encode() + data
    return b'\0' + leb(len(body)) + body


def write(f, sections):
    open(f, 'wb').write(b'\0asm\1\0\0\0' + b''.join(sections))


def num(b, i):
    n = s = 0
    while True:
        n |= (b[i] & 127) << s
        s += 7
        i += 1
        if b[i - 1] < 128:
            return n, i


def read(f):
    """(name, data) of the custom sections of a module."""
    b, i, out = open(f, 'rb').read(), 8, []
    while i < len(b):
        k, (n, j) = b[i], num(b, i + 1)
        if k == 0:
            m, q = num(b, j)
            out.append((b[q:q + m].decode(), b[q + m:j + n]))
        else:
            out.append((str(k), b[j:j + n]))
        i = j + n
    return out


def run(*args):
    r = subprocess.run([BIN, *args], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return r.returncode, r.stdout


def check(good, info):
    print(info)
    os.chdir('/')
    shutil.rmtree(D)
    sys.exit(0 if good else 1)


test = sys.stdin.read()
os.chdir(D)
exec(test)
