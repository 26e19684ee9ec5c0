"""A recorded file system: every operation is logged with its path and outcome; outcomes are partitioned."""
from .dom import *
from . import std
from .ext import Sink, E_IO
from .std import m, fn


class Op:
    def __init__(self, kind, path, ok, data=None, h=None):
        self.kind, self.path, self.ok, self.data, self.h = kind, path, ok, data, h

    def __repr__(self):
        return f'{self.kind}({show(self.path) if self.path is not None else ""}{"" if self.data is None else ", " + show(self.data)}){"" if self.ok is True else " failed" if self.ok is False else " " + str(self.ok)}'


class FileSink(Sink):
    """An open file; what is written to it is logged in order."""

    def __init__(self, fs, path, mode):
        Sink.__init__(self, fs.it, show(path))
        self.fs, self.path, self.mode = fs, path, mode

    def write_str(self, s):
        if isinstance(s, Str) and len(s.parts) == 1 and isinstance(s.parts[0], Term):
            s = s.parts[0]
        return self.put(s, 'data')

    def put(self, data, kind='data'):
        o = self.fs.outcome('write', self.path)
        self.fs.log(kind, self.path, o, data, self)
        if o:
            self.parts.append(data)
            self.flushed = False
            return std_ok(UNIT)
        self.failed = True
        return self.fs.error('write', self.path)

    def step(self, what):
        kind = 'flush' if what == 'flushed' else what
        o = self.fs.outcome(kind, self.path)
        self.fs.log(kind, self.path, o, None, self)
        if not o:
            self.failed = True
            return self.fs.error(kind, self.path)
        return std_ok(UNIT)


def std_ok(v):
    return Enum('Result', 'Ok', [v])


class Fs:
    """Recorded file system of one partition."""

    def __init__(self, it, errors=True, exists=('File::create_new',)):
        self.it = it
        self.ops = []
        self.counts = {}
        self.errors = errors
        it.fs = self

    def path(self, v):
        return self.it.ctx.norm(self.it.freeze(self.it.ctx.sstr(deref(v)))) if not isinstance(deref(v), Native) else deref(v)

    def outcome(self, kind, path, others=()):
        k = ('fs', kind, path if not isinstance(path, Native) else path.kind)
        n = self.counts[k] = self.counts.get(k, 0) + 1
        if not self.errors:
            return True
        return self.it.ctx.choose((f'{kind} succeeds', path) + ((n,) if n > 1 else ()), [True, *others, False])

    def log(self, kind, path, ok, data=None, h=None):
        self.ops.append(Op(kind, path, ok, data, h))
        return ok

    def error(self, kind, path, what='PermissionDenied'):
        return Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::' + what, (), Ty('ErrorKind')), Term(kind + ' failed', (path,), T_STR)), E_IO)])

    def simple(self, kind, path, val=UNIT, data=None):
        o = self.outcome(kind, path)
        self.log(kind, path, o, data)
        return std_ok(val) if o else self.error(kind, path)

    def open(self, path, mode):
        o = self.outcome('create', path, ('exists',) if mode == 'create_new' else ())
        h = FileSink(self, path, mode)
        self.log(mode, path, o, None, h)
        if o is True:
            return std_ok(h)
        return self.error(mode, path, 'AlreadyExists' if o == 'exists' else 'PermissionDenied')

    def data(self, v):
        return self.it.freeze(deref(v))

    @staticmethod
    def models():
        def p1(kind):
            return lambda it, a: it.fs.simple(kind, it.fs.path(a[0]))

        def copy(it, a, level=None):
            src, dst = deref(a[0]), deref(a[1])
            d = it.fs.data(src)
            if level is not None:
                d = Term('zstd', (d, it.freeze(level)), Ty('Bytes'))
            if isinstance(dst, Sink):
                r = dst.put(d) if isinstance(dst, FileSink) else dst.write_str(d)
                return r if r.variant == 'Err' else std_ok(Term('copied', (d,), Ty('u64')))
            raise Unsupported(f'copy to {show(dst)}')
        def to_writer(it, a):
            dst, d = deref(a[0]), Term('json', (it.freeze(deref(a[1])),), Ty('Bytes'))
            if not isinstance(dst, Sink):
                raise Unsupported(f'serialization to {show(dst)}')
            return dst.write_str(Str((d,)))
        return {
            'serde_json::to_writer': to_writer, 'serde_json::to_writer_pretty': to_writer,
            'fs::create_dir_all': p1('mkdir'), 'fs::create_dir': p1('mkdir_one'), 'fs::remove_file': p1('remove'), 'fs::remove_dir': p1('rmdir'),
            'fs::remove_dir_all': p1('rmtree'), 'File::create': lambda it, a: it.fs.open(it.fs.path(a[0]), 'create'),
            'File::create_new': lambda it, a: it.fs.open(it.fs.path(a[0]), 'create_new'),
            'fs::write': lambda it, a: it.fs.simple('write', it.fs.path(a[0]), UNIT, it.fs.data(a[1])),
            'fs::rename': lambda it, a: it.fs.simple('rename', it.fs.path(a[0]), UNIT, it.fs.path(a[1])),
            'io::copy': copy, 'stream::copy_encode': lambda it, a: copy(it, a, a[2]), 'zstd::copy_encode': lambda it, a: copy(it, a, a[2]),
            'stream::encode_all': lambda it, a: std_ok(Term('zstd', (it.fs.data(a[0]), it.freeze(a[1])), Ty('Bytes'))),
            'OpenOptions::new': lambda it, a: Native('openopts', flags=set()), 'File::options': lambda it, a: Native('openopts', flags=set()),
        }


def _flag(name):
    def f(c):
        if c.it.ctx.truth(c.args[0]):
            c.v.flags.add(name)
        else:
            c.v.flags.discard(name)
        return c.recv
    return f


for _n in ('read', 'write', 'create', 'create_new', 'truncate', 'append'):
    m('openopts', _n)(_flag(_n))


@m('openopts', 'open')
def _(c):
    fs = c.it.fs
    fl = c.v.flags
    p = fs.path(c.args[0])
    mode = 'create_new' if 'create_new' in fl else 'create' if 'create' in fl and 'truncate' in fl else 'append' if 'append' in fl else 'open' if fl == {'read'} else 'overwrite'
    return fs.open(p, mode)


FS_MODELS = Fs.models()
