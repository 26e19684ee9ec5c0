"""C07, D05: files that are built up in temporary files: derived caches, auxiliary files, unpacked downloads.

The model of a temporary file knows what was written to it, whether every step succeeded, what still sits in a write
buffer, and what was on disk when it was read again. Every step may fail."""
from .util import *
from engine import ext
from engine.ext import E_IO
from engine.std import m as method, EXT_ENUMS

SVC = 'symbolicator_service::'
T_CERR = SVC + 'caching::cache_error::CacheError'
T_B = Ty('Bytes')
EXT_ENUMS.setdefault('Object', ['Breakpad', 'Elf', 'MachO', 'Pdb', 'Pe', 'SourceBundle', 'Wasm', 'PortablePdb'])


def ok_(v=UNIT):
    return Enum('Result', 'Ok', [v])


def io(what, kind='PermissionDenied'):
    return Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::' + kind, (), Ty('ErrorKind')), Str(what)), E_IO)])


def cerr(kind):
    return Enum('Result', 'Err', [Enum(T_CERR, kind, [] if kind in ('NotFound', 'InternalError') else [Str('details')])])


def step(it, *k):
    """One operation that may fail; it.failed names those that did."""
    n = it.steps[k] = it.steps.get(k, 0) + 1
    r = it.ctx.choose((' '.join(map(str, k)) + ' succeeds', n), [True, False])
    if not r:
        it.failed.append(k)
    return r


class TFile(Native):
    """A temporary file."""

    def __init__(self, it, content=()):
        Native.__init__(self, 'tfile')
        it.files.append(self)
        self.it, self.n, self.parts, self.broken, self.synced, self.pos = it, len(it.files), list(content), False, True, 'start'

    def data(self):
        if self.broken:
            return Term('incomplete', (self.n,), T_B)
        return self.parts[0] if len(self.parts) == 1 else Term('concat', tuple(self.parts), T_B)

    def write(self, d):
        if not step(self.it, 'write', self.n):
            self.broken = True
            return io('write')
        self.put(d)
        return ok_()

    def put(self, d):
        self.parts.append(d)
        self.synced = False
        self.pos = 'end'


def tf(v):
    v = deref(v)
    if isinstance(v, Native) and v.kind == 'bufw':
        return v
    return v if isinstance(v, TFile) else v.f if isinstance(v, Native) and v.kind == 'fileh' else None


for _n in ('as_file', 'as_file_mut', 'by_ref', 'get_mut', 'get_ref'):
    method('tfile', _n)(lambda c: Native('fileh', f=c.v))
    method('fileh', _n)(lambda c: c.v)


@method('tfile', 'into_file')
def _(c):
    return Native('fileh', f=c.v)


@method('tfile', 'path')
def _(c):
    return Str(f'tmp/file{c.v.n}')


for _k in ('tfile', 'fileh'):
    for _n in ('reopen', 'try_clone'):
        method(_k, _n)(lambda c, _n=_n: ok_(Native('fileh', f=tf(c.v))) if step(c.it, _n, tf(c.v).n) else io(_n))

    @method(_k, 'sync_all', 'sync_data')
    def _(c):
        f = tf(c.v)
        if not step(c.it, 'sync', f.n):
            return io('sync')
        f.synced = True
        return ok_()

    @method(_k, 'flush')
    def _(c):
        return ok_() if step(c.it, 'flush', tf(c.v).n) else io('flush')

    @method(_k, 'rewind')
    def _(c):
        if not step(c.it, 'rewind', tf(c.v).n):
            return io('rewind')
        tf(c.v).pos = 'start'
        return ok_()

    @method(_k, 'seek')
    def _(c):
        a = deref(c.args[0])
        if not (isinstance(a, Enum) and a.variant == 'Start' and deref(a.fields[0]) == 0 or isinstance(a, Term) and show(a) in ('SeekFrom::Start(0)',)):
            raise Unsupported(f'seek {show(a)}')
        if not step(c.it, 'rewind', tf(c.v).n):
            return io('seek')
        tf(c.v).pos = 'start'
        return ok_(0)

    @method(_k, 'metadata')
    def _(c):
        return ok_(Native('filemeta', f=tf(c.v), data=tf(c.v).data())) if step(c.it, 'metadata', tf(c.v).n) else io('metadata')

    @method(_k, 'write_all', 'write_str')
    def _(c):
        return tf(c.v).write(c.it.freeze(deref(c.args[0])))

    @method(_k, 'set_len')
    def _(c):
        if deref(c.args[0]) != 0:
            raise Unsupported('set_len')
        if not step(c.it, 'truncate', tf(c.v).n):
            return io('set_len')
        tf(c.v).parts, tf(c.v).broken = [], False
        return ok_()

    @method(_k, 'read_exact', 'read')
    def _(c):
        from engine.interp import inner
        f = tf(c.v)
        buf = deref(c.args[0])
        if not step(c.it, 'read', f.n):
            return io('read', 'UnexpectedEof')
        if f.pos != 'start':
            raise Unsupported('reading after the start')
        f.pos = 'read'
        n = len(buf.items)
        if c.name == 'read' and c.it.ctx.choose(('a read is short', f.n), [False, True]):
            return ok_(0)
        buf.items[:] = [Term('byte', (f.data(), i), Ty('u8')) for i in range(n)]
        return ok_()


@method('filemeta', 'len')
def _(c):
    return Term('len', (c.v.data,), Ty('u64'))


# ------------------------------------------------------------------ buffered writers
@method('bufw', 'flush')
def _(c):
    return ok_() if drain(c.it, c.v) else io('flush')


def drain(it, b):
    good = step(it, 'flush', b.f.n) if isinstance(b.f, TFile) else drain(it, b.f)
    if good:
        for d in b.pending:
            (b.f.put if isinstance(b.f, TFile) else b.f.pending.append)(d)
    elif isinstance(b.f, TFile):
        b.f.broken = True
    b.pending = []
    return good


@method('bufw', 'into_inner')
def _(c):
    return ok_(c.v.arg) if drain(c.it, c.v) else Enum('Result', 'Err', [Native('intoinner')])


@method('bufw', 'get_ref', 'get_mut')
def _(c):
    return c.v.arg


@method('bufw', 'into_parts')
def _(c):
    return Tup([c.v.arg, Term('unwritten', (), T_B)])


@method('bufw', 'write_all', 'write_str')
def _(c):
    return bwrite(c.it, c.v, c.it.freeze(deref(c.args[0])))


method('bufw', 'by_ref')(lambda c: c.v)
method('intoinner', 'into_error')(lambda c: io('flush').fields[0])
method('intoinner', 'error')(lambda c: io('flush').fields[0])
method('intoinner', 'to_string')(lambda c: Str('flush failed'))


def bwrite(it, b, d):
    if not step(it, 'write', b.f.n if isinstance(b.f, TFile) else 'buffer'):
        f = b.f
        while not isinstance(f, TFile):
            f = f.f
        f.broken = True
        return io('write')
    b.pending.append(d)
    return ok_()


def bufw(it, a):
    v = deref(a[-1])
    b = Native('bufw', f=tf(v), arg=a[-1], pending=[])
    if b.f is None:
        raise Unsupported(f'BufWriter over {show(v)}')
    it.bufs.append(b)
    return b


def write_to(it, w, d):
    v = tf(w)
    if v is None:
        raise Unsupported(f'writing to {show(w)}')
    return bwrite(it, v, d) if v.kind == 'bufw' else v.write(d)


def content_of(it, v):
    """What reading the source yields, or None."""
    v = deref(v)
    if isinstance(v, Native) and v.kind == 'reader':
        return v.data
    if isinstance(v, Native) and v.kind == 'view':
        return v.data
    f = tf(v)
    if isinstance(f, TFile):
        return f.data() if f.pos == 'start' else Term('rest of', (f.data(), f.pos), T_B)
    if isinstance(v, Native) and v.kind == 'bufr':
        return content_of(it, v.f)
    if isinstance(v, (Term, Str)):
        return it.freeze(v)
    raise Unsupported(f'reading from {show(v)}')


def copy(it, a):
    d = content_of(it, a[0])
    what = 'unpack' if isinstance(deref(a[0]), Native) and deref(a[0]).kind == 'reader' else 'copy'
    w = tf(a[1])
    if not step(it, what):
        if isinstance(w, TFile):
            w.broken = True
        return io(what, 'InvalidData')
    r = write_to(it, a[1], d)
    return ok_(Term('copied', (), Ty('u64'))) if r.variant == 'Ok' else r


def reader(kind):
    return lambda it, a: Native('reader', data=Term(kind, (content_of(it, a[0]),), T_B))


def view(it, a):
    f = tf(a[0])
    if f is None:
        raise Unsupported(f'mapping {show(a[0])}')
    if not step(it, 'map', f.n):
        return io('map')
    return ok_(Native('view', data=f.data()))


method('view', 'as_slice', 'as_ref', 'deref')(lambda c: c.v)
method('view', 'hint')(lambda c: ok_())


def parse(kind, opt=False):
    """Parsing a file format: the outcome is a fact about the contents."""
    def f(it, a):
        d = content_of(it, a[-1])
        good = it.ctx.choose((f'a valid {kind}', d), [True, False])
        it.parsed.append((kind, d, good))
        v = Native('parsed', what=kind, data=d)
        if good:
            return some(v) if opt else ok_(v)
        return none() if opt else Enum('Result', 'Err', [Term('parse error', (Str(kind),), Ty('ParseError'))])
    return f


# ------------------------------------------------------------------ converters
def conv(kind):
    return lambda it, a: Native('conv', what=kind, inputs=[])


def conv_of(kind):
    """A converter that is built from its inputs, which may turn out to be broken."""
    def f(it, a):
        ins = [it.freeze_in(x) for x in a]
        if not it.ctx.choose((f'{kind} can be built',), [True, False]):
            it.invalid = True
            return Enum('Result', 'Err', [Term('conversion error', (), Ty('ConversionError'))])
        return ok_(Native('conv', what=kind, inputs=ins))
    return f


def fz(it, v):
    v = deref(v)
    if isinstance(v, Native):
        return Term(getattr(v, 'what', v.kind), (it.freeze(v.data),) if hasattr(v, 'data') else (), T_B)
    return it.freeze(v)


@method('conv', 'add_transformer')
def _(c):
    c.v.inputs.append(fz(c.it, c.args[0]))
    return UNIT


@method('conv', 'process_object', 'process_portable_pdb')
def _(c):
    if not c.it.ctx.choose(('the object can be processed',), [True, False]):
        c.it.invalid = True
        return Enum('Result', 'Err', [Term('conversion error', (), Ty('ConversionError'))])
    # transformers only apply to what is processed afterwards
    c.v.inputs.append(Term('processed', (fz(c.it, c.args[0]),), T_B))
    return ok_()


@method('conv', 'serialize', 'write_to')
def _(c):
    return write_to(c.it, c.args[0], Term('cache of', (Str(c.v.what), *c.v.inputs), T_B))


def downloaded(it, a):
    """fetch_file: downloads and unpacks into the given file."""
    f = tf(a[2])
    r = it.ctx.choose(('the download',), ['Ok', 'NotFound', 'DownloadError'])

    def go():
        if r == 'Ok':
            f.put(Term('downloaded', (), T_B))
            return ok_()
        f.broken = True
        it.failed.append(('download', r))
        return cerr(r)
    return Future(go)


def fetched(it, a):
    r = it.ctx.choose(('the object',), ['Ok', 'NotFound', 'DownloadError'])

    def go():
        if r == 'Ok':
            return ok_(Term('handle', (), Ty(SVC + 'objects::data_cache::ObjectHandle')))
        it.failed.append(('fetch', r))
        return cerr(r)
    return Future(go)


def new_temp(it, a):
    return ok_(TFile(it)) if step(it, 'create') else io('tempfile')


MODELS = {
    'NamedTempFile::new_in': new_temp, 'NamedTempFile::new': new_temp, 'tempfile::tempfile': new_temp, 'tempfile::tempfile_in': new_temp,
    'BufWriter::new': bufw, 'BufWriter::with_capacity': bufw, 'LineWriter::new': bufw, 'BufReader::new': lambda it, a: Native('bufr', f=a[0]),
    'ByteView::map_file_ref': view, 'ByteView::map_file': view, 'io::copy': copy, 'io::Error::from': lambda it, a: io('flush').fields[0] if isinstance(deref(a[0]), Native) else a[0],
    'SymCacheConverter::new': conv('symcache'), 'PortablePdbCacheConverter::new': conv('ppdb'), 'CfiCache::from_object': conv_of('cfi'), 'SourceMapCacheWriter::new': conv_of('sourcemap'),
    'SymCache::parse': parse('symcache'), 'PortablePdbCache::parse': parse('ppdb'), 'SourceMapCache::parse': parse('sourcemap'), 'BcSymbolMap::parse': parse('bcsymbolmap'),
    'str::from_utf8': parse('UTF-8'), 'String::from_utf8': parse('UTF-8'), 'LineMapping::parse': parse('line mapping', True), 'UuidMapping::parse_plist': parse('plist'), 'ProguardCache::parse': parse('proguard'),
    'ProguardMapping::new': lambda it, a: Native('mapping', what='mapping', data=content_of(it, a[0])),
    'ProguardCache::write': lambda it, a: write_to(it, a[1], Term('cache of', (Str('proguard'), fz(it, a[0])), T_B)),
    'serde_json::to_writer': lambda it, a: write_to(it, a[0], Term('json', (it.freeze(deref(a[1])),), T_B)),
    'zstd::stream::copy_decode': lambda it, a: copy(it, [Native('reader', data=Term('zstd', (content_of(it, a[0]),), T_B)), a[1]]),
    'stream::copy_decode': lambda it, a: copy(it, [Native('reader', data=Term('zstd', (content_of(it, a[0]),), T_B)), a[1]]),
    'MultiGzDecoder::new': reader('gzip'), 'GzDecoder::new': reader('first gzip member'), 'ZlibDecoder::new': reader('zlib'), 'DeflateDecoder::new': reader('deflate'),
}


@method('mapping', 'is_valid')
def _(c):
    return c.it.ctx.choose(('a valid mapping', c.v.data), [True, False])


@method('mapping', 'has_line_info')
def _(c):
    return c.it.ctx.choose(('has line mappings', c.v.data), [True, False])


def setup(it):
    it.files, it.bufs, it.steps, it.failed, it.parsed, it.invalid = [], [], {}, [], [], False
    it.freeze_in = lambda v: fz(it, v)


def kind_of(it, res):
    return it.force(it.std.convert(it, res.fields[0], Ty(T_CERR))).variant


def judge(it, tmp, out, want, parsed=None, synced=False, invalid='Malformed'):
    """tmp: place of the temporary file; want: the contents it must have when it is handed over."""
    if out.panic:
        return [('panic', out.panic)]
    res, msgs = it.force(out.value), []
    f = deref(tmp)
    if res.variant == 'Ok':
        if any(b.pending for b in it.bufs):
            msgs.append(('flush', 'the file is handed over while a part of it is still in a buffer, so errors of writing it are lost'))
        if it.failed:
            msgs.append(('errors', f'the file is handed over although {" ".join(map(str, it.failed[0]))} failed'))
        if it.invalid:
            msgs.append(('errors', 'the file is handed over although its input is invalid'))
        if want is not None and not any(b.pending for b in it.bufs) and not it.failed and repr(f.data()) != repr(want):
            msgs.append(('contents', f'the file contains {show(f.data())} instead of {show(want)}'))
        if parsed and not any(k == parsed and g and repr(d) == repr(f.data()) for k, d, g in it.parsed):
            msgs.append(('verification', f'the file is handed over without having been read as a {parsed} in its final form'))
        if any(not g for k, d, g in it.parsed):
            msgs.append(('verification', f'the file is handed over although it is not a valid {next(k for k, d, g in it.parsed if not g)}'))
        if synced and not f.synced:
            msgs.append(('sync', 'the file is handed over before it was synced to disk'))
        return msgs
    good = not it.invalid and all(g for k, d, g in it.parsed)
    got = kind_of(it, res)
    if it.failed and good:
        why = it.failed[0]
        need = why[1] if why[0] in ('download', 'fetch') else 'InternalError'
        if got != need:
            msgs.append(('error kind', f'{" ".join(map(str, why))} failed, which is remembered as {got} instead of {need}'))
    elif not it.failed and it.invalid and got != invalid:
        msgs.append(('error kind', f'input that cannot be converted is reported as {got} instead of {invalid}'))
    elif not it.failed and good:
        msgs.append(('errors', f'the computation fails with {show(res)} although every step succeeded'))
    return msgs


# ------------------------------------------------------------------ C07
# cache -> (crate module, contents it must have, format it must be read back as, whether it must be synced)
def c07(c):
    from .keys import cached_items, struct_of
    impls = {}
    for im in cached_items(c):
        impls['::'.join((im.module.crate.name, *im.module.path))] = im
    c.floor('cached items', len(impls), 11)

    def analyse(mod, spec, floor=5, given=None, opaque=None, k=2):
        im = impls.pop(mod, None)
        if im is None:
            c.bad(f'{mod}: anchor', 'the cached item of this module is gone')
            return
        f = im.fns['compute']

        def go(it):
            it.tmp = it.std.temp_ref(TFile(it))
            return {'self': struct_of(c, it, im.self_id, **(given(it) if given else {})), 'temp_file': it.tmp}

        def run(it, f, a):
            return it.await_value(it.call_def(f, a))
        c.product(mod.split('::')[-1], f, spec, k=k, given=go, run=run, setup=setup, models=MODELS, floor=floor, opaque={
            'fetch_file': downloaded, 'ObjectsActor::fetch': fetched, 'ObjectHandle::object': lambda it, a: Term('object', (), Ty('Object')), 'ObjectHandle::configure_scope': lambda it, a: UNIT,
            'RemoteFile::to_scope': lambda it, a: UNIT, 'ObjectId::to_scope': lambda it, a: UNIT, 'CacheKey::from_scoped_file': lambda it, a: Term('key', (), Ty(SVC + 'caching::cache_key::CacheKey')), **(opaque or {})})

    T = lambda op, *a: Term(op, a, T_B)
    obj = Term('object', (), Ty('Object'))
    cache_of = lambda kind, *ins: T('cache of', Str(kind), *ins)
    DOWN = T('downloaded')

    # derived caches
    N = 'symbolicator_native::caches::'

    def sym(it, a, out):
        maps = []
        sec = it.field(a[0], 'secondary_sources')
        for fld, what in (('bcsymbolmap_handle', 'bcsymbolmap'), ('il2cpp_handle', 'line mapping')):
            h = fopt(it, sec, fld)
            if h is not None:
                maps.append(T(what, it.freeze(it.field(h, 'data'))))
        if out.panic or it.force(out.value).variant == 'Err':
            return judge(it, it.tmp, out, None)
        d = deref(it.tmp).data()
        if isinstance(d, Term) and d.op == 'cache of':
            got = list(d.args[1:])
            if repr(got[-1:]) != repr([T('processed', obj)]) or sorted(map(repr, got[:-1])) != sorted(map(repr, maps)):
                return [('contents', f'the cache is made from {show(d)} instead of the object and its {len(maps)} mappings')] + judge(it, it.tmp, out, None, 'symcache', True)
            return judge(it, it.tmp, out, None, 'symcache', True)
        return judge(it, it.tmp, out, cache_of('symcache'), 'symcache', True)
    analyse(N + 'symcaches', sym, 40)
    analyse(N + 'cficaches', lambda it, a, out: judge(it, it.tmp, out, cache_of('cfi', obj), None, True))

    def ppdb(it, a, out):
        k = it.ctx.known(('kind of object',))
        if k is not None and k != 'PortablePdb':
            if out.panic or it.force(out.value).variant == 'Ok' or kind_of(it, it.force(out.value)) != 'Unsupported':
                return 'errors', 'an object that is no portable PDB is not reported as unsupported'
            return None
        d = deref(it.tmp).data()
        return judge(it, it.tmp, out, d if isinstance(d, Term) and d.op == 'cache of' and repr(d.args[0]) == repr(Str('ppdb')) and 'the portable PDB' in repr(d.args[1:]) else cache_of('ppdb', obj), 'ppdb', True)

    def ppdb_object(it, a):
        k = it.ctx.choose(('kind of object',), ['PortablePdb', 'Elf'])
        return Enum('Object', k, [Term('the portable PDB' if k == 'PortablePdb' else 'elf', (), Ty('PortablePdbObject'))])
    analyse(N + 'ppdb_caches', ppdb, opaque={'ObjectHandle::object': ppdb_object})

    def smap(it, a, out):
        src = it.freeze(deref(it.field(a[0], 'source')))
        sm = it.force(deref(it.field(a[0], 'sourcemap')))
        want = cache_of('sourcemap', src, it.freeze(deref(sm.fields[0]))) if sm.variant == 'Resolved' else cache_of('sourcemap', src, Term('bundled source map', (), T_STR))
        if it.missing:
            it.invalid = True
        if not out.panic and it.force(out.value).variant == 'Ok':
            d = deref(it.tmp).data()
            if isinstance(d, Term) and d.op == 'cache of' and len(d.args) == 3 and repr(d.args[0]) == repr(want.args[0]) and unstr(d.args[1]) == unstr(src) and \
                    (unstr(d.args[2]) == unstr(want.args[2]) if sm.variant == 'Resolved' else 'bundled source map' in repr(d.args[2])):
                want = d
        return judge(it, it.tmp, out, want, 'sourcemap', True)

    def unstr(v):
        import re
        return re.sub(r'\bsource!|["{}]', '', repr(v))

    def in_bundle(it, a):
        it.missing = not it.ctx.choose(('the bundle has the source map',), [True, False])
        return none() if it.missing else some(Native('descriptor'))

    @method('descriptor', 'into_contents')
    def _(cc):
        cc.it.missing = not cc.it.ctx.choose(('the source map has contents',), [True, False])
        return none() if cc.it.missing else some(Str((Term('bundled source map', (), T_STR),)))

    def opened(it, a):
        if it.ctx.choose(('the bundle opens',), [True, False]):
            return ok_(Native('bundle'))
        it.missing = True
        return cerr('Malformed')

    def src_given(it):
        it.missing = False
        return {}
    analyse('symbolicator_js::sourcemap_cache', smap, given=src_given, opaque={'get_descriptor_from_bundle': in_bundle, 'open_bundle': opened})

    # files that are downloaded and kept if they are intact
    def aux(kinds):
        def spec(it, a, out):
            msgs = judge(it, it.tmp, out, DOWN)
            if not out.panic and it.force(out.value).variant == 'Ok' and not it.parsed:
                msgs.append(('verification', 'the file is kept without having been parsed'))
            for k, d, g in it.parsed:
                if repr(d) != repr(DOWN):
                    msgs.append(('verification', f'{show(d)} is parsed instead of the downloaded file'))
                if not kinds(it, a, k):
                    msgs.append(('verification', f'the file is parsed as a {k}'))
                if not g and not out.panic and not it.failed and (it.force(out.value).variant == 'Ok' or kind_of(it, it.force(out.value)) != 'Malformed'):
                    msgs.append(('error kind', 'a file that cannot be parsed is not reported as malformed'))
            return msgs
        return spec
    analyse(N + 'bitcode', aux(lambda it, a, k: k == {'BcSymbolMap': 'bcsymbolmap', 'UuidMap': 'plist'}[it.force(it.field(a[0], 'kind')).variant]))
    analyse(N + 'il2cpp', aux(lambda it, a, k: k == 'line mapping'))
    analyse(SVC + 'caches::sourcefiles', aux(lambda it, a, k: k == 'UTF-8'))

    def guard(it, a, out):
        m = T('mapping', DOWN)
        facts = [it.ctx.known((x, DOWN)) for x in ('a valid mapping', 'has line mappings')]
        bad = False in facts
        if not out.panic and it.force(out.value).variant == 'Ok' and facts != [True, True]:
            return 'verification', 'the mapping is kept without having been checked'
        if bad:
            it.invalid = True
            if not out.panic and not it.failed and kind_of(it, it.force(out.value)) != 'Malformed':
                return 'error kind', 'an invalid mapping is not reported as malformed'
        return judge(it, it.tmp, out, cache_of('proguard', m))
    analyse('symbolicator_proguard::service', guard)

    # an object of an archive: one that has the requested id, complete
    analyse(SVC + 'objects::data_cache', archive_spec, 20, opaque=ARCHIVE)

    def meta(it, a, out):
        feats = {n: Term('object.' + n, (), T_BOOL) for n in ('has_debug_info', 'has_unwind_info', 'has_symbols', 'has_sources')}
        if out.panic or it.force(out.value).variant == 'Err':
            return judge(it, it.tmp, out, None)
        d = deref(it.tmp).data()
        got = d.args[0] if isinstance(d, Term) and d.op == 'json' else None
        if got is None or not all(repr(Struct_get(got, n)) == repr(Term('.' + n, (obj,), T_BOOL)) for n in feats):
            return [('contents', f'the features of the object are stored as {show(d)}')]
        return judge(it, it.tmp, out, None)
    analyse(SVC + 'objects::meta_cache', meta, 4, opaque={'Cacher::compute_memoized': lambda it, a: Future(lambda: Struct(SVC + 'caching::metadata::CacheEntry', {'metadata': none(), 'contents': fetched(it, a).force()}))})
    for m in sorted(impls):
        if not m.endswith('download::index'):
            c.bad(f'{m}: unknown', 'this cached item is not covered by a rule')


def Struct_get(v, n):
    for x in (v.args if isinstance(v, Term) else []):
        if isinstance(x, tuple) and len(x) == 2 and x[0] == n:
            return x[1]
    return getattr(v, 'fields', {}).get(n) if not isinstance(v, Term) else None


def archive_parse(it, a):
    d = content_of(it, a[0])
    good = it.ctx.choose(('a valid archive', d), [True, False])
    it.parsed.append(('archive', d, good))
    return ok_(Native('archive', data=d)) if good else Enum('Result', 'Err', [Term('archive error', (), Ty('ArchiveError'))])


MODELS['Archive::parse'] = archive_parse
EXT_ID = Ty('DebugId')


def member(it, i):
    return ok_(Native('member', i=i)) if it.ctx.choose(('a valid object', i), [True, False]) else Enum('Result', 'Err', [Term('object error', (i,), Ty('ObjectError'))])


@method('archive', 'is_multi')
def _(c):
    return c.it.ctx.choose(('an archive of several objects',), [True, False])


@method('archive', 'objects')
def _(c):
    n = c.it.ctx.choose(('number of objects',), [0, 1, 2])
    return c.it.method(c.it.std.temp_ref(Vec([member(c.it, i) for i in range(n)])), 'into_iter', [])


@method('archive', 'object_count')
def _(c):
    return c.it.ctx.choose(('number of objects',), [0, 1, 2])


@method('archive', 'object_by_index')
def _(c):
    r = member(c.it, deref(c.args[0]))
    return ok_(some(r.fields[0])) if r.variant == 'Ok' else r


@method('member', 'debug_id')
def _(c):
    return Term('debug id of', (c.v.i,), EXT_ID)


@method('member', 'code_id')
def _(c):
    return some(Term('code id of', (c.v.i,), Ty('CodeId'))) if c.it.ctx.choose(('has a code id', c.v.i), [True, False]) else none()


@method('member', 'data')
def _(c):
    return Term('data of object', (c.v.i,), T_B)


ARCHIVE = {}


def archive_spec(it, a, out):
    T = lambda op, *x: Term(op, x, T_B)
    DOWN = T('downloaded')
    if out.panic:
        return 'panic', out.panic
    res = it.force(out.value)
    multi = it.ctx.known(('an archive of several objects',))
    valid = it.ctx.known(('a valid archive', DOWN))
    if res.variant == 'Ok' and valid is not True:
        return 'verification', 'the object is kept without having been parsed'
    if not it.failed and valid is False:
        return None if kind_of(it, res) == 'Malformed' else ('error kind', 'a file that is no object is not reported as malformed')
    if it.failed:
        return judge(it, it.tmp, out, None)
    if not multi:
        good = it.ctx.choose(('a valid object', 0), [True, False])
        if res.variant == 'Ok':
            return judge(it, it.tmp, out, DOWN) + ([] if good else [('verification', 'a broken object is kept')])
        return None if not good and kind_of(it, res) == 'Malformed' else ('errors', f'the object fails with {show(res)}')
    oid = it.field(it.field(a[0], '0'), 'object_id')
    did, cid = fopt(it, oid, 'debug_id'), fopt(it, oid, 'code_id')
    n = it.ctx.choose(('number of objects',), [0, 1, 2])
    sat, anybad = [], False
    for i in range(n):
        if not it.ctx.choose(('a valid object', i), [True, False]):
            anybad = True
            continue
        own = Term('debug id of', (i,), EXT_ID)
        if did is not None:
            m = it.ctx.truth(it.eq(Term('uuid', (own,), Ty('Uuid')), Term('uuid', (it.freeze(did),), Ty('Uuid')))) and it.ctx.truth(it.ctx.le(Term('appendix', (it.freeze(did),), Ty('u32')), Term('appendix', (own,), Ty('u32'))))
        elif cid is not None:
            m = not it.ctx.choose(('has a code id', i), [True, False]) or it.ctx.truth(it.eq(Term('code id of', (i,), Ty('CodeId')), cid))
        else:
            m = True
        if m:
            sat.append(i)
    if res.variant == 'Ok':
        d = deref(it.tmp).data()
        if not any(repr(d) == repr(T('data of object', i)) for i in sat):
            return 'contents', f'{show(d)} is kept for an object that matches members {sat}'
        return judge(it, it.tmp, out, None)
    if sat:
        return 'errors', f'member {sat[0]} matches, but the result is {show(res)}'
    e = kind_of(it, res)
    if e != ('Malformed' if anybad else 'NotFound'):
        return 'error kind', f'no member matches{" and some are broken" if anybad else ""}, reported as {e}'


# ------------------------------------------------------------------ D05
@method('zip', 'len')
def _(c):
    n = c.it.ctx.choose(('number of entries', c.v.data), [0, 1, 2])
    return n


@method('zip', 'is_empty')
def _(c):
    return c.it.ctx.choose(('number of entries', c.v.data), [0, 1, 2]) == 0


@method('zip', 'by_index')
def _(c):
    i = deref(c.args[0])
    if i >= c.it.ctx.choose(('number of entries', c.v.data), [0, 1, 2]) or not step(c.it, 'open entry'):
        return Enum('Result', 'Err', [Term('zip error', (), Ty('ZipError'))])
    return ok_(Native('reader', data=Term('zip entry', (c.v.data, i), T_B)))


def zipped(it, a):
    d = content_of(it, a[0])
    return ok_(Native('zip', data=d)) if step(it, 'open archive') else Enum('Result', 'Err', [Term('zip error', (), Ty('ZipError'))])


for _n in ('stdin', 'stderr', 'env', 'current_dir'):
    method('command', _n)(lambda c: c.v)


@method('command', 'arg')
def _(c):
    c.v.args.append(c.it.freeze(c.it.ctx.sstr(deref(c.args[0]))))
    return c.recv


@method('command', 'args')
def _(c):
    c.v.args += [c.it.freeze(c.it.ctx.sstr(x)) for x in items(c.it, c.args[0])]
    return c.recv


@method('command', 'stdout')
def _(c):
    c.v.out = deref(c.args[0])
    return c.recv


@method('command', 'status')
def _(c):
    it = c.it
    if not step(it, 'start', show(c.v.program)):
        return io('command')
    f = tf(c.v.out)
    src = next((x for x in it.files if c.v.args and repr(it.freeze(Str(f'tmp/file{x.n}'))) == repr(c.v.args[-1])), None)
    good = step(it, 'run', show(c.v.program))
    if f is not None:
        if good and src is not None:
            f.put(Term('cab', (src.data(),), T_B) if show(c.v.program) == '"cabextract"' and 'p' in show(c.v.args[0]) and show(c.v.args[0]).startswith('"-') else Term('output of', (c.v.program, *c.v.args), T_B))
        else:
            f.broken = True
    return ok_(Native('status', ok=good))


method('status', 'success')(lambda c: c.v.ok)

D05_MODELS = {
    **MODELS, 'zip::ZipArchive::new': zipped, 'ZipArchive::new': zipped, 'process::Command::new': None, 'Command::new': lambda it, a: Native('command', program=it.freeze(it.ctx.sstr(deref(a[0]))), args=[], out=None),
    'Stdio::from': lambda it, a: a[0], 'Stdio::null': lambda it, a: Native('null'), 'Stdio::inherit': lambda it, a: Native('null'), 'Stdio::piped': lambda it, a: Native('null'),
}
D05_MODELS['process::Command::new'] = D05_MODELS['Command::new']
FORMATS = [('zstd', (0x28, 0xb5, 0x2f, 0xfd)), ('gzip', (0x1f, 0x8b)), ('zlib', (0x78, 0x01)), ('zlib', (0x78, 0x9c)), ('zlib', (0x78, 0xda)), ('zip', (0x50, 0x4b, 3, 4)), ('cab', (0x4d, 0x53, 0x43, 0x46))]


def unpacked(it):
    """What the downloaded file must become, by its leading bytes."""
    d = Term('downloaded', (), T_B)
    if it.ctx.truth(it.ctx.lt(Term('len', (d,), Ty('u64')), 4)):
        return None, d
    for kind, magic in FORMATS:
        if all(it.ctx.truth(it.eq(Term('byte', (d, i), Ty('u8')), b)) for i, b in enumerate(magic)):
            return kind, Term('zip entry', (d, 0), T_B) if kind == 'zip' else Term(kind, (d,), T_B)
    return None, d


def d05(c):
    def start(it):
        setup(it)
        it.tmp = it.std.temp_ref(TFile(it))
        if it.whole:
            return {'temp_file': it.tmp}
        deref(it.tmp).put(Term('downloaded', (), T_B))
        return {'src': it.tmp}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        res, f = it.force(out.value), deref(it.tmp)
        if res.variant == 'Ok':
            msgs = judge(it, it.tmp, out, None)
            if not msgs:
                kind, want = unpacked(it)
                if repr(f.data()) != repr(want):
                    msgs.append(('contents', f'a {kind or "plain"} file is kept as {show(f.data())}'))
                elif kind == 'zip' and it.ctx.choose(('number of entries', Term('downloaded', (), T_B)), [0, 1, 2]) != 1:
                    msgs.append(('contents', 'an archive that does not contain exactly one file is unpacked'))
                if it.whole and f.pos != 'start':
                    msgs.append(('position', 'the file is not handed over at its beginning'))
            return msgs
        if it.failed:
            if it.whole:
                why, got = it.failed[0], kind_of(it, res)
                dl = why[0] == 'download'
                if dl and got != why[1]:
                    return 'error kind', f'a download that fails with {why[1]} is reported as {got}'
                if any(x[0] in ('unpack', 'open archive', 'open entry', 'run') for x in it.failed) and got != 'Malformed':
                    return 'error kind', f'a file that cannot be unpacked is reported as {got}'
            return None
        kind, want = unpacked(it)
        if kind == 'zip' and it.ctx.choose(('number of entries', Term('downloaded', (), T_B)), [0, 1, 2]) != 1:
            if it.whole and kind_of(it, res) != 'Malformed':
                return 'error kind', 'an archive with several files is not reported as malformed'
            return None
        return 'errors', f'a {kind or "plain"} file fails with {show(res)} although every step succeeded'

    def download(it, a):
        f = next((x for x in it.files if repr(it.freeze(Str(f'tmp/file{x.n}'))) == repr(it.freeze(it.ctx.sstr(deref(a[2]))))), None)
        if f is None:
            raise Unsupported('download to another file')
        return downloaded(it, [None, None, f])

    for name, fn, whole in (('unpacking', SVC + 'download::compression::maybe_decompress_file', False), ('download', SVC + 'download::fetch_file::fetch_file', True)):
        c.product(name, fn, spec, given=start, setup=lambda it, whole=whole: setattr(it, 'whole', whole), models=D05_MODELS, floor=40, opaque={'DownloadService::download': download, 'RemoteFile::to_scope': lambda it, a: UNIT})
