"""C01..C10: caching."""
from .util import *
from engine.std import m as method
from engine.ext import E_IO
from engine.serde import struct_schema, default_value, unwrap

CE = 'symbolicator_service::caching::cache_error::'
T_CE = Ty(CE + 'CacheError')
MARKERS = {'Malformed': 'malformed', 'PermissionDenied': 'permissiondenied', 'Timeout': 'timeout', 'DownloadError': 'downloaderror', 'Unsupported': 'unsupported'}


# ------------------------------------------------------------------ a file that is overwritten in place
def rwfile(it):
    """An open file of unknown previous content: `parts` is what was written from the start on, `cut` tells whether the rest was cut off."""
    return Native('rwfile', it=it, at_start=False, parts=None, cut=False, failed=False, log=[], err=None)


def _io(c, what, val=UNIT):
    v = c.v
    v.log.append(what)
    if not c.it.ctx.choose(('succeeds', what, len(v.log)), [True, False]):
        v.failed = True
        v.err = Term('io::Error', (what, len(v.log)), Ty('Error'))
        return Enum('Result', 'Err', [v.err])
    return val() if callable(val) else Enum('Result', 'Ok', [val])


@method('rwfile', 'rewind')
def _(c):
    def go():
        c.v.parts, c.v.cut = [], False
        return Enum('Result', 'Ok', [UNIT])
    return _io(c, 'rewind', go)


@method('rwfile', 'seek')
def _(c):
    p = c.it.force(deref(c.args[0]))
    if not (isinstance(p, Enum) and p.variant == 'Start' and deref(p.fields[0]) == 0):
        raise Unsupported(f'seek to {show(p)}')

    def go():
        c.v.parts, c.v.cut = [], False
        return Enum('Result', 'Ok', [0])
    return _io(c, 'rewind', go)


@method('rwfile', 'write_all')
def _(c):
    def go():
        if c.v.parts is not None:
            c.v.parts = c.v.parts + [c.it.freeze(deref(c.args[0]))]
            c.v.cut = False
        return Enum('Result', 'Ok', [UNIT])
    return _io(c, 'write', go)


@method('rwfile', 'stream_position')
def _(c):
    def go():
        return Enum('Result', 'Ok', [c.it.ctx.str_len(S(*c.v.parts)) if c.v.parts is not None else Term('unknown position', (), Ty('u64'))])
    return _io(c, 'stream_position', go)


@method('rwfile', 'set_len')
def _(c):
    def go():
        n = deref(c.args[0])
        v = c.v
        if v.parts is None:
            if c.it.same(n, 0):
                v.parts, v.cut = [], True
                v.unpositioned = True
        elif c.it.ctx.int_eq(n, c.it.ctx.str_len(S(*v.parts))):
            v.cut = True
        elif c.it.same(n, 0):
            v.parts = None if v.parts else []
            v.cut = not v.parts
        else:
            v.cut = False
        return Enum('Result', 'Ok', [UNIT])
    return _io(c, 'set_len', go)


for _n in ('flush', 'sync_all', 'sync_data'):
    method('rwfile', _n)(lambda c, _n=_n: _io(c, _n))


def duration_models():
    """humantime: parsing is the inverse of formatting."""
    def parse(it, a):
        s = it.ctx.sstr(deref(a[0]))
        if len(s.parts) == 1 and isinstance(s.parts[0], Term) and s.parts[0].op == 'human duration':
            return Enum('Result', 'Ok', [s.parts[0].args[0]])
        ok_ = it.ctx.choose(('is a duration', it.freeze(s)), [True, False])
        t = Term('parsed duration', (it.freeze(s),), Ty('Duration'))
        return Enum('Result', 'Ok', [t]) if ok_ else Enum('Result', 'Err', [Term('bad duration', (it.freeze(s),), Ty('Error'))])
    fmt = lambda it, a: Str((Term('human duration', (it.freeze(deref(a[0])),), Ty('str')),))
    return {'humantime::format_duration': fmt, 'format_duration': fmt, 'humantime::parse_duration': parse, 'parse_duration': parse}


def until_nul(it, s):
    r = it.force(it.method(it.std.temp_ref(s), 'split_once', [Chr('\0')]))
    return deref(r.fields[0].items[0]) if r.variant == 'Some' else s


def c01(c):
    read = CE + 'cache_contents_from_bytes'
    write = CE + 'CacheError::write'
    models = duration_models()

    def written(it, a, out):
        e, f = it.force(a[0]), deref(a[1])
        if out.panic:
            return ('panic', f'writing {show(e)} panics: {out.panic}')
        res = it.force(out.value)
        if f.failed:
            return None if res.variant == 'Err' else ('lost error', f'a failing write of {show(e)} is reported as success ({f.log})')
        if res.variant != 'Ok':
            return ('spurious error', f'writing {show(e)} fails without a failing write')
        if e.variant == 'InternalError':
            return None if not f.log else ('internal error', f'an internal error changes the cache file: {f.log}')
        if f.parts is None or not f.cut:
            return ('leftovers', f'{show(e)} is written without cutting off what the file contained before: {f.log}')
        content = it.ctx.sstr(S(*f.parts))
        if e.variant == 'NotFound':
            return None if it.ctx.str_eq(content, Str('')) else ('not found', f'not found is written as {show(content)}')
        msg = deref(e.fields[0])
        want = S(MARKERS[e.variant], Term('human duration', (it.freeze(msg),), Ty('str'))) if e.variant == 'Timeout' else S(MARKERS[e.variant], it.ctx.sstr(msg))
        return None if it.ctx.str_eq(content, want) else ('format', f'{show(e)} is written as {show(content)} instead of {show(want)}')
    given = lambda it: {'self': Term('error', (), T_CE), 'file': rwfile(it)}
    c.product('an error is written with its marker', write, written, given=given, models=models, floor=20)

    # round trip
    def roundtrip(it, f, a):
        e = it.force(a[0])
        w = it.force(it.await_value(it.call_def(f, a)))
        f_ = deref(a[1])
        if w.variant != 'Ok' or e.variant == 'InternalError' or f_.parts is None or not f_.cut:
            return None
        content = it.ctx.sstr(S(*f_.parts))
        return it.call_def(c.w.fn(read), [content])

    def same_error(it, a, out):
        e = it.force(a[0])
        if out.panic:
            return ('panic', f'reading back {show(e)} panics: {out.panic}')
        if out.value is None:
            return None
        r = it.force(out.value)
        if r.variant != 'Err':
            return ('as data', f'{show(e)} is read back as data')
        g = it.force(deref(r.fields[0]))
        if g.variant != e.variant:
            return ('kind', f'{show(e)} is read back as {show(g)}')
        if not e.fields:
            return None
        want, got = deref(e.fields[0]), deref(g.fields[0])
        if e.variant != 'Timeout':
            want = until_nul(it, it.ctx.sstr(want))
        return None if it.eq(want, got) else ('message', f'{show(e)} is read back as {show(g)}')
    c.product('an error is read back as the same error', write, same_error, given=given, models=models, run=roundtrip, floor=20)

    # any content
    def reading(it, a, out):
        b = it.ctx.sstr(deref(a[0]))
        if out.panic:
            return ('panic', f'reading a cache file panics: {out.panic}')
        r = it.force(out.value)
        kind = rest = None
        for k, mk in MARKERS.items():
            rest = it.ctx.starts_with(b, mk)
            if rest is not None:
                kind = k
                break
        if kind is None and it.ctx.str_eq(b, Str('')):
            kind = 'NotFound'
        if kind is None:
            if r.variant != 'Ok':
                return ('data as error', f'content without a marker is read as {show(r)}')
            return None if it.eq(deref(r.fields[0]), b) else ('data', f'content is read as {show(r)}')
        if r.variant != 'Err':
            return ('error as data', f'a {kind} marker is read as data')
        g = it.force(deref(r.fields[0]))
        if kind == 'NotFound':
            return None if g.variant == 'NotFound' else ('kind', f'an empty file is read as {show(g)}')
        msg = until_nul(it, rest)
        if kind == 'Timeout':
            p = models['parse_duration'](it, [msg])
            if p.variant == 'Err':
                return None if g.variant != 'Timeout' else ('kind', f'a broken duration is read as {show(g)}')
            return None if g.variant == 'Timeout' and it.eq(deref(g.fields[0]), p.fields[0]) else ('duration', f'a timeout is read as {show(g)}')
        if g.variant != kind:
            return ('kind', f'a {kind} marker is read as {show(g)}')
        return None if it.eq(deref(g.fields[0]), msg) else ('message', f'{show(b)} is read as {show(g)}')
    c.product('any cache file is read by its marker', read, reading, given=lambda it: {0: Str((Term('content', (), T_STR),))}, models=models, floor=9)
    c.assumptions += ['String::from_utf8_lossy is the identity on what was written as text; parse_duration is the inverse of format_duration',
                      'tokio file operations either fail with an error or do what they are documented to do']


# ------------------------------------------------------------------ C03
FS = 'symbolicator_service::caching::fs::'
CFG = 'symbolicator_service::config::'
HOUR = 3600 * 10 ** 9


def elapsed(it, t):
    """Time since t, zero for the future."""
    now = Term('now', (), Ty('SystemTime'))
    return add(now, t, -1) if it.ctx.le(t, now) else 0


def limit(it, cfg, name):
    f = fopt_value(it, it.call_def(it.w.fn(CFG + 'CacheConfig::' + name), [cfg]))
    return f


def fopt_value(it, o):
    o = it.force(deref(o))
    return deref(o.fields[0]) if o.variant == 'Some' else None


def err_kind(it, e):
    """'NotFound' or another kind of an io::Error"""
    k = deref(it.method(it.std.temp_ref(e), 'kind', []))
    return 'NotFound' if it.eq(k, Term('ErrorKind::NotFound', (), Ty('ErrorKind'))) else 'other'


def downloaded_only(it, cache):
    cfg = it.field(cache, 'cache_config')
    if variant(it, cfg) != 'Downloaded':
        raise Infeasible()
    return cfg


def io_models(it_errors=('missing', 'denied')):
    """Reading a cached file; every step may fail, in particular because the file vanished."""
    def step(it, what, val):
        o = it.ctx.choose((what + ' succeeds',), [True, *it_errors])
        it.log.append((what, o))
        if o is True:
            return Enum('Result', 'Ok', [val])
        return Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::' + ('NotFound' if o == 'missing' else 'PermissionDenied'), (), Ty('ErrorKind')), Str(what)), E_IO)])

    def which(it, p):
        p = it.ctx.sstr(deref(p))
        return 'metadata' if it.ctx.str_eq(p, Str('cache/v1/ab/cdef.metadata')) else 'file' if it.ctx.str_eq(p, Str('cache/v1/ab/cdef')) else show(p)

    def mtime(it, recv, a):
        return step(it, 'mtime', Term('mtime', (), Ty('SystemTime')))

    def set_mtime(it, a):
        t = deref(a[1])
        it.touch.append((which(it, a[0]), it.freeze(t)))
        return step(it, 'touch', UNIT)

    def remove(it, a):
        it.removed.append(which(it, a[0]))
        return step(it, 'remove', UNIT)
    now = lambda it, a: Term('now', (), Ty('SystemTime'))

    def stored(it):
        k = it.ctx.choose(('stored',), ['data', 'nothing', 'a malformed marker', 'a download error'])
        t = Term('plain', ('message',), T_STR)
        return {'data': S('ELF', t), 'nothing': Str(''), 'a malformed marker': S('malformed', t), 'a download error': S('downloaderror', t)}[k]
    models = {
        'File::open': lambda it, a: step(it, 'open ' + which(it, a[0]), Native('opened', which=which(it, a[0]))),
        'BufReader::new': lambda it, a: a[0],
        'serde_json::from_reader': lambda it, a: (lambda r: Enum('Result', 'Ok', [Term('metadata', (), Ty('symbolicator_service::caching::metadata::Metadata'))]) if r
                                                  else Enum('Result', 'Err', [Term('json error', (), Ty('Error'))]))(it.ctx.choose(('metadata parses',), [True, False])),
        'ByteView::open': lambda it, a: step(it, 'open ' + which(it, a[0]), stored(it)),
        'fs::metadata': lambda it, a: step(it, 'stat', Native('meta')),
        'filetime::set_file_mtime': set_mtime, 'set_file_mtime': set_mtime, 'filetime::set_file_times': lambda it, a: set_mtime(it, [a[0], a[2]]),
        'stored': stored, 'FileTime::now': now, 'FileTime::from_system_time': lambda it, a: deref(a[0]), 'fs::remove_file': remove,
    }
    mm = {'meta.modified': mtime, 'meta.len': lambda it, r, a: Term('file size', (), Ty('u64')), 'Metadata.modified': mtime}
    return models, mm


@method('str', 'metadata')
def _(c):
    f = c.it.models.get('fs::metadata')
    return f(c.it, [c.v]) if f else NotImplemented


def c03(c):
    models, mm = io_models()
    models.update(duration_models())
    P_ = FS + 'Cache::open_cachefile'

    def setup(it):
        it.log, it.touch, it.removed = [], [], []

    def given(it):
        return {'path': Str('cache/v1/ab/cdef')}

    def spec(it, a, out):
        cache = deref(a[0])
        cfg = downloaded_only(it, cache)
        if out.panic:
            return ('panic', f'opening a cache file panics: {out.panic}')
        log = dict(it.log)
        res = it.force(out.value)
        bad = next((o for w, o in it.log if w in ('stat', 'mtime', 'open file', 'touch') and o is not True), None)
        got = None
        if res.variant == 'Ok':
            got = it.force(res.fields[0])
        hit = got is not None and got.variant == 'Some'
        miss = got is not None and got.variant == 'None'
        if any(w not in ('metadata', 'file') for w in it.removed) or 'file' in it.removed:
            return ('removed', f'opening a cache file removes {it.removed}')
        if bad == 'missing':
            return None if miss else ('vanished', f'a cache file that is missing is reported as {show(res)}')
        if bad == 'denied':
            return None if res.variant == 'Err' else ('error', f'a cache file that cannot be read is reported as {show(res)}')
        if res.variant == 'Err':
            return ('error', f'a readable cache file is reported as {show(res)}')
        # what is in the file
        mtime = Term('mtime', (), Ty('SystemTime'))
        has_md = log.get('open metadata') is True and it.ctx.known(('metadata parses',)) is True
        md = Term('metadata', (), Ty('symbolicator_service::caching::metadata::Metadata'))
        ctime = it.field(md, 'time_created') if has_md else mtime
        content = it.call_def(it.w.fn(CE + 'cache_contents_from_bytes'), [models['stored'](it)])
        content = it.force(content)
        kind = 'good' if content.variant == 'Ok' else 'malformed' if variant(it, deref(content.fields[0])) == 'Malformed' else 'miss'
        if kind == 'good':
            lim, used = limit(it, cfg, 'max_unused_for'), elapsed(it, mtime)
            must_die = lim is not None and it.ctx.lt(lim, used)
            must_live = lim is None or it.ctx.lt(used, lim)
        else:
            if kind == 'malformed':
                lim = limit(it, cfg, 'retry_malformed_after')
            else:
                public = has_md and variant(it, it.field(md, 'scope')) == 'Global'
                lim = limit(it, cfg, 'retry_misses_after_public' if public else 'retry_misses_after')
            used = elapsed(it, ctime)
            must_die = lim is not None and it.ctx.lt(lim, used)
            must_live = lim is None or it.ctx.lt(used, lim)
            if kind == 'malformed' and it.ctx.lt(ctime, it.field(cache, 'start_time')):
                must_die, must_live = True, False
        if must_die and hit:
            return (f'{kind} not expired', f'an expired {kind} item is still used: {show(res)}')
        if must_live and miss:
            return (f'{kind} expired', f'a {kind} item is treated as expired within its time')
        if not hit:
            return ('touch', 'an expired item is touched') if it.touch else None
        entry, exp = [deref(x) for x in it.force(deref(got.fields[0])).items]
        exp = it.force(exp)
        fc = it.force(it.field(entry, 'contents'))
        if not it.eq(fc, content):
            return ('content', f'the item is returned as {show(fc)}')
        fm = it.force(it.field(entry, 'metadata'))
        if (fm.variant == 'Some') != has_md or (has_md and not it.eq(deref(fm.fields[0]), md)):
            return ('metadata', f'the metadata are returned as {show(fm)}')
        d = deref(exp.fields[0])
        if kind != 'good':
            if exp.variant != 'RefreshIn' or it.touch:
                return ('refresh', f'a {kind} item is handled like a good one: {show(exp)}, touched {it.touch}')
            if lim is None:
                return None if it.ctx.le(10 ** 9 * 86400 * 3650, d) else ('refresh time', f'a {kind} item without limit is refreshed in {show(d)}')
            return None if it.ctx.int_eq(d, add(lim, used, -1)) else ('refresh time', f'a {kind} item is refreshed in {show(d)} instead of {show(add(lim, used, -1))}')
        if exp.variant != 'TouchIn':
            return ('refresh', f'a good item is refreshed like a failed one: {show(exp)}')
        if it.ctx.lt(HOUR, used) and not it.touch:
            return ('not touched', 'an item that was used for the first time within an hour is not touched')
        if it.ctx.lt(used, HOUR) and it.touch:
            return ('touched', 'an item that was touched within the last hour is touched again')
        if it.touch and it.touch != [('file', Term('now', (), Ty('SystemTime')))]:
            return ('touched', f'the item is touched as {it.touch}')
        want = HOUR if it.touch else add(HOUR, used, -1)
        return None if it.ctx.int_eq(d, want) else ('touch time', f'the next touch is in {show(d)} instead of {show(want)}')
    c.product('a stored item expires by its kind and age', P_, spec, given=given, models=models, mmodels=mm, setup=setup, floor=100, limit=200000)

    # what was just computed
    def fresh(it, a, out):
        cache, entry = deref(a[0]), deref(a[1])
        cfg = downloaded_only(it, cache)
        if out.panic:
            return ('panic', f'{out.panic}')
        e = it.force(out.value)
        d = deref(e.fields[0])
        cont = it.force(it.field(entry, 'contents'))
        if cont.variant == 'Ok':
            return None if e.variant == 'TouchIn' and it.ctx.le(d, HOUR) else ('good', f'a new good item gets {show(e)}')
        if e.variant != 'RefreshIn':
            return ('failed', f'a new failed item gets {show(e)}')
        if variant(it, deref(cont.fields[0])) == 'Malformed':
            lim = limit(it, cfg, 'retry_malformed_after')
        else:
            md = it.force(it.field(entry, 'metadata'))
            public = md.variant == 'Some' and variant(it, it.field(deref(md.fields[0]), 'scope')) == 'Global'
            lim = limit(it, cfg, 'retry_misses_after_public' if public else 'retry_misses_after')
        if lim is None:
            return None if it.ctx.le(10 ** 9 * 86400 * 3650, d) else ('unlimited', f'a failed item without limit is refreshed in {show(d)}')
        return None if it.ctx.le(d, lim) else ('limit', f'a new failed item stays for {show(d)} instead of {show(lim)}')
    c.product('a new item expires by its kind', FS + 'ExpirationTime::for_fresh_status', fresh, floor=10)

    # in memory
    def deadline(it, a, out):
        e = it.force(deref(a[0]))
        d = deref(e.fields[0])
        if out.panic:
            return ('panic', f'an item that expires in {show(d)} makes the request panic: {out.panic}')
        now = Term('now', (), Ty('Instant'))
        v = deref(out.value)
        if isinstance(d, int) and d > 2 ** 60 * 10 ** 9:
            return None if it.ctx.le(add(now, 10 ** 9 * 86400 * 3650), v) else ('unlimited', f'an item without limit is evicted at {show(v)}')
        if it.ctx.known(('beyond the end of time', it.freeze(d))) is True:
            return None
        return None if it.ctx.int_eq(v, add(now, d)) else ('deadline', f'an item that expires in {show(d)} is evicted at {show(v)}')
    for v in ('RefreshIn', 'TouchIn'):
        for d in (2 ** 64 * 10 ** 9 - 1, Term('d', (), Ty('Duration'))):
            c.product('an item is kept in memory until it expires', FS + 'ExpirationTime::as_instant', deadline,
                      given=lambda it, v=v, d=d: {'self': Enum(FS + 'ExpirationTime', v, [d])})
    # an instant in the past is expired at once, one in the future when it is reached
    ME = 'symbolicator_service::caching::memory::'

    def since(it, a, out):
        cur, tgt = deref(a[0]), deref(a[1])
        if out.panic:
            return ('panic', out.panic)
        r = it.force(out.value)
        want = add(tgt, cur, -1) if it.ctx.le(cur, tgt) else 0
        return None if r.variant == 'Some' and it.ctx.int_eq(deref(r.fields[0]), want) else ('eviction', f'an item with deadline {show(tgt)} is evicted after {show(r)}')
    c.product('an item is evicted at its deadline', ME + 'saturating_duration_since', since)
    c.assumptions += ['time stands still while one item is looked up; system times and instants lie within 2^61 seconds of the epoch',
                      'the accessors of CacheConfig are decided by C04; here the configuration of downloaded caches stands for all']


# ------------------------------------------------------------------ C04
KINDS = {'objects': 'downloaded', 'auxdifs': 'downloaded', 'il2cpp': 'downloaded', 'sourcefiles': 'downloaded', 'proguard': 'downloaded',
         'object_meta': 'derived', 'symcaches': 'derived', 'cficaches': 'derived', 'ppdb_caches': 'derived', 'sourcemap_caches': 'derived',
         'diagnostics': 'diagnostics', 'source_index': 'index'}
DIRS = {k: k for k in KINDS}
DAY = 24 * HOUR
DEFAULTS = {
    'DownloadedCacheConfig': {'max_unused_for': DAY, 'retry_misses_after': HOUR, 'retry_misses_after_public': DAY, 'retry_malformed_after': DAY, 'max_lazy_redownloads': 50},
    'DerivedCacheConfig': {'max_unused_for': 7 * DAY, 'retry_misses_after': HOUR, 'retry_misses_after_public': DAY, 'retry_malformed_after': DAY, 'max_lazy_recomputations': 20},
    'IndexCacheConfig': {'max_unused_for': 7 * DAY, 'retry_misses_after': HOUR // 6, 'retry_misses_after_public': HOUR // 6, 'retry_malformed_after': HOUR // 6,
                         'max_lazy_recomputations': 20},
    'DiagnosticsCacheConfig': {'retention': DAY},
}


def c04(c):
    # accessors
    for acc in ('max_unused_for', 'retry_misses_after', 'retry_misses_after_public', 'retry_malformed_after'):
        def spec(it, a, out, acc=acc):
            e = it.force(deref(a[0]))
            if out.panic:
                return ('panic', out.panic)
            pay = deref(e.fields[0])
            if e.variant == 'Diagnostics':
                if acc != 'max_unused_for':
                    return None
                want = it.field(pay, 'retention')
            else:
                want = it.field(pay, acc)
            return None if it.eq(out.value, want) else (e.variant, f'{acc} of {e.variant} caches is {show(out.value)}')
        c.product(f'setting {acc}', CFG + 'CacheConfig::' + acc, spec, floor=4)
    # defaults
    for t, want in DEFAULTS.items():
        def run(it, f, a, t=t):
            es = {e.wire: e for e in struct_schema(it, Ty(CFG + t))}
            return es

        def spec(it, a, out, t=t, want=want):
            res = []
            es = out.value
            for k, v in want.items():
                e = es.get(k)
                if e is None:
                    res.append((f'{t}.{k}', f'the setting {k} of {t} cannot be configured; there are {sorted(es)}'))
                    continue
                if e.required:
                    res.append((f'{t}.{k}', f'the setting {k} of {t} has no default'))
                    continue
                if e.ty[0] == 'Option' and unwrap(e.ty.arg(0))[0] == 'Duration' and e.attrs.get('with', '').replace(' ', '') not in ('humantime_serde', 'humantime_serde::option'):
                    res.append((f'{t}.{k}', f'the setting {k} of {t} is not read as a human readable duration'))
                g = default_value(it, e)
                o = it.force(g) if not isinstance(g, int) else g
                o = deref(o.fields[0]) if isinstance(o, Enum) and o.variant == 'Some' else o
                if not (isinstance(o, int) and o == v):
                    res.append((f'{t}.{k}', f'the default of {t}.{k} is {show(g)}'))
            return res
        c.product(f'defaults of {t}', None, spec, given=[], run=run)
    # the sections of the configuration
    def sections(it, f, a):
        return {e.wire: e for e in struct_schema(it, Ty(CFG + 'CacheConfigs'))}

    def sspec(it, a, out):
        res = []
        for k, t in (('downloaded', 'DownloadedCacheConfig'), ('derived', 'DerivedCacheConfig'), ('index', 'IndexCacheConfig'), ('diagnostics', 'DiagnosticsCacheConfig')):
            e = out.value.get(k)
            if e is None or e.required or unwrap(e.ty)[0] != CFG + t or e.path != (k,):
                res.append((k, f'the section {k} is {e and (e.ty, e.path, e.required)}'))
                continue
            d = default_value(it, e)
            w = default_of(it, Ty(CFG + t))
            if not it.eq(d, w):
                res.append((k, f'the default of section {k} is {show(d)}'))
        return res
    c.product('sections of the cache configuration', None, sspec, given=[], run=sections)

    # every cache
    def from_config(it, a, out):
        cfg = deref(a[0])
        if out.panic:
            return ('panic', out.panic)
        r = it.force(out.value)
        failed = it.mkdir_failed
        if r.variant == 'Err':
            return None if failed else ('error', f'the caches cannot be set up: {show(r)}')
        if failed:
            return ('mkdir', 'a cache directory that cannot be created is ignored')
        caches = it.force(deref(r.fields[0]))
        res = []
        seen = []
        names = [f['name'] for f in it.w.typedefs[caches.ty].node['fields']]
        if set(names) != set(KINDS):
            return ('caches', f'the caches are {names}')
        base = fopt(it, cfg, 'cache_dir')
        conf = it.field(cfg, 'caches')
        for name, kind in KINDS.items():
            cache = it.field(caches, name)
            cc = it.force(it.field(cache, 'cache_config'))
            want = it.field(conf, kind)
            if cc.variant != kind.capitalize() or not it.eq(deref(cc.fields[0]), want):
                res.append((f'{name}: settings', f'the cache {name} uses the settings {show(cc)} instead of those of {kind} caches'))
            if kind != 'diagnostics':
                lim = it.field(want, 'max_lazy_redownloads' if kind == 'downloaded' else 'max_lazy_recomputations')
                g = counter_value(it, it.field(cache, 'max_lazy_refreshes'))
                w = lim if it.ctx.le(1, lim) else 1
                if not it.ctx.int_eq(g, w):
                    res.append((f'{name}: refresh limit', f'the cache {name} is refreshed at most {show(g)} times at once instead of {show(w)}'))
            d = it.force(it.field(cache, 'cache_dir'))
            if (d.variant == 'Some') != (base is not None):
                res.append((f'{name}: directory', f'the cache {name} is kept in {show(d)}'))
            elif base is not None:
                p = it.ctx.sstr(deref(d.fields[0]))
                if not it.ctx.str_eq(p, path_join(it, it.ctx.sstr(base), Str(DIRS[name]))):
                    res.append((f'{name}: directory', f'the cache {name} is kept in {show(p)}'))
                if any(it.ctx.str_eq(p, q) for q in seen):
                    res.append((f'{name}: directory', f'two caches are kept in {show(p)}'))
                seen.append(p)
        return res

    def setup(it):
        it.mkdir_failed = False

    def mkdir(it, a):
        if it.mkdir_failed or not it.ctx.choose(('mkdir', it.freeze(deref(a[0]))), [True, False]):
            it.mkdir_failed = True
            return Enum('Result', 'Err', [Term('io::Error', ('mkdir',), Ty('Error'))])
        return Enum('Result', 'Ok', [UNIT])
    c.product('every cache obeys its own settings', 'symbolicator_service::caching::Caches::from_config', from_config, setup=setup,
              models={'fs::create_dir_all': mkdir, 'AtomicIsize::new': lambda it, a: Native('counter', v=a[0])}, floor=10)
    c.assumptions += ['the documented defaults are those of the constants listed in this check: the documentation of the caching module and of the settings']


def counter_value(it, v):
    v = deref(v)
    while isinstance(v, Enum) and v.fields:
        v = deref(v.fields[0])
    if isinstance(v, Native) and v.kind == 'counter':
        return v.v
    raise Unsupported(f'a refresh limit of the form {show(v)}')
