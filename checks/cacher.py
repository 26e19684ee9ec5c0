"""C02, C08: what a cache computation leaves on disk and in the shared cache."""
from .util import *
from engine.std import m as method
from engine.ext import E_IO
from engine.syntax import AnchorMissing

MEM = 'symbolicator_service::caching::memory::'
CE = 'symbolicator_service::caching::cache_error::'
FS = 'symbolicator_service::caching::fs::'
REQ = Ty('symbolicator_service::caches::sourcefiles::FetchFileRequest')
T_CE = Ty(CE + 'CacheError')
T_VER = 'symbolicator_service::caches::versions::'


def io_err(*what):
    return Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str(' '.join(what))), E_IO)])


def ok_(v=UNIT):
    return Enum('Result', 'Ok', [v])


def outcome(it, *k):
    """One more partition: does the step succeed?"""
    n = it.steps[k] = it.steps.get(k, 0) + 1
    r = it.ctx.choose((' '.join(k) + ' succeeds', n), [True, False])
    it.log.append((*k, r))
    return r


# ------------------------------------------------------------------ temporary files
def new_tmp(it):
    if not outcome(it, 'tempfile'):
        return io_err('tempfile')
    it.tmps += 1
    return ok_(Native('tmpfile', n=it.tmps, content=Str(''), partial=False, gone=False))


@method('tmpfile', 'reopen')
def _(c):
    return ok_(Native('tmphandle', f=c.v)) if outcome(c.it, 'reopen') else io_err('reopen')


for _n in ('as_file', 'as_file_mut'):
    method('tmpfile', _n)(lambda c: Native('tmphandle', f=c.v))


@method('tmpfile', 'path')
def _(c):
    return Str(f'tmp{c.v.n}')


@method('tmpfile', 'persist')
def _(c):
    p = c.it.freeze(c.it.ctx.sstr(deref(c.args[0])))
    r = outcome(c.it, 'persist')
    if r:
        c.it.disk.append(('persist', p, c.v.content, c.v.partial))
        return ok_(Native('tmphandle', f=c.v))
    return Enum('Result', 'Err', [Struct('PersistError', {'file': c.v, 'error': deref(io_err('persist').fields[0])})])


@method('tmphandle', 'set_len')
def _(c):
    if not outcome(c.it, 'set_len'):
        return io_err('set_len')
    if deref(c.args[0]) != 0:
        raise Unsupported('set_len')
    c.v.f.content, c.v.f.partial = Str(''), False
    return ok_()


for _n in ('sync_all', 'flush', 'rewind', 'sync_data'):
    method('tmphandle', _n)(lambda c, _n=_n: ok_() if outcome(c.it, _n) else io_err(_n))

KEY = Native('cachekey')


def harness(failing=True):
    """Models around Cacher: outcomes of every step are partitioned, effects on the disk and the shared cache are recorded."""
    def setup(it):
        it.log, it.steps, it.disk, it.shared, it.tmps, it.spawned, it.looked, it.memory = [], {}, [], [], 0, [], [], []

    def compute(it, a):
        def go():
            f = deref(a[1])
            it.log.append(('compute',))
            it.computed = it.computed + 1 if hasattr(it, 'computed') else 1
            r = it.ctx.choose(('the computation',), ['Ok', 'NotFound', 'Malformed', 'Timeout', 'DownloadError', 'PermissionDenied', 'Unsupported', 'InternalError'])
            if r == 'Ok':
                f.content = Str((Term('plain', ('computed data',), T_STR),))
                return ok_()
            flds = {'Timeout': [Term('timeout', (), Ty('Duration'))]}.get(r, [] if r in ('NotFound', 'InternalError') else [Str('details')])
            f.partial = True
            return Enum('Result', 'Err', [Enum(CE + 'CacheError', r, flds)])
        return Future(go)

    def load(it, a):
        d = it.ctx.sstr(deref(a[1]))
        it.log.append(('load', it.freeze(d)))
        return ok_(Term('loaded', (it.freeze(d),), Ty('Item'))) if it.ctx.choose(('item loads',), [True, False]) else Enum('Result', 'Err', [Enum(CE + 'CacheError', 'InternalError', [])])

    def write(it, a):
        def go():
            e, h = it.force(deref(a[0])), deref(a[1])
            if outcome(it, 'write error'):
                h.f.content, h.f.partial = Str((Term('plain', ('marker', it.freeze(e)), T_STR),)), False
                return ok_()
            h.f.partial = True
            return io_err('write error')
        return Future(go)

    def fetch(it, a):
        def go():
            svc, name, key, h = [deref(x) for x in a]
            r = it.ctx.choose(('shared cache',), ['hit', 'miss', 'failure'])
            it.shared.append(('fetch', it.freeze(name), it.freeze(it.ctx.sstr(key)), r))
            if r == 'hit':
                h.f.content, h.f.partial = Str((Term('plain', ('shared data',), T_STR),)), False
            elif r == 'failure':
                h.f.partial = True
            return r == 'hit'
        return Future(go)

    def store(it, a):
        svc, name, key, data, reason = [deref(x) for x in a]
        it.shared.append(('store', it.freeze(name), it.freeze(it.ctx.sstr(key)), it.freeze(data), it.force(reason).variant))
        return Native('receiver')

    def path(it, a):
        v = it.force(deref(a[1]))
        n = it.force(it.field(v, 'number'))
        return Str(f'v{n}/item')

    def md(it, a):
        return Struct('symbolicator_service::caching::metadata::Metadata', {
            'scope': Term('scope', (), Ty('symbolicator_service::types::Scope')), 'time_created': Term('now', (), Ty('SystemTime')), 'debug': none()})

    def write_md(it, a):
        p = it.freeze(it.ctx.sstr(deref(a[0])))
        r = outcome(it, 'write metadata')
        if r:
            it.disk.append(('metadata', p, it.freeze(deref(a[1]))))
        return ok_() if r else io_err('metadata')

    def versions(it, a):
        fmt = lambda n: Enum(T_VER + 'CachePathFormat', 'V2' if n == 9 else 'V1', [])
        ver = lambda n: Struct(T_VER + 'CacheVersion', {'number': n, 'path_format': fmt(n)})
        return Struct(T_VER + 'CacheVersions', {'current': ver(9), 'fallbacks': Vec([ver(7), ver(5)]), 'previous': Vec([ver(3), ver(5), ver(7)])})

    def remove(it, a):
        p = it.freeze(it.ctx.sstr(deref(a[0])))
        n = it.steps['remove'] = it.steps.get('remove', 0) + 1
        it.disk.append(('remove', p))
        r = it.ctx.choose(('remove succeeds', n), [True, False]) if n == 1 else True
        return ok_() if r else io_err('remove')

    def mkdir(it, a):
        return ok_() if outcome(it, 'mkdir') else io_err('mkdir')

    def mapped(it, a):
        h = deref(a[0])
        if not outcome(it, 'map'):
            return io_err('map')
        return ok_(h.f.content)

    opaque = {
        'FetchFileRequest::compute': compute, 'FetchFileRequest::load': load, 'CacheError::write': write, 'SharedCacheService::fetch': fetch,
        'SharedCacheService::store': store, 'CacheKey::cache_path': path, 'Metadata::from_key': md, 'write_metadata': write_md,
        'const:SOURCEFILES_CACHE_VERSIONS': versions, 'Cache::tempfile': lambda it, a: new_tmp(it),
        'metadata_path': lambda it, a: S(it.ctx.sstr(deref(a[0])), '.metadata'),
    }
    models = {'fs::remove_file': remove, 'fs::create_dir_all': mkdir, 'ByteView::map_file_ref': mapped, 'File::from_std': lambda it, a: a[0]}
    return dict(setup=setup, opaque=opaque, models=models)


def given(it):
    return {'self': Term('self', (), Ty(MEM + 'Cacher', REQ)), 'request': Term('request', (), REQ)}


CUR = 'v9/item'


def in_cache(it, p, rel):
    """Is p the location rel below the cache directory?"""
    d = it.ctx.sstr(p)
    return d.parts and isinstance(d.parts[-1], str) and d.parts[-1].endswith('/' + rel)


def data(x):
    return Str((Term('plain', x if isinstance(x, tuple) else (x,), T_STR),))


def flow(it):
    """What happened, by name."""
    k = it.ctx.known
    r = {'shared': next((s[3] for s in it.shared if s[0] == 'fetch'), None), 'computed': k(('the computation',)) if ('compute',) in it.log else None}
    r['failed'] = [s[0] for s in it.log if s[-1] is False]
    return r


def enabled(it):
    """Is there a cache directory?"""
    d = it.force(it.field(it.field(Term('self', (), Ty(MEM + 'Cacher', REQ)), 'config'), 'cache_dir'))
    return d.variant == 'Some'


def same(it, got, want):
    return it.freeze(got) == it.freeze(want)


def disk_spec(it, a, out):
    """C02 on one partition of Cacher::compute."""
    if out.panic:
        return ('panic', f'the computation panics: {out.panic}')
    f = flow(it)
    persists = [d for d in it.disk if d[0] == 'persist']
    meta = [d for d in it.disk if d[0] == 'metadata']
    removed = [d[1] for d in it.disk if d[0] == 'remove']
    lost = [x for x in f['failed'] if x in ('tempfile', 'write error')]
    comp = f['computed']
    if comp is not None and comp != 'InternalError':
        # the data or error is there, but may not be readable
        if any(x in f['failed'] for x in (('map',) if comp == 'Ok' else ('reopen',))):
            pos = [i for i, s in enumerate(it.log) if s == ('compute',)][0]
            if any(s[0] in ('map', 'reopen') and s[-1] is False for s in it.log[pos:]):
                lost.append('local failure')
    nothing = not persists and not meta and not removed
    entry = out.value
    res = it.force(it.field(entry, 'contents'))
    if comp == 'InternalError' or lost:
        why = 'an internal error' if comp == 'InternalError' else 'a local failure'
        if not nothing:
            return (f'{why} is remembered', f'{why} leaves {it.disk} on disk')
        if res.variant == 'Ok':
            return (f'{why} is hidden', f'{why} is reported as {show(res)}')
        return None
    if comp is None and f['shared'] != 'hit':
        return ('no computation', 'nothing is computed, though nothing failed')
    if comp is None or comp == 'Ok':
        content = data('computed data' if comp else 'shared data')
        if res.variant == 'Ok' and not same(it, deref(res.fields[0]), Term('loaded', (it.freeze(content),), Ty('Item'))):
            return ('item', f'the item is {show(res)} instead of the one loaded from {show(content)}')
        if res.variant == 'Err' and it.ctx.known(('item loads',)) is not False:
            return ('item error', f'the item is lost: {show(res)}')
    else:
        if res.variant != 'Err' or variant(it, deref(res.fields[0])) != comp:
            return ('error', f'{comp} is returned as {show(res)}')
        content = data(('marker', it.freeze(deref(res.fields[0]))))
    if not enabled(it):
        return None if nothing else ('no cache', f'without a cache directory, {it.disk} is written')
    tries = [s[0] for s in it.log if s[0] in ('mkdir', 'persist')]
    if not persists:
        if not any(x in f['failed'] for x in ('mkdir', 'persist')):
            return ('not recorded', f'{comp or "the shared item"} is not recorded on disk')
        if len([s for s in it.log if s[0] in ('mkdir', 'persist') and s[-1] is False]) < 2:
            return ('no retry', f'{comp or "the shared item"} is not recorded after a single failure ({tries})')
    if len(persists) > 1:
        return ('twice', f'{persists} is written')
    for _, p, d, partial in persists:
        if partial:
            return ('partial', f'incomplete or foreign data is recorded for {comp or "the shared item"}')
        if not in_cache(it, p, CUR):
            return ('location', f'the item is stored at {show(p)}')
        if not same(it, d, content):
            return ('content', f'{show(d)} is recorded for {comp or "the shared item"} instead of {show(content)}')
    for _, p, d in meta:
        if not (in_cache(it, p, CUR) or in_cache(it, p, CUR + '.metadata')):
            return ('metadata location', f'metadata is stored at {show(p)}')
    if persists and not meta and 'write metadata' not in f['failed']:
        return ('no metadata', 'no metadata are written for a recorded item')
    order = [d[0] for d in it.disk if d[0] != 'metadata']
    if persists and order and order[0] != 'persist':
        return ('order', 'older versions are removed before the new one is there')
    want = [f'v{n}/item{s}' for n in (3, 5, 7) for s in ('', '.metadata')]
    for p in removed:
        if not any(in_cache(it, p, w) for w in want):
            return ('removed', f'{show(p)} is removed')
    if persists and not all(any(in_cache(it, p, w) for p in removed) for w in want):
        return ('old versions', f'only {[show(x) for x in removed]} of the older versions are removed')
    return None


def shared_spec(it, a, out):
    """C08 on one partition of Cacher::compute."""
    if out.panic:
        return ('panic', f'the computation panics: {out.panic}')
    f = flow(it)
    comp = f['computed']
    use = it.ctx.truth(it.field(Term('request', (), REQ), 'use_shared_cache'))
    conf = it.force(deref(it.method(it.std.temp_ref(it.field(Term('self', (), Ty(MEM + 'Cacher', REQ)), 'shared_cache')), 'get', []))).variant == 'Some'
    fetches, stores = [s for s in it.shared if s[0] == 'fetch'], [s for s in it.shared if s[0] == 'store']
    if not use and it.shared:
        return ('not opted in', f'the shared cache is used for an item that did not opt in: {it.shared}')
    if not conf and it.shared:
        return ('not configured', 'a shared cache is used although there is none')
    for s in it.shared:
        if s[2] != CUR and show(s[2]).strip('"') != CUR:
            return ('key', f'the shared cache is used at {show(s[2])} instead of the current version of the item')
    names = {show(s[1]) for s in it.shared}
    own = show(it.freeze(it.field(it.field(Term('self', (), Ty(MEM + 'Cacher', REQ)), 'config'), 'name')))
    if names - {own}:
        return ('cache name', f'the shared cache is used under the name {names} instead of {own}')
    if f['failed'][:1] == ['tempfile']:
        return None
    if use and conf and not fetches and 'reopen' not in f['failed']:
        return ('not fetched', 'an item that opted in is not looked up in the shared cache')
    res = it.force(it.field(out.value, 'contents'))
    hit = f['shared'] == 'hit' and comp is None
    if f['shared'] in ('miss', 'failure') and comp is None and 'tempfile' not in f['failed']:
        return ('not computed', f'the item is not computed after a {f["shared"]} of the shared cache: {show(res)}')
    if f['shared'] is None and comp is None and 'tempfile' not in f['failed']:
        return ('not computed', f'the item is not computed: {show(res)}')
    if f['shared'] == 'hit' and comp is None and 'tempfile' not in f['failed'] and it.ctx.known(('item loads',)) is not False and res.variant != 'Ok':
        return ('hit lost', f'an item of the shared cache is returned as {show(res)}')
    for d in it.disk:
        if d[0] == 'persist' and d[3]:
            return ('mixed', f'parts of a failed fetch remain in the stored item (computation {comp})')
    if stores and (hit or comp != 'Ok'):
        return ('stored', f'{"a hit" if hit else comp} is stored in the shared cache')
    if len(stores) > 1:
        return ('stored twice', f'{stores}')
    for s in stores:
        if not same(it, s[3], data('computed data')):
            return ('stored data', f'{show(s[3])} is stored in the shared cache')
        if s[4] != 'New':
            return ('reason', f'a new item is stored as {s[4]}')
    if use and conf and comp == 'Ok' and not stores and not any(x in f['failed'] for x in ('map', 'reopen', 'tempfile')):
        return ('not stored', 'a computed item that opted in is not stored in the shared cache')
    return None


def c02(c):
    c.product('what a computation leaves on disk', MEM + 'Cacher::compute', disk_spec, given=given, floor=1000, **harness())


def c08(c):
    c.product('what a computation shares', MEM + 'Cacher::compute', shared_spec, given=given, floor=1000, **harness())
    c.product('what a lookup shares again', LK, reupload_spec, given=lookup_given, floor=100, **lookup_harness())
    shared_service(c)


# ------------------------------------------------------------------ looking up what is on disk
def opened(it, a):
    """Cache::open_cachefile: every outcome for every version."""
    p = it.ctx.sstr(deref(a[1]))
    rel = p.parts[-1].rsplit('/v', 1)[-1] if p.parts and isinstance(p.parts[-1], str) else '?'
    r = it.ctx.choose(('file v' + rel,), ['missing', 'expired', 'unreadable', 'good', 'good, touched', 'error'])
    it.looked.append((it.freeze(p), r))
    if r in ('missing', 'expired'):
        return ok_(none())
    if r == 'unreadable':
        return io_err('open')
    c = Enum('Result', 'Err', [Enum(CE + 'CacheError', 'DownloadError', [Str('details of v' + rel)])]) if r == 'error' else ok_(data('data of v' + rel))
    md = some(Term('metadata', (), Ty('symbolicator_service::caching::metadata::Metadata')))
    e = Struct('symbolicator_service::caching::metadata::CacheEntry', {'metadata': md, 'contents': c})
    if r == 'error':
        x = Enum(FS + 'ExpirationTime', 'RefreshIn', [Term('refresh time', (), Ty('Duration'))])
    else:
        # a file that was just touched can be touched again after an hour
        x = Enum(FS + 'ExpirationTime', 'TouchIn', [3600 * 10 ** 9 if r == 'good, touched' else Term('touch time', (), Ty('Duration'))])
        if r == 'good' and not it.ctx.lt(Term('touch time', (), Ty('Duration')), 3600 * 10 ** 9):
            raise Infeasible()
    return ok_(some(Tup([e, x])))


def lookup_harness():
    h = harness()
    op = dict(h['opaque'])
    op['Cache::open_cachefile'] = opened
    op['ExpirationTime::as_instant'] = lambda it, a: Term('deadline of', (it.freeze(it.force(deref(a[0]))),), Ty('Instant'))
    op['Cacher::spawn_refresh'] = lambda it, a: (it.spawned.append(tuple(it.freeze(deref(x)) for x in a[1:])), UNIT)[1]
    return dict(h, opaque=op)


LK = MEM + 'Cacher::lookup_local_cache'


def lookup_given(it):
    return {'self': Term('self', (), Ty(MEM + 'Cacher', REQ)), 'request': Term('request', (), REQ), 'cache_key': Term('key', (), Ty('symbolicator_service::caching::cache_key::CacheKey'))}


def found(it):
    return next(((i, r) for i, (_, r) in enumerate(it.looked) if r not in ('missing', 'expired')), (None, None))


def lookup_spec(it, a, out):
    if out.panic:
        return ('panic', f'the lookup panics: {out.panic}')
    v = it.force(out.value)
    if not enabled(it):
        return None if v.variant == 'None' and not it.looked and not it.spawned else ('no cache', 'something is looked up without a cache directory')
    i, r = found(it)
    order = [p for p, _ in it.looked]
    want = [f'v{n}/item' for n in (9, 7, 5)][:len(order) if i is None else i + 1]
    if len(order) != len(want) or not all(in_cache(it, p, w) for p, w in zip(order, want)):
        return ('order', f'the versions are looked up at {[show(p) for p in order]}, expected is {want}')
    if i is None:
        if len(order) != 3:
            return ('versions', f'only {len(order)} of the accepted versions are looked up')
        return None if v.variant == 'None' and not it.spawned else ('miss', f'nothing is on disk, the lookup returns {show(v)}')
    if v.variant != 'Some':
        return ('lost', f'an item in v{(9, 7, 5)[i]} ({r}) is not used')
    item = deref(v.fields[0])
    res = it.force(it.field(it.field(item, 'data'), 'contents'))
    num = (9, 7, 5)[i]
    if r == 'unreadable':
        if res.variant != 'Err' or variant(it, deref(res.fields[0])) != 'InternalError':
            return ('unreadable', f'an unreadable file is returned as {show(res)}')
    elif r == 'error':
        if res.variant != 'Err' or not it.eq(deref(res.fields[0]), Enum(CE + 'CacheError', 'DownloadError', [Str(f'details of v{num}/item')])):
            return ('error', f'the recorded error of v{num} is returned as {show(res)}')
    else:
        bad = it.ctx.known(('item loads',)) is False
        if (res.variant == 'Err') != bad:
            return ('loading', f'an item of v{num} is returned as {show(res)}')
        if not bad and not same(it, deref(res.fields[0]), Term('loaded', (it.freeze(data(f'data of v{num}/item')),), Ty('Item'))):
            return ('item', f'an item of v{num} is returned as {show(res)}')
    if r != 'unreadable':
        dl = it.field(item, 'deadline')
        want = 'touch time' if r == 'good' else 'refresh time' if r == 'error' else str(3600 * 10 ** 9)
        if not isinstance(deref(dl), Term) or want not in show(dl):
            return ('deadline', f'an item that is {r} is kept until {show(dl)}')
    if r == 'unreadable':
        return None
    if (i > 0) != bool(it.spawned) or len(it.spawned) > 1:
        return ('refresh', f'{"no" if i else "a"} recomputation is started for an item found in v{num}')
    for rq, key in it.spawned:
        if show(rq) != 'request' or show(key) != 'key':
            return ('refresh of', f'the recomputation is for {show(rq)}, {show(key)}')
    return None


def reupload_spec(it, a, out):
    """C08: what a lookup shares again."""
    if out.panic:
        return ('panic', f'the lookup panics: {out.panic}')
    use = it.ctx.truth(it.field(Term('request', (), REQ), 'use_shared_cache'))
    conf = it.force(deref(it.method(it.std.temp_ref(it.field(Term('self', (), Ty(MEM + 'Cacher', REQ)), 'shared_cache')), 'get', []))).variant == 'Some'
    i, r = found(it)
    if any(s[0] == 'fetch' for s in it.shared):
        return ('fetch', 'a local lookup fetches from the shared cache')
    stores = it.shared
    if not stores:
        return ('not shared again', 'an item whose use was recorded is not shared again') if use and conf and i == 0 and r == 'good, touched' else None
    if not (use and conf):
        return ('not opted in', 'an item that did not opt in is shared')
    if i != 0:
        return ('old version', f'an item of the old version v{(9, 7, 5)[i]} is shared as the current one')
    if r != 'good, touched':
        return ('again', f'an item that is {r} is shared again')
    s = stores[0]
    if len(stores) > 1 or show(s[2]).strip('"') != CUR or not same(it, s[3], data('data of v9/item')) or s[4] != 'Refresh':
        return ('what', f'shared again is {stores}')
    return None


def c11(c):
    c.product('versions on disk', LK, lookup_spec, given=lookup_given, floor=100, **lookup_harness())
    K = Term('key', (), Ty('symbolicator_service::caching::cache_key::CacheKey'))

    # starting a recomputation
    h = harness()
    op = dict(h['opaque'])
    op['Cacher::compute'] = lambda it, a: (it.log.append(('recomputed', it.freeze(deref(a[1])), it.freeze(deref(a[2])), it.freeze(deref(a[3])))),
                                           Struct('symbolicator_service::caching::metadata::CacheEntry', {'metadata': none(), 'contents': ok_(Term('recomputed', (), Ty('Item')))}))[1]
    op['ExpirationTime::for_fresh_status'] = lambda it, a: Term('fresh', (it.freeze(deref(a[1])),), Ty(FS + 'ExpirationTime'))
    op['ExpirationTime::as_instant'] = lambda it, a: Term('deadline of', (it.freeze(deref(a[0])),), Ty('Instant'))

    op['Cache::max_lazy_refreshes'] = lambda it, a: it.cell
    op['CallOnDrop::new'] = lambda it, a: (it.tokens.append(a[0]), Native('token'))[1]

    def spawn(it, a):
        it.spawned.append(a[0])
        return Native('joinhandle')

    def setup(it):
        h['setup'](it)
        it.tokens = []
        it.cell = Native('cell', v=Term('limit', (), Ty('isize')))
        it.running = Native('cell', v=it.force(Term('running', (), Ty('Set', K.ty))))

    def given_(it):
        me = Term('self', (), Ty(MEM + 'Cacher', REQ))
        return {**lookup_given(it), 'self': Struct(MEM + 'Cacher', {'config': it.field(me, 'config'), 'cache': Native('memory'), 'refreshes': it.running,
                                                                    'shared_cache': it.field(me, 'shared_cache')}, (REQ,))}

    def has_key(it):
        return it.ctx.truth(it.method(Ref(lambda: it.running.v, lambda x: setattr(it.running, 'v', x)), 'contains', [K]))

    def starting(it, a, out):
        if out.panic:
            return ('panic', f'starting a recomputation panics: {out.panic}')
        limit = Term('limit', (), Ty('isize'))
        if len(it.spawned) > 1:
            return ('twice', 'two recomputations are started')
        if not it.spawned:
            if it.tokens:
                for t in it.tokens:
                    it.call_value(t, [])
            if not it.ctx.int_eq(it.cell.v, limit):
                return ('slot lost', f'a recomputation that is not started leaves {show(it.cell.v)} free slots of {show(limit)}')
            if not it.ctx.le(limit, 0) and not it.already:
                return ('not started', 'a recomputation is not started although a slot is free and none is running for the item')
            return None
        if it.already:
            return ('already running', 'a second recomputation is started for the same item')
        if it.ctx.le(limit, 0):
            return ('limit', 'a recomputation is started beyond the limit')
        if not it.ctx.int_eq(it.cell.v, add(limit, 1, -1)):
            return ('slots', f'{show(it.cell.v)} of {show(limit)} slots are left while one recomputation runs')
        if not has_key(it):
            return ('not registered', 'a running recomputation is not registered: another one would be started')
        it.await_value(it.spawned[0])
        rec = [s for s in it.log if s[0] == 'recomputed']
        if len(rec) != 1 or show(rec[0][1]) != 'request' or show(rec[0][2]) != 'key':
            return ('recomputation', f'what is recomputed is {rec}')
        if len(it.memory) != 1 or show(it.memory[0][0]) != 'key' or 'recomputed' not in show(it.memory[0][1]):
            return ('result', f'kept in memory is {it.memory}')
        if not it.tokens:
            return ('never ends', 'nothing ends the recomputation if it is cancelled')
        for t in it.tokens:
            it.call_value(t, [])
        if not it.ctx.int_eq(it.cell.v, limit):
            return ('slot lost', f'a finished recomputation leaves {show(it.cell.v)} of {show(limit)} slots')
        if has_key(it):
            return ('never again', 'a finished recomputation stays registered: the item is never recomputed again')
        return None

    def run(it, f, a):
        it.already = has_key(it)
        return it.call_def(f, a)
    c.product('recomputation in the background', MEM + 'Cacher::spawn_refresh', starting, given=given_, setup=setup, opaque=op, run=run, floor=4,
              models={**h['models'], 'tokio::spawn': spawn, 'spawn': spawn})
    token_lives(c)

    # what was not found is computed
    loc = lambda it, a: some(Term('found locally', (), Ty(MEM + 'InMemoryItem', Ty('Item')))) if it.ctx.choose(('found locally',), [True, False]) else none()
    def whole(it, a, out):
        if out.panic:
            return ('panic', f'{out.panic}')
        local = it.ctx.known(('found locally',))
        rec = [s for s in it.log if s[0] == 'recomputed']
        if local:
            return None if not rec and show(it.freeze(out.value)) == 'found locally' else ('found', f'an item on disk is not used: {show(out.value)}, {rec}')
        if len(rec) != 1 or show(rec[0][1]) != 'request' or show(rec[0][2]) != 'key':
            return ('computed', f'what is computed is {rec}')
        if 'recomputed' not in show(it.freeze(it.field(out.value, 'data'))):
            return ('item', f'the result is {show(out.value)}')
        dl = show(it.freeze(it.field(out.value, 'deadline')))
        return None if 'deadline of' in dl and 'fresh' in dl else ('deadline', f'a new item is kept until {dl}')
    c.product('an item that is not on disk is computed', MEM + 'Cacher::lookup_or_compute', whole, given=lookup_given, setup=setup, floor=2,
              opaque={**op, 'Cacher::lookup_local_cache': loc}, models=h['models'])


@method('memory', 'insert')
def _(c):
    c.it.memory.append(tuple(c.it.freeze(deref(x)) for x in c.args))
    return Future(lambda: UNIT)


def nodes(n):
    """All nodes of a syntax tree."""
    if isinstance(n, dict):
        yield n
        for v in n.values():
            yield from nodes(v)
    elif isinstance(n, (list, tuple)):
        for v in n:
            yield from nodes(v)


def mentions(c, n, what, deep=2):
    """Does the tree call the function, directly or through functions of the same crate?"""
    for x in nodes(n):
        if x.get('k') == 'path' and [s[0] for s in x['p']['segs']][-len(what):] == what:
            return True
        name = x.get('name') if x.get('k') == 'mcall' else x['f']['p']['segs'][-1][0] if x.get('k') == 'call' and x['f'].get('k') == 'path' else None
        if name and deep and any(d.node.get('body') and mentions(c, d.node['body'], what, deep - 1) for d in helpers(c, name)):
            return True
    return False


def free(c, path):
    try:
        return [c.w.fn(path)]
    except AnchorMissing:
        return []


def helpers(c, name):
    return [d for (t, n), l in c.w.methods.items() if n == name and str(t).startswith(MEM) for _, d in l] + \
        free(c, MEM + name)


def token_lives(c):
    """The guard that ends a recomputation has to be owned by the task."""
    d = c.w.fn(MEM + 'Cacher::spawn_refresh')
    tasks = [n for n in nodes(d.node['body']) if n.get('k') == 'async']
    inner = {id(x) for t in tasks for x in nodes(t)}
    for n in nodes(d.node['body']):
        if n.get('k') != 'let' or id(n) in inner or n['pat'].get('k') != 'ident' or n['init'] is None or n['init'].get('k') == 'async' or not mentions(c, n['init'], ['CallOnDrop', 'new']):
            continue
        t = n['pat']['name']
        use = lambda y: [x for x in nodes(y) if x.get('k') == 'path' and [s[0] for s in x['p']['segs']] == [t]]
        held = any(len(use(y)) > sum(len(use(x)) for x in nodes(y) if x.get('k') == 'let' and x['pat'].get('k') == 'wild') for y in tasks)
        passed = any(use(x['args']) for x in nodes(d.node['body']) if x.get('k') in ('call', 'mcall') and id(x) not in inner)
        c.rule('the guard of a recomputation is owned by its task', held or passed, f'{t} is dropped when the recomputation is started, not when it ends', d.id)


# ------------------------------------------------------------------ the shared cache itself
SC = 'symbolicator_service::caching::shared_cache::'
SCE = SC + 'CacheError'
for _n in ('map_err', 'map_ok', 'into_async_read', 'boxed'):
    method('bytestream', _n)(lambda c: c.v)



def backend_result(it, what):
    r = it.ctx.choose((what,), ['found', 'missing', 'connect timeout', 'timeout', 'error'])
    if r in ('found', 'missing'):
        return ok_(some(Term('bytes', (), Ty('u64'))) if r == 'found' else none())
    return Enum('Result', 'Err', [Enum(SCE, {'connect timeout': 'ConnectTimeout', 'timeout': 'Timeout'}.get(r, 'Other'), [Term('anyhow', (), Ty('Error'))] if r == 'error' else [])])


def shared_service(c):
    """SharedCacheService: errors are misses, both directions use the same key."""
    def fetch(it, a):
        def go():
            it.calls.append((it.freeze(it.ctx.sstr(deref(a[1]))), deref(a[2])))
            return backend_result(it, 'backend')
        return Future(go)

    def spawned(it, recv, a):
        fut = a[0]

        def go():
            v = it.await_value(fut)
            return ok_(v) if it.ctx.choose(('the task survives',), [True, False]) else Enum('Result', 'Err', [Term('JoinError', (), Ty('Error'))])
        return Future(go)

    def setup(it):
        it.calls, it.sent = [], []
    DEST = Native('destination')
    NAME = Enum('symbolicator_service::caching::config::CacheName', 'Symcaches', [])
    name_ty = c.w.fn(SC + 'SharedCacheService::fetch')

    def given_(it):
        fr = it.impl_frame(name_ty, None)
        t = it.ty(name_ty.node['params'][0]['ty'], fr)
        it.name_arg = Enum(t[0], 'Symcaches', [])
        return {0: it.name_arg, 1: Term('plain', ('key',), T_STR), 2: DEST}
    opq = {'GcsState::fetch': fetch, 'FilesystemSharedCacheConfig::fetch': fetch, 'CancelOnDrop::new': lambda it, a: a[0]}

    def spec(it, a, out):
        if out.panic:
            return ('panic', f'fetching from the shared cache panics: {out.panic}')
        r, alive = it.ctx.known(('backend',)), it.ctx.known(('the task survives',))
        late = any(k[0] == 'elapsed' and v is True for k, v in it.ctx.path if isinstance(k, tuple))
        if not isinstance(out.value, bool):
            return ('result', f'the result is {show(out.value)}')
        good = r == 'found' and alive is not False and not late
        if len(it.calls) > 1 or (not it.calls and not late):
            return ('calls', f'the backend is asked {len(it.calls)} times')
        for key, dest in it.calls:
            if show(key).strip('"') != show(it.freeze(S('symcaches/', Term('plain', ('key',), T_STR)))).strip('"'):
                return ('key', f'the backend is asked for {show(key)}')
            if dest is not DEST:
                return ('destination', 'the item is not written to the destination of the caller')
        return None if out.value is good else ('found', f'the backend answers {r}{"" if alive is not False else ", its task dies"}{", too late" if late else ""}; the fetch reports {out.value}')
    c.product('a failed fetch is a miss', SC + 'SharedCacheService::fetch', spec, given=given_, setup=setup, opaque=opq, mmodels={'Handle.spawn': spawned, 'spawn': spawned}, floor=8)

    # storing
    def try_send(it, recv, a):
        m = deref(a[0])
        it.sent.append(m)
        return ok_() if it.ctx.choose(('queue has room',), [True, False]) else Enum('Result', 'Err', [Term('TrySendError', (), Ty('Error'))])

    def sgiven(it):
        g = given_(it)
        return {0: g[0], 1: g[1], 2: data('item')}

    def stored(it, a, out):
        reason = it.force(deref(a[4])).variant
        if out.panic:
            return ('panic', f'storing panics: {out.panic}')
        if not it.sent:
            return ('not sent', 'a new item is not sent to the shared cache') if reason == 'New' else None
        if len(it.sent) > 1:
            return ('twice', 'an item is sent twice')
        m = it.sent[0]
        key = it.ctx.sstr(it.field(m, 'key'))
        if not it.ctx.str_eq(key, S('symcaches/', Term('plain', ('key',), T_STR))):
            return ('key', f'the item is stored at {show(key)} but fetched from symcaches/key')
        if not same(it, it.field(m, 'content'), data('item')):
            return ('content', f'stored is {show(it.field(m, "content"))}')
        return None if it.force(it.field(m, 'reason')).variant == reason else ('reason', f'an item stored as {reason} is sent as {show(it.field(m, "reason"))}')
    c.product('an item is stored under the key it is fetched by', SC + 'SharedCacheService::store', stored, given=sgiven, setup=setup, mmodels={'Sender.try_send': try_send, 'try_send': try_send}, floor=3)

    # the upload worker
    def bstore(it, a):
        it.calls.append([it.freeze(deref(x)) for x in a[1:]])
        return Future(lambda: ok_(Enum(SC + 'SharedCacheStoreResult', 'Skipped', [])) if it.ctx.choose(('upload succeeds',), [True, False]) else Enum('Result', 'Err', [Enum(SCE, 'Timeout', [])]))

    def ugiven(it):
        fr = it.impl_frame(name_ty, None)
        msg = Struct(SC + 'UploadMessage', {'cache': Enum(it.ty(name_ty.node['params'][0]['ty'], fr)[0], 'Symcaches', []), 'key': Str((Term('plain', ('full key',), T_STR),)),
                                            'content': data('item'), 'done_tx': Native('oneshot'), 'reason': Enum(SC + 'CacheStoreReason', 'New', [])})
        return {'message': msg, 'done_tx': Native('donechan')}

    def uploaded(it, a, out):
        if out.panic:
            return ('panic', f'an upload panics: {out.panic}')
        if len(it.calls) != 1:
            return ('uploads', f'the item is uploaded {len(it.calls)} times')
        if not any(show(x) == show(it.freeze(Str((Term('plain', ('full key',), T_STR),)))) for x in it.calls[0]):
            return ('key', f'uploaded is {it.calls[0]}')
        if not any(same(it, x, data('item')) for x in it.calls[0]):
            return ('content', f'uploaded is {it.calls[0]}')
        return None if 'done' in it.sent else ('slot lost', 'the worker is not told that the upload has ended: it stops uploading')
    done = lambda it, r, a: (it.sent.append('done'), Future(lambda: ok_()))[1]
    c.product('an upload stores what was sent', SC + 'SharedCacheService::single_uploader', uploaded, given=ugiven, setup=setup, floor=4,
              opaque={'GcsState::store': bstore, 'FilesystemSharedCacheConfig::store': bstore}, mmodels={'donechan.send': done, 'oneshot.send': lambda it, r, a: ok_()})

    # the file system backend
    def ffetch(it, a, out):
        if out.panic:
            return ('panic', f'{out.panic}')
        r = it.force(out.value)
        copies = [e for e in it.ctx.trace if e[0] == 'call' and e[1] == 'io::copy']
        good = r.variant == 'Ok' and it.force(deref(r.fields[0])).variant == 'Some'
        if good and not copies:
            return ('not copied', 'an item is reported as found but not copied')
        if copies and 'writer' not in show(copies[0][-1]):
            return ('destination', f'the item is copied to {show(copies[0][-1])}')
        failed = any('io::copy' in show(k) and v == 'Err' for k, v in it.ctx.path)
        if failed and r.variant == 'Ok':
            return ('failed copy', 'an item that could not be copied completely is reported as found' if good else 'a failed copy is not reported')
        missing = any('File::open' in show(k) and v == 'Err' for k, v in it.ctx.path)
        if missing and good:
            return ('missing', 'an item that cannot be opened is reported as found')
        if copies and not failed and not good:
            return ('lost', 'an item that was copied is not reported as found')
        return None
    c.product('file system backend: fetch', SC + 'FilesystemSharedCacheConfig::fetch', ffetch, floor=5)

    def fstore(it, a, out):
        if out.panic:
            return ('panic', f'{out.panic}')
        r = it.force(out.value)
        tr = [e for e in it.ctx.trace if e[0] in ('call', 'method')]
        name = lambda e: e[1]
        per = [i for i, e in enumerate(tr) if name(e) in ('persist', 'persist_noclobber')]
        cop = [i for i, e in enumerate(tr) if name(e) == 'io::copy']
        failed = any('io::copy' in show(k) and v == 'Err' and 'persist' not in show(k) for k, v in it.ctx.path)
        written = r.variant == 'Ok' and it.force(deref(r.fields[0])).variant == 'Written'
        if any(name(e) in ('File::create', 'fs::write', 'fs::rename', 'fs::copy') for e in tr):
            return ('in place', 'an item is written in place: an interrupted upload leaves a partial item')
        if per and (not cop or cop[0] > per[0] or failed):
            return ('partial', 'an item is published before it was completely written')
        if per and 'key' not in show(tr[per[0]][3]):
            return ('location', f'the item is stored at {show(tr[per[0]][3])}')
        if cop and 'content' not in show(tr[cop[0]][2]):
            return ('content', f'stored is {show(tr[cop[0]][2])}')
        if written and not per:
            return ('not published', 'an item is reported as stored but was not published')
        return None
    c.product('file system backend: store', SC + 'FilesystemSharedCacheConfig::store', fstore, floor=5)

    # the GCS backend
    def gfetch(it, a, out):
        if out.panic:
            return ('panic', f'{out.panic}')
        r = it.force(out.value)
        good = r.variant == 'Ok' and it.force(deref(r.fields[0])).variant == 'Some'
        bad = [show(k)[:80] for k, v in it.ctx.path if (v == 'Err' and ('copy' in show(k) or '.send' in show(k) or 'token' in show(k))) or (isinstance(k, tuple) and k[0] == 'elapsed' and v is True)]
        if good and bad:
            return ('failed', f'an item is reported as found although this failed: {bad}')
        copied = any(e[0] == 'call' and e[1] == 'io::copy' for e in it.ctx.trace)
        if good and not copied:
            return ('not copied', 'an item is reported as found without copying it')
        succ = [v for k, v in it.ctx.path if 'is_success' in show(k)]
        if good and not (succ and succ[0] is True):
            return ('status', 'an item is reported as found without a successful answer')
        if copied and not bad and not good:
            return ('lost', f'an item that was copied is reported as {show(r)}')
        return None
    c.product('GCS backend: fetch', SC + 'GcsState::fetch', gfetch, floor=8, mmodels={'bytes_stream': lambda it, r, a: Native('bytestream')}, models={'StreamReader::new': lambda it, a: a[0]})
