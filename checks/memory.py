"""C14: the caches in memory and temporary files."""
from .util import *
from .keys import struct_of, SVC, T_CERR, T_ENTRY
from .js import cerr
from engine.std import m as method
from engine.ext import E_IO

MEM = SVC + 'caching::memory::'
FS = SVC + 'caching::fs::'
SIZE = 48
SIZES = {k: (lambda it, a: SIZE) for k in ('mem::size_of', 'size_of', 'mem::size_of_val', 'size_of_val')}


def c14(c):
    c.section('expiry', lambda: expiry(c))
    c.section('capacity', lambda: capacity(c))
    c.section('weights', lambda: weights(c))
    c.section('bundles', lambda: bundles(c))
    c.section('temporary files', lambda: temporary(c))
    c.section('kept items', lambda: kept(c))
    c.section('lists and clients', lambda: others(c))


def expiry(c):
    """An item stays until its deadline, counted from now, also if it replaces another one."""
    for fn in ('expire_after_create', 'expire_after_update'):
        d = [d for (t, n), l in c.w.methods.items() if n == fn and str(t).startswith(MEM) for _, d in l]
        c.floor(fn, len(d), 1)

        def given(it):
            it.left = it.ctx.choose(('time left',), [-10**9, 0, 1, 5 * 10**9, 7200 * 10**9])
            it.base = 10**15
            return {'value': Struct(MEM + 'InMemoryItem', {'deadline': it.base + it.left, 'data': Term('data', (), Ty(T_ENTRY.name))}), 'current_time': it.base,
                    **({'_current_duration': some(3600 * 10**9), 'current_duration': some(3600 * 10**9)} if 'update' in fn else {})}

        def spec(it, a, out):
            if out.panic:
                return 'panic', out.panic
            v = it.force(out.value)
            if v.variant != 'Some':
                return 'deadline', 'the item never expires'
            if it.force(v.fields[0]) != max(0, it.left):
                return 'deadline', f'an item with {it.left} ns left is kept for {show(v.fields[0])} ns'
        for x in d:
            c.product(fn, x, spec, given=None, floor=5, run=lambda it, f, a, fn=fn: run_expiry(it, f, given(it), fn))


def run_expiry(it, f, g, fn):
    args = [it.std.temp_ref(Struct(MEM + 'CacheExpiration', {})), it.std.temp_ref(Term('key', (), Ty('CacheKey'))), it.std.temp_ref(g['value']), g['current_time']]
    if fn == 'expire_after_update':
        args.append(some(3600 * 10**9))
    return it.call_def(f, args)


def recording(kind):
    """A builder of a moka cache that records its settings."""
    for n in ('max_capacity', 'weigher', 'expire_after', 'time_to_idle', 'time_to_live', 'name', 'support_invalidation_closures', 'initial_capacity', 'eviction_policy', 'eviction_listener'):
        method(kind, n)(lambda c2, n=n: (c2.v.settings.__setitem__(n, deref(c2.args[0]) if c2.args else True), c2.v)[1])
    method(kind, 'build')(lambda c2: Native('moka cache', settings=c2.v.settings))


def capacity(c):
    recording('memory cache builder')
    CAP = Term('configured capacity', (), Ty('u64'))

    def setup(it):
        it.weighed = []

    def item(it, a):
        it.weighed.append(1)
        return it.ctx.choose(('weight of the item',), [0, 10, 10**6])

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        cacher = it.force(out.value)
        m = deref(it.field(cacher, 'cache'))
        if not isinstance(m, Native) or m.kind != 'moka cache':
            return 'anchor', f'items are kept in {show(m)}'
        s, msgs = m.settings, []
        if not it.same(s.get('max_capacity', 0), CAP):
            msgs.append(('capacity', f'the capacity is {show(s.get("max_capacity"))}'))
        if getattr(s.get('expire_after'), 'ty', None) != MEM + 'CacheExpiration':
            msgs.append(('expiry', f'items expire after {show(s.get("expire_after"))}'))
        if any(n in s for n in ('time_to_idle', 'time_to_live')):
            msgs.append(('expiry', f'items also expire after {[n for n in s if n.startswith("time")]}'))
        if 'weigher' not in s:
            return msgs + [('weight', 'the size of items is not counted')]
        k = it.ctx.choose(('item',), ['Ok', 'NotFound', 'Malformed'])
        r = ok(Term('item', (), Ty('Item'))) if k == 'Ok' else cerr(it, k, *([] if k == 'NotFound' else [Str('reason')]))
        v = Struct(MEM + 'InMemoryItem', {'deadline': 5, 'data': Struct(T_ENTRY.name, {'metadata': none(), 'contents': r})})
        w = it.force(it.call_value(s['weigher'], [it.std.temp_ref(Term('key', (), Ty('CacheKey'))), it.std.temp_ref(v)]))
        own = it.ctx.known(('weight of the item',)) or 0
        if not isinstance(w, int) or w < own or w <= 0:
            msgs.append(('weight', f'an item ({k}) of the size {own} counts as {show(w)}'))
        if k == 'Ok' and not it.weighed:
            msgs.append(('weight', 'the size of the item is not counted'))
        return msgs
    c.product('capacity', MEM + 'Cacher::new', spec, setup=setup, floor=5,
              given=lambda it: {'config': struct_of(c, it, FS + 'Cache', in_memory_capacity=CAP, name=Native('cache name')), 'shared_cache': Native('shared')},
              models={**SIZES, 'InMemoryCache::builder': lambda it, a: Native('memory cache builder', settings={}), 'Cache::builder': lambda it, a: Native('memory cache builder', settings={}),
                      'T::weight': item, 'CacheItemRequest::weight': item}, opaque={'CacheItemRequest::weight': item})
    method('cache name', 'as_ref')(lambda c2: Str('name'))


def weights(c):
    """What an item counts is at least what it holds."""
    IDX = SVC + 'download::index::'
    seen = 0
    for im in c.w.impls:
        if not (im.trait and im.trait.endswith('::CacheItemRequest') and 'weight' in im.fns):
            continue
        seen += 1
        d = im.fns['weight']
        who = im.self_id

        def run(it, f, a, who=who):
            if who.startswith(IDX):
                it.lens = it.ctx.choose(('files',), [(), (7,), (7, 30)])
                files = [Str('x' * n) for n in it.lens]
                it.least = sum(it.lens)
                v = Struct('symbolicator_sources::index::SymstoreIndex', {'files': Vec(files, 'Set')})
            elif 'CfiCache' in who:
                it.least = it.ctx.choose(('size',), [0, 3, 10**6])
                v = Tup([it.least, Term('cfi', (), Ty('CfiItem'))])
            else:
                raise Unsupported(f'the items of {who}')
            return it.call_def(f, [it.std.temp_ref(v)])

        def spec(it, a, out):
            if out.panic:
                return 'panic', out.panic
            if it.force(out.value) < it.least:
                return 'weight', f'an item of at least {it.least} bytes counts as {show(out.value)}'
        c.product(f'weight of {who.split("::")[-1]}', d, spec, given=None, run=run, models=SIZES, floor=3)
    c.floor('weights', seen, 2)


def bundles(c):
    """The files of bundles that are kept in memory."""
    JS = 'symbolicator_js::'
    recording('bundle cache builder')
    CAP = Term('configured capacity', (), Ty('u64'))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        m = deref(it.field(it.force(out.value), 'cache'))
        s, msgs = m.settings, []
        if not it.same(s.get('max_capacity', 0), CAP):
            msgs.append(('capacity', f'the capacity is {show(s.get("max_capacity"))}'))
        t = [x for n, x in s.items() if n.startswith('time')]
        if not t or any(not isinstance(it.force(x), int) or it.force(x) <= 0 for x in t):
            msgs.append(('expiry', f'files are kept for {showl(t)}'))
        if 'weigher' not in s:
            return msgs + [('weight', 'the size of files is not counted')]
        k = it.ctx.choose(('file',), ['contents', 'no contents', 'error'])
        size = it.ctx.choose(('size',), [0, 5000]) if k == 'contents' else 0
        f = struct_of(c, it, JS + 'lookup::CachedFile', contents=some(Str('x' * size)) if k == 'contents' else none())
        e = struct_of(c, it, JS + 'lookup::CachedFileEntry', entry=ok(f) if k != 'error' else cerr(it, 'NotFound'))
        v = Tup([e, Term('resolved with', (), Ty('ResolvedWith'))])
        w = it.force(it.call_value(s['weigher'], [it.std.temp_ref(Term('key', (), Ty('Key'))), it.std.temp_ref(v)]))
        if not isinstance(w, int) or w < size or w <= 0:
            msgs.append(('weight', f'a file ({k}) of {size} bytes counts as {show(w)}'))
        return msgs

    def length(it, recv, args):
        v = it.force(deref(recv))
        return v.fields[0] if v.variant == 'Ok' else 0

    def text(it, recv, args):
        v = it.force(deref(recv))
        return v.fields[0] if v.variant == 'Some' else Str('')
    c.product('bundles', JS + 'bundle_lookup::FileInBundleCache::new', spec, floor=4, given={'capacity': CAP}, mmodels={'Result.unwrap_or_default': length, 'Option.unwrap_or_default': text},
              models={**SIZES, 'FileInBundleCacheInner::builder': lambda it, a: Native('bundle cache builder', settings={}), 'Cache::builder': lambda it, a: Native('bundle cache builder', settings={})})


def temporary(c):
    """Temporary files are made in the folder of the cache; what is in the way may vanish meanwhile."""
    method('temp builder', 'prefix', 'suffix', 'rand_bytes')(lambda c2: c2.v)

    def setup(it):
        it.log = []

    def attempt(it, what, path, good):
        i = len(it.log)
        r = it.ctx.choose((what, i), [True, False])
        it.log.append((what, path, r))
        return ok(good) if r else Enum('Result', 'Err', [Term('io error', (i,), Ty(E_IO) if isinstance(E_IO, str) else E_IO)])

    def mkdir(it, a):
        return attempt(it, 'folder', show(it.freeze(it.ctx.sstr(deref(a[0])))), UNIT)

    @method('temp builder', 'tempfile_in')
    def _(c2):
        return make(c2.it, c2.args)

    def make(it, a):
        return attempt(it, 'file', show(it.freeze(it.ctx.sstr(deref(a[0])))), Native('temporary file', where='cache'))

    def given(it):
        it.on = it.ctx.choose(('folder',), [True, False])
        return {'self': struct_of(c, it, FS + 'Cache', tmp_dir=some(Str('/cache/tmp')) if it.on else none())}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = it.force(out.value)
        if not it.on:
            return None if [w for w, _, _ in it.log] in (['elsewhere'],) and (r.variant == 'Ok') == it.log[0][2] else ('folder', f'without a folder, {it.log} are used')
        if any(w == 'elsewhere' or p.strip('"') != '/cache/tmp' for w, p, _ in it.log):
            return 'folder', f'the file is made at {it.log}'
        last = it.log[-1] if it.log else None
        if r.variant == 'Ok':
            if last is None or last[0] != 'file' or not last[2]:
                return 'file', f'a file is answered after {it.log}'
            if not any(w == 'folder' and g for w, _, g in it.log[:-1]):
                return 'folder', f'the file is made although the folder may be missing: {it.log}'
            return None
        if last is None or last[2]:
            return 'file', f'an error is answered after {it.log}'
        if len([1 for _, _, g in it.log if not g]) < 2:
            return 'retries', f'a single failure is final, although a cleanup may have removed the folder: {it.log}'
        if it.log[-1][0] == 'file' and not (len(it.log) > 1 and it.log[-2][0] == 'folder'):
            return 'retries', f'the folder is not made again: {it.log}'
    c.product('temporary files', FS + 'Cache::tempfile', spec, given=given, setup=setup, floor=6, boundloop=12,
              models={'fs::create_dir_all': mkdir, 'tempfile::Builder::new': lambda it, a: Native('temp builder'), 'Builder::new': lambda it, a: Native('temp builder'),
                      'NamedTempFile::new_in': make, 'tempfile::tempfile_in': make, 'NamedTempFile::new': lambda it, a: attempt(it, 'elsewhere', '', Native('temporary file', where='system'))})


def kept(c):
    """A request is answered with the item kept under its key, or with the one that is computed for it, which is then kept."""
    def name(it, v):
        return show(it.freeze(deref(v)))

    def item(n, who):
        return Struct(MEM + 'InMemoryItem', {'deadline': 5, 'data': Struct(T_ENTRY.name, {'metadata': none(), 'contents': ok(Term(f'{who} item', (), Ty('Item')))})})

    def present(it, key):
        it.asked.append(name(it, key))
        return it.ctx.choose(('kept',), [True, False])

    def entered(c2, fut):
        it = c2.it
        k = c2.v.key

        def go():
            if present(it, k):
                return Native('kept item', v=item(0, 'kept'), fresh=False)
            v = it.await_value(deref(fut))
            it.stored.append(name(it, k))
            return Native('kept item', v=v, fresh=True)
        return Future(go)
    method('items', 'entry_by_ref', 'entry')(lambda c2: Native('items entry', key=c2.args[0]))
    method('items entry', 'or_insert_with')(lambda c2: entered(c2, c2.args[0]))
    method('kept item', 'into_value', 'value')(lambda c2: c2.v.v)
    method('kept item', 'is_fresh')(lambda c2: c2.v.fresh)

    @method('items', 'get_with', 'get_with_by_ref')
    def _(c2):
        it, k, fut = c2.it, c2.args[0], c2.args[1]

        def go():
            if present(it, k):
                return item(0, 'kept')
            v = it.await_value(deref(fut))
            it.stored.append(name(it, k))
            return v
        return Future(go)

    def compute(it, a):
        req, key = name(it, a[1]), name(it, a[2])

        def go():
            it.computed.append((req, key))
            return item(0, 'computed')
        return Future(go)

    def setup(it):
        it.asked, it.stored, it.computed = [], [], []

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.asked != ['cache key'] and set(it.asked) != {'cache key'}:
            return 'key', f'the item kept for {it.asked} is looked for'
        r = name(it, it.field(it.force(out.value), 'contents'))
        if it.ctx.known(('kept',)):
            return None if 'kept item' in r and not it.computed else ('kept', f'although an item is kept, {it.computed} is computed and the answer is {r}')
        if it.computed != [('request', 'cache key')]:
            return 'computed', f'what is computed is {it.computed}'
        if it.stored != ['cache key']:
            return 'stored', f'the computed item is kept for {it.stored}'
        return None if 'computed item' in r else ('answer', f'the answer is {r}')
    c.product('kept items', MEM + 'Cacher::compute_memoized', spec, setup=setup, floor=2, opaque={'Cacher::lookup_or_compute': compute},
              given=lambda it: {'self': struct_of(c, it, MEM + 'Cacher', cache=Native('items'), config=struct_of(c, it, FS + 'Cache', name=Native('cache name'))),
                                'request': Term('request', (), Ty('T')), 'cache_key': Term('cache key', (), Ty('CacheKey'))})


def others(c):
    """Tokens, clients and lists of files are bounded as configured; lists are asked for again after the configured time."""
    recording('cache builder')
    DLD = SVC + 'download::'
    CAP, TTL = Term('configured capacity', (), Ty('u64')), Term('configured time', (), Ty('Duration'))
    lists = lambda it: {'in_memory': it.std.temp_ref(struct_of(c, it, SVC + 'config::InMemoryCacheConfig', sentry_index_capacity=CAP, sentry_index_ttl=TTL))}
    build = lambda it, a: Native('cache builder', settings={})
    sized = lambda it, a: Native('moka cache', settings={'max_capacity': deref(a[0])})

    def caches_in(v):
        return [deref(x) for x in v.fields.values() if getattr(deref(x), 'kind', '') == 'moka cache']

    for fn, given, lives in ((DLD + 's3::S3Downloader::new', lambda it: {'s3_client_capacity': CAP}, False), (DLD + 'gcs::GcsDownloader::new', lambda it: {'token_capacity': CAP}, False),
                             (DLD + 'sentry::SentryDownloader::new', lists, True), ('symbolicator_js::api_lookup::SentryLookupApi::new', lists, True)):
        def spec(it, a, out, lives=lives, fn=fn):
            if out.panic:
                return 'panic', out.panic
            cs = caches_in(it.force(out.value))
            if len(cs) != 1:
                return 'anchor', f'{len(cs)} caches in memory'
            s, msgs = cs[0].settings, []
            if not it.same(s.get('max_capacity', 0), CAP):
                msgs.append(('capacity', f'the capacity is {show(s.get("max_capacity"))} instead of the configured one'))
            if lives and not it.same(s.get('time_to_live', 0), TTL):
                msgs.append(('expiry', f'lists are kept for {show(s.get("time_to_live"))} instead of the configured time'))
            if not lives and s.get('time_to_live') is not None and not it.same(s['time_to_live'], TTL):
                msgs.append(('expiry', f'items are kept for {show(s["time_to_live"])}'))
            return msgs
        names = ('Cache::builder', 'SentryDifCache::builder', 'SentryJsCache::builder', 'GcsTokenCache::builder', 'ClientCache::builder')
        c.product('lists and clients', fn, spec, given=given, floor=1, models={**{n: build for n in names}, **{n.replace('builder', 'new'): sized for n in names}})
