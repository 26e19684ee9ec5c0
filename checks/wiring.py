"""C13: every kind of data has its own cache; what is loaded from a cache is what was stored."""
from .util import *
from .keys import struct_of, SVC, T_CERR
from engine.std import m as method, fn

NAT, JSC, PRO = 'symbolicator_native::', 'symbolicator_js::', 'symbolicator_proguard::'
CACHES = SVC + 'caching::Caches'
SHARED = SVC + 'services::SharedServices'
# which request types keep their data in which cache
KINDS = {
    'objects': ['FetchFileDataRequest'], 'object_meta': ['FetchFileMetaRequest'], 'auxdifs': ['FetchFileRequest (bitcode)'], 'il2cpp': ['FetchFileRequest (il2cpp)'],
    'symcaches': ['FetchSymCacheInternal'], 'cficaches': ['FetchCfiCacheInternal'], 'ppdb_caches': ['FetchPortablePdbCacheInternal'], 'sourcemap_caches': ['FetchSourceMapCacheInternal'],
    'sourcefiles': ['FetchFileRequest'], 'proguard': ['FetchProguard'], 'source_index': ['FetchSymstoreIndex', 'FetchSymstoreIndexSegment'],
}
SERVICES = [(NAT + 'symbolication::symbolicate::SymbolicationActor', {'symcaches': 1, 'cficaches': 1, 'ppdb_caches': 1, 'auxdifs': 1, 'il2cpp': 1, 'diagnostics': 1}),
            (JSC + 'service::SourceMapService', {'sourcemap_caches': 1}), (PRO + 'service::ProguardService', {'proguard': 1}),
            (SHARED, {'objects': 1, 'object_meta': 1, 'source_index': 2, 'sourcefiles': 1})]


def c13(c):
    c.section('services', lambda: services(c))
    c.section('loading', lambda: loading(c))


method('wired', 'clone')(lambda c: c.v)
method('moka builder', 'max_capacity', 'weigher', 'name', 'time_to_idle', 'time_to_live', 'expire_after')(lambda c: c.v)
method('moka builder', 'build')(lambda c: Native('moka'))


def caches_of(c, it, name):
    """A `Caches` whose caches are told apart by their field."""
    return struct_of(c, it, CACHES, **{f['name']: Native('wired', n=f['name'], in_memory_capacity=1) for f in c.w.typedefs[CACHES].node['fields']})


def cacher_types(c):
    """The type of item of every field which holds a cacher: (struct, field) -> request type."""
    out = {}

    def find(t, hit):
        if isinstance(t, dict):
            p = t.get('p')
            if isinstance(p, dict):
                for s in p['segs']:
                    if s[0] == 'Cacher' and s[1]:
                        hit.append(s[1][0])
            for v in t.values():
                find(v, hit)
        elif isinstance(t, list):
            for v in t:
                find(v, hit)
    for tid, d in c.w.typedefs.items():
        if d.kind == 'struct':
            for f in d.node['fields']:
                hit = []
                find(f['ty'], hit)
                for h in hit:
                    out[tid, f['name']] = h
    return out


def type_name(t):
    p = t.get('p') if isinstance(t, dict) else None
    return p['segs'][-1][0] if p else '?'


def wired(it, v, path, out, seen):
    """Every cache within a service: (where, request type or None, cache, shared cache)."""
    v = deref(v)
    if id(v) in seen:
        return
    seen.add(id(v))
    if isinstance(v, Native):
        if v.kind == 'cacher':
            out.append((path, v.cache, v.shared))
        elif v.kind == 'wired' and path and path[-1][1] not in ('caches',):
            out.append((path, v.n, None))
        elif v.kind == 'cell':
            wired(it, v.v, path, out, seen)
    elif isinstance(v, (Struct, Enum)):
        if isinstance(v, Struct) and v.ty == CACHES:
            return
        fs = v.fields.items() if isinstance(v.fields, dict) else enumerate(v.fields)
        for n, x in fs:
            wired(it, x, path + [(v.ty, n)], out, seen)


EXPECT = {'symcaches': 'FetchSymCacheInternal', 'cficaches': 'FetchCfiCacheInternal', 'ppdb_caches': 'FetchPortablePdbCacheInternal', 'sourcemap_caches': 'FetchSourceMapCacheInternal',
          'proguard': 'FetchProguard', 'objects': 'FetchFileDataRequest', 'object_meta': 'FetchFileMetaRequest'}


def services(c):
    types = cacher_types(c)
    c.rule('cachers', len(types) >= 9, f'only {len(types)} fields hold a cache', 'caching')
    hook = {'Caches::from_config': lambda it, a: caches_result(c, it), 'Caches::clear_tmp': lambda it, a: cleared(it), 'SharedCacheService::new': lambda it, a: Native('wired', n='shared'),
            'DownloadService::new': lambda it, a: Native('wired', n='download', trusted_client=Native('wired', n='client'), runtime=Native('wired', n='runtime'), timeouts=Native('wired', n='timeouts')),
            'Cacher::new': lambda it, a: Native('cacher', cache=getattr(deref(a[0]), 'n', '?'), shared=getattr(deref(a[1]), 'n', '?')),
            'SentryLookupApi::new': lambda it, a: Native('api'), 'FileInBundleCache::new': lambda it, a: Native('bundles')}
    models = {'Cache::builder': lambda it, a: Native('moka builder'), 'DemangleCache::builder': lambda it, a: Native('moka builder'), 'InMemoryCache::builder': lambda it, a: Native('moka builder')}

    def caches_result(c, it):
        if it.ctx.choose(('caches',), ['work', 'fail']) == 'fail':
            return err(Term('cache error', (), Ty('E_IO')))
        return ok(caches_of(c, it, ''))

    def cleared(it):
        it.cleared += 1
        return ok(UNIT) if it.ctx.choose(('clearing',), ['works', 'fails']) == 'works' else err(Term('clear error', (), Ty('E_IO')))

    def shared_services(c, it):
        return struct_of(c, it, SHARED, caches=caches_of(c, it, ''), shared_cache=Native('wired', n='shared'), download_svc=Native('wired', n='download', trusted_client=Native('wired', n='client'),
                         runtime=Native('wired', n='runtime'), timeouts=Native('wired', n='timeouts')), objects=Native('part objects'), source_index_svc=Native('part index'), sourcefiles_cache=Native('part files'))

    for ty, want in SERVICES:
        def given(it, ty=ty):
            it.cleared = 0
            if ty == SHARED:
                return {'config': struct_of(c, it, SVC + 'config::Config'), 'io_pool': Native('wired', n='pool')}
            it.services = shared_services(c, it)
            return {'services': it.std.temp_ref(it.services)}

        def spec(it, a, out, ty=ty, want=want):
            if out.panic:
                return ('starting the service panics', out.panic)
            v = out.value
            if ty == SHARED:
                v, k = it.force(deref(v)), it.ctx.known
                bad = k(('caches',)) == 'fail' or k(('clearing',)) == 'fails'
                if (v.variant == 'Err') != bad:
                    return ('a service starts without its caches, or does not start with them', v.variant)
                if bad:
                    return None
                if it.cleared != 1:
                    return ('what is left in the temporary folders is not removed at the start', '')
                v = v.fields[0]
            got, o = [], []
            wired(it, v, [], got, set())
            got = [(p, n, s) for p, n, s in got if n in KINDS or n == 'diagnostics']
            count = {}
            for p, n, s in got:
                count[n] = count.get(n, 0) + 1
            if count != want:
                o.append(('the service uses other caches', f'{count}, not {want}'))
            for p, n, s in got:
                if s is None:
                    if n != 'diagnostics':
                        o.append(('a cache is used without its cacher', f'{p[-1]}: {n}'))
                    continue
                if s != 'shared':
                    o.append(('a cache is not backed by the shared cache', f'{n}: {s}'))
                t = types.get(p[-1]) or next((types[x] for x in p if x in types), None)
                name = type_name(t) if t else None
                if name is None:
                    o.append(('a cache has no type of request', str(p[-1])))
                elif n in EXPECT and name != EXPECT[n]:
                    o.append(('the data of one kind is kept in the cache of another', f'{name} in {n}'))
                elif n not in EXPECT and owner_of(p) not in OWNERS[n]:
                    o.append(('the data of one kind is kept in the cache of another', f'{owner_of(p)} in {n}'))
            if ty.endswith('SymbolicationActor'):
                for f, w in (('objects', 'part objects'), ('sourcefiles_cache', 'part files')):
                    if getattr(deref(it.field(v, f)), 'kind', '') != w:
                        o.append((f'the {f} of the service are others', ''))
            return o
        c.product(f'the caches of {ty.split("::")[-1]}', ty + '::new', spec, given=given, floor=1, limit=2000, opaque=hook, models=models)


OWNERS = {'auxdifs': ['BitcodeService'], 'il2cpp': ['Il2cppService'], 'sourcefiles': ['SourceFilesCache'], 'source_index': ['SourceIndexService']}


def owner_of(p):
    return next((t.split('::')[-1] for t, _ in reversed(p) if t.split('::')[-1] in sum(OWNERS.values(), [])), '?')


# ------------------------------------------------------------------ loading
ITEM = 'CacheItemRequest'
# request -> (what reads the data, the fields which have to be those of the request)
LOADS = {
    'symcaches::FetchSymCacheInternal': (['SymCache::parse'], {}), 'ppdb_caches::FetchPortablePdbCacheInternal': (['PortablePdbCache::parse'], {}),
    'cficaches::FetchCfiCacheInternal': (['CfiCache::from_bytes', 'SymbolFile::from_bytes'], {}), 'sourcemap_cache::FetchSourceMapCacheInternal': (['SourceMapCache::parse'], {}),
    'service::FetchProguard': (['ProguardCache::parse'], {}), 'sourcefiles::FetchFileRequest': (['str::from_utf8'], {}), 'data_cache::FetchFileDataRequest': (['Object::parse'], {'object_id': 'object_id', 'scope': 'scope'}),
    'meta_cache::FetchFileMetaRequest': (['serde_json::from_slice'], {'object_id': 'object_id', 'scope': 'scope', 'file_source': 'file_source'}),
    'il2cpp::FetchFileRequest': ([], {'file': 'file_source'}), 'bitcode::FetchFileRequest': ([], {'file': 'file_source', 'uuid': 'uuid'}),
    'index::FetchSymstoreIndex': (['SymstoreIndex::load'], {}), 'index::FetchSymstoreIndexSegment': (['SymstoreIndex::load'], {}),
}
method('loaded data', 'hint')(lambda c: ok(UNIT))
method('loaded data', 'len')(lambda c: c.it.size)
method('loaded data', 'deref', 'as_slice', 'as_ref', 'clone')(lambda c: c.v)
method('loaded cfi', 'as_slice')(lambda c: c.v)
method('loaded cfi', 'is_empty')(lambda c: c.it.ctx.choose(('empty',), [True, False]))
method('loaded cfi', 'split')(lambda c: c.it.method(c.it.std.temp_ref(Vec([Native('loaded line'), Native('loaded later line')])), 'into_iter', []))
method('loaded id', 'parse')(lambda c: ok(Native('loaded debug id')) if c.it.ctx.choose(('module id',), ['good', 'bad']) == 'good' else err(Term('id error', (), Ty('E_ANY'))))


def has_data(v, seen=None):
    """Whether a value keeps the data it was loaded from."""
    seen = seen if seen is not None else set()
    v = deref(v)
    if id(v) in seen:
        return False
    seen.add(id(v))
    if isinstance(v, Native):
        return v.kind.startswith('loaded') or any(has_data(x, seen) for x in (getattr(v, 'v', None), getattr(v, 'owner', None), getattr(v, 'of', None)) if x is not None)
    if isinstance(v, (Struct, Enum)):
        return any(has_data(x, seen) for x in (v.fields.values() if isinstance(v.fields, dict) else v.fields))
    if isinstance(v, (Tup, Vec)):
        return any(has_data(x, seen) for x in v.items)
    return False


def find(v, name):
    v = deref(v)
    if isinstance(v, Struct):
        if name in v.fields:
            return v.fields[name]
        for x in v.fields.values():
            r = find(x, name)
            if r is not None:
                return r


def loading(c):
    found = {}
    for im in c.w.impls:
        if im.trait is not None and str(im.trait).split('::')[-1] == ITEM and 'load' in im.fns and im.self_id:
            key = '::'.join(im.self_id.split('::')[-2:])
            if 'test' not in im.self_id:
                found[key] = im
    c.rule('loaders', set(found) >= set(LOADS), f'no loader for {sorted(set(LOADS) - set(found))}', 'caching')
    other = [k for k in found if k not in LOADS]
    c.rule('known loaders', not other, f'unknown loaders: {other}', 'caching')
    for key, im in sorted(found.items()):
        if key not in LOADS:
            continue
        parsers, kept = LOADS[key]

        def parse(name):
            def f(it, a):
                it.parsed.append((name, getattr(deref(a[0]), 'kind', '?')))
                if it.ctx.choose(('parsing', name), ['works', 'fails']) == 'fails':
                    return err(Term('parse error', (name,), Ty('E_JSON' if 'serde' in name else 'E_IO')))
                return ok(Native('loaded cfi' if name == 'CfiCache::from_bytes' else 'loaded item', n=name))
            return f

        def given(it, im=im):
            it.parsed, it.size = [], it.ctx.choose(('size',), [0, 100, 2 ** 33]) if 'cfi' in im.self_id else 100
            d = c.w.typedefs[im.self_id]
            me = {}
            for f in d.node['fields']:
                me[f['name']] = Native('wired', n=f['name'], object_id=Native('wired', n='object_id'), file_source=Native('wired', n='file_source'), scope=Native('wired', n='scope'))
            it.me = me
            return {'self': it.std.temp_ref(Struct(im.self_id, me)), DATA[im.self_id]: Native('loaded data')}

        def spec(it, a, out, key=key, parsers=parsers, kept=kept):
            if out.panic:
                return ('a cache file makes it panic', f'{key}: {out.panic}')
            v, o = it.force(deref(out.value)), []
            failed = [p for p in parsers if it.ctx.known(('parsing', p)) == 'fails']
            empty = it.ctx.known(('empty',)) is True
            if (v.variant == 'Err') != bool(failed):
                return ('an unreadable cache file counts as data' if failed else 'a readable cache file counts as broken', key)
            want = parsers[:parsers.index(failed[0]) + 1] if failed else parsers[:1] if empty else parsers
            if [p for p, _ in it.parsed] != want or any(k not in ('loaded data', 'loaded cfi') for _, k in it.parsed):
                o.append(('something else than the cache file is read', f'{key}: {it.parsed}'))
            if failed:
                return o
            item = v.fields[0]
            if not (empty or has_data(item)):
                o.append(('what is loaded is not the data of the cache file', f'{key}: {show(item)[:100]}'))
            for n, src in kept.items():
                x = find(item, n)
                if getattr(deref(x), 'n', None) != src:
                    o.append(('what is loaded belongs to another request', f'{key}: {n} is {show(x)[:60]}'))
            if 'cfi' in key:
                t = deref(item)
                w, inner = t.items[0], it.force(deref(t.items[1]))
                if w != min(it.size * 8, 2 ** 32 - 1) and it.size < 2 ** 32:
                    o.append(('the weight of unwind information is another one', f'{show(w)} for {it.size}'))
                if (inner.variant == 'None') != empty:
                    o.append(('empty unwind information counts as some, or some as empty', inner.variant))
                if inner.variant == 'Some':
                    info = it.force(deref(deref(inner.fields[0]).items[1]))
                    good = it.ctx.known(('module record',)) == 'works' and it.ctx.known(('module id',)) == 'good'
                    if (info.variant == 'Some') != good or good and (getattr(deref(find(info.fields[0], 'debug_id')), 'kind', ''), show(find(info.fields[0], 'debug_file')).strip('"')) != ('loaded debug id', 'module.pdb'):
                        o.append(('the module named in the unwind information is another one', show(info)[:80]))
            return o

        models = {p: parse(p) for p in parsers}
        models.update({'SelfCell::try_new': self_cell, 'BreakpadModuleRecord::parse': lambda it, a: err(Term('record error', (), Ty('E_ANY'))) if deref(a[0]).kind != 'loaded line' else ok(Native('loaded record', id=Native('loaded id'), name=Str('module.pdb')))
                       if it.ctx.choose(('module record',), ['works', 'fails']) == 'works' else err(Term('record error', (), Ty('E_ANY'))), 'configure_scope': lambda it, a: UNIT})
        hook = {'CacheKey::from_scoped_file': lambda it, a: Native('wired', n='key'), 'ObjectHandle::configure_scope': lambda it, a: UNIT, 'SymstoreIndex::load': parse('SymstoreIndex::load'),
                'CacheError::from_std_error': lambda it, a: Enum(T_CERR.name, 'InternalError', [])}
        DATA[im.self_id] = next(n for n in param_names(im.fns['load']) if n != 'self')
        c.product(f'loading {key}', im.fns['load'], spec, given=given, floor=max(1, len(parsers)), limit=500, models=models, opaque=hook)


DATA = {}


def param_names(d):
    return [p['pat']['name'] for p in d.node['params'] if p.get('pat') and p['pat'].get('name')]


def self_cell(it, a):
    """The owner, and what is derived from it."""
    r = it.force(it.call_value(a[1], [it.std.temp_ref(a[0])]))
    return ok(Native('cell of', owner=deref(a[0]), of=deref(r.fields[0]))) if r.variant == 'Ok' else r
