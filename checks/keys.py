"""C05, C06, C10: versions and keys of cached items."""
import json
import re
from .util import *

VER = 'symbolicator_service::caches::versions::'
KEY = 'symbolicator_service::caching::cache_key::'
# Numbers that were used by releases: {current, path format; accepted as fallback}; the numbers of files that may still be on disk.
RECORD = {
    'CFICACHE_VERSIONS': (5, 'V2', {4}, {1, 2, 3, 4}), 'SYMCACHE_VERSIONS': (8, 'V2', {7, 6}, {1, 2, 3, 4, 5, 6, 7}),
    'OBJECTS_CACHE_VERSIONS': (2, 'V2', {1}, {1}), 'META_CACHE_VERSIONS': (2, 'V2', {1}, {1}), 'PPDB_CACHE_VERSIONS': (4, 'V2', {3, 2}, {1, 2, 3}),
    'SOURCEMAP_CACHE_VERSIONS': (2, 'V2', {1}, {1}), 'IL2CPP_CACHE_VERSIONS': (2, 'V2', {1}, {1}), 'BITCODE_CACHE_VERSIONS': (2, 'V2', {1}, {1}),
    'SOURCEFILES_CACHE_VERSIONS': (2, 'V2', {1}, {1}), 'BUNDLE_INDEX_CACHE_VERSIONS': (2, 'V2', {1}, {1}), 'PROGUARD_CACHE_VERSIONS': (3, 'V2', {2}, {1, 2}),
    'SYMSTORE_INDEX_VERSIONS': (1, 'V2', set(), set()),
}


def c05(c):
    consts = {}

    def collect():
        for d in version_consts(c):
            consts[d.name] = (d, versions_of(c, d))
    c.section('versions', collect)
    c.floor('versioned caches', len(consts), len(RECORD))
    used = set()
    for name, (d, b) in sorted(consts.items()):
        cur, fb, prev = b['current'], b['fallbacks'], b['previous']
        site = d.id
        rule = lambda n, cond, detail: c.rule(n, cond, f'{name}: {detail}', site)
        rule('the current version is newer than all previous ones', all(cur[0] > n for n, _ in prev), f'the current version is {cur[0]}, previous ones are {[n for n, _ in prev]}')
        rule('no number is used twice', len({n for n, _ in prev}) == len(prev) and len({n for n, _ in fb}) == len(fb), f'previous {prev}, fallbacks {fb}')
        rule('fallbacks are previous versions', all(x in prev for x in fb), f'fallbacks {fb} are not among the previous versions {prev}')
        rule('newer fallbacks come first', [n for n, _ in fb] == sorted((n for n, _ in fb), reverse=True), f'fallbacks are tried in the order {[n for n, _ in fb]}')
        r = RECORD.get(name)
        if r is None:
            continue
        used.add(name)
        rcur, rfmt, rfb, rprev = r
        rule('versions never go backwards', cur[0] >= rcur, f'the current version {cur[0]} is older than the released {rcur}')
        fmt = {**{n: 'V1' for n in rprev}, rcur: rfmt}
        rule('versions stay where they were written', all(fmt.get(n, f) == f for n, f in [cur, *fb, *prev]), f'files of a released version are looked for elsewhere: {[cur, *fb, *prev]}, released were {fmt}')
        rule('released versions are cleaned up', all(n in {x for x, _ in prev} for n in [*rprev, rcur] if n < cur[0]), f'previous versions {[n for n, _ in prev]} lack some of {sorted([*rprev, rcur])}')
        rule('incompatible versions are never accepted', not ({n for n, _ in fb} & (rprev - rfb)), f'fallbacks {[n for n, _ in fb]} contain versions that were dropped: {sorted(rprev - rfb)}')
    for name in sorted(set(RECORD) - used):
        c.rule('released caches keep their versions', any(b['current'][0] >= RECORD[name][0] and all(n in {x for x, _ in b['previous']} for n in RECORD[name][3])
                                                         for n, (d, b) in consts.items() if n not in RECORD), f'the versions of {name} are gone')
    # every cached item uses the versions of its own cache
    c.section('use of versions', lambda: version_use(c, consts))
    c.section('locations', lambda: locations(c))


def all_consts(w):
    def rec(m):
        for d in m.values.values():
            if d.kind == 'const':
                yield d
        for d in m.types.values():
            if d.kind == 'mod' and d.name not in ('test', 'tests'):
                yield from rec(d.extra)
    for cr in w.crates.values():
        yield from rec(cr.root)


def last_seg(t):
    return t['p']['segs'][-1][0] if t and t['k'] == 'path' else None


def version_consts(c):
    return [d for d in all_consts(c.w) if last_seg(d.node.get('ty')) == 'CacheVersions']


# the items of each cache and the versions of their format
ITEMS = {
    'symbolicator_native::caches::symcaches': 'SYMCACHE_VERSIONS', 'symbolicator_native::caches::cficaches': 'CFICACHE_VERSIONS',
    'symbolicator_native::caches::ppdb_caches': 'PPDB_CACHE_VERSIONS', 'symbolicator_native::caches::il2cpp': 'IL2CPP_CACHE_VERSIONS',
    'symbolicator_native::caches::bitcode': 'BITCODE_CACHE_VERSIONS', 'symbolicator_service::objects::data_cache': 'OBJECTS_CACHE_VERSIONS',
    'symbolicator_service::objects::meta_cache': 'META_CACHE_VERSIONS', 'symbolicator_service::caches::sourcefiles': 'SOURCEFILES_CACHE_VERSIONS',
    'symbolicator_service::download::index': 'SYMSTORE_INDEX_VERSIONS', 'symbolicator_proguard::service': 'PROGUARD_CACHE_VERSIONS',
    'symbolicator_js::sourcemap_cache': 'SOURCEMAP_CACHE_VERSIONS',
}


def cached_items(c):
    """Every `impl CacheItemRequest`, except those of tests."""
    for im in c.w.impls:
        if im.trait and im.trait.endswith('::CacheItemRequest') and not {'test', 'tests'} & set(im.module.path):
            yield im


def versions_of(c, d):
    from engine.interp import Interp
    out = []

    def once(ctx):
        it = Interp(c.w, ctx)
        v = it.const_value(d)

        def one(x):
            x = it.force(deref(x))
            return it.force(it.field(x, 'number')), it.force(it.field(x, 'path_format')).variant
        lst = lambda n: [one(x) for x in items(it, it.field(v, n))]
        out.append({'current': one(it.field(v, 'current')), 'fallbacks': lst('fallbacks'), 'previous': lst('previous')})
        c.fns |= ctx.fns
    for _ in explore(once, 10):
        pass
    if len(out) != 1 or not all(isinstance(x, int) for x, _ in [out[0]['current'], *out[0]['fallbacks'], *out[0]['previous']]):
        raise Unsupported(f'{d.id} is not a constant')
    return out[0]


def version_use(c, consts):
    """Every cached item is stored under the versions of its own format."""
    n = 0
    used = {}
    for im in cached_items(c):
        d = im.consts.get('VERSIONS')
        if d is None:
            c.rule('every item has versions', False, f'{im.self_id} has no versions', im.self_id)
            continue
        v = versions_of(c, d)
        n += 1
        mod = '::'.join((im.module.crate.name,) + tuple(im.module.path))
        name = ITEMS.get(mod)
        match = [k for k, (_, b) in consts.items() if b == v]
        if name is not None and name in consts:
            e = d.node['e']
            named = e['p']['segs'][-1][0] if e['k'] == 'path' else None
            c.rule('items are stored under the versions of their own format', (named == name) if named in consts else v == consts[name][1],
                   f'{im.self_id} is stored under {named or v}, its format is versioned by {name} {consts[name][1]}', im.self_id)
        else:
            c.rule('items are stored under declared versions', bool(match), f'{im.self_id} has the versions {v}', im.self_id)
    c.floor('cached items', n, 11)


def byte(i):
    return Term('byte', (i,), Ty('u8'))


def locations(c):
    """The path of an item names its version and every byte of its key, at the place of the version's format."""
    def given(it):
        it.nb = 32
        key = Struct(Ty(KEY + 'CacheKey'), {'scope': Term('scope', (), Ty('symbolicator_service::types::Scope')), 'data': Str((Term('data', (), T_STR),)),
                                           'hash': Vec([byte(i) for i in range(32)])})
        it.num = Term('number', (), Ty('u32'))
        fmt = it.ctx.choose(('format',), ['V1', 'V2'])
        it.vfmt = fmt
        ver = Struct(Ty(VER + 'CacheVersion'), {'number': it.num, 'path_format': Enum(Ty(VER + 'CachePathFormat'), fmt, [])})
        return {'self': key, 'version': ver}

    def spec(it, a, out):
        if out.panic:
            return f'panics: {out.panic}'
        got = it.freeze(it.ctx.sstr(out.value))
        h = ''.join('{hexn(byte(%d), 2)}' % i for i in range(32)).replace('}{', '}\0{').split('\0')
        dirs = [h[0], ''.join(h[1:4]), ''.join(h[4:])] if it.vfmt == 'V1' else [h[0], h[1], ''.join(h[2:])]
        want = '"v{int(number)}/' + '/'.join(dirs) + '"'
        return None if repr(got) == want else f'{it.vfmt} items are stored at {got!r} instead of {want}'
    c.product('paths of cached items', KEY + 'CacheKey::cache_path', spec, given=given, k=32, floor=2, boundloop=40)


# ------------------------------------------------------------------ C06, C10: keys
SVC = 'symbolicator_service::'
NAT = 'symbolicator_native::caches::'
T_SCOPE = Ty(SVC + 'types::Scope')
T_FILE = Ty('symbolicator_sources::remotefile::RemoteFile')
T_URI = Ty('symbolicator_sources::remotefile::RemoteFileUri')
T_SID = Ty('symbolicator_sources::types::SourceId')
T_ENTRY = Ty(SVC + 'caching::metadata::CacheEntry')


def req_scope():
    return Enum(T_SCOPE.name, 'Scoped', [Str((Term('request_scope', (), T_STR),))])


def a_file(*k):
    return Term('file', k, T_FILE)


def public(it, f):
    return it.ctx.choose(('public', repr(it.freeze(deref(f)))), [False, True])


def known_public(it, f):
    return next((v for k, v in it.ctx.path if isinstance(k, tuple) and k[:2] == ('public', repr(f))), None)


def frame_item(it, req):
    """Type of the items of a request."""
    r = it.force(deref(req))
    for im in it.w.impls:
        if im.trait and im.trait.endswith('::CacheItemRequest') and im.self_id == r.ty:
            fr = it.impl_frame(next(iter(im.fns.values())))
            return it.ty(im.types['Item'], fr)
    raise Unsupported(f'no cache request: {show(r)}')


def memoized(it, a):
    """Cacher::compute_memoized: notes what is asked for under which key."""
    req, key = deref(a[1]), deref(a[2])
    it.asked.append((req, key))
    n = len(it.asked)
    ty = frame_item(it, req)
    e = Struct(T_ENTRY.name, {'metadata': none(), 'contents': Term('item', (n,), Ty('Result', ty, Ty(SVC + 'caching::cache_error::CacheError')))})
    return Future(lambda: e)


def key_hooks():
    return {
        'Cacher::compute_memoized': memoized,
        'list_files': lambda it, a: Future(lambda: Vec([a_file(i) for i in range(it.nfiles)])),
        'RemoteFile::is_public': lambda it, a: public(it, a[0]),
        'RemoteFile::source_id': lambda it, a: Term('source_id', (it.freeze(deref(a[0])),), T_SID),
        'RemoteFile::uri': lambda it, a: Term('uri', (it.freeze(deref(a[0])),), T_URI),
        'RemoteFile::source_metric_key': lambda it, a: Str('metric'),
    }


def key_data(it, key):
    k = it.force(key)
    return it.freeze(it.ctx.sstr(it.field(k, 'data')))


def atoms(s):
    """Parts of a text: literal strings and symbolic atoms."""
    return list(s.parts) if isinstance(s, Str) else [s]


def mentions(v, t):
    r = repr(t)
    return r in repr(v)


def scope_text(sc):
    return 'global' if sc.variant == 'Global' else '{request_scope}'


def check_key(it, key, files, what, extra=()):
    """Violations of one constructed key: its scope, its text and the inputs it distinguishes."""
    out = []
    k = it.force(key)
    sc = it.force(it.field(k, 'scope'))
    data = key_data(it, k)
    text = repr(data)[1:-1]
    lines = text.split('\n')
    private = [f for f in files if not known_public(it, f)]
    if sc.variant == 'Global' and private:
        out.append((f'{what}: scope', f'{show(private[0])} is not known to be public but kept in the global scope'))
    if sc.variant == 'Scoped' and repr(sc) != repr(req_scope()):
        out.append((f'{what}: scope', f'the item is kept in the scope {show(sc)} instead of the one of the request'))
    if not any(l.endswith(scope_text(sc)) for l in lines) or ('{request_scope}' in text and sc.variant == 'Global'):
        out.append((f'{what}: scope in key', f'the key {text!r} does not depend on its scope {show(sc)}'))
    for f in files:
        for t in (Term('source_id', (f,), T_SID), Term('uri', (f,), T_URI)):
            if repr(t) not in text:
                out.append((f'{what}: inputs', f'the key {text!r} does not depend on {show(t)}'))
    for t in extra:
        if repr(t) not in text:
            out.append((f'{what}: inputs', f'the key {text!r} does not depend on {show(t)}'))
    for l in lines:
        if '\0\0' in skeleton(l):
            out.append((f'{what}: separation', f'parts of the key are not separated: {l!r}'))
    h = it.freeze(it.field(k, 'hash'))
    if 'Sha256::digest' not in repr(h) or repr(data) not in repr(h):
        out.append((f'{what}: hash', f'the key is identified by {show(h)}, which is not the digest of {text!r}'))
    return out


def brace_groups(l):
    """The symbolic atoms of a line."""
    out, d, cur = [], 0, ''
    for ch in l:
        if ch == '{':
            d += 1
        if d:
            cur += ch
        if ch == '}':
            d -= 1
            if d == 0:
                out.append(cur)
                cur = ''
    return out


def skeleton(text):
    for g in brace_groups(text):
        text = text.replace(g, '\0', 1)
    return text


def asked_one(it, out, what):
    if out.panic:
        return [(f'{what}: panic', f'panics: {out.panic}')]
    if not it.asked:
        return [(f'{what}: anchor', 'no item is looked up')]
    return []


OBJ = SVC + 'objects::'
CACHER = SVC + 'caching::memory::Cacher'
T_OID = Ty('symbolicator_sources::types::ObjectId')


def file_scope(it, role):
    """The scope of an object, as chosen when it was found."""
    return Enum(T_SCOPE.name, 'Global', []) if public(it, a_file(role)) else req_scope()


def handle(it, role='object'):
    return Struct(OBJ + 'meta_cache::ObjectMetaHandle', {
        'scope': file_scope(it, role), 'object_id': oid(it), 'file_source': a_file(role), 'features': Term('features', (), Ty(SVC + 'objects::ObjectFeatures'))})


def oid(it):
    return Term('object_id', (), T_OID)


def type_frame(it, d):
    from engine.interp import Frame
    return Frame(d.module)


def setup_keys(n=2):
    def f(it):
        it.asked, it.nfiles, it.finds, it.secondary = [], n, [], []
    return f


def reqfile(it, req, *names):
    r = it.force(req)
    for n in names:
        if n in r.fields:
            return it.freeze(deref(r.fields[n]))
    raise Unsupported(f'request without file: {show(r)}')


def keyings(c, mode):
    """The keys built all over the workspace; mode C06 reports scopes, mode C10 the inputs that keys distinguish."""
    def pick(msgs):
        scopes = (': scope', ': scope in key', ': stored scope', ': secondary scope', ': searched scope')
        return [m for m in msgs if (m[0].endswith(scopes) == (mode == 'C06')) or m[0].endswith((': panic', ': anchor'))]

    def simple(name, fn, given, names=('file', 'file_source'), n=2, targs=()):
        def spec(it, a, out):
            msgs = asked_one(it, out, name)
            for req, key in it.asked:
                f = reqfile(it, req, *names)
                msgs += check_key(it, key, [f], name)
                r = it.force(req)
                if 'scope' in r.fields and not it.same(r.fields['scope'], it.field(it.force(key), 'scope')):
                    msgs.append((f'{name}: stored scope', f'the request has the scope {show(r.fields["scope"])}, its key {show(it.field(it.force(key), "scope"))}'))
            files = [repr(reqfile(it, r, *names)) for r, _ in it.asked]
            if len(set(files)) != len(files):
                msgs.append((f'{name}: files', 'a file is looked up twice'))
            return pick(msgs)
        c.product(name, fn, spec, given=given, setup=setup_keys(n), opaque=key_hooks(), targs=targs)

    simple('files', SVC + 'caches::sourcefiles::SourceFilesCache::fetch_file', {'scope': req_scope(), 'file': a_file(0)})
    simple('mapping files', 'symbolicator_proguard::service::ProguardService::download_proguard_file', {'scope': req_scope()})
    simple('object metadata', SVC + 'objects::ObjectsActor::fetch_file_metas', {'scope': req_scope(), 'file_sources': Vec([a_file(0), a_file(1)])})
    simple('line mappings', NAT + 'il2cpp::Il2cppService::fetch_line_mapping', {'scope': req_scope()})
    simple('symbol maps', NAT + 'bitcode::BitcodeService::fetch_file_from_all_sources', {'scope': req_scope()})


    # ---- objects: data and metadata of a file share its key
    def meta_request(it, role='object'):
        return Struct(OBJ + 'meta_cache::FetchFileMetaRequest', {
            'scope': file_scope(it, role), 'file_source': a_file(role), 'object_id': Term('object_id', (), T_OID),
            'data_cache': Term('data_cache', (), Ty(CACHER, Ty(OBJ + 'data_cache::FetchFileDataRequest'))), 'download_svc': Term('download_svc', (), Ty('DownloadService'))})

    def of_object(it, key, what):
        msgs = check_key(it, key, [a_file('object')], what)
        if not it.same(it.field(it.force(key), 'scope'), file_scope(it, 'object')):
            msgs.append((f'{what}: scope', 'the key has another scope than the object'))
        return msgs

    def data_spec(name):
        def spec(it, a, out):
            msgs = asked_one(it, out, name)
            for req, key in it.asked:
                msgs += of_object(it, key, name)
                r = it.force(deref(it.force(req).fields['0']) if '0' in it.force(req).fields else req)
                for n, w in (('scope', file_scope(it, 'object')), ('file_source', a_file('object')), ('object_id', Term('object_id', (), T_OID))):
                    if not it.same(r.fields[n], w):
                        msgs.append((f'{name}: stored scope' if n == 'scope' else f'{name}: inputs', f'the {n} of the request is {show(r.fields[n])} instead of {show(w)}'))
            return pick(msgs)
        return spec
    c.product('object data', OBJ + 'ObjectsActor::fetch', data_spec('object data'), given=lambda it: {'file_handle': handle(it)}, setup=setup_keys(), opaque=key_hooks())
    c.product('data for metadata', OBJ + 'meta_cache::FetchFileMetaRequest::compute_file_meta', data_spec('data for metadata'), given=lambda it: {'self': meta_request(it)},
              setup=setup_keys(), opaque=key_hooks())
    for fn in ('cache_key', 'cache_key_builder'):
        def spec(it, a, out, fn=fn):
            if out.panic:
                return pick([(f'{fn}: panic', out.panic)])
            k = out.value
            if fn == 'cache_key_builder':
                k = it.call_def(c.w.fn(KEY + 'CacheKeyBuilder::build'), [k])
            return pick(of_object(it, k, fn))
        d = c.w.methods.get((OBJ + 'meta_cache::ObjectMetaHandle', fn))
        if d and not [p for p in d[0][1].node['params']]:
            c.product(f'ObjectMetaHandle::{fn}', d[0][1], spec, given=lambda it: {'self': handle(it)}, setup=setup_keys(), opaque=key_hooks())
    c.product('handles of files', OBJ + 'meta_cache::ObjectMetaHandle::for_scoped_file', lambda it, a, out: pick(
        [] if not out.panic and it.same(it.field(it.force(out.value), 'scope'), req_scope()) and it.same(it.field(it.force(out.value), 'file_source'), a_file(0))
        else [('handles of files: stored scope', f'the handle is {out!r}')]), given={'scope': req_scope(), 'file_source': a_file(0)}, setup=setup_keys(), opaque=key_hooks())

    def load_spec(it, a, out):
        if out.panic:
            return pick([('loaded metadata: panic', out.panic)])
        r = it.force(out.value)
        if r.variant != 'Ok':
            return None
        h = it.force(deref(r.fields[0]))
        return pick([(f'loaded metadata: {"stored scope" if n == "scope" else "inputs"}', f'the {n} of a loaded handle is {show(h.fields[n])} instead of {show(w)}')
                     for n, w in (('scope', file_scope(it, 'object')), ('file_source', a_file('object')), ('object_id', Term('object_id', (), T_OID))) if not it.same(h.fields[n], w)])
    c.product('loaded metadata', OBJ + 'meta_cache::FetchFileMetaRequest::load', load_spec, given=lambda it: {'self': meta_request(it)}, setup=setup_keys(), opaque=key_hooks())

    # ---- caches derived from objects
    def find(it, a):
        it.finds.append(it.force(deref(a[1])))
        if not it.ctx.choose(('found',), [True, False]):
            meta = none()
        else:
            meta = some(Struct(OBJ + 'FoundMeta', {'file_source': a_file('object'), 'handle': ok(handle(it))}))
        return Future(lambda: Struct(OBJ + 'FindResult', {'meta': meta, 'candidates': Term('candidates', (), Ty(SVC + 'objects::candidates::AllObjectCandidates'))}))

    def secondary(role, ty):
        def go(it, a):
            it.secondary.append((role, [it.freeze(deref(x)) for x in a[1:]]))
            if not it.ctx.choose(('secondary', role), [False, True]):
                return Future(lambda: none())
            public(it, a_file(role))
            f = {'file': a_file(role), 'data': Term('data', (role,), Ty('ByteView'))}
            if role == 'bcsymbolmap':
                f['uuid'] = Term('uuid', (role,), Ty('DebugId'))
            return Future(lambda: some(Struct(ty, f)))
        return go
    templates = {}

    def derived_spec(name, purpose):
        def spec(it, a, out):
            if out.panic:
                return pick([(f'{name}: panic', out.panic)])
            msgs = []
            req = it.force(a[1])
            if len(it.finds) != 1:
                return pick([(f'{name}: anchor', 'the object is not searched for')])
            f = it.finds[0]
            if not it.same(f.fields['scope'], req_scope()):
                msgs.append((f'{name}: searched scope', f'objects are searched for in the scope {show(f.fields["scope"])} instead of the one of the request'))
            for n in ('identifier', 'sources'):
                if not it.same(f.fields[n], req.fields[n]):
                    msgs.append((f'{name}: inputs', f'the object is searched for with the {n} {show(f.fields[n])}'))
            for role, args in it.secondary:
                if not any(repr(x) == repr(it.freeze(req_scope())) for x in args):
                    msgs.append((f'{name}: secondary scope', f'the {role} is not fetched in the scope of the request but with {showl(args)[:300]}'))
            for rq, key in it.asked:
                roles = ['object'] + [r for r in ('bcsymbolmap', 'il2cpp') if ('secondary', r) in dict((k, v) for k, v in it.ctx.path if isinstance(k, tuple) and v is True)]
                msgs += check_key(it, key, [a_file(r) for r in roles], name)
                for r in roles:
                    if not mentions(it.freeze(rq), a_file(r)):
                        msgs.append((f'{name}: inputs', f'the {r} does not reach the computation'))
                for r in ('bcsymbolmap', 'il2cpp'):
                    if r not in roles and mentions(it.freeze(rq), a_file(r)):
                        msgs.append((f'{name}: inputs', f'the computation uses the {r}, which is not part of the key'))
                sk = skeleton(repr(key_data(it, key)).replace(scope_text(it.force(it.field(it.force(key), 'scope'))), 'SCOPE'))
                old = templates.setdefault((name, sk), roles)
                if old != roles:
                    msgs.append((f'{name}: inputs', f'keys of {old} and {roles} have the same form {sk!r}'))
            return pick(msgs)
        return spec
    for name, fn, ty in (('symcaches', 'symcaches::SymCacheActor::fetch', 'symcaches::FetchSymCache'), ('cficaches', 'cficaches::CfiCacheActor::fetch', 'cficaches::FetchCfiCache'),
                         ('ppdb caches', 'ppdb_caches::PortablePdbCacheActor::fetch', 'ppdb_caches::FetchPortablePdbCache')):
        def request(it, ty=ty):
            d = c.w.type(NAT + ty)
            f = {x['name']: Term(x['name'], (), it.ty(x['ty'], type_frame(it, d))) for x in d.node['fields']}
            f['scope'] = req_scope()
            f['identifier'] = oid(it)
            return {'request': Struct(NAT + ty, f)}
        c.product(name, NAT + fn, derived_spec(name, None), given=request, setup=setup_keys(), floor=2, opaque={
            **key_hooks(), 'ObjectsActor::find': find, 'BitcodeService::fetch_bcsymbolmap': secondary('bcsymbolmap', NAT + 'bitcode::BcSymbolMapHandle'),
            'Il2cppService::fetch_line_mapping': secondary('il2cpp', NAT + 'il2cpp::Il2cppHandle'),
            'AllObjectCandidates::set_status': lambda it, a: UNIT, 'FileType::from_object_type': lambda it, a: Term('filetypes', (), Ty('Vec', Ty('FileType')))})


    # ---- the index of a source
    IDX = SVC + 'download::index::'
    T_IDX = Ty(IDX + 'IndexSourceConfig')

    def index_spec(name, num):
        def spec(it, a, out):
            msgs = asked_one(it, out, name) if not out.panic and variant(it, out.value) == 'Ok' else []
            for req, key in it.asked:
                k = it.force(key)
                text = repr(key_data(it, key))[1:-1]
                n = it.freeze(deref(it.force(req).fields[num]))
                msgs += check_key(it, key, [], name)
                if repr(it.freeze(it.field(k, 'scope'))) != repr(it.freeze(req_scope())):
                    msgs.append((f'{name}: scope', f'the index is kept in the scope {show(it.field(k, "scope"))}'))
                if not re.search(r"uri\(.*source", text):
                    msgs.append((f'{name}: inputs', f'the key {text!r} does not depend on the location of the source'))
                if not any('source' in g and '.id' in g and 'uri(' not in g for g in brace_groups(text)):
                    msgs.append((f'{name}: inputs', f'the key {text!r} does not depend on the id of the source'))
                if not any(('{int(%s)}' % show(n) if not isinstance(n, int) else str(n)) in l for l in text.split('\n')):
                    msgs.append((f'{name}: inputs', f'the key {text!r} does not depend on the {num} {show(n)}'))
                kinds.setdefault(skeleton(re.sub(r'\b\d+\b', '\0', text)), set()).add(name)
            texts = [repr(key_data(it, k)) for _, k in it.asked]
            if len(set(texts)) != len(texts):
                msgs.append((f'{name}: inputs', 'different items have the same key'))
            return pick(msgs)
        return spec
    kinds = {}
    idx_hooks = {**key_hooks(), 'SourceIndexService::fetch_symstore_last_id_memoized': lambda it, a: Future(lambda: Term('last_id', (), Ty('Result', Ty('u32'), Ty(SVC + 'caching::cache_error::CacheError')))),
                 'SymstoreIndex::append': lambda it, a: UNIT, 'SymstoreIndex::write': lambda it, a: ok(UNIT)}
    src = Term('source', (), T_IDX)
    c.product('indexes', IDX + 'SourceIndexService::fetch_symstore_index', index_spec('indexes', 'last_id'), given={'scope': req_scope(), 'source': src}, setup=setup_keys(), opaque=idx_hooks)
    c.product('index segments', IDX + 'download_full_index', index_spec('index segments', 'segment_id'), given={'scope': req_scope(), 'source': src, 'last_id': 2}, setup=setup_keys(), opaque=idx_hooks)
    if mode == 'C10':
        c.rule('indexes and their segments have different keys', all(len(v) == 1 for v in kinds.values()) and len(kinds) >= 2, f'keys of the same form: {[sorted(v) for v in kinds.values()]}')

    def last_spec(it, a, out):
        if out.panic:
            return pick([('last index ids: panic', out.panic)])
        if not it.entries:
            return pick([('last index ids: anchor', 'the last id is not kept')])
        msgs = []
        for e in it.entries:
            t = repr(it.freeze(e))
            if 'request_scope' not in t:
                msgs.append(('last index ids: scope', f'the last id is kept for {t}'))
            if not re.search(r"uri\(.*source", t):
                msgs.append(('last index ids: inputs', f'the last id is kept for {t}, whatever the location of the source'))
        return pick(msgs)

    def entry(it, recv, args):
        it.entries.append(deref(args[0]))
        return Term('moka_entry', (), Ty('MokaEntry'))

    def last_setup(it):
        setup_keys()(it)
        it.entries = []
    c.product('last index ids', IDX + 'SourceIndexService::fetch_symstore_last_id_memoized', last_spec, given={'scope': req_scope(), 'source': src}, setup=last_setup,
              opaque={**key_hooks(), 'SourceIndexService::fetch_symstore_last_id': lambda it, a: Future(lambda: Term('id', (), Ty('Result')))},
              mmodels={'entry': entry, 'and_compute_with': lambda it, recv, args: Future(lambda: Term('comp', (), Ty('CompResult'))),
                       'into_entry': lambda it, recv, args: some(Term('kept', (), Ty('Entry'))), 'is_fresh': lambda it, recv, args: False, 'is_old_value_replaced': lambda it, recv, args: False,
                       'into_value': lambda it, recv, args: Tup([Term('kept_id', (), Ty('Result', Ty('u32'), Ty(SVC + 'caching::cache_error::CacheError'))), Term('time', (), Ty('SystemTime'))])})


    # ---- JavaScript
    JS = 'symbolicator_js::lookup::'
    T_CFE = Ty(JS + 'CachedFileEntry', Ty(JS + 'CachedFile'))

    def fetcher(it):
        d = c.w.type(JS + 'ArtifactFetcher')
        f = {x['name']: Term(x['name'], (), it.ty(x['ty'], type_frame(it, d))) for x in d.node['fields']}
        f['scope'] = req_scope()
        return Struct(JS + 'ArtifactFetcher', f)

    def smap_spec(it, a, out):
        name = 'source map caches'
        if out.panic:
            return pick([(f'{name}: panic', out.panic)])
        msgs = []
        sm = it.force(deref(a[2]))
        for req, key in it.asked:
            k = it.force(key)
            if it.force(it.field(deref(a[1]), 'uri')).variant == 'Embedded':
                raise Infeasible()      # only source maps are embedded
            text = repr(key_data(it, key))[1:-1]
            msgs += check_key(it, key, [], name)
            if repr(it.freeze(it.field(k, 'scope'))) != repr(it.freeze(req_scope())):
                msgs.append((f'{name}: scope', f'the source map cache is kept in the scope {show(it.field(k, "scope"))}'))
            for role, e in (('source', a[1]), ('sourcemap', a[2])):
                uri = it.force(it.field(deref(e), 'uri'))
                ent = it.force(deref(it.force(it.field(deref(e), 'entry')).fields[0]))
                has = variant(it, it.field(ent, 'contents')) == 'Some'
                need = []
                if uri.variant == 'ScrapedFile':
                    if not re.search(r'Sha256::digest\([^\n]*' + (role + r'\.entry' if has else ''), text):
                        msgs.append((f'{name}: inputs', f'the key {text!r} does not depend on the contents of the scraped {role}'))
                elif uri.variant == 'IndividualFile':
                    need = [repr(it.freeze(uri.fields[0]))]
                elif uri.variant == 'Bundled':
                    fk = it.force(deref(uri.fields[1]))
                    need = [repr(it.freeze(deref(uri.fields[0]))), fk.variant]
                    if fk.variant == 'SourceMap':
                        if variant(it, fk.fields['abs_path']) == 'Some':
                            need.append(repr(it.freeze(deref(it.force(fk.fields['abs_path']).fields[0]))))
                    else:
                        need.append(repr(it.freeze(deref(fk.fields['abs_path']))))
                    if fk.variant != 'Source' and variant(it, fk.fields['debug_id']) == 'Some':
                        need.append(repr(it.freeze(deref(it.force(fk.fields['debug_id']).fields[0]))))
                for n in need:
                    if n.strip('"{}') not in text and n not in text:
                        msgs.append((f'{name}: inputs', f'the key {text!r} does not depend on {n} of the {role}'))
            if 'Embedded' == it.force(it.field(sm, 'uri')).variant and text.count('<embedded>') != 1:
                msgs.append((f'{name}: inputs', f'the key {text!r} does not tell embedded source maps'))
        return pick(msgs)
    c.product('source map caches', JS + 'ArtifactFetcher::fetch_sourcemap_cache', smap_spec,
              given=lambda it: {'self': fetcher(it), 'source': Term('source', (), T_CFE), 'sourcemap': Term('sourcemap', (), T_CFE)}, setup=setup_keys(), opaque=key_hooks(), floor=10)


# ------------------------------------------------------------------ harnesses shared with other properties
JS = 'symbolicator_js::lookup::'
SYM = 'symbolicator_native::symbolication::'
T_CERR = Ty(SVC + 'caching::cache_error::CacheError')


JS_METRICS = ('record_file_scraped', 'record_file_found_in_bundle', 'record_not_found', 'record_sourcemap_not_needed', 'submit_metrics')


def struct_of(c, it, path, **given):
    """A value of a struct whose fields are named terms, but for those given."""
    d = c.w.type(path)
    f = {x['name']: Term(x['name'], (), it.ty(x['ty'], type_frame(it, d))) for x in d.node['fields']}
    f.update(given)
    return Struct(path, f)


def fetched(it, a):
    """SourceFilesCache::fetch_file: notes scope, file and use of the shared cache."""
    it.finds.append((it.force(deref(a[1])), it.force(deref(a[2])), deref(a[3])))
    n = len(it.finds)
    return Future(lambda: Struct(T_ENTRY.name, {'metadata': none(), 'contents': Term('item', (n,), Ty('Result', Ty('ByteViewString'), T_CERR))}))


def js_hooks():
    def obj(it, a):
        it.finds.append((it.force(it.field(it.force(deref(a[1])), 'scope')), it.force(it.field(it.force(deref(a[1])), 'file_source')), None))
        return Future(lambda: Term('object', (len(it.finds),), Ty('Result', Ty('Arc', Ty(OBJ + 'data_cache::ObjectHandle')), T_CERR)))
    return {**key_hooks(), 'SourceFilesCache::fetch_file': fetched, 'ObjectsActor::fetch': obj, 'open_bundle': lambda it, a: Term('open', (), Ty('Result', Ty(JS + 'ArtifactBundle'), T_CERR)),
            'get_release_file_candidate_urls': lambda it, a: it.method(it.std.temp_ref(Vec([Str((Term('release_url', (), T_STR),))])), 'into_iter', []),
            'SourceMapUrl::parse_with_prefix': lambda it, a: Term('source_map_url', (), Ty('Result', Ty(JS + 'SourceMapUrl'), T_CERR)),
            'is_valid_origin': lambda it, a: it.ctx.choose(('allowed origin', repr(it.freeze(deref(a[0])))), [True, False]),
            **{'JsMetrics::' + n: (lambda it, a: UNIT) for n in JS_METRICS},
            'discover_sourcemaps_location': lambda it, a: Term('sm_ref', (it.freeze(deref(a[0])),), Ty('Option', T_STR)),
            'discover_debug_id': lambda it, a: Term('found_debug_id', (it.freeze(deref(a[0])),), Ty('Option', Ty('DebugId'))),
            'CacheError::into': lambda it, a: a[0],
            'cache_busting_key': lambda it, a: Term('busting', (it.freeze(deref(a[0])),), Ty('usize'))}


def source_context(c, name, spec, k=1):
    """Fetching remote sources of native frames; spec sees what was fetched in it.finds and the objects in it.links."""
    def try_set(it, a):
        n = len(it.links) + 1
        if not it.ctx.choose(('source link', n), [False, True]):
            it.links.append(None)
            return none()
        sc = Enum(T_SCOPE.name, 'Global', []) if it.ctx.choose(('public object', n), [False, True]) else req_scope()
        it.links.append((sc, n))
        return some(Tup([sc, Term('url', (n,), Ty('Url')), n + 10]))

    def setup(it):
        setup_keys()(it)
        it.links, it.added, it.origins = [], [], []

    def origin(it, a):
        r = it.ctx.choose(('allowed origin', repr(it.freeze(deref(a[0])))), [True, False])
        it.origins.append((it.freeze(deref(a[0])), r))
        return r

    def add(it, a):
        it.added.append((deref(a[1]), deref(a[2])))
        return UNIT
    c.product(name, SYM + 'source_context::SymbolicationActor::apply_source_context', spec, k=k, setup=setup,
              given=lambda it: {'module_lookup': struct_of(c, it, SYM + 'module_lookup::ModuleLookup', scope=req_scope())}, opaque={
                  **key_hooks(), 'SourceFilesCache::fetch_file': fetched, 'ModuleLookup::fetch_sources': lambda it, a: Future(lambda: UNIT),
                  'ModuleLookup::prepare_debug_sessions': lambda it, a: Term('sessions', (), Ty('Sessions')), 'ModuleLookup::try_set_source_context': try_set,
                  'ModuleLookup::set_source_context': lambda it, a: none(), 'ModuleLookup::add_candidate': add, 'is_valid_origin': origin}, floor=4)


def c06(c):
    keyings(c, 'C06')
    in_scope = lambda sc: repr(it_free(sc)) == repr(it_free(req_scope()))

    def js_spec(name):
        def spec(it, a, out):
            if out.panic:
                return name + ': panic', out.panic
            return [(f'{name}: scope', f'the file is kept in the scope {show(sc)} instead of the one of the request') for sc, f, _ in it.finds if not in_scope(sc)]
        return spec
    for name, fn in (('artifact bundles', 'fetch_artifact_bundle'), ('artifacts', 'try_fetch_file_from_artifacts'), ('scraped files', 'scrape')):
        c.product(name, JS + 'ArtifactFetcher::' + fn, js_spec(name), given=lambda it: {'self': struct_of(c, it, JS + 'ArtifactFetcher', scope=req_scope(), scraping_attempts=Vec([]))},
                  setup=setup_keys(), opaque=js_hooks(), k=1 if fn == 'scrape' else 2)

    def sc_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        msgs = []
        for sc, f, _ in it.finds:
            f = it.force(f)
            cfg = it.force(deref(f.fields[0])) if isinstance(f, Enum) else f
            heads = items(it, it.field(cfg, 'headers'))
            url = it.freeze(it.field(it.force(deref(it.field(cfg, 'source'))), 'url'))
            link = next((l for l in it.links if l and repr(Term('url', (l[1],), Ty('Url'))) == repr(url)), None)
            if link is None:
                msgs.append(('remote source', f'{show(url)} is not a source link'))
            elif sc.variant == 'Global' and heads:
                msgs.append(('scope', 'a source file fetched with headers of the request is kept in the global scope'))
            elif sc.variant == 'Global' and link[0].variant != 'Global':
                msgs.append(('scope', 'a source file of a private object is kept in the global scope'))
            elif sc.variant != 'Global' and not in_scope(sc):
                msgs.append(('scope', f'a source file is kept in the scope {show(sc)}'))
        return msgs
    source_context(c, 'remote sources', sc_spec)

    # sources are listed in the scope of the request
    def list_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        bad = [sc for sc in it.finds if it.force(sc).variant == 'Global']
        return [('index scope', 'the index of a source that may be private is kept in the global scope')] if bad else None

    def fetch_index(it, a):
        it.finds.append(deref(a[1]))
        return Future(lambda: none())
    c.product('listed sources', SVC + 'download::list_files', list_spec, k=1, setup=setup_keys(), opaque={
        'SourceIndexService::fetch_index': fetch_index, 'SourceLocationIter::new': lambda it, a: it.method(it.std.temp_ref(Vec([])), 'into_iter', []),
        'SentryDownloader::list_files': lambda it, a: Future(lambda: Term('listed', (), Ty('Result', Ty('Vec', T_FILE), T_CERR)))})
    c.section('scopes', lambda: scope_rule(c))


def it_free(v):
    return v


def scope_rule(c):
    """A scope is never made up: the global scope is only chosen for public files, in code analysed above, or by the proxy for its own sources."""
    n = 0

    def fns():
        for im in c.w.impls:
            for f in im.fns.values():
                yield f

        def rec(m):
            for d in m.values.values():
                if d.kind == 'fn':
                    yield d
            for d in m.types.values():
                if d.kind == 'mod':
                    yield from rec(d.extra)
        for cr in c.w.crates.values():
            yield from rec(cr.root)
    for f in fns():
        mod = set(f.module.path)
        if {'test', 'tests'} & mod or f.module.crate.name in ('symbolicator_test', 'symbolicli', 'symbolicator_stress') or any('test' in a for a in f.node.get('attrs', [])):
            continue
        made = []

        def see(x, par=None):
            if isinstance(x, dict):
                if x.get('k') == 'path' and 'p' in x and [s[0] for s in x['p']['segs']][-2:] in (['Scope', 'Global'], ['Scope', 'default']) and par != 'cmp':
                    made.append(x)
                if x.get('k') == 'call' and x['f'].get('k') == 'path' and [s[0] for s in x['f']['p']['segs']][-2:] == ['Scope', 'Scoped']:
                    made.append(x)
                for kk, v in x.items():
                    if kk in ('pat', 'pats') or (x.get('k') == 'match' and kk == 'pat'):
                        continue
                    see(v, 'cmp' if x.get('k') == 'binary' and x.get('op') in ('==', '!=') else None)
            elif isinstance(x, list):
                for y in x:
                    see(y, par)
        see(f.node.get('body'))
        n += 1
        if not made:
            continue
        asks = 'is_public' in json.dumps(f.node.get('body'))
        c.rule('scopes are not made up', asks or f.id in c.fns or f.module.path[:2] == ('endpoints', 'proxy') or (f.impl is not None and f.impl.self_id == T_SCOPE.name),
               f'{f.id} makes up a scope', f.id)
    c.floor('functions searched for scopes', n, 400)


def c10(c):
    keyings(c, 'C10')
