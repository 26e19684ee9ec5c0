"""O01: choice of objects and their candidates."""
from .util import *
from .keys import struct_of, T_CERR, SVC, OBJ
from .js import cerr
from engine.std import m as method

CAND = OBJ + 'candidates::'
S_TY, U_TY = 'symbolicator_sources::sources::SourceId', 'symbolicator_sources::remotefile::RemoteFileUri'
FEATURES = ('has_debug_info', 'has_unwind_info', 'has_symbols', 'has_sources')
sid = lambda n: Struct(S_TY, {'0': Str(n)})
ruri = lambda n: Struct(U_TY, {'0': Str(n)})
method('object file', 'uri')(lambda c: ruri(c.v.uri))
method('object file', 'source_id')(lambda c: c.it.std.temp_ref(sid(c.v.source)))
method('object file', 'is_public')(lambda c: False)
method('source config', 'id')(lambda c: c.it.std.temp_ref(sid(c.v.n)))
NEEDS = {'Unwind': [('has_unwind_info',)], 'Debug': [('has_debug_info',), ('has_symbols',)], 'Source': [('has_sources',)]}
# what the handles of the files can be: features or an error
HANDLES = {'nothing': (), 'debug': ('has_debug_info',), 'symbols': ('has_symbols',), 'unwind': ('has_unwind_info',), 'sources': ('has_sources',), 'debug and symbols': ('has_debug_info', 'has_symbols'),
           'unwind and symbols': ('has_unwind_info', 'has_symbols'), 'all': FEATURES}
ERRORS = ['NotFound', 'PermissionDenied', 'Malformed', 'Timeout', 'DownloadError', 'InternalError', 'Unsupported']


def features(names):
    return Struct(CAND + 'ObjectFeatures', {f: f in names for f in FEATURES})


def o01(c):
    def handle(it, i, h):
        if h in HANDLES:
            m = struct_of(c, it, OBJ + 'meta_cache::ObjectMetaHandle', features=features(HANDLES[h]), scope=Enum('symbolicator_service::types::Scope', 'Global', []))
            return ok(m)
        arg = {'Timeout': [Term('duration', (i,), Ty('Duration'))], 'NotFound': [], 'InternalError': []}.get(h, [Str(f'reason {i}')])
        return cerr(it, h, *arg)

    def given(it, name):
        ch = lambda n, o: it.ctx.choose(n if isinstance(n, tuple) else (n,), o)
        n = ch('files', [0, 1, 2, 3] if name == 'choice' else [0, 1, 2])
        it.purpose = ch('purpose', list(NEEDS)) if name == 'choice' else 'Debug'
        short = ['nothing', 'debug', 'symbols', 'unwind', 'sources', 'NotFound', 'DownloadError']
        kinds = (list(HANDLES) + ['NotFound', 'Malformed'] if n < 3 else short) if name == 'choice' else ['debug', 'nothing'] + ERRORS
        it.kinds = [ch(('object', i), kinds) for i in range(n)]
        places = [('src1', 'uri 1'), ('src2', 'uri 2'), ('src1', 'uri 0')]
        if name == 'candidates' and n == 2:
            places = ch('places', [[('src1', 'uri 1'), ('src2', 'uri 0')], [('src2', 'uri 1'), ('src1', 'uri 2')], [('src1', 'uri 1'), ('src1', 'uri 0')], [('src1', 'uri 1'), ('src1', 'uri 1')]])
        it.files = [Native('object file', i=i, source=places[i][0], uri=places[i][1]) for i in range(n)]
        it.sources = ch('sources', [['src1'], ['src2', 'src1'], ['src1', 'src2', 'src3']]) if name == 'candidates' else ['src1', 'src2']
        req = struct_of(c, it, OBJ + 'FindObject', sources=Vec([Native('source config', n=s) for s in it.sources]), purpose=Enum('symbolicator_sources::types::ObjectPurpose', it.purpose, [])
                        if 'symbolicator_sources::types::ObjectPurpose' in c.w.typedefs else Enum(OBJ + 'ObjectPurpose', it.purpose, []))
        return {'self': struct_of(c, it, OBJ + 'ObjectsActor'), 'request': req}

    def hooks():
        def memo(it, a):
            r = it.force(deref(a[1]))
            f = it.force(deref(it.field(r, 'file_source')))
            return Future(lambda: Struct('symbolicator_service::caching::cache_error::CacheEntry', {'metadata': none(), 'contents': handle(it, f.i, it.kinds[f.i])})
                          if False else Native('memoized', v=handle(it, f.i, it.kinds[f.i])))
        return {'list_files': lambda it, a: Future(lambda: Vec(list(it.files))), 'Cacher::compute_memoized': memo, 'CacheKey::from_scoped_file': lambda it, a: Native('key'),
                'ObjectMetaHandle::features': lambda it, a: it.field(deref(a[0]), 'features')}
    method('memoized', 'into_contents')(lambda c: c.v.v)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r, msgs = it.force(out.value), []
        meta = it.force(it.field(r, 'meta'))
        got = it.force(it.field(it.force(meta.fields[0]), 'file_source')).i if meta.variant == 'Some' else None

        def rank(i):
            h = it.kinds[i]
            if h not in HANDLES:
                return 9
            for q, need in enumerate(NEEDS[it.purpose]):
                if all(f in HANDLES[h] for f in need):
                    return q
            return None
        ranks = [(rank(i), i) for i in range(len(it.files)) if rank(i) is not None]
        want = min(ranks)[1] if ranks else None
        if got != want:
            msgs.append(('choice', f'file {got} of {it.kinds} is chosen instead of {want} for {it.purpose}'))
        elif got is not None:
            h = it.force(it.field(it.force(meta.fields[0]), 'handle'))
            if (h.variant == 'Ok') != (it.kinds[got] in HANDLES):
                msgs.append(('handle', f'file {got} of {it.kinds} comes with {h.variant}'))
        cs = [it.force(x) for x in items(it, it.force(it.field(r, 'candidates')).fields['0'])]
        have = [(text(it, it.field(it.field(x, 'source'), '0')), text(it, it.field(it.field(x, 'location'), '0')), x) for x in cs]
        expect = {}
        for i, f in enumerate(it.files):
            expect.setdefault((f.source, f.uri), i)
        none_of = [s for s in it.sources if not any(f.source == s for f in it.files)]
        keys = [(s, u) for s, u, _ in have]
        if keys != sorted(keys) or len(set(keys)) != len(keys):
            msgs.append(('order', f'the candidates {keys} are not sorted and unique'))
        if sorted(k for k in keys if k in expect) != sorted(expect) or sorted(s for s, u in keys if (s, u) not in expect) != sorted(none_of):
            msgs.append(('candidates', f'the candidates {keys} are reported for the files {sorted(expect)} of the sources {it.sources}'))
        for s, u, x in have:
            d = it.force(it.field(x, 'download'))
            for f in ('unwind', 'debug'):
                if it.force(it.field(x, f)).variant != 'None':
                    msgs.append(('use', 'a candidate is marked as used before it is'))
            if (s, u) not in expect:
                if d.variant != 'NotFound':
                    msgs.append(('no files', f'a source without files is reported as {d.variant}'))
                continue
            h = it.kinds[expect[s, u]]
            w = 'Ok' if h in HANDLES else {'NotFound': 'NotFound', 'PermissionDenied': 'NoPerm', 'Malformed': 'Malformed'}.get(h, 'Error')
            if d.variant != w:
                msgs.append(('outcome', f'{d.variant} is reported for an object with {h}'))
            elif w == 'Ok' and repr(it.freeze(d.fields['features'])) != repr(it.freeze(features(HANDLES[h]))):
                msgs.append(('features', f'{show(it.freeze(d.fields["features"]))} is reported for an object with {h}'))
            elif w in ('NoPerm', 'Error') and h not in ('Timeout', 'InternalError') and f'reason {expect[s, u]}' not in show(it.freeze(d.fields['details'])):
                msgs.append(('details', f'{show(it.freeze(d.fields["details"]))} is reported for {h}'))
        return msgs
    for name in ('choice', 'candidates'):
        c.product(name, OBJ + 'ObjectsActor::find', spec, given=lambda it, n=name: given(it, n), floor=50, opaque=hooks())
    merging(c)


def text(it, v):
    return show(it.freeze(it.ctx.sstr(deref(v)))).strip('"')


def merging(c):
    PLACES = [('src1', 'uri 1'), ('src1', 'uri 3'), ('src2', 'uri 0')]
    USE = {'None': none, }

    def use(k, n):
        return Enum(CAND + 'ObjectUseInfo', k, {'details': Str(n)} if k == 'Error' else [])

    def cand(place, n, u, d):
        return Struct(CAND + 'ObjectCandidate', {'source': sid(place[0]), 'location': ruri(place[1]), 'download': Enum(CAND + 'ObjectDownloadInfo', 'Error', {'details': Str(n)}),
                                                 'unwind': use(u, n), 'debug': use(d, n)})

    def state(it, v):
        res = []
        for x in items(it, it.force(deref(v)).fields['0']):
            x = it.force(x)
            F = lambda n: show(it.freeze(it.field(x, n)))
            res.append(((text(it, it.field(it.field(x, 'source'), '0')), text(it, it.field(it.field(x, 'location'), '0'))), F('download'), F('unwind'), F('debug')))
        return res

    def given(it, name):
        ch = lambda n, o: it.ctx.choose((n,), o)
        it.known = ch('known candidates', [[], [0], [2], [0, 2], [0, 1, 2]])
        base = [cand(PLACES[i], f'old {i}', 'Ok', 'None') for i in self_known(it)]
        self = Struct(CAND + 'AllObjectCandidates', {'0': Vec(base)})
        it.target = self
        it.before = state(it, self)
        where = {'known': PLACES[0], 'between': PLACES[1], 'last': PLACES[2], 'before all': ('src1', 'uri 0'), 'after all': ('src3', 'uri 0'), 'other source': ('src2', 'uri 1')}
        it.spot = where[ch('place', list(where))]
        if name == 'merge':
            u, d = ch('unwind', ['None', 'Malformed', 'Error']), ch('debug', ['None', 'Malformed'])
            one = cand(it.spot, 'new', u, d)
            it.one = state(it, Struct('x', {'0': Vec([one])}))[0]
            return {'self': self, 'other': Struct(CAND + 'AllObjectCandidates', {'0': Vec([one])})}
        it.status = ch('status', ['Debug', 'Unwind', 'None'])
        it.info = use(ch('info', ['Ok', 'Malformed', 'Error', 'None']), 'new')
        return {'self': self, 'candidate_status': Enum(CAND + 'CandidateStatus', it.status, []), 'source': sid(it.spot[0]), 'uri': ruri(it.spot[1]), 'info': it.info}

    def self_known(it):
        return it.known

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        got = state(it, it.target)
        if hasattr(it, 'one'):
            p, down, un, de = it.one
            want = []
            for q, x, y, z in it.before:
                want.append((q, down, y if un == 'ObjectUseInfo::None' or un == 'None' else un, z if de in ('None', 'ObjectUseInfo::None') else de) if q == p else (q, x, y, z))
            if all(q != p for q, *_ in want):
                want = sorted(want + [it.one])
        else:
            i = show(it.freeze(it.info))
            want = [(q, x, i if q == it.spot and it.status == 'Unwind' else y, i if q == it.spot and it.status == 'Debug' else z) for q, x, y, z in it.before]
        if got != want:
            return 'state', f'the candidates become {got} instead of {want}'
    c.product('merge', CAND + 'AllObjectCandidates::merge', spec, given=lambda it: given(it, 'merge'), floor=50)
    c.product('status', CAND + 'AllObjectCandidates::set_status', spec, given=lambda it: given(it, 'status'), floor=50, models={'sentry::capture_message': lambda it, a: UNIT, 'capture_message': lambda it, a: UNIT})
