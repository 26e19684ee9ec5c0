"""J05, J06: asking for JavaScript artifacts, and the names and paths of JavaScript frames."""
from .util import *
from .keys import struct_of, SVC, T_CERR
from .download import kind_of, failure, SRC, timeouts, T_FILE
from .js import cerr
from engine.std import m as method
from engine.dom import Future
from engine.interp import Span

JSC = 'symbolicator_js::'
API = JSC + 'api_lookup::'
LK = JSC + 'lookup::'
UT = JSC + 'utils::'
BL = JSC + 'bundle_lookup::'
SEC = 10 ** 9
A = lambda n: Term('plain', (n,), T_STR)
X = lambda v: '' if v is None else show(v).strip('"')


def tx(it, v):
    return X(it.freeze(it.ctx.sstr(deref(v))))


# ------------------------------------------------------------------ J05
def j05(c):
    c.section('query', lambda: query(c))
    c.section('memory', lambda: memory(c))
    c.section('contents', lambda: contents(c))


method('api url', 'clone')(lambda c: Native('api url', base=c.v.base, q=list(c.v.q)))
method('api url', 'query_pairs_mut')(lambda c: c.v)
method('api url', 'as_str', 'to_string')(lambda c: Native('api text', url=c.v))
method('api text', 'len')(lambda c: c.it.length)
method('api text', 'as_str', 'to_string', 'clone')(lambda c: c.v)


@method('api url', 'append_pair')
def _(c):
    c.v.q.append((tx(c.it, c.args[0]), tx(c.it, c.args[1])))
    return c.v


@method('api url', 'extend_pairs')
def _(c):
    for p in items(c.it, c.args[0]):
        c.v.q.append(tuple(tx(c.it, x) for x in deref(p).items))
    return c.v


method('debug id', 'to_string')(lambda c: Str((A('debug id ' + c.v.n),)))
method('api runtime', 'spawn')(lambda c: Native('api task', f=c.args[0], await_=lambda: api_task(c.it, c.args[0])))
method('api runtime', 'clone')(lambda c: c.v)
method('api task', 'bind_hub')(lambda c: c.v)


def api_task(it, f):
    v = it.await_value(f)
    return ok(v) if it.ctx.choose(('task',), ['ends', 'dies']) == 'ends' else err(Term('JoinError', (), Ty('JoinError')))


def query(c):
    def insert(c2):
        it, fut, pred = c2.it, c2.args[0], c2.args[1] if len(c2.args) > 1 else None
        if c2.name in ('or_try_insert_with', 'or_optionally_insert_with'):
            raise Unsupported(c2.name)

        def go():
            it.old = it.ctx.choose(('kept',), ['nothing', 'list', 'failure'])
            if it.old != 'nothing':
                v = ok(entries(it)) if it.old == 'list' else failure(it, 'DownloadError')
                if pred is None or not it.ctx.truth(it.call_value(pred, [it.std.temp_ref(v)])):
                    it.reused = True
                    return Native('api entry value', v=v)
            return Native('api entry value', v=it.await_value(fut))
        return Future(go)
    method('api entry', 'or_insert_with_if', 'or_insert_with', 'or_try_insert_with')(insert)
    method('api entry value', 'into_value', 'value')(lambda c2: c2.v.v)
    method('api cache', 'entry_by_ref', 'entry')(lambda c2: (c2.it.keys.append(deref(c2.args[0])), Native('api entry'))[1])

    def entries(it):
        def one(n, kind):
            f = {'id': Term('id', (n,), Ty('SentryFileId')), 'url': Term('url', (n,), Ty('Url')), 'resolved_with': Enum(JSC + 'interface::ResolvedWith', 'DebugId' if n else 'Release', [])}
            if kind == 'File':
                f.update(abs_path=Str(f'path {n}'), headers=Map([[Str('h'), Str(str(n))]]))
            return Enum(API + 'RawJsLookupResult', kind, f)
        it.list = it.ctx.choose(('answer',), [(), ('Bundle',), ('File', 'Bundle'), ('Bundle', 'File', 'File')])
        return Vec([one(i, k) for i, k in enumerate(it.list)])

    def fetch(it, a):
        def run():
            it.asked.append((deref(a[0]).n, deref(a[1]), deref(a[2])))
            it.timers = [t for t in it.ctx.timers]
            it.res = it.ctx.choose(('fetch', 0), ['Ok', 'DownloadError', 'NotFound', 'Malformed'])
            return ok(entries(it)) if it.res == 'Ok' else failure(it, it.res)
        return Future(run)

    def retry(it, a):
        it.retried = True
        return Future(lambda: it.await_value(it.call_value(a[0], [])))

    def setup(it):
        it.keys, it.asked, it.reused, it.res, it.old, it.list, it.remote, it.timers, it.retried = [], [], False, None, None, (), [], [], False

    def given(it):
        it.length = it.ctx.choose(('length of the URL',), [100, 65534, 65535, 65536])
        it.rel, it.dist = it.ctx.choose(('release',), [True, False]), it.ctx.choose(('dist',), [True, False])
        it.ids = it.ctx.choose(('debug ids',), [(), ('a',), ('a', 'b')])
        it.stems = it.ctx.choose(('file stems',), [(), ('x', 'y')])
        it.src = struct_of(c, it, T_CFG(c), url=Native('api url', base='source', q=[]), token=Str('the token'))
        slf = struct_of(c, it, API + 'SentryLookupApi', client=Native('client', n='api'), runtime=Native('api runtime'), js_cache=Native('api cache'), propagate_traces=True)
        return {'self': slf, 0: it.src, 1: Vec([Native('debug id', n=n) for n in it.ids]), 2: Vec([Str((A(n),)) for n in it.stems]),
                3: some(Str('the release')) if it.rel else none(), 4: some(Str('the dist')) if it.dist else none()}

    def remote(it, a):
        it.remote.append((deref(a[0]) is it.src, show(it.freeze(deref(a[1]))), show(it.freeze(deref(a[2])))))
        return Native('remote file', n=len(it.remote) - 1)

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'looking up artifacts panics: {out.panic}'
        r = it.force(out.value)
        if it.length > 65534:
            return ('too long', 'a URL that cannot be requested is asked for: building the request panics') if it.keys or it.asked or r.variant == 'Ok' else None
        if len(it.keys) != 1:
            return 'no lookup', f'the list is looked up {len(it.keys)} times; answer {show(r)[:60]}'
        want = []
        if it.rel:
            want += [('release', 'the release')] + [('url', X(A(n))) for n in it.stems]
        if it.dist:
            want.append(('dist', 'the dist'))
        want += [('debug_id', X(A('debug id ' + n))) for n in it.ids]
        for k in it.keys + [q for _, q, _ in it.asked]:
            u = deref(it.field(k, 'index_url'))
            if sorted(u.q) != sorted(want) or u.base != 'source':
                return 'query', f'asked for is {u.q} instead of {want}'
            if tx(it, it.field(k, 'token')) != 'the token':
                return 'token', 'the token of the source is not used'
        if it.old == 'list':
            if it.asked or not it.reused:
                return 'again', 'a list that is kept is asked for again'
        elif it.reused:
            return 'kept failure', 'a failed lookup is remembered'
        late = any(k[0] == 'elapsed' and v is True for k, v in it.ctx.path if isinstance(k, tuple))
        dead = it.ctx.known(('task',)) == 'dies'
        if len(it.asked) > 1 or any(n != 'api' for n, _, _ in it.asked):
            return 'request', f'{it.asked}'
        if it.asked and (not it.timers or min(it.timers) > 30 * SEC):
            return 'time', f'a lookup takes up to {it.timers}'
        if it.asked and any(t is not True for _, _, t in it.asked):
            return 'traces', 'the setting for trace propagation is lost'
        if it.asked and not it.retried:
            return 'retry', 'a failing lookup is not tried again'
        k = kind_of(it, r)
        exp = 'Ok' if it.old == 'list' else 'Timeout' if late else 'InternalError' if dead else it.res
        if k != exp:
            return 'result', f'{k} instead of {exp}'
        if k != 'Ok':
            return None
        got = items(it, deref(r.fields[0]))
        if len(got) != len(it.list):
            return 'lost', f'{len(got)} of {len(it.list)} artifacts'
        for i, (g, kind) in enumerate(zip(got, it.list)):
            g = it.force(deref(g))
            f = lambda n: deref(g.fields[n])
            if g.variant != {'Bundle': 'ArtifactBundle', 'File': 'IndividualArtifact'}[kind]:
                return 'kind', f'a {kind} becomes {g.variant}'
            rf = f('remote_file')
            if not (isinstance(rf, Native) and it.remote[rf.n] == (True, f'id({i})', f'url({i})')) and not (isinstance(rf, Native) and it.remote[rf.n][0] and str(i) in it.remote[rf.n][1] and str(i) in it.remote[rf.n][2]):
                return 'file', f'artifact {i} is fetched as {it.remote}'
            if it.force(f('resolved_with')).variant != ('DebugId' if i else 'Release'):
                return 'resolved', 'what an artifact was found by is lost'
            if kind == 'File' and (tx(it, f('abs_path')) != f'path {i}' or [tx(it, kv[1]) for kv in deref(f('headers')).items] != [str(i)]):
                return 'path', f'{show(f("abs_path"))} {show(f("headers"))}'
        return None
    c.product('exactly what is needed is asked for', API + 'SentryLookupApi::lookup_js_artifacts', spec, floor=200, setup=setup, given=given,
              opaque={'SentryDownloader::fetch_sentry_json': fetch, 'fetch_sentry_json': fetch, 'retry': retry, 'make_remote_file': remote, 'CancelOnDrop::new': lambda it, a: a[0]})


def T_CFG(c):
    return next(t for t in c.w.typedefs if t.startswith(SRC) and t.endswith('::SentrySourceConfig'))


# ------------------------------------------------------------------ the memory of files in bundles
def memory(c):
    KEYS = ('MinifiedSource', 'SourceMap', 'Source')

    def mk_key(it, k):
        return Enum(LK + 'FileKey', k, {'MinifiedSource': {'abs_path': Str('the path'), 'debug_id': none()}, 'SourceMap': {'abs_path': some(Str('the path')), 'debug_id': none()}, 'Source': {'abs_path': Str('the path')}}[k])

    def mk_file(it, text):
        return Struct(LK + 'CachedFile', {'contents': some(Str(text)) if text is not None else none(), 'sourcemap_url': some(Native('sm url')), 'debug_id': some(Term('id', (), Ty('DebugId')))})
    how = lambda: Enum(JSC + 'interface::ResolvedWith', 'Url', [])

    def get(c2):
        it = c2.it
        k = deref(c2.args[0])
        u, key = [deref(x) for x in k.items]
        it.looked.append((u.n, show(it.freeze(key))))
        if it.ctx.choose(('holds', u.n), [False, True]):
            return some(Tup([Native('entry', n=u.n), how()]))
        return none()
    method('file memory', 'get')(get)

    def insert(c2):
        it = c2.it
        k, v = [deref(x) for x in c2.args]
        it.put.append(([deref(x) for x in k.items], [deref(x) for x in v.items]))
        return UNIT
    method('file memory', 'insert')(insert)
    method('bundle uri', 'clone')(lambda c2: c2.v)

    def setup(it):
        it.looked, it.put = [], []

    def given(it):
        it.uris = it.ctx.choose(('bundles',), [(), ('a',), ('a', 'b', 'c')])
        it.key = mk_key(it, it.ctx.choose(('kind of file',), KEYS))
        return {'self': struct_of(c, it, BL + 'FileInBundleCache', cache=Native('file memory')), 0: Vec([Native('bundle uri', n=n) for n in it.uris]), 1: it.key}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        r = it.force(out.value)
        hit = next((n for n in it.uris if it.ctx.known(('holds', n))), None)
        if any(k != show(it.freeze(it.key)) for _, k in it.looked):
            return 'key', f'looked for is {it.looked}'
        if hit is None:
            return None if r.variant == 'None' and [n for n, _ in it.looked] == list(it.uris) else ('missing', f'{show(r)[:60]} after looking in {it.looked}')
        if r.variant != 'Some':
            return 'lost', f'a file kept for bundle {hit} is not found'
        u, e, _h = [deref(x) for x in deref(r.fields[0]).items]
        return None if u.n == hit and e.n == hit else ('bundle', f'the file of {e.n} is reported for bundle {u.n}, the first that holds it is {hit}')
    c.product('files are remembered per bundle', BL + 'FileInBundleCache::try_get', spec, floor=12, setup=setup, given=given)

    def given2(it):
        it.kind = it.ctx.choose(('kind of file',), KEYS)
        it.good = it.ctx.choose(('file',), [True, False])
        it.key = mk_key(it, it.kind)
        entry = struct_of(c, it, LK + 'CachedFileEntry', entry=ok(mk_file(it, 'the contents')) if it.good else failure(it, 'NotFound'))
        it.entry = entry
        return {'self': struct_of(c, it, BL + 'FileInBundleCache', cache=Native('file memory')), 0: Native('bundle uri', n='a'), 1: it.key, 2: how(), 3: it.std.temp_ref(entry)}

    def spec2(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        if len(it.put) != 1:
            return 'kept', f'{len(it.put)} entries are kept'
        (u, k), (e, h) = it.put[0]
        if u.n != 'a' or show(it.freeze(k)) != show(it.freeze(it.key)) or it.force(h).variant != 'Url':
            return 'key', f'kept as {show(k)}'
        r = it.force(it.field(e, 'entry'))
        if (r.variant == 'Ok') != it.good:
            return 'contents', 'what was found is lost'
        orig = it.force(deref(it.field(it.entry, 'entry')))
        if it.good and it.force(it.field(deref(orig.fields[0]), 'contents')).variant != 'Some':
            return 'taken', 'the contents are taken from the file in use'
        if it.good:
            f = deref(r.fields[0])
            cont = it.force(it.field(f, 'contents'))
            if cont.variant == 'None' and it.kind != 'SourceMap' or cont.variant == 'Some' and tx(it, cont.fields[0]) != 'the contents':
                return 'contents', f'the contents of a {it.kind} are kept as {show(cont)}'
            if it.force(it.field(f, 'sourcemap_url')).variant != 'Some' or it.force(it.field(f, 'debug_id')).variant != 'Some':
                return 'reference', 'the reference to the source map is lost'
        return None
    c.product('what is remembered is what was found', BL + 'FileInBundleCache::insert', spec2, floor=6, setup=setup, given=given2)


# ------------------------------------------------------------------ what is read from a bundle
def contents(c):
    @method('descriptor', 'source_mapping_url')
    def _(c2):
        return some(Str((A('reference'),))) if c2.it.ref else none()

    @method('descriptor', 'into_contents', 'contents')
    def _(c2):
        return some(Str((A('contents'),))) if c2.it.cont else none()

    def parse(it, a):
        it.parsed.append([tx(it, x) for x in a])
        it.pok = it.ctx.choose(('reference is readable',), [True, False])
        return ok(Native('sm url')) if it.pok else failure(it, 'Malformed')

    def given(it):
        it.parsed, it.pok = [], None
        it.ref, it.cont, it.path = it.ctx.choose(('reference',), [True, False]), it.ctx.choose(('contents',), [True, False]), it.ctx.choose(('path',), [True, False])
        return {0: some(Str((A('path'),))) if it.path else none(), 1: Native('descriptor')}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'reading a file from a bundle panics: {out.panic}'
        r = it.force(out.value)
        good = it.cont and (not it.ref or it.path and it.pok)
        if (r.variant == 'Ok') != bool(good):
            return 'result', f'{show(r)[:80]} with reference {it.ref}, contents {it.cont}, path {it.path}'
        if r.variant == 'Err':
            return None if kind_of(it, r) == 'Malformed' else ('error', f'{kind_of(it, r)} for a broken bundle')
        f = deref(r.fields[0])
        cont, u = it.force(it.field(f, "contents")), it.force(it.field(f, "sourcemap_url"))
        if cont.variant != 'Some' or 'contents' not in show(it.freeze(cont.fields[0])):
            return 'contents', f'{show(cont)}'
        if (u.variant == 'Some') != it.ref or it.ref and it.parsed != [[X(A('path')), X(A('reference'))]]:
            return 'reference', f'the reference is resolved from {it.parsed}'
        return None
    c.product('files of a bundle', LK + 'CachedFile::from_descriptor', spec, floor=6, given=given, opaque={'SourceMapUrl::parse_with_prefix': parse}, models={'ByteViewString::from': lambda it, a: a[0]})

    # references
    def given3(it):
        it.data = it.ctx.choose(('data URL',), [True, False])
        return {0: Str((A('base'),)), 1: Str(('data:', A('x'))) if it.data else Str((A('x'),))}

    def process(it, a):
        it.step = it.ctx.choose(('decoding',), ['Ok', 'URL', 'base64', 'utf-8'])
        return err(Term('DataUrlError', (), Ty('DataUrlError'))) if it.step == 'URL' else ok(Native('data url'))
    method('data url', 'decode_to_vec')(lambda c2: err(Term('InvalidBase64', (), Ty('InvalidBase64'))) if c2.it.step == 'base64' else ok(Tup([Native('decoded'), none()])))

    def spec3(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        r = it.force(out.value)
        if it.data and it.step != 'Ok':
            return None if r.variant == 'Err' and kind_of(it, r) == 'Malformed' else ('error', f'{show(r)[:80]} for a broken data URL')
        if r.variant != 'Ok':
            return 'error', f'{show(r)[:80]} for a good reference'
        v = it.force(deref(r.fields[0]))
        if it.data:
            return None if v.variant == 'Data' and 'decoded' in show(it.freeze(v.fields[0])) else ('data', f'{show(v)[:60]} for a data URL')
        return None if v.variant == 'Remote' and tx(it, v.fields[0]) == tx(it, S('joined ', A('base'), ' ', A('x'))) else ('joined', f'{show(v)[:80]}')
    c.product('references to source maps', LK + 'SourceMapUrl::parse_with_prefix', spec3, floor=4, given=given3, opaque={'join_paths': lambda it, a: S('joined ', it.ctx.sstr(deref(a[0])), ' ', it.ctx.sstr(deref(a[1])))},
              models={'data_url::DataUrl::process': process, 'DataUrl::process': process,
                      'String::from_utf8': lambda it, a: err(Term('Utf8', (), Ty('FromUtf8Error'))) if it.step == 'utf-8' else ok(Str('decoded')), 'ByteViewString::from': lambda it, a: a[0]})


# ------------------------------------------------------------------ J06: names and paths
def j06(c):
    c.section('names', lambda: names(c))
    c.section('paths', lambda: paths(c))
    c.section('joining', lambda: joining(c))
    c.section('references', lambda: references(c))
    c.section('periods', lambda: periods(c))


def groups(parts, eq):
    out = []
    for p in parts:
        if out and eq(out[-1][-1], p):
            out[-1].append(p)
        else:
            out.append([p])
    return out


def names(c):
    N = 5 if c.tier == 'quick' else 6

    def given(it):
        n = it.ctx.choose(('components',), list(range(1, N)))
        it.parts = [A(f'p{i}') for i in range(n)]
        ps = []
        for i, p in enumerate(it.parts):
            ps += ['.'] * (i > 0) + [p]
        return {0: S(*ps)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        eq = lambda x, y: it.ctx.str_eq(Str((x,)), Str((y,)))
        g = groups(it.parts[:-1], eq)
        want = []
        for x in g:
            want += ['{', x[0], f'#{len(x)}}}', '.'] if len(x) > 1 else [x[0], '.']
        return None if tx(it, out.value) == tx(it, S(*want, it.parts[-1])) else ('folded', f'{tx(it, a[0])} becomes {tx(it, out.value)}')
    c.product('repeated components are folded', UT + 'fold_function_name', spec, floor=8, given=given)

    USELESS = ['<anonymous>', '__webpack_require__', '__webpack_modules__']

    def given2(it):
        it.tok = it.ctx.choose(('token name',), ['useful', ''] + USELESS)
        it.frame = it.ctx.choose(('frame name',), [None, 'frame'])
        it.call = it.ctx.choose(('name at the call site',), [None, '', 'caller', '<anonymous>'])
        o = lambda v: none() if v is None else some(Str(v))
        return {0: o(it.frame), 1: Str(it.tok), 2: o(it.call)}

    def spec2(it, a, out):
        want = it.tok if it.tok not in USELESS else it.call if it.call else it.tok if it.frame is None else it.frame
        got = None if out.panic else tx(it, out.value)
        return None if got == want else ('name', f'{got} instead of {want}')
    c.product('function names', UT + 'get_function_for_token', spec2, floor=20, given=given2)


def paths(c):
    H = ['https://', A('host'), '.com']

    def host_given(it):
        it.kind = it.ctx.choose(('path',), ['tilde', 'url', 'bare host', 'absolute', 'relative', 'app'])
        p = {'tilde': ['~/', A('d')], 'url': H + ['/', A('d'), '/', A('f')], 'bare host': H, 'absolute': ['/', A('d')], 'relative': [A('d'), '/', A('f')], 'app': ['app:///', A('d')]}[it.kind]
        it.want = {'tilde': ['/', A('d')], 'url': ['/', A('d'), '/', A('f')], 'bare host': [A('host'), '.com'], 'app': ['/', A('d')]}.get(it.kind, p)
        return {0: S(*p)}
    c.product('the host is removed', UT + 'strip_hostname', lambda it, a, out: None if not out.panic and tx(it, out.value) == tx(it, S(*it.want)) else ('path', f'{tx(it, a[0])} becomes {show(out.value)} {out.panic}'), floor=6, given=host_given)

    SUF = ['', '.js', '.min.js', '.js.map', '.d.ts', '.min.js.map', '.cjs', '.mjs', '.jsx', '.tsx', '.ts', '.min.min.js', '.json', '.js.txt']
    KEEP = {'.json': '.json', '.js.txt': '.js.txt'}

    def stem_given(it):
        it.pre = it.ctx.choose(('where',), ['url', 'tilde', 'absolute', 'no directory'])
        it.suf = it.ctx.choose(('suffix',), SUF)
        it.q = it.ctx.choose(('query',), ['', '?a=b', '#frag', '?a#b', '?x=/y'] if it.pre != 'no directory' else [''])
        pre = {'url': H + ['/', A('d'), '/'], 'tilde': ['~/', A('d'), '/'], 'absolute': ['/', A('d'), '/'], 'no directory': []}[it.pre]
        it.dirs = ['/', A('d'), '/'] if it.pre != 'no directory' else []
        return {0: S(*pre, A('name'), it.suf, it.q)}

    def stem_spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        if it.q == '?x=/y':
            return None             # a slash in the query is outside of what the rule describes; it must only not crash
        want = S(*it.dirs, A('name'), KEEP.get(it.suf, '')) if it.dirs else deref(a[0])
        return None if tx(it, out.value) == tx(it, want) else ('stem', f'the stem of {tx(it, a[0])} is {tx(it, out.value)}')
    c.product('file stems', UT + 'extract_file_stem', stem_spec, floor=100, given=stem_given)

    def cand_given(it):
        it.rel = it.ctx.choose(('host',), [True, False])
        it.query, it.frag = it.ctx.choose(('query',), [True, False]), it.ctx.choose(('fragment',), [True, False])
        it.base = (H if it.rel else ['~']) + ['/', A('f'), '.js']
        return {0: S(*it.base, *(['?', A('q')] if it.query else []), *(['#', A('x')] if it.frag else []))}

    def cand_spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        q = ['?', A('q')] if it.query else []
        want = [S(*it.base, *q)] + ([S(*it.base)] if it.query else []) + [S('~/', A('f'), '.js', *q)] + ([S('~/', A('f'), '.js')] if it.query else [])
        got = [tx(it, x) for x in items(it, out.value)]
        return None if got == [tx(it, x) for x in want] else ('urls', f'{tx(it, a[0])} is looked for as {got}')
    c.product('the names a file is looked for by', UT + 'get_release_file_candidate_urls', cand_spec, floor=8, given=cand_given)

    def web_given(it):
        it.kind = it.ctx.choose(('file name',), ['module', 'webpack', 'internal', 'plain'])
        p, it.want = {'module': (['webpack://x/~/', A('d'), '/', A('f')], ['~/', A('d'), '/', A('f')]), 'webpack': (['webpack:///', A('d'), '/', A('f')], [A('d'), '/', A('f')]),
                      'internal': (['webpack-internal:///', A('d')], [A('d')]), 'plain': (['/', A('d'), '/', A('f')], ['/', A('d'), '/', A('f')])}[it.kind]
        return {0: S(*p)}
    c.product('webpack file names', UT + 'fixup_webpack_filename', lambda it, a, out: None if not out.panic and tx(it, out.value) == tx(it, S(*it.want)) else ('name', f'{tx(it, a[0])} becomes {show(out.value)} {out.panic}'),
              floor=4, given=web_given, mmodels={'is_match': lambda it, r, a: False})


def joining(c):
    """The right path is resolved against the left one like a reference of a URL, with `~` for the host."""
    N = lambda n: ['m', A(n)]
    SCHEMES = ['https', 'http', 'app', None]
    RIGHT = ['url', 'webpack', 'tilde', 'absolute', 'host', 'relative']
    REL = [['r'], ['s', 'r'], ['.', 'r'], ['..', 'r'], ['..', '..', 'r'], ['s', '..', 'r'], ['..', '..', '..', '..', 'r'], ['.', '..', 'r'], ['s', '', 'r'], ['s', '.', 'r']]

    def given(it):
        it.scheme = it.ctx.choose(('scheme',), SCHEMES)
        it.dirs = it.ctx.choose(('directories',), [0, 1, 2])
        it.kind = it.ctx.choose(('right',), RIGHT)
        base = ([it.scheme + '://', A('host')] if it.scheme else [])
        for i in range(it.dirs):
            base += ['/', *N(f'd{i}')]
        base += ['/', A('base')]
        it.segs = it.ctx.choose(('segments',), [tuple(x) for x in REL]) if it.kind == 'relative' else None
        sl = lambda x: [x] if x in ('.', '..') else N(x) if x else []
        rel = []
        for i, x in enumerate(it.segs or ()):
            rel += ['/'] * (i > 0) + sl(x)
        right = {'url': ['https://', A('other'), '/', *N('r')], 'webpack': ['webpack:', *N('r')], 'tilde': ['~/', *N('r')], 'absolute': ['/', *N('r')], 'host': ['//', A('other'), '/', *N('r')], 'relative': rel}[it.kind]
        it.right = right
        return {0: S(*base), 1: S(*right)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'joining {tx(it, a[0])} and {tx(it, a[1])} panics: {out.panic}'
        root = [it.scheme + '://', A('host')] if it.scheme else []
        if it.kind in ('url', 'webpack'):
            want = it.right
        elif it.kind in ('tilde', 'absolute'):
            want = root + ['/', *N('r')]
        elif it.kind == 'host':
            want = it.right if not it.scheme else [it.scheme + '://', A('other'), '/', *N('r')]
        else:
            web = it.scheme in ('http', 'https')
            at = [N(f'd{i}') for i in range(it.dirs)]
            for i, x in enumerate(it.segs):
                if x == '..':
                    if at:
                        at.pop()
                    elif not web:
                        return None         # above the root of something without hosts: not defined
                elif x == '.':
                    if not web and i:
                        return None
                elif x:
                    at.append(N(x))
            want = root + [y for x in at for y in ('/', *x)]
        return None if tx(it, out.value) == tx(it, S(*want)) else ('joined', f'{tx(it, a[0])} and {tx(it, a[1])} are joined to {tx(it, out.value)}')
    c.product('references are resolved', UT + 'join_paths', spec, floor=120, given=given)


def references(c):
    def parse(it, a):
        it.parsed.append([tx(it, x) for x in a])
        it.pok = it.ctx.choose(('readable',), [True, False])
        return ok(Native('sm url', n=it.parsed[-1][1])) if it.pok else failure(it, 'Malformed')

    def given(it):
        it.parsed, it.pok = [], None
        it.h = it.ctx.choose(('headers',), [(), ('sourcemap',), ('x-sourcemap',), ('x-sourcemap', 'sourcemap'), ('other',)])
        it.found = it.ctx.choose(('reference in the source',), [True, False])
        return {0: Str('the path'), 1: Map([[Str(n), Str('from ' + n)] for n in it.h]), 2: Str('the source')}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        want = 'from sourcemap' if 'sourcemap' in it.h else 'from x-sourcemap' if 'x-sourcemap' in it.h else 'from source' if it.found else None
        r = it.force(out.value)
        if want is None:
            return None if r.variant == 'None' else ('invented', f'{show(r)}')
        if it.parsed != [['the path', want]]:
            return 'order', f'with headers {it.h} the reference is {it.parsed}'
        return None if (r.variant == 'Some') == it.pok else ('result', f'{show(r)}')
    c.product('where the source map is', UT + 'resolve_sourcemap_url', spec, floor=12, given=given, opaque={'SourceMapUrl::parse_with_prefix': parse},
              models={'js::discover_sourcemaps_location': lambda it, a: some(Str('from source')) if it.found else none()})


def periods(c):
    R = 100

    def given(it):
        it.off = it.ctx.choose(('offset',), [0, 1, 39, R - 1])
        it.time = it.ctx.choose(('time',), [x for x in (1000, 1000 + it.off, 999 + it.off, 1099, 3) if x >= 0])
        return {0: Str('url'), 1: Span(it.time), 2: R}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'at second {it.time} a file cannot be fetched from the web: {out.panic}'
        v = out.value
        if it.time < it.off:
            return None
        return None if isinstance(v, int) and v % R == it.off % R and v <= it.time < v + R else ('period', f'at {it.time} with offset {it.off}: {show(v)}')
    c.product('files are fetched again once per period', UT + 'cache_busting_key', spec, floor=12, given=given,
              models={'Sha256::digest': lambda it, a: Vec([0] * 32), 'Bytes::try_from': lambda it, a: ok(a[0]) if len(items(it, a[0])) == 8 else err(Term('TryFromSliceError')), 'u64::from_le_bytes': lambda it, a: it.off + 5 * R, 'from_le_bytes': lambda it, a: it.off + 5 * R, 'u64::from_be_bytes': lambda it, a: it.off + 5 * R})
