"""D06, D07: which files a source may have: lists of Sentry's files, locations, and indexes of symbol servers."""
from .util import *
from .keys import struct_of, SVC, T_CERR
from .download import DL, SRC, T_FILE, T_REQ, kind_of, failure, timeouts, net_hooks, status
from engine.ext import E_IO
from engine.serde import struct_schema, enum_names
from engine.std import m as method, EXT_ENUMS
from engine.dom import Future

SEC = 10 ** 9
ALL_TYPES = ['Pe', 'Pdb', 'PortablePdb', 'MachDebug', 'MachCode', 'ElfDebug', 'ElfCode', 'WasmDebug', 'WasmCode', 'Breakpad', 'SourceBundle', 'UuidMap', 'BcSymbolMap', 'Il2cpp', 'Proguard']
SEN = DL + 'sentry::'
FT = SRC + 'filetype::FileType'
# the kinds of files Sentry stores, and the file types each of them can be
KINDS = {'pe': ['Pe'], 'pdb': ['Pdb'], 'portablepdb': ['PortablePdb'], 'macho': ['MachDebug', 'MachCode'], 'elf': ['ElfDebug', 'ElfCode'], 'wasm': ['WasmDebug', 'WasmCode'],
         'breakpad': ['Breakpad'], 'sourcebundle': ['SourceBundle'], 'uuidmap': ['UuidMap'], 'bcsymbolmap': ['BcSymbolMap'], 'il2cpp': ['Il2cpp'], 'proguard': ['Proguard']}


def T(op, *a, ty=None):
    return Term(op, a, ty or Ty('String'))


# ------------------------------------------------------------------ D06: files listed for all sources
def d06(c):
    c.section('all sources', lambda: all_sources(c))
    c.section('wire', lambda: wire(c))
    c.section('sentry', lambda: sentry(c))


def all_sources(c):
    KIND = {'Sentry': 'SentrySourceConfig', 'Http': 'HttpSourceConfig', 'S3': 'S3SourceConfig', 'Gcs': 'GcsSourceConfig', 'Filesystem': 'FilesystemSourceConfig'}
    cfg_path = next(t for t in c.w.typedefs if t.startswith(SRC) and t.endswith('::SourceConfig'))

    def setup(it):
        it.located, it.asked = [], []

    def given(it):
        n = 2
        it.kinds = [it.ctx.choose(('source', 0), list(KIND)), it.ctx.choose(('source', 1), ['Http', 'Sentry'])]
        it.cfgs = [struct_of(c, it, T_FILE(c, KIND[k]), files=Native('files', n=i), n=i) for i, k in enumerate(it.kinds)]
        it.types = it.std.temp_ref(Vec([Enum(FT, 'Pe', [])]))
        it.sum = it.ctx.choose(('checksum',), [False, True])
        ids = {'debug_checksum': some(Str('sum')) if it.sum else none()}
        it.oid = it.std.temp_ref(struct_of(c, it, T_FILE(c, 'ObjectId'), **ids))
        dl = struct_of(c, it, DL + 'DownloadService', sentry=Native('sentry downloader'))
        return {'downloader': dl, 'source_index_svc': Native('index service'), 'sources': it.std.temp_ref(Vec([Enum(cfg_path, k, [s]) for k, s in zip(it.kinds, it.cfgs)])), 'filetypes': it.types, 'object_id': it.oid}

    def which(it, v):
        v = it.force(deref(v))
        v = pay(it, v) if isinstance(v, Enum) else v
        return v.fields.get('n')

    def index(it, a):
        i = which(it, a[-1])
        return Future(lambda: some(Native('index', n=i)) if it.ctx.choose(('index of source', i), [True, False]) else none())
    method('index service', 'fetch_index')(lambda c2: index(c2.it, [None] + list(c2.args)))
    method('index', 'clone')(lambda c2: c2.v)

    def locate(it, a):
        f, types, idx, oid = a
        f, idx = deref(f), it.force(deref(idx))
        idx = it.force(deref(idx.fields[0])).n if idx.variant == 'Some' else None
        it.located.append((f.n, idx, deref(types) is deref(it.types), deref(oid) is deref(it.oid)))
        n = it.ctx.choose(('locations of source', f.n), [0, 2] if f.n == 0 else [1])
        return it.method(it.std.temp_ref(Vec([Term('location', (f.n, j), Ty(T_FILE(c, 'SourceLocation'))) for j in range(n)])), 'into_iter', [])

    def listed(it, recv, a):
        i = which(it, a[0])
        it.asked.append((i, deref(a[1]) is deref(it.oid), deref(a[2]) is deref(it.types)))

        def go():
            r = it.ctx.choose(('list of source', i), ['Ok', 'Err'])
            if r == 'Err':
                return failure(it, 'DownloadError')
            return ok(Vec([Native('listed file', n=i, j=j) for j in range(2 if i == 0 else 1)]))
        return Future(go)
    method('sentry downloader', 'list_files')(lambda c2: listed(c2.it, c2.recv, c2.args))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        want = []
        for i, k in enumerate(it.kinds):
            if k == 'Sentry':
                want += [('Sentry', i, j) for j in range(2 if i == 0 else 1)] if it.ctx.known(('list of source', i)) == 'Ok' else []
                if (i, True, True) not in it.asked:
                    return 'sentry', f'the list of files is requested as {it.asked}'
            else:
                has = it.ctx.known(('index of source', i))
                if (i, i if has else None, True, True) not in it.located:
                    return 'locations', f'the locations of the source {i} with index {has} are requested as {it.located}'
                want += [(k, i, j) for j in range(it.ctx.known(('locations of source', i)) or 0)]
        got = []
        for f in items(it, out.value):
            f = it.force(deref(f))
            if isinstance(f, Native):
                got.append(('Sentry', f.n, f.j))
                continue
            x = pay(it, f)
            if isinstance(x, Native):
                got.append((f.variant, x.n, x.j))
                continue
            loc = it.freeze(it.field(x, 'location'))
            kind = f.variant if isinstance(f, Enum) else show(f.ty).split('::')[-1].split('RemoteFile')[0]
            got.append((kind, which(it, it.field(x, 'source')), loc.args[1]))
            if loc.args[0] != got[-1][1]:
                return 'source', 'a location is looked up on another source'
            if kind == 'Http':
                h = sorted((show(it.freeze(k)).strip('"'), show(it.freeze(v)).strip('"')) for k, v in it.force(it.field(x, 'headers')).items)
                if h != ([('SymbolChecksum', 'sum')] if it.sum else []):
                    return 'headers', f'the headers {h} are sent, the object has {"a" if it.sum else "no"} checksum'
        if got != want:
            return 'files', f'{got} is listed instead of {want}'
    c.product('all sources', DL + 'list_files', spec, given=given, setup=setup, floor=20, opaque={'SourceLocationIter::new': locate, 'SourceIndexService::fetch_index': index},
              mmodels={})


def pay(it, e):
    """The payload of an enum with one field; conversions whose target the analysis does not know leave the file as it is."""
    e = it.force(deref(e))
    if isinstance(e, Struct):
        return e
    return it.force(deref(list(e.fields.values())[0] if isinstance(e.fields, dict) else e.fields[0]))


def names_of(it):
    """Names of kinds of files in Sentry's answers -> variants of the enum they are read into; fields of an entry."""
    names, tag, _ = enum_names(it, SEN + 'SentryFileType')
    return {w: v for v, ws in names.items() for w in ws}, {e.wire: e for e in struct_schema(it, Ty(SEN + 'SearchResult'))}


def wire(c):
    """The names Sentry uses in its answers."""
    def spec(it, a, out):
        names, fields = names_of(it)
        if set(KINDS) - set(names):
            return 'kinds', f'the kinds of files {sorted(set(KINDS) - set(names))} are not understood'
        if {'id', 'symbolType'} - set(fields):
            return 'entries', f'entries are read from {sorted(fields)}'
        if set(fields) - {'id', 'symbolType'} and any(e.required for w, e in fields.items() if w not in ('id', 'symbolType')):
            return 'entries', f'{sorted(fields)} is required'
    c.product('wire', None, spec, given=[], run=lambda it, f, a: UNIT)


def sentry(c):
    """Lists of Sentry's files: the query, which answers are kept, and the choice among the listed files."""
    T_SRF = T_FILE(c, 'SentryRemoteFile')

    def setup(it):
        it.queries, it.kept, it.tasks = [], [], 0

    def given(it, table):
        it.table = table
        ids = {'debug_id': None, 'code_id': None}
        if not table:
            it.dbg, it.code = it.ctx.choose(('debug id',), [True, False]), it.ctx.choose(('code id',), [True, False])
        else:
            it.dbg, it.code = True, False
        dbg, code = T('the debug id', ty=Ty('DebugId')), T('the code id', ty=Ty('CodeId'))
        it.oid = struct_of(c, it, T_FILE(c, 'ObjectId'), debug_id=some(dbg) if it.dbg else none(), code_id=some(code) if it.code else none())
        it.src = struct_of(c, it, T_FILE(c, 'SentrySourceConfig'), n=7, url=T('source url', ty=Ty('Url')), token=Str('the token'))
        if table:
            it.types = [it.ctx.choose(('type',), ALL_TYPES)]
        else:
            it.types = ['Pe', 'ElfCode']
        slf = struct_of(c, it, SEN + 'SentryDownloader', client=Native('sentry client'), runtime=Native('runtime'), dif_cache=Native('dif cache'), timeouts=timeouts(c, it), propagate_traces=False)
        return {'self': it.std.temp_ref(slf), 'source': it.src, 'object_id': it.std.temp_ref(it.oid), 'file_types': it.std.temp_ref(Vec([Enum(FT, t, []) for t in it.types]))}

    def answer(it):
        names, fields = names_of(it)
        kinds = [it.ctx.choose(('kind',), sorted(KINDS))] if it.table else ['elf', 'pe', 'macho', 'elf']
        it.entries = kinds
        mk = lambda i, k: Struct(SEN + 'SearchResult', {fields['id'].path[-1]: Struct(T_FILE(c, 'SentryFileId'), {'0': Str(f'file {i}')}), fields['symbolType'].path[-1]: Enum(SEN + 'SentryFileType', names[k], [])})
        return Vec([mk(i, k) for i, k in enumerate(kinds)])

    # the cache of lists
    method('dif cache', 'entry_by_ref', 'entry')(lambda c2: c2.it.kept.append(c2.it.freeze(deref(c2.args[0]))) or Native('dif entry'))

    def insert(c2):
        it = c2.it
        fut, pred = (c2.args + [None])[:2]

        def go():
            it.cached = 'nothing' if it.table else it.ctx.choose(('kept list',), ['nothing', 'list', 'failure'])
            if it.cached != 'nothing':
                old = ok(answer(it)) if it.cached == 'list' else failure(it, 'DownloadError')
                if pred is None or not it.ctx.truth(it.call_value(pred, [it.std.temp_ref(old)])):
                    it.reused = True
                    return Native('dif value', v=old)
            it.reused = False
            return Native('dif value', v=it.await_value(fut))
        return Future(go)
    method('dif entry', 'or_insert_with_if', 'or_insert_with', 'or_try_insert_with')(insert)
    method('dif value', 'into_value', 'value')(lambda c2: c2.v.v)
    # the request
    method('sentry client', 'clone')(lambda c2: c2.v)
    method('sentry client', 'get')(lambda c2: Native('sentry request', url=c2.it.freeze(deref(c2.args[0])), bearer=None))
    method('sentry request', 'header')(lambda c2: c2.v)

    @method('sentry request', 'bearer_auth')
    def _(c2):
        c2.v.bearer = show(c2.it.freeze(deref(c2.args[0]))).strip('"')
        return c2.v

    @method('sentry request', 'send')
    def _(c2):
        it, r = c2.it, c2.v

        def go():
            n = len(it.queries)
            it.queries.append((r.url, r.bearer, list(it.ctx.timers)))
            s = 'OK' if it.table else it.ctx.choose(('answer', n), ['error', 'OK', 'UNAUTHORIZED', 'SERVICE_UNAVAILABLE'])
            return err(Term('http error', (n,), T_REQ)) if s == 'error' else ok(Native('sentry response', s=s, n=n))
        return Future(go)
    method('sentry response', 'status')(lambda c2: status(c2.v.s))
    method('sentry response', 'json')(lambda c2: Future(lambda: ok(answer(c2.it)) if c2.it.table or c2.it.ctx.choose(('valid', c2.v.n), [True, False]) else err(Term('http error', ('json', c2.v.n), T_REQ))))

    @method('runtime', 'spawn')
    def _(c2):
        it, f = c2.it, c2.args[0]

        def go():
            it.tasks += 1
            v = it.await_value(f)
            return ok(v) if it.table or it.ctx.choose(('the task ends',), [True, False]) else err(Term('JoinError', (), Ty('JoinError')))
        return Future(go)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        k = kind_of(it, v)
        if not it.dbg and not it.code:
            return None if k == 'Ok' and not items(it, v.fields[0]) and not it.queries else ('no id', f'{k} after {len(it.queries)} requests for an object without identifiers')
        msgs = []
        for url, bearer, timers in it.queries:
            u = show(url)
            n, other, i = ('debug_id', 'code_id', 'the debug id') if it.dbg else ('code_id', 'debug_id', 'the code id')
            if 'source url' not in u or n not in u or i not in u or other in u or 'breakpad' in u:
                msgs.append(('query', f'{u} is requested for an object with {i}'))
            if bearer != 'the token':
                msgs.append(('token', f'the token {bearer} is sent'))
            if not any(isinstance(t, int) and 0 < t <= 60 * SEC for t in timers):
                msgs.append(('limit', f'the list is requested under {timers}'))
        if len(it.kept) != 1 or 'the token' not in show(it.kept[0]) or not all(show(q[0]) in show(it.kept[0]) for q in it.queries):
            msgs.append(('kept', f'the list is kept for {[show(x) for x in it.kept]}'))
        if it.reused and it.cached != 'list' or not it.reused and it.cached == 'list':
            msgs.append(('kept', f'a kept {it.cached} is {"" if it.reused else "not "}used'))
        elapsed = [e for e in it.ctx.trace if e[0] == 'elapsed']
        if not it.reused and k == 'DownloadError' and len(it.queries) < 2 and it.ctx.known(('answer', 0)) in ('error', 'SERVICE_UNAVAILABLE'):
            msgs.append(('retry', 'a request that failed is not repeated'))
        if it.reused or k == 'Ok':
            want = 'Ok' if it.reused and it.cached == 'list' else None
        if not it.reused:
            last = len(it.queries) - 1
            st = it.ctx.known(('answer', last)) if not it.table else 'OK'
            good = st == 'OK' and (it.table or it.ctx.known(('valid', last)) is True)
            want = 'Timeout' if elapsed else 'InternalError' if not it.table and it.ctx.known(('the task ends',)) is False else 'Ok' if good else 'DownloadError'
            if k == 'Ok' and not it.queries:
                msgs.append(('result', 'success without a request'))
        if k != want:
            msgs.append(('result', f'{k} instead of {want}'))
        if k == 'Ok' and want == 'Ok':
            exp = [f'file {i}' for i, e in enumerate(it.entries) if any(t in KINDS[e] for t in it.types)]
            got = []
            for f in items(it, v.fields[0]):
                x = pay(it, it.force(deref(f)))
                got.append(show(it.freeze(it.field(x, 'file_id'))))
                if it.field(x, 'use_credentials') is not True:
                    msgs.append(('token', 'a file of the project is marked as not needing the token'))
                if it.force(deref(it.field(x, 'source'))).fields.get('n') != 7:
                    msgs.append(('files', 'a file is attributed to another source'))
            if len(got) != len(exp) or any(e not in g for g, e in zip(got, exp)):
                msgs.append(('files', f'{got} is listed instead of {exp} for {it.types} among {it.entries}'))
        return msgs
    for name, table, floor in (('sentry', False, 20), ('kinds', True, 150)):
        c.product(name, SEN + 'SentryDownloader::list_files', spec, given=lambda it: given(it, table), setup=setup, floor=floor,
                  opaque=net_hooks(c), models={'configure_scope': lambda it, a: none()}, mmodels={'bind_hub': lambda it, r, a: r, 'send': lambda it, r, a: deref(r) if isinstance(deref(r), Future) else NotImplemented})

    def new_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if not it.ttl or any('sentry_index_ttl' not in t for t in it.ttl):
            return 'expiry', f'lists are kept for {it.ttl}'
    T_MEM = SVC + 'config::InMemoryCacheConfig'
    chain = lambda it, r, a: deref(r)
    ttl = lambda it, r, a: it.ttl.append(show(it.freeze(deref(a[0])))) or deref(r)
    c.product('expiry', SEN + 'SentryDownloader::new', new_spec, setup=lambda it: setattr(it, 'ttl', []), given=lambda it: {'in_memory': it.std.temp_ref(struct_of(c, it, T_MEM)), 'runtime': Native('runtime')},
              models={'moka::future::Cache::builder': lambda it, a: Native('moka builder'), 'future::Cache::builder': lambda it, a: Native('moka builder'), 'Cache::builder': lambda it, a: Native('moka builder')},
              mmodels={'time_to_live': ttl, 'max_capacity': chain, 'name': chain, 'weigher': chain, 'build': lambda it, r, a: Native('moka cache')})


# ------------------------------------------------------------------ D07: indexes of symbol servers
IDX = DL + 'index::'
IX = SRC + 'index::SymstoreIndex'
EXT_ENUMS['Op'] = ['Put', 'Remove', 'Nop']
AGES = [None, 0, 599 * SEC, 601 * SEC, 86399 * SEC, 86401 * SEC]      # None: the clock has been set back


def d07(c):
    c.section('last id', lambda: last_id(c))
    c.section('requests', lambda: last_request(c))
    c.section('indexes', lambda: full_index(c))
    c.section('segments', lambda: segment(c))
    c.section('computations', lambda: computed(c))
    c.section('use', lambda: use(c))


def last_id(c):
    method('moka slot', 'and_compute_with')(lambda c2: Future(lambda: compute(c2.it, c2.args[0])))
    for n in ('is_fresh', 'is_old_value_replaced', 'is_old_value_updated'):
        method('moka entry', n)(lambda c2, n=n: c2.v.how == n)
    method('moka entry', 'into_value')(lambda c2: c2.v.value)
    method('moka entry', 'value')(lambda c2: c2.it.std.temp_ref(c2.v.value))
    method('comp result', 'into_entry')(lambda c2: some(c2.v.entry) if c2.v.entry is not None else none())
    method('comp result', 'unwrap')(lambda c2: c2.v.entry)

    def old(it):
        r, age = it.old
        return Tup([ok(Str('old id')) if r == 'Ok' else failure(it, r), Native('stored at')])

    def compute(it, f):
        had = it.old is not None
        arg = some(Native('moka entry', value=old(it), how='')) if had else none()
        o = it.force(it.await_value(it.call_value(f, [arg])))
        it.op = o.variant
        if o.variant == 'Put':
            it.stored = it.force(deref(o.fields[0]))
            return Native('comp result', entry=Native('moka entry', value=it.stored, how='is_old_value_replaced' if had else 'is_fresh'))
        if o.variant == 'Remove' or not had:
            return Native('comp result', entry=None)
        return Native('comp result', entry=Native('moka entry', value=old(it), how=''))

    def age(c2):
        a = c2.it.old[1]
        return err(Term('SystemTimeError', (), Ty('SystemTimeError'))) if a is None else ok(a)
    method('stored at', 'elapsed')(age)
    method('stored at', 'clone')(lambda c2: c2.v)

    def setup(it):
        it.asked, it.stored, it.op = 0, None, None
        if it.ctx.choose(('a last id is kept',), [False, True]):
            it.old = it.ctx.choose(('kept', 'result'), ['Ok', 'NotFound', 'DownloadError']), it.ctx.choose(('kept', 'age'), AGES)
        else:
            it.old = None

    def ask(it, a):
        def go():
            it.asked += 1
            it.new = it.ctx.choose(('new', it.asked), ['Ok', 'NotFound', 'Timeout'])
            return ok(Str('new id')) if it.new == 'Ok' else failure(it, it.new)
        return Future(go)

    def outcome(it, r):
        k = kind_of(it, r)
        return k if k != 'Ok' else show(it.freeze(it.force(r).fields[0])).strip('"')

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}; kept: {it.old}'
        got = outcome(it, out.value)
        if it.old is None:
            asks, want, stores = [1], ['new id'], True
        else:
            r, ag = it.old
            limit = (86400 if r == 'Ok' else 600) * SEC
            asks = [0, 1] if ag is None else [1] if ag > limit else [0]
        if it.asked not in asks:
            return 'age', f'the last id is requested {it.asked} times, kept: {it.old}'
        if it.asked:
            new = 'new id' if it.new == 'Ok' else it.new
            want = 'old id' if it.old is not None and it.old[0] == 'Ok' and it.new != 'Ok' else new
        else:
            want = 'old id' if it.old[0] == 'Ok' else it.old[0]
        msgs = []
        if got != want:
            msgs.append(('result', f'{got} instead of {want}, kept: {it.old}, requested: {it.new if it.asked else None}'))
        if it.asked:
            if it.op != 'Put':
                msgs.append(('kept', f'the outcome of a request is not kept ({it.op})'))
            else:
                t = show(it.freeze(it.stored.items[1]))
                if outcome(it, it.stored.items[0]) != want or t != 'now':
                    msgs.append(('kept', f'{outcome(it, it.stored.items[0])} of {t} is kept instead of {want} of now'))
        elif it.op not in ('Nop',) and not (it.op == 'Put' and isinstance(it.force(deref(it.stored.items[1])), Native) and outcome(it, it.stored.items[0]) == want):
            msgs.append(('kept', f'a kept result is changed without a request ({it.op})'))
        return msgs
    c.product('last id', IDX + 'SourceIndexService::fetch_symstore_last_id_memoized', spec, setup=setup, floor=30,
              given=lambda it: {'self': it.std.temp_ref(struct_of(c, it, IDX + 'SourceIndexService', symstore_last_id_cache=Native('last ids'))), 'source': Native('index source')},
              opaque={'SourceIndexService::fetch_symstore_last_id': ask, **SOURCE_OPS},
              mmodels={'entry': lambda it, r, a: Native('moka slot'), 'into_inner': lambda it, r, a: deref(r)},
              sigs={})


SOURCE_OPS = {'IndexSourceConfig::id': lambda it, a: Term('source id', (), Ty('SourceId')), 'IndexSourceConfig::index_location': lambda it, a: Term('index location', (), Ty('RemoteFileUri')),
              'IndexSourceConfig::source_metric_key': lambda it, a: Str('http')}
method('index source', 'clone')(lambda c2: c2.v)


def fetch_hooks(c):
    def download(it, a):
        def go():
            it.got.append((it.force(deref(a[1])), a[2]))
            r = it.ctx.choose(('download', len(it.got)), ['Ok', 'NotFound', 'Timeout'])
            it.last = r
            it.steps.append(('download', r))
            return ok(UNIT) if r == 'Ok' else failure(it, r)
        return Future(go)

    def loc_new(it, a):
        return Native('index location', path=a[0])

    @method('index source', 'remote_file')
    def _(c2):
        it, l = c2.it, c2.it.force(deref(c2.args[0]))
        it.locs.append(show(it.freeze(it.ctx.sstr(l.path))).strip('"'))
        return Native('remote file', n=len(it.locs) - 1)
    return {**SOURCE_OPS, 'SourceLocation::new': loc_new, 'DownloadService::download': download}


def temp_models():
    return {'NamedTempFile::new': lambda it, a: ok(Native('temp file')) if it.ctx.choose(('temp file',), [True, False]) else err(Term('io error', (), E_IO)),
            'NamedTempFile.path': lambda it, r, a: it.std.temp_ref(Str('/tmp/x'))}


for _n in ('path', 'as_ref', 'to_path_buf', 'as_file', 'into_file', 'reopen', 'as_file_mut', 'into_temp_path'):
    method('temp file', _n)(lambda c2, n=_n: ok(c2.v) if n == 'reopen' else c2.v)


def fetch_setup(it):
    it.got, it.locs, it.steps, it.last = [], [], [], None


def wrong_fetch(it, want):
    """What is wrong with the request for one file of the index."""
    if not it.got:
        return None
    if len(it.got) != 1 or it.locs != [want]:
        return 'location', f'{it.locs} is requested {len(it.got)} times instead of {want}'
    f, dest = it.got[0]
    d = it.force(deref(dest))
    if not isinstance(f, Native) or f.kind != 'remote file' or not isinstance(d, Native) or d.kind != 'temp file':
        return 'location', f'{show(f)} is downloaded to {show(d)}'


def last_request(c):
    FOUND = {'digits': '42', 'padded': ' 7\r\n', 'empty': '', 'letters': 'x1', 'huge': '4294967296', 'negative': '-1'}

    def mapped(it, a):
        f = it.force(deref(a[0]))
        it.steps.append(('map', f.kind if isinstance(f, Native) else show(f)))
        return ok(Native('last id bytes')) if it.ctx.choose(('map',), [True, False]) else err(Term('io error', (), E_IO))

    def utf8(it, a):
        it.text = it.ctx.choose(('text',), ['invalid'] + list(FOUND))
        return err(Term('Utf8Error', (), Ty('Utf8Error'))) if it.text == 'invalid' else ok(Str(FOUND[it.text]))

    def parse(it, recv, args):
        t = it.ctx.sstr(deref(recv))
        s = show(it.freeze(t)).strip('"')
        return ok(int(s)) if s.isdigit() and int(s) < 2 ** 32 else err(Term('ParseIntError', (), Ty('ParseIntError')))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = kind_of(it, out.value)
        w = wrong_fetch(it, '000Admin/lastid.txt')
        if w:
            return w
        if it.ctx.known(('temp file',)) is False or it.ctx.known(('map',)) is False:
            return None if k != 'Ok' else ('result', 'success although the file cannot be read')
        if it.last != 'Ok':
            return None if k == it.last and len(it.steps) == 1 else ('result', f'{k} after {it.steps}')
        t = it.ctx.known(('text',))
        want = {'digits': 42, 'padded': 7}.get(t)
        if want is None:
            return None if k == 'Malformed' else ('result', f'{k} for a last id that is {t}')
        v = it.force(it.force(out.value).fields[0]) if k == 'Ok' else None
        return None if v == want else ('result', f'{k} {show(v)} instead of {want}')
    c.product('last id request', IDX + 'SourceIndexService::fetch_symstore_last_id', spec, setup=fetch_setup, floor=9, given={'source': Native('index source')},
              opaque=fetch_hooks(c), models={**temp_models(), 'ByteView::map_file': mapped, 'ByteView::open': mapped, 'fs::read': mapped, 'str::from_utf8': utf8, 'from_utf8': utf8},
              mmodels={'parse': parse, 'to_path_buf': lambda it, r, a: deref(r)})


def full_index(c):
    N = 3 if c.tier == 'quick' else 5

    def segment(it, a):
        req = it.force(deref(a[1]))

        def go():
            i = it.force(deref(it.field(req, 'segment_id')))
            it.asked.append(i)
            src = it.force(deref(it.field(req, 'source')))
            if not (isinstance(src, Native) and src.kind == 'index source'):
                it.strange = show(it.freeze(src))
            r = it.ctx.choose(('segment', i), ['Ok', 'NotFound', 'Malformed'])
            return Native('cache entry', r=ok(struct_of(c, it, IX, n=i)) if r == 'Ok' else failure(it, r))
        return Future(go)
    method('cache entry', 'into_contents')(lambda c2: c2.v.r)
    method('cache entry', 'contents')(lambda c2: c2.it.std.temp_ref(c2.v.r))

    def setup(it):
        it.asked, it.appended, it.writes, it.strange = [], [], [], None

    def append(it, a):
        it.appended.append(it.force(deref(a[1])).fields.get('n'))
        return UNIT

    def write(it, a):
        it.writes.append((list(it.appended), it.force(deref(a[1])) is it.file or show(it.freeze(a[1]))))
        return ok(UNIT) if it.ctx.choose(('written',), [True, False]) else err(Term('io error', (), E_IO))

    def given(it):
        it.n = it.ctx.choose(('last id',), list(range(N + 1)))
        it.file = Native('index file')
        return {'last_id': it.n, 'file': it.std.temp_ref(it.file), 'source': Native('index source')}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = kind_of(it, out.value)
        if it.strange:
            return 'source', f'segments are asked for at {it.strange}'
        bad = [i for i in range(1, it.n + 1) if it.ctx.known(('segment', i)) not in ('Ok', None)]
        if bad or sorted(set(it.asked)) != list(range(1, it.n + 1)):
            if not bad:
                return 'segments', f'the segments {it.asked} of {it.n} are requested'
            if k == 'Ok' or it.writes:
                return 'incomplete', f'an index without the segment {bad[0]} of {it.n} is {"kept" if k == "Ok" else "written"}'
            if k in ('NotFound', 'Malformed', 'PermissionDenied'):
                return 'incomplete', f'an index with a segment that failed is kept as {k}, which is not repeated soon'
            return None
        if len(it.writes) != 1 or it.writes[0][1] is not True:
            return 'written', f'the index is written {len(it.writes)} times'
        if sorted(set(it.writes[0][0])) != list(range(1, it.n + 1)):
            return 'segments', f'the segments {it.writes[0][0]} of {it.n} are written'
        good = it.ctx.known(('written',)) is True
        if (k == 'Ok') != good:
            return 'written', f'{k} although writing the index {"succeeded" if good else "failed"}'
    c.product('indexes', IDX + 'download_full_index', spec, setup=setup, given=given, floor=10,
              opaque={**SOURCE_OPS, 'Cacher::compute_memoized': segment, 'SymstoreIndex::append': append, 'SymstoreIndex::write': write,
                      'CacheKey::scoped_builder': lambda it, a: Native('key builder'), 'CacheKeyBuilder::build': lambda it, a: Native('key')},
              models={'writeln!': lambda it, e, env: ok(UNIT), 'write!': lambda it, e, env: ok(UNIT)}, mmodels={'build': lambda it, r, a: Native('key')})


def computed(c):
    """What a request for an index or a segment computes is the index or segment it names, of its source, into the file it was given."""
    FULL, PART = 'FetchSymstoreIndex', 'FetchSymstoreIndexSegment'
    fields = {FULL: ['source', 'scope', 'last_id', 'segment_cache', 'downloader'], PART: ['source', 'segment_id', 'downloader']}
    method('given temp file', 'as_file_mut', 'as_file')(lambda c2: c2.it.std.temp_ref(Native('given file')))
    n = 0
    for im in c.w.impls:
        who = (im.self_id or '').split('::')[-1] if im.trait and im.trait.endswith('::CacheItemRequest') and str(im.self_id).startswith(IDX) else None
        if who not in fields or 'compute' not in im.fns:
            continue
        n += 1

        def called(which):
            def go(it, a):
                it.calls.append((which, ['<given file>' if getattr(deref(x), 'kind', '') == 'given file' else show(it.freeze(deref(x))) for x in a]))
                return Future(lambda: ok(UNIT) if it.ctx.choose(('outcome',), ['Ok', 'Err']) == 'Ok' else failure(it, 'Malformed'))
            return go

        def run(it, f, a, who=who):
            it.calls = []
            v = struct_of(c, it, IDX + who, **{k: Term('own ' + k, (), Ty(k)) for k in fields[who]})
            return it.await_value(it.call_def(f, [it.std.temp_ref(v), it.std.temp_ref(Native('given temp file'))]))

        def spec(it, a, out, who=who):
            if out.panic:
                return 'panic', out.panic
            if len(it.calls) != 1 or it.calls[0][0] != who:
                return 'computed', f'a {who} computes {it.calls}'
            got = sorted(it.calls[0][1])
            want = sorted(['own ' + k for k in fields[who]] + ['<given file>'])
            if got != want:
                return 'computed', f'a {who} computes with {got} instead of {want}'
            return None if kind_of(it, out.value) == ('Ok' if it.ctx.known(('outcome',)) == 'Ok' else 'Malformed') else ('outcome', f'it ends with {kind_of(it, out.value)}')
        c.product('computed indexes', im.fns['compute'], spec, run=run, floor=2, opaque={'download_full_index': called(FULL), 'download_index_segment': called(PART)})
    c.floor('computations of indexes', n, 2)


def segment(c):
    def setup(it):
        fetch_setup(it)
        it.writes = []

    def parse(it, a):
        it.parsed = deref(a[0])
        it.steps.append(('parse', None))
        return ok(struct_of(c, it, IX, n=7)) if it.ctx.choose(('parsed',), [True, False]) else err(Term('io error', (), E_IO))

    def write(it, a):
        it.writes.append((it.force(deref(a[0])).fields.get('n'), it.force(deref(a[1])) is it.file))
        it.steps.append(('write', None))
        return ok(UNIT) if it.ctx.choose(('written',), [True, False]) else err(Term('io error', (), E_IO))

    def given(it):
        it.file = Native('index file')
        it.n = it.ctx.choose(('number',), [1, 42, 4294967295])
        return {'source': Native('index source'), 'segment': it.n, 'file': it.std.temp_ref(it.file)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = kind_of(it, out.value)
        w = wrong_fetch(it, f'000Admin/{it.n:010}')
        if w:
            return w
        order = [s for s, _ in it.steps]
        if it.last is not None and it.last != 'Ok':
            return None if k == it.last and order == ['download'] else ('failures', f'{k} after {it.steps}')
        if any(it.ctx.known((x,)) is False for x in ('temp file', 'parsed', 'written')):
            return None if k != 'Ok' and (it.ctx.known(('parsed',)) is not False or not it.writes) else ('failures', f'{k} after {it.steps}')
        if order != ['download', 'parse', 'write'] or it.writes != [(7, True)] or k != 'Ok':
            return 'contents', f'{k} after {it.steps}: {it.writes}'
    c.product('index segments', IDX + 'download_index_segment', spec, setup=setup, given=given, floor=12,
              opaque={**fetch_hooks(c), 'SymstoreIndex::parse_from_reader': parse, 'SymstoreIndex::write': write}, models=temp_models(),
              mmodels={'to_path_buf': lambda it, r, a: deref(r)})


def use(c):
    KIND = {'Http': 'HttpSourceConfig', 'S3': 'S3SourceConfig', 'Gcs': 'GcsSourceConfig', 'Filesystem': 'FilesystemSourceConfig', 'Sentry': 'SentrySourceConfig'}
    cfg_path = next(t for t in c.w.typedefs if t.startswith(SRC) and t.endswith('::SourceConfig'))
    lay = [v['name'] for v in c.w.type(T_FILE(c, 'DirectoryLayoutType')).node['variants']]

    def given(it):
        it.kind = it.ctx.choose(('source',), list(KIND))
        more = {}
        if it.kind != 'Sentry':
            it.has = it.ctx.choose(('has index',), [True, False])
            it.layout = it.ctx.choose(('layout',), lay)
            layout = struct_of(c, it, T_FILE(c, 'DirectoryLayout'), ty=Enum(T_FILE(c, 'DirectoryLayoutType'), it.layout, []))
            more['files'] = struct_of(c, it, T_FILE(c, 'CommonSourceConfig'), has_index=it.has, layout=layout)
        return {'source': it.std.temp_ref(Enum(cfg_path, it.kind, [struct_of(c, it, T_FILE(c, KIND[it.kind]), n=7, **more)]))}

    def fetch(it, a):
        src = it.force(deref(a[2]))

        def go():
            p = pay(it, src)
            it.fetches.append((src.variant, p.fields.get('n')))
            r = it.ctx.choose(('index',), ['Ok', 'NotFound', 'Timeout'])
            return ok(struct_of(c, it, IX, n=7)) if r == 'Ok' else failure(it, r)
        return Future(go)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.force(out.value)
        wanted = it.kind != 'Sentry' and it.has and it.layout == 'Symstore'
        if not wanted:
            return None if v.variant == 'None' and not it.fetches else ('unindexed', f'a {it.kind} source without an index is treated as one with {show(v)}')
        if it.fetches != [(it.kind, 7)]:
            return 'source', f'the indexes of {it.fetches} are fetched'
        if v.variant != 'Some':
            return 'failed', 'a source whose index is not available is asked for everything'
        x = it.force(deref(v.fields[0]))
        ix = pay(it, x) if isinstance(x, Enum) else x
        good = it.ctx.known(('index',)) == 'Ok'
        if good:
            return None if ix.fields.get('n') == 7 else ('index', 'the index is not the fetched one')
        if not isinstance(ix, Struct):
            return 'failed', f'an index that is not available is {show(ix)}'
        if ix.fields.get('n') is not None or items(it, it.field(ix, 'files')):
            return 'failed', 'an index that is not available has entries'
    c.product('use', IDX + 'SourceIndexService::fetch_index', spec, setup=lambda it: setattr(it, 'fetches', []), given=given, floor=20, opaque={'SourceIndexService::fetch_symstore_index': fetch},
              mmodels={'unwrap_or_default': lambda it, r, a: it.force(deref(r)).fields[0] if it.force(deref(r)).variant in ('Ok', 'Some') else struct_of(c, it, IX, files=Vec([]))})

    def chain_setup(it):
        it.asked, it.reqs = 0, []

    def lid(it, a):
        r = it.ctx.choose(('last id',), ['Ok', 'Timeout'])
        return Future(lambda: ok(3) if r == 'Ok' else failure(it, r))

    def memo(it, a):
        def go():
            it.reqs.append(it.force(deref(it.field(it.force(deref(a[1])), 'last_id'))))
            r = it.ctx.choose(('index',), ['Ok', 'NotFound'])
            return Native('cache entry', r=ok(struct_of(c, it, IX, n=7)) if r == 'Ok' else failure(it, r))
        return Future(go)

    def chain_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = kind_of(it, out.value)
        if it.ctx.known(('last id',)) != 'Ok':
            return None if k == 'Timeout' and not it.reqs else ('last id', f'{k} without a last id, {it.reqs} requested')
        if it.reqs != [3]:
            return 'segments', f'the indexes up to {it.reqs} instead of the last id are used'
        return None if k == it.ctx.known(('index',)) else ('result', f'{k} instead of {it.ctx.known(("index",))}')
    c.product('fetching', IDX + 'SourceIndexService::fetch_symstore_index', chain_spec, setup=chain_setup, given={'source': Native('index source')}, floor=3,
              opaque={**SOURCE_OPS, 'SourceIndexService::fetch_symstore_last_id_memoized': lid, 'Cacher::compute_memoized': memo,
                      'CacheKey::scoped_builder': lambda it, a: Native('key builder'), 'CacheKeyBuilder::build': lambda it, a: Native('key')},
              models={'writeln!': lambda it, e, env: ok(UNIT), 'write!': lambda it, e, env: ok(UNIT)}, mmodels={'build': lambda it, r, a: Native('key')})
