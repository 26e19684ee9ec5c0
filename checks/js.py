"""J01 - J03: JavaScript symbolication."""
from .util import *
from .keys import struct_of, key_hooks, js_hooks, setup_keys, req_scope, T_CERR, T_ENTRY, SVC, OBJ, JS as LOOKUP
from engine.std import m as method, EXT_ENUMS

JSC = 'symbolicator_js::'
IFC = JSC + 'interface::'


def text(it, v):
    return show(it.freeze(it.ctx.sstr(deref(v)))).strip('"')


def attempts(it):
    """(url, outcome, reason) of every scraping attempt noted."""
    res = []
    for x in items(it, it.attempts):
        x = it.force(x)
        r = it.force(it.field(x, 'result'))
        res.append((text(it, it.field(x, 'url')), r.variant, it.force(r.fields['reason']).variant if r.variant == 'Failure' else None))
    return res


# ------------------------------------------------------------------ J01: scraping policy
def j01(c):
    def hooks():
        h = js_hooks()

        def file(it, a):
            it.finds.append((it.force(deref(a[1])), it.force(deref(a[2])), it.force(deref(a[3]))))
            r = ok(Term('contents', (), Ty('ByteViewString'))) if it.ctx.choose(('download succeeds',), [True, False]) else Enum('Result', 'Err', [Enum(T_CERR.name, it.ctx.choose(('failure',), ['NotFound', 'InternalError']), [])])
            return Future(lambda: Struct(T_ENTRY.name, {'metadata': none(), 'contents': r}))
        h.pop('CacheError::into')
        return {**h, 'SourceFilesCache::fetch_file': file}

    def given(it):
        setup_keys()(it)
        it.kind = it.ctx.choose(('file',), ['Source', 'SourceMap without path'])
        path = Str((Term('path', (), T_STR),))
        key = Enum(LOOKUP + 'FileKey', 'Source', {'abs_path': path}) if it.kind == 'Source' else Enum(LOOKUP + 'FileKey', 'SourceMap', {'abs_path': none(), 'debug_id': none()})
        it.attempts = Vec([])
        it.scr = {n: it.ctx.choose((n,), [True, False]) for n in ('enabled', 'verify_ssl')}
        sc = struct_of(c, it, SVC + 'types::ScrapingConfig', headers=Map([[Str('auth'), Str('secret')]]), **it.scr)
        return {'self': struct_of(c, it, LOOKUP + 'ArtifactFetcher', scope=req_scope(), scraping_attempts=it.attempts, scraping=sc), 'key': key}

    def host_of(it, url):
        h = it.force(Term('host_str', (url,), Ty('Option', T_STR)))
        return h.fields[0] if h.variant == 'Some' else None

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        path = it.freeze(Str((Term('path', (), T_STR),)))
        entry = it.force(out.value)
        content = it.force(it.field(entry, 'entry'))
        tries, msgs = attempts(it), []
        fail = lambda why, n: [(why, f'{len(it.finds)} files are fetched and {tries} is reported although {why}')] if it.finds or content.variant == 'Ok' or tries != ([('path', 'Failure', n)] if n else []) else []
        if it.kind != 'Source':
            return fail('the file has no URL', None)
        r = it.force(Term('Url::parse', (path,), Ty('Result', Ty('Url'), Ty('url::ParseError'))))
        if r.variant == 'Err':
            return fail('the URL is invalid', None)
        url = it.freeze(r.fields[0])
        if not it.scr['enabled']:
            return fail('scraping is disabled', 'Disabled')
        scheme = Term('scheme', (url,), T_STR)
        if not any(it.ctx.truth(it.eq(scheme, Str(s))) for s in ('http', 'https')):
            return fail('the scheme is not allowed', 'InvalidHost')
        if not it.ctx.choose(('allowed origin', repr(url)), [True, False]):
            return fail('the origin is not allowed', 'InvalidHost')
        host = host_of(it, url)
        if host is None:
            return fail('the URL has no host', 'InvalidHost')
        if any(it.ctx.truth(it.eq(host, Str(s))) for s in ('localhost', '127.0.0.1')) and not it.ctx.truth(it.reserved):
            return fail('the local host must not be reached', 'InvalidHost')
        if len(it.finds) != 1:
            return 'fetched', f'{len(it.finds)} files are fetched for one URL'
        sc, f, shared = it.finds[0]
        cfg = it.force(deref(f.fields[0])) if isinstance(f, Enum) else f
        src = it.force(deref(it.field(cfg, 'source')))
        got = show(it.freeze(it.field(src, 'url')))
        if not (got.startswith('set_fragment(') and show(url) in got) and got != show(url):
            msgs.append(('url', f'{got} is fetched instead of {show(url)}'))
        if shared is not False:
            msgs.append(('shared cache', 'a scraped file is put in the shared cache'))
        if repr(it.freeze(sc)) != repr(it.freeze(req_scope())):
            msgs.append(('scope', f'a scraped file is kept in the scope {show(sc)}'))
        if 'secret' not in show(it.freeze(it.field(cfg, 'headers'))):
            msgs.append(('headers', 'the headers given for scraping are not sent'))
        if it.field(src, 'accept_invalid_certs') is not (not it.scr['verify_ssl']):
            msgs.append(('certificates', 'certificates are not verified as requested'))
        good = it.ctx.choose(('download succeeds',), [True, False])
        why = None if good else {'NotFound': 'NotFound', 'InternalError': 'Other'}[it.ctx.choose(('failure',), ['NotFound', 'InternalError'])]
        if tries != [('path', 'Success' if good else 'Failure', why)]:
            msgs.append(('attempts', f'{tries} is reported for a download that {"succeeds" if good else "fails"}'))
        if (content.variant == 'Ok') != good:
            msgs.append(('result', f'a download that {"succeeds" if good else "fails"} gives {content.variant}'))
        if good and show(it.freeze(it.field(it.force(content.fields[0]), 'contents'))) != show(it.freeze(some(Term('contents', (), Ty('ByteViewString'))))):
            msgs.append(('contents', f'the file contains {show(it.field(it.force(content.fields[0]), "contents"))}'))
        if it.force(it.field(entry, 'resolved_with')).variant != 'Scraping':
            msgs.append(('origin', 'a scraped file is not marked as scraped'))
        return msgs

    def reserved(it, a):
        it.reserved = Term('reserved addresses allowed', (), Ty('bool'))
        return it.reserved
    c.product('scrape', LOOKUP + 'ArtifactFetcher::scrape', spec, given=given, k=1, opaque={**hooks(), 'DownloadService::can_connect_to_reserved_ips': reserved}, floor=20)
    origins(c)


ORIGIN = {'scheme': lambda o: Str(o.scheme), 'host_str': lambda o: some(o.host), 'port_or_known_default': lambda o: some(o.port), 'as_str': lambda o: o.text, 'path': lambda o: o.path, 'port': lambda o: some(o.port) if o.port == 8080 else none()}
for _n, _f in ORIGIN.items():
    method('origin', _n)(lambda c, f=_f: f(c.v))


def origins(c):
    P = lambda n: Str((Term('plain', (n,), T_STR),))
    parent, sub, other = S(P('domain'), '.com'), P('sub'), Str('other.org')

    def given(it):
        ch = lambda n, o: it.ctx.choose(n if isinstance(n, tuple) else (n,), o)
        scheme, port = ch('scheme', ['http', 'https']), ch('port', ['default', 8080])
        host = {'domain': parent, 'subdomain': S(sub, '.', parent), 'similar domain': S(sub, '-', parent)}[ch('host', ['domain', 'subdomain', 'similar domain'])]
        it.o = Native('origin', scheme=scheme, host=host, port={'http': 80, 'https': 443}[scheme] if port == 'default' else port, path=S('/', P('file'), '.js'),
                      text=S(scheme, '://', host, '' if port == 'default' else ':8080', '/', P('file'), '.js'))
        it.allow = []
        n = ch('allowed origins', [0, 1, 2])
        for i in range(n):
            ps = ch(('scheme of pattern', i), ['', 'http', '*']) if i == 0 else ''
            pd = ch(('domain of pattern', i), ['*', 'domain', '*.domain', 'other', 'url'] if i == 0 else ['domain', 'other'])
            pp = ch(('port of pattern', i), [None, '80', '443', '8080']) if i == 0 and pd in ('*', 'domain') else None
            pe = ch(('path of pattern', i), [False, True]) if i == 0 and pd == 'domain' else False
            it.allow.append((ps, pd, pp, pe))
        pats = []
        for ps, pd, pp, pe in it.allow:
            d = {'*': Str('*'), 'domain': parent, '*.domain': S('*.', parent), 'other': other, 'url': it.o.text}[pd]
            pats.append(d if pd == 'url' else S(ps + '://' if ps else '', d, ':' + pp if pp else '', '/' if pe else ''))
        return {'origin': it.o, 'allowed': Vec(pats)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        o = it.o
        same = it.ctx.known  # the three kinds of hosts are told apart by construction
        kind = it.ctx.choose(('host',), ['domain', 'subdomain', 'similar domain'])

        def allows(ps, pd, pp, pe):
            if pd == 'url':
                return True
            if pd == '*' and not ps and not pp:
                return True
            if ps not in ('', '*') and ps != o.scheme:
                return False
            if pp and int(pp) != o.port:
                return False
            return {'*': True, 'domain': kind == 'domain', '*.domain': kind in ('domain', 'subdomain'), 'other': False}[pd]
        want = any(allows(*p) for p in it.allow)
        if out.value is not want:
            return 'origin', f'{show(o.text)} is {"" if out.value else "not "}allowed by the patterns {[show(x) for x in items(it, a[1])]}'
    c.product('origins', SVC + 'utils::http::is_valid_origin', spec, given=given, floor=200, models={'idna::domain_to_ascii': lambda it, a: ok(it.ctx.sstr(deref(a[0]))), 'domain_to_ascii': lambda it, a: ok(it.ctx.sstr(deref(a[0])))})


# ------------------------------------------------------------------ J02: frames
EXT_ENUMS['ScopeLookupResult'] = ['NamedScope', 'AnonymousScope', 'Unknown']
EXT_ENUMS['SourceFileType'] = ['Source', 'MinifiedSource', 'SourceMap', 'IndexedRamBundle']
TXT = lambda n, *a: Str((Term(n, a, T_STR),))
ENTRY, URI = LOOKUP + 'CachedFileEntry', LOOKUP + 'CachedFileUri'
RESOLVED = IFC + 'ResolvedWith'
SYMJS = JSC + 'symbolication::SourceMapService::symbolicate_js'
FRAME = ('platform', 'function', 'filename', 'module', 'abs_path', 'lineno', 'colno', 'pre_context', 'context_line', 'post_context')
DATA = ('sourcemap', 'sourcemap_origin', 'resolved_with', 'symbolicated')


def cerr(it, k, *a):
    return Enum('Result', 'Err', [Enum(T_CERR.name, k, list(a))])


def uri(n):
    return Enum(URI, 'ScrapedFile', [Struct('symbolicator_sources::remotefile::RemoteFileUri', {'0': Str(n)})])


def entry(name, content, how):
    return Struct(ENTRY, {'uri': uri(name), 'entry': content, 'resolved_with': Enum(RESOLVED, how, [])})


def js_frame(c, it, i, path, **given):
    data = Struct(IFC + 'JsFrameData', {'sourcemap': none(), 'sourcemap_origin': none(), 'resolved_with': none(), 'symbolicated': False})
    f = dict(platform=none(), function=none(), filename=some(TXT('old filename', i)), module=none(), abs_path=path, lineno=7, colno=some(12), pre_context=Vec([]), context_line=none(),
             post_context=Vec([]), token_name=none(), data=data)
    f.update(given)
    return Struct(IFC + 'JsFrame', f)


@method('smcache', 'get')
def _(c):
    return c.v


@method('smcache', 'lookup')
def _(c):
    p = c.it.force(deref(c.a(0)))
    return c.it.lookup(c.v, p.line, p.col)


for _n in ('name', 'scope', 'file_name', 'line', 'column', 'file'):
    method('js token', _n)(lambda c, n=_n: c.v.f[n])
for _n in ('name', 'source'):
    method('js file', _n)(lambda c, n=_n: c.v.f[n])


def js_request(c, it, stacks, modules=()):
    mods = [struct_of(c, it, IFC + 'JsModule', code_file=p, debug_id=d) for p, d in modules]
    return struct_of(c, it, IFC + 'SymbolicateJsStacktraces', platform=none(), scope=req_scope(), stacktraces=Vec([Struct(IFC + 'JsStacktrace', {'frames': Vec(list(s))}) for s in stacks]),
                     modules=Vec(mods), apply_source_context=it.context)


JOINED = {'few': ['app:', '/'], 'all': ['app:', '/', 'http:', 'https:', 'webpack:', 'ftp:']}


def join(it, a):
    s = [it.freeze(it.ctx.sstr(deref(x))) for x in a]
    return S(it.ctx.choose(('joined path',), JOINED[it.prefixes]), TXT('join', *s))


def js_models():
    s = lambda it, v: it.freeze(it.ctx.sstr(deref(v)))

    def lines(it, a):
        src, line, col = s(it, a[0]), it.force(deref(a[1])), it.force(deref(a[2]))
        if not it.ctx.choose(('line is in the file', repr(src), line), [True, False]):
            return none()
        t = lambda n: TXT(n, src, line, col)
        return some(Tup([Vec([t('before')]), t('context'), Vec([t('after')])]))
    opt = lambda it, v: oval(it, v)

    def name(it, a):
        o = lambda v: show(s(it, it.force(v).fields[0])) if it.force(v).variant == 'Some' else '-'
        return TXT('function name', o(a[0]), show(s(it, a[1])), o(a[2]))
    one = lambda n: lambda it, a: TXT(n, *[s(it, x) for x in a])

    def fetch(it, a):
        p = text(it, a[1])
        it.opened.append((p, show(it.freeze(deref(a[2])))))
        return Future(lambda: Tup(list(it.mods[p])))

    def source(it, a):
        k = it.force(deref(a[1]))
        p = text(it, it.force(k.fields['abs_path'])) if k.variant == 'Source' else k.variant
        it.sourced.append(p)
        return Future(lambda: entry('raw source', it.raw_source(p), 'Url'))
    nothing = lambda it, a: UNIT
    opaque = {'get_context_lines': lines, 'get_function_for_token': name, 'fold_function_name': one('folded'), 'join_paths': join, 'fixup_webpack_filename': one('webpack'),
              'generate_module': one('module of'), 'ArtifactFetcher::fetch_minified_and_sourcemap': fetch, 'ArtifactFetcher::get_file': source, 'ArtifactFetcher::record_metrics': nothing,
              'record_stacktrace_metrics': nothing, 'JsMetrics::new': lambda it, a: Term('metrics', (), Ty(JSC + 'metrics::JsMetrics'))}
    return dict(opaque=opaque, models={'SourcePosition::new': lambda it, a: Native('position', line=it.force(deref(a[0])), col=it.force(deref(a[1])))})


def oval(it, v):
    o = it.force(v)
    return o.fields[0] if o.variant == 'Some' else None


def frame_of(it, f):
    f = it.force(f)
    d = it.force(it.field(f, 'data'))
    return {**{n: show(it.freeze(it.field(f, n))) for n in FRAME}, **{n: show(it.freeze(it.field(d, n))) for n in DATA}}


def errors_of(it, v):
    res = []
    for x in items(it, v):
        x = it.force(x)
        res.append((text(it, it.field(x, 'abs_path')), show(it.freeze(it.field(x, 'kind')))))
    return sorted(res)


def j02(c):
    PATHS = ['https://h/a.js', 'https://h/b.js']
    # what is known about the files of the two paths, with the error the frame gets
    KINDS = {'symbolicated': None, 'named': None, 'no source map': None, 'no source': 'MissingSource', 'disabled': 'ScrapingDisabled', 'no map': 'MissingSourcemap', 'no token': 'InvalidLocation'}

    def given(it):
        it.context, it.prefixes = False, 'few'
        it.opened, it.sourced, it.attempts = [], [], Vec([])
        shape = it.ctx.choose(('frames of the stacks',), [(), (0,), (1,), (2,), (3,), (1, 0), (1, 2), (2, 1)])
        few = sum(shape) > 2
        it.kinds = []
        for s, n in enumerate(shape):
            it.kinds.append([it.ctx.choose(('frame', s, j), ['symbolicated', 'named', 'no source', 'no token'] if few else list(KINDS)) for j in range(n)])
        path = {k: Str(f'https://h/{i}.js') for i, k in enumerate(KINDS)}
        it.paths = {k: f'https://h/{i}.js' for i, k in enumerate(KINDS)}
        file = lambda k: Enum('Result', 'Ok', [Struct(LOOKUP + 'CachedFile', {'contents': some(TXT('contents', k)), 'sourcemap_url': none(), 'debug_id': none()})])
        it.mods = {}
        for k in KINDS:
            first = cerr(it, 'NotFound') if k == 'no source' else cerr(it, 'DownloadError', Str('Scraping disabled')) if k == 'disabled' else file(k)
            second = none() if k in ('no source map', 'no source', 'disabled') else some(entry('map ' + k, cerr(it, 'NotFound') if k == 'no map' else ok(Native('smcache', k=k)), 'Url'))
            it.mods[it.paths[k]] = (entry('min ' + k, first, 'Url'), second)
        stacks, it.raw = [], []
        for s, ks in enumerate(it.kinds):
            fs = [js_frame(c, it, (s, j), path[k], function=some(TXT('fn', s, j)), lineno=s * 10 + j + 1) for j, k in enumerate(ks)]
            stacks.append(fs)
            it.raw.append([frame_of(it, f) for f in fs])

        def lookup(m, line, col):
            if m.k == 'no token':
                return none()
            return some(Native('js token', f={'name': some(TXT('token', line)) if m.k == 'named' else none(), 'scope': Enum('ScopeLookupResult', 'NamedScope', [S('scope ', TXT('scope', line))]),
                                              'file_name': none(), 'line': line, 'column': col, 'file': none()}))
        it.lookup = lookup
        return {'self': Term('service', (), Ty(JSC + 'service::SourceMapService')), 'request': js_request(c, it, stacks)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r, msgs = it.force(out.value), []
        got = [[frame_of(it, f) for f in items(it, it.field(it.force(s), 'frames'))] for s in items(it, it.field(r, 'stacktraces'))]
        raw = [[frame_of(it, f) for f in items(it, it.field(it.force(s), 'frames'))] for s in items(it, it.field(r, 'raw_stacktraces'))]
        if [len(s) for s in got] != [len(s) for s in it.kinds]:
            return 'frames', f'stacks with {[len(s) for s in it.kinds]} frames are answered with {[len(s) for s in got]}'
        if raw != it.raw:
            msgs.append(('raw stacks', 'the submitted stacks are not returned'))
        errs = set()
        for s, ks in enumerate(it.kinds):
            caller = '-'
            for j, k in enumerate(ks):
                line = s * 10 + j
                f, want = got[s][j], it.raw[s][j]
                if k in ('symbolicated', 'named'):
                    fn = show(it.freeze(TXT('folded', it.freeze(TXT('function name', show(it.freeze(TXT('fn', s, j))), show(it.freeze(S('scope ', TXT('scope', line)))), caller)))))
                    if fn not in f['function']:
                        what = 'caller' if caller in ('-',) or 'token' in f['function'] else 'position'
                        msgs.append((what, f'frame {j} of stack {s} gets the function {f["function"]} instead of {fn}'))
                    if f['symbolicated'] != 'True' and f['symbolicated'] != 'true':
                        msgs.append(('symbolicated', f'a symbolicated frame is marked {f["symbolicated"]}'))
                elif f != want:
                    msgs.append(('unsymbolicated', f'a frame with {k} is answered with {[(n, f[n]) for n in f if f[n] != want[n]]}'))
                if KINDS[k]:
                    errs.add((it.paths[k], KINDS[k]))
                caller = show(it.freeze(TXT('token', line))) if k == 'named' else '-'
        have = errors_of(it, it.field(r, 'errors'))
        if sorted({(p, k.split('(')[0].split('::')[-1]) for p, k in have}) != sorted(errs):
            msgs.append(('errors', f'{have} is reported instead of {sorted(errs)}'))
        if len(have) != len(set(have)):
            msgs.append(('errors', f'{have} reports an error twice'))
        if sorted(p for p, _ in it.opened) != sorted({it.paths[k] for ks in it.kinds for k in ks}):
            msgs.append(('fetched', f'the files {[p for p, _ in it.opened]} are looked up for the frames of {it.kinds}'))
        return msgs
    c.product('stacks', SYMJS, spec, given=given, floor=300, **js_models())


# ------------------------------------------------------------------ J04: one frame
def j04(c):
    ABS = 'https://h/a.js'

    def given(it, name):
        ch = lambda n, o: it.ctx.choose((n,), o)
        it.opened, it.sourced, it.attempts = [], [], Vec([])
        full = name == 'frame'
        it.prefixes = 'all' if name == 'names' else 'few'
        it.context = ch('source context wanted', [True, False]) if full or name == 'files' else False
        it.at = (ch('line', [0, 7]), ch('column', [None, 0, 1, 12])) if name == 'position' else (7, 12)
        it.asy = name == 'position' and ch('async prefix', [True, False])
        it.known = ch('module is known', [True, False]) if name == 'position' else False
        it.url = ch('source map URL', ['none', 'data', 'remote']) if full or name == 'files' else 'none'
        it.minified = ch('minified', ['Ok', 'NotFound', 'disabled', 'Timeout', 'failed']) if name == 'files' else 'Ok'
        it.smc = ch('source map', ['Ok', 'none', 'NotFound', 'disabled', 'Malformed', 'Timeout']) if name == 'files' else 'Ok'
        it.fn = ch('function of the frame', [True, False]) if name == 'names' else True
        url = {'none': none(), 'data': some(Enum(LOOKUP + 'SourceMapUrl', 'Data', [TXT('data')])), 'remote': some(Enum(LOOKUP + 'SourceMapUrl', 'Remote', [Str('https://h/maps/a.map')]))}[it.url]
        bad = {'NotFound': lambda: cerr(it, 'NotFound'), 'disabled': lambda: cerr(it, 'DownloadError', Str('Scraping disabled')), 'Timeout': lambda: cerr(it, 'Timeout', Term('duration', (), Ty('Duration'))),
               'failed': lambda: cerr(it, 'DownloadError', Str('other')), 'Malformed': lambda: cerr(it, 'Malformed', Str('bad'))}
        first = ok(Struct(LOOKUP + 'CachedFile', {'contents': some(TXT('minified')), 'sourcemap_url': url, 'debug_id': none()})) if it.minified == 'Ok' else bad[it.minified]()
        second = none() if it.smc == 'none' else some(entry('map', ok(Native('smcache')) if it.smc == 'Ok' else bad[it.smc](), 'DebugId'))
        it.mods = {ABS: (entry('min', first, 'Url'), second)}
        it.positions = []

        def lookup(m, line, col):
            it.positions.append((line, col))
            if not it.ctx.choose(('a token is at the position',), [True, False]):
                return none()
            named = it.ctx.choose(('token has a name',), [True, False])
            scope = it.ctx.choose(('scope',), ['named', 'async', 'Anonymous', 'Unknown'] if name == 'names' else ['named'])
            sc = {'named': ('NamedScope', [S('scope ', TXT('scope'))]), 'async': ('NamedScope', [S('$async$', TXT('scope'))]), 'Anonymous': ('AnonymousScope', []), 'Unknown': ('Unknown', [])}[scope]
            fname = it.ctx.choose(('file name of the token',), ['none', 'plain', 'webpack']) if full else 'plain'
            fn = {'none': none(), 'plain': some(S('src/', TXT('file'))), 'webpack': some(S('webpack:///', TXT('file')))}[fname]
            f = none()
            if full and fname != 'none' and it.ctx.choose(('token has a file',), [True, False]):
                src = it.ctx.choose(('file has its source',), [True, False])
                f = some(Native('js file', f={'name': fn if it.ctx.choose(('file has a name',), [True, False]) else none(), 'source': some(TXT('embedded')) if src else none()}))
            return some(Native('js token', f={'name': some(TXT('token')) if named else none(), 'scope': Enum('ScopeLookupResult', *sc), 'file_name': fn, 'line': 41, 'column': 3, 'file': f}))
        it.lookup = lookup
        it.raw_source = lambda p: ok(Struct(LOOKUP + 'CachedFile', {'contents': some(TXT('artifact')), 'sourcemap_url': none(), 'debug_id': none()})) if it.ctx.choose(('source is an artifact',), [True, False]) else cerr(it, 'NotFound')
        it.old = ch('module of the frame', [True, False]) if full else False
        fr = js_frame(c, it, 0, Str(('async ' if it.asy else '') + ABS), lineno=it.at[0], colno=none() if it.at[1] is None else some(it.at[1]), function=some(TXT('fn')) if it.fn else none(),
                      module=some(TXT('old module')) if it.old else none())
        it.raw = frame_of(it, fr)
        it.raw['abs_path'] = show(it.freeze(Str(ABS)))
        return {'self': Term('service', (), Ty(JSC + 'service::SourceMapService')), 'request': js_request(c, it, [[fr]], [(Str(ABS), Str('id'))] if it.known else [])}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r, msgs = it.force(out.value), []
        F = lambda v: show(it.freeze(v))
        pick = lambda *k: it.ctx.choose(k, [True, False])
        want, raw, errs = dict(it.raw), dict(it.raw), []
        line, col = it.at
        opened = []

        def context(f, src, ln, co):
            if pick('line is in the file', repr(it.freeze(src)), ln):
                t = lambda n: TXT(n, it.freeze(src), ln, co)
                f.update(pre_context=F(Vec([t('before')])), context_line=F(some(t('context'))), post_context=F(Vec([t('after')])))

        def expected():
            nonlocal want
            if line == 0:
                return F(Enum(IFC + 'JsModuleErrorKind', 'InvalidLocation', {'line': 0, 'col': none() if col is None else some(col)}))
            opened.append(ABS)
            if it.minified != 'Ok':
                return 'ScrapingDisabled' if it.minified == 'disabled' else 'MissingSource'
            if it.context:
                context(raw, TXT('minified'), line, col or 0)
            label = Str('https://h/maps/a.map') if it.url == 'remote' else Str(ABS) if it.url == 'none' else None
            if it.smc == 'none':
                want = dict(raw)
                return None
            if it.smc == 'Malformed':
                raw.update(resolved_with=F(some(Enum(RESOLVED, 'DebugId', []))), sourcemap_origin=F(some(uri('map'))))
                return 'MalformedSourcemap' if label is None else F(Enum(IFC + 'JsModuleErrorKind', 'MalformedSourcemap', {'url': label}))
            if it.smc != 'Ok':
                return 'ScrapingDisabled' if it.smc == 'disabled' else 'MissingSourcemap'
            if it.positions != [(line - 1, max(0, (col or 0) - 1))]:
                msgs.append(('position', f'the tokens at {it.positions} are looked up for line {line} and column {col}'))
            if not pick('a token is at the position'):
                return F(Enum(IFC + 'JsModuleErrorKind', 'InvalidLocation', {'line': line, 'col': some(col or 0)}))
            want.update(symbolicated=F(True), lineno=F(42), colno=F(some(4)), resolved_with=F(some(Enum(RESOLVED, 'DebugId', []))), sourcemap_origin=F(some(uri('map'))))
            if label is not None:
                want['sourcemap'] = F(some(label))
            else:
                want.pop('sourcemap')
            named = pick('token has a name')
            scope = it.ctx.choose(('scope',), ['named', 'async', 'Anonymous', 'Unknown'] if name == 'names' else ['named'])
            s = {'named': S('scope ', TXT('scope')), 'async': TXT('token') if named else S('$async$', TXT('scope')), 'Anonymous': Str('<anonymous>'), 'Unknown': TXT('fn') if it.fn else Str('<unknown>')}[scope]
            fn = TXT('function name', F(TXT('fn')) if it.fn else '-', F(s), '-')
            want['function'] = F(some(TXT('folded', it.freeze(fn))))
            fname = it.ctx.choose(('file name of the token',), ['none', 'plain', 'webpack']) if name == 'frame' else 'plain'
            base = Str('https://h/maps/a.map') if it.url == 'remote' else Str(ABS)
            if fname != 'none':
                f = {'plain': S('src/', TXT('file')), 'webpack': S('webpack:///', TXT('file'))}[fname]
                joined = join(it, [base, f])
                want['abs_path'] = F(joined)
                if fname == 'webpack':
                    f2 = TXT('webpack', it.freeze(f))
                    want['filename'], want['module'] = F(some(f2)), F(some(TXT('module of', it.freeze(f2))))
                else:
                    want['filename'] = F(some(f))
                    if not it.old and it.ctx.choose(('joined path',), JOINED[it.prefixes]) not in ('/', 'ftp:'):
                        want['module'] = F(some(TXT('module of', it.freeze(joined))))
                if it.context and name == 'frame' and pick('token has a file'):
                    missing = lambda src: 'MissingSourceContent' if label is None else F(Enum(IFC + 'JsModuleErrorKind', 'MissingSourceContent', {'source': src, 'sourcemap': label}))
                    if pick('file has its source'):
                        context(want, TXT('embedded'), 42, 4)
                    elif pick('file has a name') and it.sourced:
                        if it.sourced != [F(joined).strip('"')]:
                            msgs.append(('source file', f'{it.sourced} is looked up for the source {F(joined)}'))
                        if pick('source is an artifact'):
                            context(want, TXT('artifact'), 42, 4)
                        else:
                            errs.append(missing(joined))
                    else:
                        if it.sourced or pick('file has a name'):
                            msgs.append(('source file', f'{it.sourced} is looked up for the source {F(joined)}'))
                        errs.append(missing(Str('')))
            return None
        e = expected()
        have = errors_of(it, it.field(r, 'errors'))
        if e:
            want = dict(raw)
            errs.append(e)
        if [p for p, _ in have] != [ABS] * len(errs) or any(x != (y if '(' in x or '{' in x else y.split('(')[0].split('::')[-1]) for x, y in zip(errs, [k for _, k in have])):
            msgs.append(('error', f'{have} is reported instead of {errs}'))
        got = [frame_of(it, f) for s in items(it, it.field(r, 'stacktraces')) for f in items(it, it.field(it.force(s), 'frames'))]
        sub = [frame_of(it, f) for s in items(it, it.field(r, 'raw_stacktraces')) for f in items(it, it.field(it.force(s), 'frames'))]
        if len(got) != 1 or len(sub) != 1:
            return 'frames', f'one frame is answered with {len(got)} and {len(sub)} submitted ones'
        for what, g, w in (('frame', got[0], want), ('submitted frame', sub[0], raw)):
            for n in w:
                if g[n] != w[n]:
                    msgs.append((f'{n} of the {what}', f'{n} is {g[n]} instead of {w[n]}'))
        if [p for p, _ in it.opened] != opened:
            msgs.append(('files', f'the files {it.opened} are looked up'))
        if it.opened and it.known != (it.opened[0][1] not in ('None', 'Option::None')) and it.force(Term('parse', (Str('id'), '?'), Ty('Result', Ty('?'), Ty('?')))).variant == 'Ok':
            msgs.append(('debug id', f'the file is looked up with the debug id {it.opened[0][1]}'))
        return msgs
    for name in ('position', 'files', 'names', 'frame'):
        c.product(name, SYMJS, spec, given=lambda it, n=name: given(it, n), floor=8, **js_models())


# ------------------------------------------------------------------ J03: order of lookups
U_TY = 'symbolicator_sources::remotefile::RemoteFileUri'
URLS = ['https://h/js/a.js?v=1', 'https://h/js/a.js', '~/js/a.js?v=1', '~/js/a.js']
ruri = lambda n: Struct(U_TY, {'0': Str('uri ' + n)})
method('remote file', 'uri')(lambda c: ruri(c.v.n))
method('bundle', 'get')(lambda c: c.v)


@method('bundle', 'source_by_debug_id')
def _(c):
    it, k = c.it, c.v.holds
    got, ty = show(it.freeze(deref(c.a(0)))), it.force(deref(c.a(1))).variant
    it.asked.append((c.v.n, got, ty))
    return Enum('Result', 'Err', [Str('broken')]) if k == 'unreadable' else ok(some(Native('descriptor', n=c.v.n, how='debug id')) if k in ('id', 'id and url') and got == it.id and ty == it.type else none())


@method('bundle', 'source_by_url')
def _(c):
    it, k = c.it, c.v.holds
    u = text(it, c.a(0))
    at = {'url 0': [0], 'url 1': [1], 'url 3': [3], 'id and url': [0]}.get(k, [])
    return Enum('Result', 'Err', [Str('broken')]) if k == 'unreadable' else ok(some(Native('descriptor', n=c.v.n, how=u)) if u in [URLS[i] for i in at] else none())


def j03(c):
    BUNDLES = ['none', 'failed', 'unreadable', 'other', 'id', 'url 0', 'url 3', 'id and url']
    ID = Term('debug id', (), Ty('DebugId'))
    how = lambda n: Enum(RESOLVED, n, [])
    entry_of = lambda n, what: entry(what, ok(Native('content', n=n)), 'Url')

    def key_of(it, kind):
        path, did = Str(URLS[0]), some(ID)
        v, f = {'source': ('Source', {'abs_path': path}), 'minified': ('MinifiedSource', {'abs_path': path, 'debug_id': none()}), 'minified with id': ('MinifiedSource', {'abs_path': path, 'debug_id': did}),
                'map': ('SourceMap', {'abs_path': some(path), 'debug_id': none()}), 'map with id': ('SourceMap', {'abs_path': some(path), 'debug_id': did}),
                'map by id': ('SourceMap', {'abs_path': none(), 'debug_id': did})}[kind]
        it.type = {'Source': 'Source', 'MinifiedSource': 'MinifiedSource', 'SourceMap': 'SourceMap'}[v]
        return Enum(LOOKUP + 'FileKey', v, f)

    def bundle(it, n, holds, res):
        v = cerr(it, 'NotFound') if holds == 'failed' else ok(Tup([Native('bundle', n=n, holds=holds), how(res)]))
        return [ruri(n), v]

    def artifact(it, n, headers):
        return Struct(LOOKUP + 'IndividualArtifact', {'remote_file': Native('remote file', n=n), 'headers': Map([[Str('sourcemap'), Str('x')]] if headers else []), 'resolved_with': how('ReleaseOld')})

    def given(it, name):
        ch = lambda n, o: it.ctx.choose((n,), o)
        setup_keys()(it)
        it.asked, it.queries, it.memo, it.attempts, it.id = [], [], [], Vec([]), show(it.freeze(ID))
        it.kind = ch('file', ['source', 'minified', 'minified with id', 'map', 'map with id', 'map by id'] if name == 'known' else ['minified', 'minified with id', 'map by id'])
        it.has_id, it.has_path = 'id' in it.kind.split(), it.kind != 'map by id'
        it.holds = {}
        for n in ('a', 'b') if name == 'known' else ('a',):
            h = ch(f'known bundle {n}', BUNDLES if name == 'known' else ['none', 'other'])
            if h == 'none' and n == 'a':
                it.holds = {}
                break
            if h != 'none':
                it.holds[n] = h
        it.hit = bool(it.holds) and name == 'known' and not any('id' in h or 'url' in h for h in it.holds.values()) and ch('file was found before', [False, True])
        it.singles = {}
        s = ch('known artifact', ['none', 'other', 0, 2]) if name == 'known' else ch('known artifact', ['none', 'other'])
        if s != 'none':
            it.singles[URLS[s] if s != 'other' else 'https://h/other.js'] = 'k'
        it.headers = bool(it.singles) and name == 'known' and ch('artifact has headers', [True, False])
        it.release = ch('release', [True, False]) if name != 'known' else False
        it.answer = []
        if name == 'server':
            it.fails = ch('server fails', [False, True])
            for i in range(0 if it.fails else ch('answers', [0, 1, 2])):
                it.answer.append(ch(f'answer {i}', ['known bundle', 'bundle id', 'bundle url 0', 'bundle failed', 'bundle other', 'artifact', 'other artifact']))
        else:
            it.fails = True
        scr = struct_of(c, it, SVC + 'types::ScrapingConfig', enabled=False)
        f = struct_of(c, it, LOOKUP + 'ArtifactFetcher', scope=req_scope(), scraping_attempts=it.attempts, scraping=scr, release=some(Str('release')) if it.release else none(), dist=none(),
                      source=Native('source'), artifact_bundles=Map([bundle(it, n, h, 'Release') for n, h in it.holds.items()]),
                      individual_artifacts=Map([[Str(u), artifact(it, n, it.headers)] for u, n in it.singles.items()]))
        return {'self': f, 'key': key_of(it, it.kind)}

    def results(it):
        r = []
        for i, x in enumerate(it.answer):
            file = Native('remote file', n='a' if x == 'known bundle' else f'new {i}')
            if 'bundle' in x:
                r.append(Enum(JSC + 'api_lookup::JsLookupResult', 'ArtifactBundle', {'remote_file': file, 'resolved_with': how('Release')}))
            else:
                r.append(Enum(JSC + 'api_lookup::JsLookupResult', 'IndividualArtifact', {'remote_file': file, 'abs_path': Str(URLS[1] if x == 'artifact' else 'https://h/x.js'), 'headers': Map([]), 'resolved_with': how('Index')}))
        return r

    def hooks(it0=None):
        def query(it, a):
            it.queries.append([show(it.freeze(deref(x))) for x in a[2:6]])
            return Future(lambda: cerr(it, 'DownloadError', Str('x')) if it.fails else ok(Vec(results(it))))

        def objects(it, a):
            h = it.force(deref(a[1]))
            f = it.force(deref(it.field(h, 'file_source')))
            n, i = f.n, f.n.split()[-1]
            it.opened.append((n, show(it.freeze(it.field(h, 'scope')))))
            holds = it.answer[int(i)] if i.isdigit() else 'other'
            return Future(lambda: cerr(it, 'NotFound') if holds == 'bundle failed' else ok(Native('object', n=n, holds=holds.replace('bundle ', ''))))

        def file(it, a):
            it.got.append((show(it.freeze(deref(a[1]))), it.force(deref(a[2])).n, deref(a[3])))
            r = it.ctx.choose(('artifact',), ['Ok', 'NotFound', 'Timeout'])
            v = ok(TXT('artifact')) if r == 'Ok' else cerr(it, r, *([Term('duration', (), Ty('Duration'))] if r == 'Timeout' else []))
            return Future(lambda: Struct(T_ENTRY.name, {'metadata': none(), 'contents': v}))

        def try_get(it, a):
            return some(Tup([ruri('a'), entry('memoized', ok(Native('content', n='memoized')), 'Url'), how('Url')])) if it.hit else none()

        def insert(it, a):
            it.memo.append((show(it.freeze(deref(a[1]))), show(it.freeze(deref(a[2]))), show(it.freeze(deref(a[4])))))
            return UNIT

        h = js_hooks()
        h.pop('get_release_file_candidate_urls')
        h.pop('CacheError::into')
        return {**h, 'SentryLookupApi::lookup_js_artifacts': query, 'ObjectsActor::fetch': objects, 'open_bundle': lambda it, a: ok(Native('bundle', n=deref(a[0]).n, holds=deref(a[0]).holds)),
                'SourceFilesCache::fetch_file': file, 'FileInBundleCache::try_get': try_get, 'FileInBundleCache::insert': insert,
                'CachedFile::from_descriptor': lambda it, a: ok(Native('content', n='bundle ' + deref(a[1]).n, how=deref(a[1]).how)),
                'resolve_sourcemap_url': lambda it, a: none()}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        msgs, r = [], it.force(out.value)
        tries = attempts(it)
        key = show(it.freeze(a[1]))
        where = show(it.freeze(it.field(r, 'uri')))
        res = it.force(it.field(r, 'resolved_with')).variant
        cont = it.force(it.field(r, 'entry'))
        holds, singles = dict(it.holds), dict(it.singles)

        def locate():
            if it.hit and holds:
                return 'memo', None, None
            if it.has_id:
                m = [n for n, h in holds.items() if h in ('id', 'id and url')]
                if m:
                    return 'bundle', m, 'DebugId'
            if it.has_path:
                for i, u in enumerate(URLS):
                    m = [n for n, h in holds.items() if h == f'url {i}' or h == 'id and url' and i == 0]
                    if m:
                        return 'bundle', m, 'Release'
                for u in URLS:
                    if u in singles:
                        return 'artifact', singles[u], 'ReleaseOld' if singles[u] == 'k' else 'Index'
            return None
        found = locate()
        if found is None:
            ask = it.has_id or it.release
            want = [[x for x in (it.id,) if it.has_id], ['/js/a'] if it.has_path else []]
            if len(it.queries) != ask:
                return 'queries', f'the server is asked {len(it.queries)} times for a file that is not known yet'
            if ask:
                q = it.queries[0]
                if (it.id in q[0]) != it.has_id or ('/js/a' in q[1]) != it.has_path or 'a.js' in q[1] or ('release' in q[2]) != it.release or q[3] != show(none()):
                    msgs.append(('query', f'the server is asked for {q}'))
                for i, x in enumerate(it.answer):
                    if x.startswith('bundle '):
                        holds[f'new {i}'] = x[7:]
                    elif x == 'known bundle':
                        holds.setdefault('a', 'other')
                    elif x == 'artifact':
                        singles.setdefault(URLS[1], f'new {i}')
                found = locate()
        elif it.queries:
            msgs.append(('queries', 'the server is asked for a file that is already known'))
        new = [f'new {i}' for i, x in enumerate(it.answer) if x.startswith('bundle ')] if it.queries else []
        new += ['a'] if it.queries and 'known bundle' in it.answer and 'a' not in it.holds else []
        scope = show(it.freeze(req_scope()))
        if sorted(it.opened) != sorted((n, scope) for n in new):
            msgs.append(('opened', f'the bundles {it.opened} are opened although {new} are new'))
        paths = [URLS[0]] if it.has_path else []
        if found is None:
            if tries and [(p, v) for p, v, _ in tries] != [(p, 'Failure') for p in paths] or cont.variant != 'Err' or it.got:
                msgs.append(('last resort', f'a file that is nowhere is answered with {show(it.freeze(cont))} and {tries}'))
            if it.has_path and 'ScrapedFile' not in where:
                msgs.append(('last resort', f'a file that is nowhere is not looked up in the web but {where}'))
            return msgs
        if tries != [(p, 'NotAttempted', None) for p in paths]:
            msgs.append(('scraping', f'{tries} is reported for a file that was found'))
        kind, n, w = found
        if kind == 'memo':
            if 'memoized' not in where:
                msgs.append(('memo', f'{where} is used although the file was found before'))
            return msgs
        if res != w:
            msgs.append(('resolved with', f'a file found with {w} is marked {res}'))
        if kind == 'bundle':
            if 'Bundled' not in where or not any(f'uri {x}' in where for x in n) or cont.variant != 'Ok' or it.force(cont.fields[0]).n not in ['bundle ' + x for x in n]:
                msgs.append(('bundle', f'{where} with {show(it.freeze(cont))} is answered for a file of the bundles {n}'))
            if it.got:
                msgs.append(('bundle', 'an artifact is downloaded though a bundle has the file'))
            u = [m[0] for m in it.memo]
            if len(it.memo) != 1 or key not in it.memo[0][1] or not any(f'uri {x}' in it.memo[0][0] and f'uri {x}' in where for x in n) or it.memo[0][2] != show(it.freeze(r)):
                msgs.append(('memo', f'{it.memo} is remembered for {key} of {n}'))
            return msgs
        if it.memo:
            msgs.append(('memo', 'an artifact is remembered as a file of a bundle'))
        if it.got != [(show(it.freeze(req_scope())), n, True)] or f'uri {n}' not in where or 'IndividualFile' not in where:
            return 'artifact', f'{it.got} is downloaded and {where} answered for the artifact {n}'
        k = it.ctx.choose(('artifact',), ['Ok', 'NotFound', 'Timeout'])
        good = k == 'Ok' or k == 'NotFound' and it.headers and n == 'k'
        if (cont.variant == 'Ok') != good:
            msgs.append(('artifact', f'an artifact with {k} is answered with {show(it.freeze(cont))}'))
        elif good and ('artifact' in show(it.freeze(it.field(it.force(cont.fields[0]), 'contents')))) != (k == 'Ok'):
            msgs.append(('artifact', 'the contents of the artifact are not answered'))
        return msgs

    def start(name):
        def f(it):
            it.opened, it.got = [], []
            return given(it, name)
        return f
    for name in ('known', 'server'):
        c.product(name, LOOKUP + 'ArtifactFetcher::get_file', spec, given=start(name), floor=100, opaque=hooks())

    # ---- the source map of a file
    def mini(it):
        setup_keys()(it)
        it.attempts, it.asked = Vec([]), []
        it.mid = it.ctx.choose(('module has a debug id',), [True, False])
        it.first = it.ctx.choose(('file',), ['found', 'missing'])
        it.fid = it.first == 'found' and it.ctx.choose(('file has a debug id',), [True, False])
        it.ref = it.ctx.choose(('source map reference',), ['none', 'data', 'remote']) if it.first == 'found' else 'none'
        return {'self': struct_of(c, it, LOOKUP + 'ArtifactFetcher', scope=req_scope(), scraping_attempts=it.attempts), 'abs_path': Str(URLS[0]), 'debug_id': some(ID) if it.mid else none()}

    FID = Term('debug id of the file', (), Ty('DebugId'))

    def get_file(it, a):
        k = it.force(deref(a[1]))
        it.asked.append((k.variant, show(it.freeze(k.fields['abs_path'])), show(it.freeze(k.fields['debug_id']))))
        if len(it.asked) > 1:
            return Future(lambda: entry('found map', ok(Struct(LOOKUP + 'CachedFile', {'contents': some(TXT('map')), 'sourcemap_url': none(), 'debug_id': none()})), 'Index'))
        url = {'none': none(), 'data': some(Enum(LOOKUP + 'SourceMapUrl', 'Data', [TXT('data')])), 'remote': some(Enum(LOOKUP + 'SourceMapUrl', 'Remote', [Str('https://h/a.map')]))}[it.ref]
        v = ok(Struct(LOOKUP + 'CachedFile', {'contents': some(TXT('file')), 'sourcemap_url': url, 'debug_id': some(FID) if it.fid else none()})) if it.first == 'found' else cerr(it, 'NotFound')
        return Future(lambda: entry('found file', v, 'DebugId'))

    def smc(it, a):
        it.made.append((show(it.freeze(it.field(deref(a[1]), 'uri'))), show(it.freeze(it.field(deref(a[2]), 'uri'))), show(it.freeze(it.field(deref(a[2]), 'entry'))), it.force(it.field(deref(a[2]), 'resolved_with')).variant))
        return Future(lambda: entry('made', ok(Native('smcache')), 'Index'))

    def spec2(it, a, out):
        if out.panic:
            return 'panic', out.panic
        t = it.force(out.value).items
        F = lambda v: show(it.freeze(v))
        did = ID if it.mid else FID if it.fid else None
        want = [('MinifiedSource', F(Str(URLS[0])), F(some(ID) if it.mid else none()))]
        if it.ref == 'remote':
            want.append(('SourceMap', F(some(Str('https://h/a.map'))), F(none() if did is None else some(did))))
        elif it.ref == 'none' and did is not None:
            want.append(('SourceMap', F(none()), F(some(did))))
        if it.asked != want:
            return 'files', f'{it.asked} are looked up instead of {want}'
        if 'found file' not in F(t[0]):
            return 'file', f'{F(t[0])} is answered for the file'
        expect = it.ref != 'none' or did is not None
        if (it.force(t[1]).variant == 'Some') != expect or len(it.made) != expect:
            return 'source map', f'{len(it.made)} source maps are made and {F(t[1])} answered with the reference {it.ref} and the debug id {did}'
        if expect:
            f, u, e, w = it.made[0]
            if 'found file' not in f or (('Embedded' not in u or 'data' not in e or w != 'DebugId') if it.ref == 'data' else ('found map' not in u)):
                return 'source map', f'the source map of {f} is made from {u}'
            if 'made' not in F(t[1]):
                return 'source map', f'{F(t[1])} is answered'

    def start2(it):
        it.made = []
        return mini(it)
    h = hooks()
    c.product('source map', LOOKUP + 'ArtifactFetcher::fetch_minified_and_sourcemap', spec2, given=start2, floor=10, models={'rand::random': lambda it, a: 0.5},
              opaque={**h, 'ArtifactFetcher::get_file': get_file, 'ArtifactFetcher::fetch_sourcemap_cache': smc})
