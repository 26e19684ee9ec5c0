"""M01 - M03: JVM symbolication."""
from .util import *
from .keys import struct_of, key_hooks, T_CERR, T_ENTRY
from . import files as F
from engine.std import m as method

PRO = 'symbolicator_proguard::'
IFACE = PRO + 'interface::'
T_FRAME, T_EXC, T_MOD = (Ty(IFACE + n) for n in ('JvmFrame', 'JvmException', 'JvmModule'))
SVCT = 'symbolicator_service::types::'
T_MAPPER = Ty('Mapper')


def mapper(n):
    return Native('mapper', n=n)


def asked(it, v, what, *args):
    """Whether a mapping file knows something: a fact about the file and the question."""
    return not it.simple and it.ctx.choose((f'mapping {v.n} {what}', *(it.freeze(deref(a)) for a in args)), [True, False])


@method('mapper', 'remap_class')
def _(c):
    k = it_str(c, 0)
    return some(Str((Term('class', (c.v.n, k), T_STR),))) if asked(c.it, c.v, 'knows class', k) else none()


@method('mapper', 'remap_method')
def _(c):
    k = it_str(c, 0), it_str(c, 1)
    if not asked(c.it, c.v, 'knows method', *k):
        return none()
    return some(Tup([Str((Term('method class', (c.v.n, *k), T_STR),)), Str((Term('method', (c.v.n, *k), T_STR),))]))


@method('mapper', 'deobfuscate_signature')
def _(c):
    k = it_str(c, 0)
    return some(Native('sig', n=c.v.n, sig=k)) if asked(c.it, c.v, 'knows signature', k) else none()


@method('mapper', 'remap_frame')
def _(c):
    q = frame_term(c.it, c.args[0])
    return c.it.method(c.it.std.temp_ref(Vec(remapped(c.it, c.v.n, q))), 'into_iter', [])


def it_str(c, i):
    return c.it.freeze(c.it.ctx.sstr(deref(c.args[i])))


def frame_term(it, f):
    f = it.force(deref(f))
    return Term('frame', tuple(it.freeze(f.fields[k]) for k in ('class', 'method', 'line', 'params')), Ty('Q'))


def remapped(it, n, q):
    k = it.ctx.choose((f'frames of mapping {n}', q), [0, 2] if it.simple else [0, 1] if it.few else [0, 1, 2])
    res = []
    for i in range(k):
        t = lambda w, ty=T_STR: Term(f'remapped {w}', (n, i, q), ty)
        file = some(Str((t('file'),))) if it.simple or it.few or it.ctx.choose((f'mapping {n} names the file of frame {i}', q), [True, False]) else none()
        res.append(Struct('StackFrame', {'class': Str((t('class'),)), 'method': Str((t('method'),)), 'line': t('line', Ty('usize')), 'file': file, 'params': none()}))
    return res


@method('sig', 'parameters_types')
def _(c):
    t = [Str((Term('parameter', (c.v.n, c.v.sig, i), T_STR),)) for i in range(c.it.ctx.choose(('number of parameters', c.v.n, c.v.sig), [0, 1, 2]))]
    return c.it.method(c.it.std.temp_ref(Vec(t)), 'into_iter', [])


method('sig', 'format_signature')(lambda c: Str((Term('signature', (c.v.n, c.v.sig), T_STR),)))

MODELS = {
    'StackFrame::new': lambda it, a: Struct('StackFrame', {'class': it.ctx.sstr(deref(a[0])), 'method': it.ctx.sstr(deref(a[1])), 'line': deref(a[2]), 'file': none(), 'params': none()}),
    'StackFrame::with_parameters': lambda it, a: Struct('StackFrame', {'class': it.ctx.sstr(deref(a[0])), 'method': it.ctx.sstr(deref(a[1])), 'line': 0, 'file': none(), 'params': some(it.ctx.sstr(deref(a[2])))}),
}
MODELS['proguard::StackFrame::new'], MODELS['proguard::StackFrame::with_parameters'] = MODELS['StackFrame::new'], MODELS['StackFrame::with_parameters']
MMODELS = {'StackFrame.' + k: (lambda it, r, a, k=k: it.field(r, k)) for k in ('class', 'method', 'line', 'file')}


def frame(it, i, **given):
    T = lambda n, ty=T_STR: Term(f'frame {n}', (i,), ty)
    f = {'platform': T('platform', Ty('Option', Ty(SVCT + 'Platform'))), 'function': T('function'), 'filename': T('filename', Ty('Option', T_STR)), 'module': T('module'), 'abs_path': T('abs_path', Ty('Option', T_STR)),
         'lineno': T('lineno', Ty('Option', Ty('u32'))), 'pre_context': T('pre', Ty('Vec', T_STR)), 'context_line': T('context', Ty('Option', T_STR)), 'post_context': T('post', Ty('Vec', T_STR)),
         'in_app': T('in_app', Ty('Option', Ty('bool'))), 'index': T('index', Ty('usize')), 'signature': T('signature', Ty('Option', T_STR))}
    f.update(given)
    return f


def request(c, it, **given):
    f = {'exceptions': Vec([]), 'stacktraces': Vec([]), 'modules': Vec([]), 'classes': Vec([]), 'apply_source_context': False, 'release_package': none(), 'platform': none(), 'scope': Enum('symbolicator_service::types::Scope', 'Global', []),
         'sources': Term('sources', (), Ty('Arc', Ty('slice', Ty('symbolicator_sources::sources::SourceConfig'))))}
    f.update(given)
    return struct_of(c, it, IFACE + 'SymbolicateJvmStacktraces', **f)


def modules(*kinds):
    return Vec([Struct(IFACE + 'JvmModule', {'uuid': Term('uuid', (i,), Ty('DebugId')), 'r#type': Enum(IFACE + 'JvmModuleType', k, [])}) for i, k in enumerate(kinds)])


def uuid_of(it, v):
    return it.force(deref(v)).args[0]


def hooks(outcome, bundle=lambda it, n: ok(Term('bundle', (n,), Ty('Handle')))):
    """outcome(it, n) -> what loading the mapping file of module n ends with"""
    def load(it, a):
        n = uuid_of(it, a[3])
        it.loads.append(n)
        it.loaded_with.append((show(it.freeze(deref(a[1]))), show(it.freeze(deref(a[2])))))
        return Future(lambda: outcome(it, n))

    def bundle_of(it, a):
        n = uuid_of(it, a[3])
        it.bundles.append(n)
        return Future(lambda: bundle(it, n))
    return {**key_hooks(), 'ProguardService::download_proguard_file': load, 'ProguardService::download_source_bundle': bundle_of, 'OwnedProguardCache::get': lambda it, a: it.std.temp_ref(mapper(it.force(deref(a[0])).args[0])),
            'record_symbolication_metrics': lambda it, a: UNIT, **getattr(hooks, 'extra', {})}


def setup(it):
    it.loads, it.bundles, it.loaded_with, it.simple, it.few = [], [], [], False, False


def loaded(it, n):
    return ok(Term('loaded mapping', (n,), Ty(PRO + 'service::OwnedProguardCache')))


def oval(it, v):
    o = it.force(v)
    return o.fields[0] if o.variant == 'Some' else None


def first(xs):
    return next((x for x in xs if x is not None), None)


def want_frame(it, f, mappers, package):
    """The frames that must replace a submitted one."""
    ctx = it.ctx
    Fm = lambda n, *q: not it.simple and ctx.choose((n, *q), [True, False])
    sig = None
    if oval(it, f['signature']) is not None:
        t = it.freeze(ctx.sstr(oval(it, f['signature'])))
        sig = next(((n, t) for n in mappers if Fm(f'mapping {n} knows signature', t)), None)
    params = None
    if sig is not None:
        params = [Str((Term('parameter', (*sig, i), T_STR),)) for i in range(ctx.choose(('number of parameters', *sig), [0, 1, 2]))]
    line = oval(it, f['lineno'])
    cl, me = ctx.sstr(f['module']), ctx.sstr(f['function'])
    ps = none()
    if line is None and params is not None:
        s = []
        for i, x in enumerate(params):
            s += ([','] if i else []) + [x]
        ps = some(S(*s))
    q = Struct('StackFrame', {'class': cl, 'method': me, 'line': 0 if line is None else line, 'file': none(), 'params': ps})
    q = frame_term(it, q)
    got = None
    for n in mappers:
        fr = remapped(it, n, q)
        if fr:
            got = []
            for x in reversed(fr):
                x = x.fields
                g = dict(f, module=x['class'], function=x['method'], lineno=some(x['line']))
                if oval(it, x['file']) is not None:
                    g['filename'] = g['abs_path'] = x['file']
                if not it.ctx.truth(it.eq(x['class'], fr[-1].fields['class'])):
                    g['filename'] = g['abs_path'] = none()
                got.append(g)
            break
    if got is None:
        for n in mappers:
            k = it.freeze(cl), it.freeze(me)
            if Fm(f'mapping {n} knows method', *k):
                got = [dict(f, module=Str((Term('method class', (n, *k), T_STR),)), function=Str((Term('method', (n, *k), T_STR),)))]
                break
    if got is None:
        for n in mappers:
            k = it.freeze(cl)
            if Fm(f'mapping {n} knows class', k):
                got = [dict(f, module=Str((Term('class', (n, k), T_STR),)))]
                break
    if got is None:
        got = [dict(f)]
    else:
        for g in got:
            if package is not None and oval(it, g['in_app']) is None and it.method(it.std.temp_ref(g['module']), 'starts_with', [package]):
                g['in_app'] = some(True)
    if sig is not None:
        for g in got:
            g['signature'] = some(Str((Term('signature', sig, T_STR),)))
    return got


def same_frame(it, got, want):
    """None or the name of the first field that differs."""
    got = it.force(got)
    for k in want:
        a, b = it.field(got, k), want[k]
        if repr(it.freeze(a)) == repr(it.freeze(b)):
            continue
        if k == 'lineno':
            a, b = oval(it, a), oval(it, b)
            if (a is None) != (b is None) or a is not None and num(it, a) != num(it, b):
                return k
        elif not it.ctx.truth(it.eq(it.force(a) if k in ('filename', 'abs_path', 'in_app', 'signature', 'context_line', 'platform') else a, it.force(b) if k in ('filename', 'abs_path', 'in_app', 'signature', 'context_line', 'platform') else b)):
            return k
    return None


def num(it, v):
    """Line numbers are u32 here and usize in the proguard crate."""
    v = it.freeze(v)
    while isinstance(v, Term) and v.op in ('as', 'cast'):
        v = v.args[0]
    return repr(v)


def m01(c):
    def start(kw):
        def given(it):
            setup(it)
            return {'self': Term('service', (), Ty(PRO + 'service::ProguardService')), 'request': request(c, it, modules=modules('Proguard', 'Proguard'), **kw(it))}
        return given

    def resp(it, out):
        return it.force(out.value)

    # ---- frames
    def frames(it, mode):
        it.simple = mode == 'package'
        it.f = frame(it, 0, **({} if mode == 'signature' else {'signature': none()}))
        it.few = mode == 'signature'
        it.pkg = Term('package', (), T_STR)
        it.haspkg = mode == 'package'
        return {'stacktraces': Vec([Struct(IFACE + 'JvmStacktrace', {'frames': Vec([Struct(T_FRAME.name, dict(it.f))])})]), 'release_package': some(it.pkg) if it.haspkg else none()}

    def frame_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = resp(it, out)
        st = items(it, it.field(r, 'stacktraces'))
        if len(st) != 1:
            return 'stack traces', f'one stack trace is answered with {len(st)}'
        got = items(it, it.field(it.force(st[0]), 'frames'))
        want = want_frame(it, it.f, (0, 1), it.pkg if it.haspkg else None)
        if len(got) != len(want):
            return 'frames', f'{len(got)} frames instead of {len(want)}'
        for g, w in zip(got, want):
            d = same_frame(it, g, w)
            if d:
                return f'frame field {d}', f'is {show(it.field(it.force(g), d))} instead of {show(w[d])}'
    for mode in ('remapping', 'signature', 'package'):
        c.product('frame: ' + mode, PRO + 'service::ProguardService::symbolicate_jvm', frame_spec, given=start(lambda it, mode=mode: frames(it, mode)), models=MODELS, mmodels=MMODELS, opaque=hooks(loaded), floor=10)

    # ---- several stack traces and frames that nothing can remap keep their places
    def shape(it):
        it.shape = [it.ctx.choose(('number of frames', i), [0, 1, 2]) for i in range(it.ctx.choose(('number of stack traces',), [0, 1, 2]))]
        n, sts = 0, []
        it.fs = []
        for k in it.shape:
            fs = [frame(it, n + j, signature=none(), lineno=none(), platform=none(), in_app=none()) for j in range(k)]
            n += k
            it.fs.append(fs)
            sts.append(Struct(IFACE + 'JvmStacktrace', {'frames': Vec([Struct(T_FRAME.name, dict(f)) for f in fs])}))
        return {'stacktraces': Vec(sts), 'modules': modules('Proguard')}

    def shape_given(it):
        setup(it)
        it.simple = True
        kw = shape(it)
        return {'self': Term('service', (), Ty(PRO + 'service::ProguardService')), 'request': request(c, it, **kw)}

    def shape_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        st = items(it, it.field(resp(it, out), 'stacktraces'))
        if len(st) != len(it.fs):
            return 'stack traces', f'{len(it.fs)} stack traces are answered with {len(st)}'
        for s, fs in zip(st, it.fs):
            got = items(it, it.field(it.force(s), 'frames'))
            want = [w for f in fs for w in want_frame(it, f, (0,), None)]
            if len(got) != len(want) or any(same_frame(it, g, w) for g, w in zip(got, want)):
                return 'order', f'{len(fs)} frames are answered with {len(got)} frames that are not theirs in their order'
    c.product('stack traces', PRO + 'service::ProguardService::symbolicate_jvm', shape_spec, given=shape_given, models={**MODELS}, mmodels={**MMODELS}, opaque=hooks(loaded), floor=20)

    # ---- exceptions
    def excs(it):
        n = it.ctx.choose(('number of exceptions',), [0, 1, 2])
        it.ex = [(Term('type', (i,), T_STR), Term('module', (i,), T_STR)) for i in range(n)]
        return {'exceptions': Vec([Struct(T_EXC.name, {'ty': t, 'module': m}) for t, m in it.ex])}

    def exc_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        got = items(it, it.field(resp(it, out), 'exceptions'))
        if len(got) != len(it.ex):
            return 'exceptions', f'{len(it.ex)} exceptions are answered with {len(got)}'
        for g, (t, m) in zip(got, it.ex):
            k = it.freeze(it.ctx.norm(S(m, '.', t)))
            n = next((n for n in (0, 1) if it.ctx.choose((f'mapping {n} knows class', k), [True, False])), None)
            w = m, t
            if n is not None:
                full = Str((Term('class', (n, k), T_STR),))
                r = it.force(it.method(it.std.temp_ref(full), 'rsplit_once', [Chr('.')]))
                if r.variant == 'Some':
                    w = tuple(r.fields[0].items)
            g = it.force(g)
            if not (it.ctx.truth(it.eq(it.field(g, 'module'), w[0])) and it.ctx.truth(it.eq(it.field(g, 'ty'), w[1]))):
                return 'exception', f'is {show(it.field(g, "module"))}.{show(it.field(g, "ty"))} instead of {show(w[0])}.{show(w[1])}'
    c.product('exception', PRO + 'service::ProguardService::symbolicate_jvm', exc_spec, given=start(excs), models=MODELS, mmodels=MMODELS, opaque=hooks(loaded), floor=8)

    # ---- classes
    def classes(it):
        n = it.ctx.choose(('number of classes',), [0, 1, 2])
        it.cls = [Str((Term('plain', (f'class{i}',), T_STR),)) for i in range(n)]
        return {'classes': Vec(list(it.cls))}

    def cls_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        mp = it.field(resp(it, out), 'classes')
        want = {}
        for x in it.cls:
            k = it.freeze(x)
            n = next((n for n in (0, 1) if it.ctx.choose((f'mapping {n} knows class', k), [True, False])), None)
            if n is not None:
                want[repr(k)] = repr(it.freeze(Str((Term('class', (n, k), T_STR),))))
        got = {}
        for p in items(it, it.method(it.std.temp_ref(mp), 'into_iter', [])):
            k, v = it.force(deref(p)).items
            got[repr(it.freeze(it.ctx.sstr(deref(k))))] = repr(it.freeze(it.ctx.sstr(deref(v))))
        if got != want:
            return 'classes', f'{got} instead of {want}'
    c.product('classes', PRO + 'service::ProguardService::symbolicate_jvm', cls_spec, given=start(classes), models=MODELS, mmodels=MMODELS, opaque=hooks(loaded), floor=8)


# ------------------------------------------------------------------ M02
KINDS = ('NotFound', 'PermissionDenied', 'Timeout', 'DownloadError', 'Malformed', 'Unsupported', 'InternalError')


def cache_err(it, k, i=0):
    arg = {'Timeout': [Term('duration', (i,), Ty('Duration'))]}.get(k, [S('error: ', Str((Term('reason', (i,), T_STR),)))] if k not in ('NotFound', 'InternalError') else [])
    return Enum('Result', 'Err', [Enum(T_CERR.name, k, arg)])


def errors_of(it, out):
    res = []
    for e in items(it, it.field(it.force(out.value), 'errors')):
        e = it.force(e)
        res.append((uuid_of(it, it.field(e, 'uuid')), it.force(it.field(e, 'kind')).variant))
    return res


def m02(c):
    SYM = PRO + 'service::ProguardService::symbolicate_jvm'
    f0 = lambda it: frame(it, 0, signature=none(), lineno=none(), platform=none(), in_app=none())

    def outcome(it, n):
        k = it.ctx.choose(('loading', n), ['Ok', *KINDS])
        return loaded(it, n) if k == 'Ok' else cache_err(it, k, n)

    def given(it):
        setup(it)
        it.few = True
        it.f = f0(it)
        it.kinds = [it.ctx.choose(('type of module', i), ['Proguard', 'Source']) for i in range(it.ctx.choose(('number of modules',), [0, 1, 2]))]
        return {'self': Term('service', (), Ty(PRO + 'service::ProguardService')),
                'request': request(c, it, modules=modules(*it.kinds), stacktraces=Vec([Struct(IFACE + 'JvmStacktrace', {'frames': Vec([Struct(T_FRAME.name, dict(it.f))])})]))}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'the request is lost: {out.panic}'
        ids = [i for i, k in enumerate(it.kinds) if k == 'Proguard']
        if it.loads != ids:
            return 'modules', f'the mapping files of modules {it.loads} are loaded instead of {ids}'
        if any(x != ('sources', 'Scope::Global') for x in it.loaded_with):
            return 'parameters', f'a mapping file is looked up with {it.loaded_with[0]}'
        how = {i: it.ctx.known(('loading', i)) for i in ids}
        want = [(i, 'Invalid' if how[i] == 'Malformed' else 'Missing') for i in ids if how[i] != 'Ok']
        got = errors_of(it, out)
        if sorted(x for x, _ in got) != [x for x, _ in want]:
            return 'errors', f'errors are reported for modules {[x for x, _ in got]} instead of {[x for x, _ in want]}'
        bad = next(((g, how[g[0]]) for g in got if g not in want), None)
        if bad:
            return 'error kind', f'a mapping file whose loading ends with {bad[1]} is reported as {bad[0][1]}'
        st = items(it, it.field(it.force(out.value), 'stacktraces'))
        fs = items(it, it.field(it.force(st[0]), 'frames')) if len(st) == 1 else []
        w = want_frame(it, it.f, [i for i in ids if how[i] == 'Ok'], None)
        if len(fs) != len(w) or any(same_frame(it, g, x) for g, x in zip(fs, w)):
            return 'frames', 'frames are not remapped with the mapping files that could be loaded'
    c.product('outcomes', SYM, spec, given=given, models=MODELS, mmodels=MMODELS, opaque=hooks(outcome), floor=20)

    # ---- the way from the file to the reported error
    def download(it, a):
        f = F.tf(a[2])
        r = it.ctx.choose(('the download',), ['Ok', *KINDS])

        def go():
            if r == 'Ok':
                f.put(Term('downloaded', (), F.T_B))
                return ok(UNIT)
            it.failed.append(('download', r))
            return cache_err(it, r)
        return Future(go)

    def compute(it, a):
        req = it.force(deref(a[1]))
        fn = next((im.fns['compute'] for im in c.w.impls if im.trait and im.self_id == req.ty and 'compute' in im.fns), None)
        if fn is None:
            raise Unsupported('the cached item cannot be computed')
        tmp = it.std.temp_ref(F.TFile(it))
        r = it.force(it.await_value(it.call_def(fn, [it.std.temp_ref(req), tmp])))
        if r.variant == 'Err':
            c_ = it.std.convert(it, r.fields[0], T_CERR)
            r = Enum('Result', 'Err', [c_])
        else:
            r = loaded(it, 0) if it.ctx.choose(('the cache file loads',), [True, False]) else cache_err(it, 'InternalError')
        return Future(lambda: Struct(T_ENTRY.name, {'metadata': none(), 'contents': r}))

    def start(it):
        setup(it)
        F.setup(it)
        return {'self': struct_of(c, it, PRO + 'service::ProguardService'), 'request': request(c, it, modules=modules('Proguard'))}

    def listed(it, a):
        n = it.ctx.choose(('number of files found',), [0, 1, 2])
        return Future(lambda: Vec([Term('file', (i,), Ty('symbolicator_sources::remotefile::RemoteFile')) for i in range(n)]))

    def file_spec(it, a, out):
        if out.panic:
            return 'panic', f'the request is lost: {out.panic}'
        K = lambda *k: it.ctx.known(k)
        DOWN = Term('downloaded', (), F.T_B)
        if K('number of files found') == 0:
            want = 'Missing'
        elif K('the download') == 'Malformed':
            want = 'Invalid'
        elif it.failed or K('the download') not in ('Ok', None):
            want = 'Missing'
        elif K('a valid mapping', DOWN) is False:
            want = 'Invalid'
        elif K('has line mappings', DOWN) is False:
            want = 'NoLineInfo'
        else:
            want = None if K('the cache file loads') else 'Missing'
        got = errors_of(it, out)
        if got != ([(0, want)] if want else []):
            return 'error of a file', f'reported as {got[0][1] if got else "intact"} instead of {want or "intact"}'
    h = hooks(loaded)
    del h['ProguardService::download_proguard_file']
    c.product('files', SYM, file_spec, given=start, models={**MODELS, **F.MODELS}, mmodels=MMODELS, floor=15,
              opaque={**h, 'list_files': listed, 'Cacher::compute_memoized': compute, 'fetch_file': download, 'RemoteFile::to_scope': lambda it, a: UNIT, 'ObjectId::to_scope': lambda it, a: UNIT})


# ------------------------------------------------------------------ M03
@method('session', 'source_by_url')
def _(c):
    k = c.it.ctx.choose(('asking bundle', c.v.n, it_str(c, 0)), ['contents', 'no contents', 'nothing', 'error'])
    c.it.asked.append((c.v.n, it_str(c, 0)))
    if k == 'error':
        return Enum('Result', 'Err', [Term('session error', (), Ty('SourceBundleError'))])
    return ok(none() if k == 'nothing' else some(Native('descriptor', n=c.v.n, name=it_str(c, 0), full=k == 'contents')))


@method('descriptor', 'contents')
def _(c):
    return some(Str((Term('source', (c.v.n, c.v.name), T_STR),))) if c.v.full else none()


def context_hook(it, a):
    """get_context_lines: the lines around a line of a source, or nothing if it has fewer lines."""
    src, line = it.freeze(it.ctx.sstr(deref(a[0]))), num(it, a[1])
    it.contexts.append((src, line, num(it, a[2]), it.force(a[3]).variant))
    if not it.ctx.choose(('has line', src, line), [True, False]):
        return none()
    T = lambda w: Term(w, (src, line), T_STR)
    return some(Tup([Vec([Str((T('before'),))]), Str((T('line'),)), Vec([Str((T('after'),))])]))


def m03(c):
    SYM = PRO + 'service::ProguardService::symbolicate_jvm'

    def bundle(it, n):
        return ok(Term('bundle', (n,), Ty('Arc', Ty('symbolicator_service::objects::data_cache::ObjectHandle')))) if it.ctx.choose(('the bundle loads', n), [True, False]) else cache_err(it, 'NotFound')

    def session(it, r, a):
        n = it.force(deref(r))
        while isinstance(n, Term):
            n = n.args[0]
        k = it.ctx.choose(('session of bundle', n), ['source bundle', 'other', 'error'])
        if k == 'error':
            return Enum('Result', 'Err', [Term('object error', (), Ty('ObjectError'))])
        return ok(Enum('ObjectDebugSession', 'SourceBundle' if k == 'source bundle' else 'Dwarf', [Native('session', n=n)]))

    def given(it, apply):
        setup(it)
        it.simple, it.asked, it.contexts, it.applied = True, [], [], apply
        it.f = frame(it, 0, signature=none(), platform=none(), in_app=none(), filename=none())
        n = it.ctx.choose(('number of bundles',), [0, 1, 2])
        it.n = n
        return {'self': Term('service', (), Ty(PRO + 'service::ProguardService')),
                'request': request(c, it, apply_source_context=apply, modules=modules(*['Source'] * n), stacktraces=Vec([Struct(IFACE + 'JvmStacktrace', {'frames': Vec([Struct(T_FRAME.name, dict(it.f))])})]))}

    def file_of(it, f):
        """~/, the package of the module and the stem of the file; or the outer class of the module where no file is known."""
        call = lambda s, m, *a: it.method(it.std.temp_ref(s), m, list(a))
        mod = it.ctx.sstr(f['module'])
        path = oval(it, f['abs_path'])
        stem = None
        if path is not None and not it.ctx.truth(call(path, 'contains', Chr('$'))):
            r = it.force(call(path, 'rsplit_once', Chr('.')))
            stem = r.fields[0].items[0] if r.variant == 'Some' else None
        if stem is not None:
            r = it.force(call(mod, 'rsplit_once', Chr('.')))
            pkg = [call(r.fields[0].items[0], 'replace', Chr('.'), Str('/')), '/'] if r.variant == 'Some' else []
            return S('~/', *pkg, it.ctx.sstr(stem), '.jvm')
        r = it.force(call(mod, 'split_once', Chr('$')))
        return S('~/', call(r.fields[0].items[0] if r.variant == 'Some' else mod, 'replace', Chr('.'), Str('/')), '.jvm')

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        f, g = it.f, None
        st = items(it, it.field(it.force(out.value), 'stacktraces'))
        fs = items(it, it.field(it.force(st[0]), 'frames')) if len(st) == 1 else []
        if len(fs) != 1:
            return 'frames', f'one frame is answered with {len(fs)}'
        if it.bundles != list(range(it.n)):
            return 'modules', f'source bundles of modules {it.bundles} are loaded'
        want = dict(f)
        line = oval(it, f['lineno'])
        if it.applied and line is not None and not it.ctx.truth(it.eq(line, 0)):
            usable = [n for n in range(it.n) if it.ctx.known(('the bundle loads', n)) and it.ctx.known(('session of bundle', n)) == 'source bundle']
            name = it.freeze(it.ctx.norm(file_of(it, f))) if usable else None
            for n in usable:
                if it.ctx.choose(('asking bundle', n, name), ['contents', 'no contents', 'nothing', 'error']) != 'contents':
                    continue
                src = it.freeze(Str((Term('source', (n, name), T_STR),)))
                if it.ctx.choose(('has line', src, num(it, line)), [True, False]):
                    T = lambda w: Str((Term(w, (src, num(it, line)), T_STR),))
                    want.update(pre_context=Vec([T('before')]), context_line=some(T('line')), post_context=Vec([T('after')]))
                    break
        elif it.asked:
            return 'unneeded', 'source context is looked up although it is disabled or the frame has no line'
        if any(x[2] != '0' or x[3] != 'None' for x in it.contexts):
            return 'trimming', 'lines are not trimmed at their start with the default number of context lines'
        d = same_frame(it, fs[0], want)
        if d:
            return f'frame field {d}', f'is {show(it.field(it.force(fs[0]), d))} instead of {show(want[d])}'
    for apply in (True, False):
        c.product('source context' + ('' if apply else ' disabled'), SYM, spec, given=lambda it, apply=apply: given(it, apply), models=MODELS, floor=20 if apply else 3,
                  mmodels={**MMODELS, 'debug_session': session}, opaque={**hooks(loaded, bundle), 'get_context_lines': context_hook, 'ObjectHandle::object': lambda it, a: it.force(deref(a[0]))})
