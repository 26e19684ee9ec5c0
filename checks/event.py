"""symbolicli: what is sent for an event and what is shown of the result (A04)."""
from engine.check import *
from .util import *
from .keys import struct_of
from engine.std import m as method
from engine.dom import Future
from engine.fmt import format_args
from .download import status

EV, OUT, MAIN = 'symbolicli::event::', 'symbolicli::output::', 'symbolicli::'


def a_frame(c, it, k):
    """A frame of an event: usable by one platform, both or none."""
    usable = it.ctx.choose((f'usable{k}',), [True, False])
    full = it.ctx.choose((f'located{k}',), [True, False])
    return usable, full, struct_of(c, it, EV + 'Frame', instruction_addr=some(Term('addr', (k,), Ty('HexValue'))) if usable else none(),
                                   abs_path=some(Str(f'/abs{k}')) if full else none(), lineno=some(k + 1) if full else none(), function=some(Str(f'fn{k}')))


def trace(c, it, k, frames):
    return struct_of(c, it, EV + 'Stacktrace', frames=Vec([f for _, _, f in frames]), is_requesting=Term('requesting', (k,), Ty('bool')))


def requests(c):
    """create_native_symbolication_request and create_js_symbolication_request."""
    for kind in ('native', 'js'):
        def given(it, kind=kind):
            it.want = []
            it.n = 0
            groups = []
            for g, elem in (('exceptions', 'Exception'), ('threads', 'Thread')):
                if not it.ctx.choose((g,), [True, False]):
                    groups.append(none())
                    continue
                values = []
                for j in range(it.ctx.choose((g, 'n'), [0, 1, 2] if g == 'exceptions' else [0, 1])):
                    slots = {}
                    first = None
                    for slot in ('raw_stacktrace', 'stacktrace'):
                        if not it.ctx.choose((g, j, slot), [True, False]):
                            slots[slot] = none()
                            continue
                        fs = []
                        many = first is None and len(it.want) < 1
                        for _ in range(it.ctx.choose((g, j, slot, 'frames'), [0, 2]) if many else 1):
                            it.n += 1
                            if many:
                                fs.append(a_frame(c, it, it.n))
                            else:
                                fs.append((True, True, struct_of(c, it, EV + 'Frame', instruction_addr=some(Term('addr', (it.n,), Ty('HexValue'))), abs_path=some(Str(f'/abs{it.n}')), lineno=some(it.n + 1), function=some(Str(f'fn{it.n}')))))
                        fs = [(it.n - len(fs) + q + 1, *f) for q, f in enumerate(fs)]
                        k = it.n * 10 + j
                        slots[slot] = some(trace(c, it, k, [f[1:] for f in fs]))
                        if first is None:
                            first = (k, [f[0] for f in reversed(fs) if (f[1] if kind == 'native' else f[2])])
                    if first is not None:
                        it.want.append(first)
                    values.append(struct_of(c, it, EV + elem, **slots))
                groups.append(some(struct_of(c, it, EV + g.capitalize(), values=Vec(values))))
            it.want = [w for w in it.want if w[1]]
            it.images = it.ctx.choose(('images',), [(), ('Object',), ('Sourcemap',), ('Object', 'Sourcemap', 'Object')])
            images = Vec([Enum(EV + 'Module', t, [Term('image', (t, i), Ty('RawObjectInfo' if t == 'Object' else 'JsModule'))]) for i, t in enumerate(it.images)])
            it.event = struct_of(c, it, EV + 'Event', platform=Term('platform', (), Ty('symbolicator_service::types::Platform')), debug_meta=struct_of(c, it, EV + 'DebugMeta', images=images), exception=groups[0], threads=groups[1], signal=Term('signal', (), Ty('Option', Ty('Signal'))), release=Term('release', (), Ty('Option', Ty('str'))), dist=Term('dist', (), Ty('Option', Ty('str'))))
            g = {'scope': Term('scope', (), Ty('symbolicator_service::types::Scope')), 'event': it.event}
            if kind == 'native':
                g['sources'] = Term('sources', (), Ty('Sources'))
            else:
                g['source'] = Term('source', (), Ty('Source'))
                g['scraping_enabled'] = Term('scraping', (), Ty('bool'))
            return g

        def spec(it, a, out, kind=kind):
            if out.panic:
                return 'panic', f'the event is not taken: {out.panic}'
            mine = [i for i, t in enumerate(it.images) if t == ('Object' if kind == 'native' else 'Sourcemap')]
            usable = bool(it.want) and (kind == 'js' or bool(mine))
            if deref(out.value).variant == 'Err':
                return ('refused', f'an event with {len(it.want)} usable stack traces and the images {it.images} is refused') if usable else None
            if not usable:
                return 'unusable', f'an event with {len(it.want)} usable stack traces and the images {it.images} is sent'
            r = deref(deref(out.value).fields[0])
            f = lambda n: deref(it.field(r, n))
            traces = items(it, f('stacktraces'))
            got = []
            for t in traces:
                t = deref(t)
                row = []
                for fr in items(it, it.field(t, 'frames')):
                    fr = deref(fr)
                    fn_ = deref(it.field(fr, 'function'))
                    row.append(show(it.freeze(deref(fn_.fields[0]))).strip('"') if fn_.variant == 'Some' else None)
                got.append(row)
            want = [[f'fn{k}' for k in w[1]] for w in it.want]
            if got != want:
                return 'traces', f'the stack traces {got} are sent in place of {want} (exceptions first, then threads, as they were recorded rather than as processed, innermost frame first)'
            if kind == 'native':
                for t, w in zip(traces, it.want):
                    q = show(it.freeze(it.field(deref(t), 'is_requesting')))
                    if f'requesting({w[0]})' not in q.replace(' ', ''):
                        return 'requesting', f'a stack trace is marked {q} although it was {w[0]}'
            ms = [show(it.freeze(m)) for m in items(it, f('modules'))]
            if len(ms) != len(mine) or any(f'{i})' not in m for i, m in zip(mine, ms)):
                return 'modules', f'the modules {ms} are sent of {it.images}'
            names = {'scope': 'scope', 'platform': 'platform'}
            names.update({'sources': 'sources', 'signal': 'signal'} if kind == 'native' else {'source': 'source', 'release': 'release', 'dist': 'dist'})
            for n, w in names.items():
                v = show(it.freeze(f(n)))
                if w not in v:
                    return n, f'the {n} of the request is {v}'
            if it.freeze(f('apply_source_context')) is not True:
                return 'context', 'no source context is asked for'
            if kind == 'js':
                e = show(it.freeze(it.field(f('scraping'), 'enabled')))
                if 'scraping' not in e or '!' in e:
                    return 'scraping', f'scraping is {e}'
            return None
        c.product(f'{kind} event', EV + f'create_{kind}_symbolication_request', spec, given=given, floor=40, limit=400000,
                  opaque={'CompleteObjectInfo::from': lambda it, a: a[0]})


def frame_fields(c):
    """to_raw_frame, to_js_frame: the frame as recorded."""
    for kind, fn_ in (('native', 'to_raw_frame'), ('js', 'to_js_frame')):
        def given(it):
            it.frame = struct_of(c, it, EV + 'Frame')
            return {'value': it.frame}

        def spec(it, a, out, kind=kind):
            if out.panic:
                return 'panic', out.panic
            need = ('instruction_addr',) if kind == 'native' else ('abs_path', 'lineno')
            have = all(deref(it.force(deref(it.field(it.frame, n)))).variant == 'Some' for n in need)
            v = deref(out.value)
            if (v.variant == 'Some') != have:
                return 'usable', f'a frame with{"" if have else "out"} {" and ".join(need)} is {"kept" if v.variant == "Some" else "dropped"}'
            if not have:
                return None
            r = deref(v.fields[0])
            bad = []
            for n in r.fields:
                if n in ('adjust_instruction_addr', 'token_name'):
                    if deref(it.force(deref(r.fields[n]))).variant != 'None':
                        bad.append((n, f'the {n} is set'))
                    continue
                w = deref(it.field(it.frame, n))
                if n in need:
                    w = deref(it.force(w)).fields[0]
                if repr(it.freeze(r.fields[n])) != repr(it.freeze(w)):
                    bad.append((n, f'the {n} is {show(it.freeze(r.fields[n]))}, not that of the frame'))
            return bad or None
        c.product(f'{kind} frame', EV + fn_, spec, given=given, floor=2)


NI = 'symbolicator_native::interface::'


def shown(c):
    """get_crashing_thread_frames and NativeFrames: which frames are shown, and what of each."""
    def given(it):
        about = it.ctx.choose(('about',), ['threads', 'place', 'names'])
        it.flags = [it.ctx.choose((f'requesting{k}',), [None, False, True]) if about == 'threads' else None for k in range(2)]
        it.codefile = about != 'place' or it.ctx.choose(('code file',), [True, False])
        it.frames = {}
        traces = []
        crash = it.flags.index(True) if True in it.flags else 0
        for k in range(2):
            fs = []
            for j in range(2 if k == crash else 1):
                key = (k, j)
                asked = j == 0 and k == crash
                of = {'place': ('package', 'mode', 'addr', 'sym'), 'names': ('function', 'symbol', 'file', 'line', 'trust', 'sym')}.get(about, ())
                ch = lambda n, vs: it.ctx.choose((n,), vs) if asked and n in of else vs[0]
                f = {'package': ch('package', ['/app/bin/exe', None, '/other/lib']), 'mode': ch('mode', ['Abs', 'Rel']), 'addr': ch('addr', [0x5010 + 4 * (j if about == 'threads' and it.ctx.choose(('inlined',), [True, False]) else 0), 0x10]),
                     'sym': ch('sym', [0x5000, None, 0x6000]), 'function': ch('function', ['fun', None]), 'symbol': ch('symbol', ['sym', None]), 'file': ch('file', ['a.c', None]), 'line': ch('line', [7, None]),
                     'trust': ch('trust', ['Cfi', 'Scan', 'PreWalked', 'CfiScan', 'Fp', 'Context', 'None']) if j == 0 else 'Scan'}
                it.frames[key] = f
                o = lambda v: none() if v is None else some(Str(v) if isinstance(v, str) else v)
                raw = struct_of(c, it, NI + 'RawFrame', instruction_addr=hexv(c, f['addr']), package=o(f['package']), addr_mode=Enum(NI + 'AddrMode', f['mode'], [] if f['mode'] == 'Abs' else [0]),
                                sym_addr=none() if f['sym'] is None else some(hexv(c, f['sym'])), function=o(f['function']), symbol=o(f['symbol']), filename=o(f['file']), lineno=o(f['line']), trust=Enum(NI + 'FrameTrust', f['trust'], []))
                fs.append(struct_of(c, it, NI + 'SymbolicatedFrame', raw=raw))
            traces.append(struct_of(c, it, NI + 'CompleteStacktrace', frames=Vec(fs), is_requesting=none() if it.flags[k] is None else some(it.flags[k])))
        module = struct_of(c, it, NI + 'CompleteObjectInfo', raw=struct_of(c, it, 'symbolicator_service::types::RawObjectInfo', code_file=some(Str('/app/bin/exe')) if it.codefile else none(), image_addr=hexv(c, 0x5000)))
        it.crash = crash
        return {'response': struct_of(c, it, NI + 'CompletedSymbolicationResponse', stacktraces=Vec(traces), modules=Vec([module]))}

    def run(it, f, a):
        frames = it.call_def(f, a)
        out = []
        cell = it.std.temp_ref(frames)
        for _ in range(5):
            v = deref(it.method(cell, 'next', []))
            if v.variant == 'None':
                return Vec(out)
            out.append(deref(v.fields[0]))
        return Vec(out)

    def spec(it, a, out):
        mine = [it.frames[k] for k in sorted(it.frames) if k[0] == it.crash]
        if out.panic:
            f = mine[0]
            return f'panic {"other package" if f["package"] not in (None, "/app/bin/exe") or not it.codefile else "address"}', f'the frame {f} stops the program: {out.panic}'
        got = items(it, out.value)
        if len(got) != len(mine):
            return 'frames', f'{len(got)} frames are shown of the {len(mine)} of the crashing thread'
        bad = []
        for j, (g, f) in enumerate(zip(got, mine)):
            v = lambda n: deref(it.force(deref(it.field(g, n))))
            pair = lambda x: None if x.variant == 'None' else tuple(y.lit() if isinstance(y, Str) else y for y in (deref(it.force(deref(z))) for z in deref(x.fields[0]).items))
            if v('instruction_addr') != f['addr']:
                bad.append(('address', f'the address {v("instruction_addr")} is shown for {f["addr"]}'))
            inline = j + 1 < len(mine) and mine[j + 1]['addr'] == f['addr']
            t = 'inline' if inline else f['trust'].lower()
            if it.ctx.sstr(v('trust')).lit() != t:
                bad.append(('trust', f'a frame trusted as {t} is shown as {show(v("trust"))}'))
            m = pair(v('module'))
            known = f['package'] == '/app/bin/exe' and it.codefile
            if f['package'] is None and m is not None:
                bad.append(('module', f'a frame without a package is shown in {m}'))
            if known and f['addr'] >= 0x5000 and f['mode'] == 'Abs' and m != ('exe', f['addr'] - 0x5000):
                bad.append(('module', f'the frame at {f["addr"]:#x} in the module exe at 0x5000 is shown as {m}'))
            if m is not None and known and f['mode'] == 'Abs' and f['addr'] < 0x5000:
                bad.append(('module', f'the frame at {f["addr"]:#x}, before the module exe at 0x5000, is shown as {m}'))
            if m is not None and known is False and m[0] != 'lib' and m[0] != 'exe':
                bad.append(('module', f'the package is shown as {m}'))
            if m is not None and known and f['mode'] == 'Rel' and m[1] != f['addr']:
                bad.append(('relative', f'the frame at the relative address {f["addr"]:#x} is shown as {m}'))
            fun = pair(v('func'))
            name = f['function'] or f['symbol']
            off = f['addr'] - f['sym'] if f['sym'] is not None else 0
            if (fun and fun[0]) != name or fun and off >= 0 and fun[1] != off:
                bad.append(('function', f'the function {name} +{off} is shown as {fun}'))
            fil = pair(v('file'))
            if fil != (None if f['file'] is None else (f['file'], f['line'] or 0)):
                bad.append(('file', f'{f["file"]}:{f["line"]} is shown as {fil}'))
        return bad or None
    c.product('frames shown', OUT + 'get_crashing_thread_frames', spec, given=given, run=run, floor=100, limit=400000, mmodels={'Option.unwrap_or_default': lambda it, r, a: (lambda v: v.fields[0] if v.variant == 'Some' else 0)(deref(it.force(deref(r))))},
              models={'common::split_path': lambda it, a: Tup([some(Str('dir')), Str(it.ctx.sstr(deref(a[0])).lit().rsplit('/', 1)[1])])})


MODE, SRC = 'symbolicli::settings::Mode', 'symbolicator_sources::'


def a_mode(c, it):
    """Online or offline, with the symbolic settings of the command line."""
    it.online = it.ctx.choose(('online',), [True, False])
    if not it.online:
        return Enum(MODE, 'Offline', [])
    return Enum(MODE, 'Online', {'base_url': Native('base url'), 'org': Str('o'), 'project': Str('p'), 'auth_token': Term('token', (), Ty('Token')), 'scraping_enabled': Term('scraping', (), Ty('bool'))})


@method('base url', 'join')
def _(c):
    return ok(Term('joined', (c.it.freeze(c.it.ctx.sstr(deref(c.args[0]))),), Ty('Url')))


def sources(c):
    """prepare_dsym_sources: where the symbols of native events are looked for."""
    def given(it):
        it.local = it.ctx.choose(('symbols',), [True, False])
        it.n = it.ctx.choose(('configured',), [0, 2])
        return {'mode': a_mode(c, it), 'symbolicator_config': struct_of(c, it, 'symbolicator_service::config::Config', sources=Vec([Term('configured', (i,), Ty(SRC + 'sources::SourceConfig')) for i in range(it.n)])),
                'local_symbols': some(Term('folder', (), Ty('PathBuf'))) if it.local else none()}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        got = items(it, out.value)
        want = (['project'] if it.online else []) + [f'configured({i})' for i in range(it.n)] + (['local'] if it.local else [])
        if len(got) != len(want):
            return 'count', f'{[show(it.freeze(g))[:80] for g in got]} are used in place of {want}'
        for g, w in zip(got, want):
            t = show(it.freeze(g)).replace(' ', '')
            g = deref(g)
            if w == 'project':
                x = deref(g.fields[0]) if isinstance(g, Enum) and g.variant == 'Sentry' else None
                url = show(it.freeze(it.field(x, 'url'))) if x is not None else ''
                if x is None or 'projects/o/p/files/dsyms/' not in url or 'token' not in show(it.freeze(it.field(x, 'token'))):
                    return 'project', f'the project is asked for files through {t}'
            elif w == 'local':
                x = deref(g.fields[0]) if isinstance(g, Enum) and g.variant == 'Filesystem' else None
                if x is None or 'folder' not in show(it.freeze(it.field(x, 'path'))):
                    return 'local', f'local files are looked for through {t}'
                f = it.field(x, 'files')
                ly = deref(it.field(deref(it.field(deref(f), 'layout')), 'ty'))
                fl = deref(it.field(deref(f), 'filters'))
                if not (isinstance(ly, Enum) and ly.variant == 'Unified'):
                    return 'layout', f'local files are looked for in the layout {show(ly)}'
                if it.freeze(it.field(deref(f), 'has_index')) is not False:
                    return 'index', 'local files are taken to have an index'
            elif w not in t:
                return 'order', f'{t} is used in place of {w}'
        return None
    c.product('sources', MAIN + 'prepare_dsym_sources', spec, given=given, floor=8)


def hexv(c, n):
    return Struct(c.w.type('symbolicator_service::utils::hex::HexValue').id, {'0': n})


def payload(c):
    """Payload::parse: what a local file is taken for."""
    def opened(it, a):
        it.state = it.ctx.choose(('open',), ['file', 'NotFound', 'PermissionDenied'])
        if it.state == 'file':
            it.pos = 0
            return ok(Native('event file'))
        return err(Native('open error', of=it.state))

    method('open error', 'kind')(lambda c2: Enum('ErrorKind', c2.v.of, []))
    method('event file', 'rewind')(lambda c2: seek(c2.it))

    def seek(it):
        it.pos = 0
        return ok(UNIT)

    @method('event file', 'seek')
    def _(c2):
        if 'Start(0)' not in show(c2.it.freeze(c2.args[0])).replace(' ', ''):
            return NotImplemented
        return seek(c2.it)

    @method('event file', 'read_exact')
    def _(c2):
        it = c2.it
        it.magic = it.ctx.choose(('magic',), ['MDMP', 'PMDM', '{"ev', 'PDMP', 'short'])
        if it.magic == 'short':
            return err(Term('io error', ('read',), Ty('Error')))
        r = c2.args[0]
        while isinstance(r, Ref) and isinstance(r.get(), Ref):
            r = r.get()
        r.set(Vec([ord(x) for x in it.magic]))
        it.pos = 4
        return ok(UNIT)

    def copy(it, a):
        it.copied = (deref(a[0]).kind, it.pos, deref(a[1]).kind)
        return ok(0) if it.ctx.choose(('copied',), [True, False]) else err(Term('io error', ('copy',), Ty('Error')))

    def parse(it, a):
        it.parsed = it.pos
        return ok(Term('event', (), Ty(EV + 'Event'))) if it.ctx.choose(('valid',), [True, False]) else err(Term('json error', (), Ty('Error')))

    method('dump file', 'into_temp_path')(lambda c2: Native('dump path'))

    def setup(it):
        it.state = it.magic = it.copied = it.parsed = None

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = deref(out.value)
        got = 'error' if v.variant == 'Err' else 'none' if deref(v.fields[0]).variant == 'None' else deref(deref(v.fields[0]).fields[0]).variant
        dump = it.magic in ('MDMP', 'PMDM')
        want = {'NotFound': 'none', 'PermissionDenied': 'error'}.get(it.state)
        if want is None:
            want = 'error' if it.magic == 'short' else ('Minidump' if it.ctx.known(('copied',)) else 'error') if dump else ('Event' if it.ctx.known(('valid',)) else 'error')
        if got != want:
            return 'payload', f'a file that is {it.state} and starts with {it.magic} gives {got}, not {want}'
        if got == 'Minidump' and it.copied != ('event file', 0, 'dump file'):
            return 'minidump', f'the minidump is copied as {it.copied} (file, from, to)'
        if got == 'Event' and it.parsed != 0:
            return 'event', f'the event is read from byte {it.parsed} on'
        return None
    c.product('local file', MAIN + 'Payload::parse', spec, given=lambda it: {'path': Str('/x/event')}, setup=setup, floor=8, mmodels={'read_exact': lambda it, r, a: NotImplemented},
              models={'File::open': opened, 'io::copy': copy, 'NamedTempFile::new': lambda it, a: ok(Native('dump file')), 'serde_json::from_reader': parse})


REM = 'symbolicli::remote::'


def join(base, rel):
    return rel if '://' in rel else base[:base.index('/', 8)] + rel if rel.startswith('/') else base.split('?')[0].rsplit('/', 1)[0] + '/' + rel


@method('an url', 'join')
def _(c):
    return ok(Native('an url', t=join(c.v.t, c.it.ctx.sstr(deref(c.args[0])).lit())))


@method('an url', 'clone', 'query_pairs_mut')
def _(c):
    return Native('an url', t=c.v.t) if c.name == 'clone' else c.v


@method('an url', 'append_pair')
def _(c):
    k, v = (c.it.ctx.sstr(deref(x)).lit() for x in c.args)
    c.v.t += ('&' if '?' in c.v.t else '?') + f'{k}={v}'
    return c.v


@method('http client', 'get')
def _(c):
    return Native('http get', url=deref(c.args[0]).t)


@method('http get', 'send')
def _(c):
    it = c.it

    def go():
        it.asked.append(c.v.url)
        n = len(it.asked)
        return ok(Native('answer', n=n)) if it.ctx.choose(('sent', n), [True, False]) else err(Term('http error', ('send', n), Ty('reqwest::Error')))
    return Future(go)


method('answer', 'status')(lambda c: status(c.it.ctx.choose(('status', c.v.n), ['OK', 'NOT_FOUND', 'FORBIDDEN', 'INTERNAL_SERVER_ERROR'])))


@method('answer', 'json')
def _(c):
    it, n = c.it, c.v.n
    return Future(lambda: ok(Term('the event', (), Ty(EV + 'Event')) if n == 1 else it.attachments) if it.ctx.choose(('decoded', n), [True, False]) else err(Term('http error', ('json', n), Ty('reqwest::Error'))))


@method('answer', 'bytes')
def _(c):
    it, n = c.it, c.v.n
    return Future(lambda: ok(Term('body', (n,), Ty('Bytes'))) if it.ctx.choose(('decoded', n), [True, False]) else err(Term('http error', ('bytes', n), Ty('reqwest::Error'))))


@method('dump file', 'write_all')
def _(c):
    it = c.it
    it.written.append(show(it.freeze(deref(c.args[0]))))
    return ok(UNIT) if it.ctx.choose(('written',), [True, False]) else err(Term('io error', ('write',), Ty('Error')))


def remote(c):
    """Payload::get_remote: what Sentry is asked for, and what is made of its answers."""
    types = ('event.minidump', 'event.attachment', 'event.view_hierarchy')

    def given(it):
        it.asked, it.written = [], []
        it.kinds = it.ctx.choose(('attachments',), [(), (0,), (1,), (2, 0), (0, 1, 0)])
        it.attachments = Vec([Struct(c.w.type(REM + 'Attachment').id, {'r#type': Str(types[t]), 'id': Str(f'{70 + i}')}) for i, t in enumerate(it.kinds)])
        return {'client': Native('http client'), 'key': struct_of(c, it, REM + 'EventKey', base_url=Native('an url', t='https://sentry.io/api/0/'), org=Str('o'), project=Str('p'), event_id=Str('e'))}

    base = 'https://sentry.io/api/0/projects/o/p/events/e/'

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        good = lambda n: it.ctx.known(('sent', n)) and it.ctx.known(('status', n)) == 'OK' and it.ctx.known(('decoded', n))
        urls, want = [base + 'json/'], 'Err'
        if good(1):
            urls.append(base + 'attachments/')
            if good(2):
                if 0 in it.kinds:
                    urls.append(base + f'attachments/{70 + it.kinds.index(0)}/?download=1')
                    want = 'Minidump' if good(3) and it.ctx.known(('written',)) else 'Err'
                else:
                    want = 'Event'
        if it.asked != urls:
            return 'urls', f'Sentry is asked for {it.asked}, not {urls}'
        v = deref(out.value)
        got = 'Err' if v.variant == 'Err' else deref(v.fields[0]).variant
        if got != want:
            return 'payload', f'an event with the attachments {[types[t] for t in it.kinds]} gives {got}, not {want}'
        if got == 'Minidump' and (len(it.written) != 1 or 'body' not in it.written[0]):
            return 'minidump', f'the minidump is written as {it.written}'
        if got == 'Event' and 'the event' not in show(it.freeze(deref(v.fields[0]).fields[0])):
            return 'event', f'the event is {show(it.freeze(v))}'
        return None
    c.product('remote event', MAIN + 'Payload::get_remote', spec, given=given, floor=20,
              models={'NamedTempFile::new': lambda it, a: ok(Native('dump file')), 'Url::clone': lambda it, a: a[0]}, mmodels={'canonical_reason': lambda it, r, a: some(Str('reason'))})


def program(c):
    """main: how an event is symbolicated and printed."""
    PL = 'symbolicator_service::types::Platform'

    def given(it):
        it.printed, it.calls = [], []
        it.mode = a_mode(c, it)
        it.what = it.ctx.choose(('local',), ['error', 'missing', 'minidump', 'native', 'js', 'other'])
        it.format = it.ctx.choose(('format',), ['Json', 'Compact', 'Pretty'])
        return {}

    def settings(it, a):
        return ok(struct_of(c, it, 'symbolicli::settings::Settings', event_id=Str('the-event'), output_format=Enum('symbolicli::settings::OutputFormat', it.format, []), mode=it.mode,
                            symbols=Term('symbols', (), Ty('Option', Ty('PathBuf'))), symbolicator_config=Term('config', (), Ty('symbolicator_service::config::Config'))))

    def pay(it, what):
        if what == 'minidump':
            return Enum(MAIN + 'Payload', 'Minidump', [Native('dump path')])
        return Enum(MAIN + 'Payload', 'Event', [struct_of(c, it, EV + 'Event', platform=Native('a platform', of=what))])

    def parse(it, a):
        if it.what == 'error':
            return err(Term('anyhow', ('open',), Ty('anyhow::Error')))
        return ok(none() if it.what == 'missing' else some(pay(it, it.what)))

    def get_remote(it, a):
        k = deref(a[1])
        it.remote = [show(it.freeze(it.field(k, n))) for n in ('org', 'project', 'event_id')]
        it.what = it.ctx.choose(('remote',), ['error', 'minidump', 'native', 'js', 'other'])
        return Future(lambda: err(Term('anyhow', ('remote',), Ty('anyhow::Error'))) if it.what == 'error' else ok(pay(it, it.what)))

    method('a platform', 'is_js')(lambda c2: c2.v.of == 'js')
    method('a platform', 'is_native')(lambda c2: c2.v.of == 'native')

    def request(kind):
        def f(it, a):
            it.calls.append((kind, [show(it.freeze(x)) for x in (a[:2] + a[3:])]))
            return ok(Native('request', of=kind)) if it.ctx.choose(('usable',), [True, False]) else err(Term('anyhow', ('request',), Ty('anyhow::Error')))
        return f

    def actor(kind):
        def f(it, a):
            r = deref(a[1])
            it.calls.append((f'symbolicate {kind}', r.of if isinstance(r, Native) else [show(it.freeze(it.field(r, n))) for n in ('scope', 'minidump_file', 'sources')]))
            t = Term('response', (kind,), Ty('Response'))
            return Future(lambda: t if kind == 'js' else ok(t) if it.ctx.choose(('symbolicated',), [True, False]) else err(Term('anyhow', ('symbolicate',), Ty('anyhow::Error'))))
        return f

    method('js service', 'symbolicate_js')(lambda c2: actor('js')(c2.it, [c2.v] + list(c2.args)))
    method('native service', 'symbolicate')(lambda c2: actor('native')(c2.it, [c2.v] + list(c2.args)))
    method('native service', 'process_minidump')(lambda c2: actor('minidump')(c2.it, [c2.v] + list(c2.args)))

    def printer(how):
        def f(it, a):
            it.printed.append((how, show(it.freeze(a[0]))))
            return UNIT
        return f

    def line(it, e, env):
        text = show(it.freeze(format_args(it, e, e['args'], env)))
        it.printed.append(('Json', ' '.join(show(x) for x in it.serialized) if 'json' in text else text))
        return UNIT

    def to_string(it, a):
        it.serialized.append(it.freeze(deref(a[0])))
        return ok(Str('json'))

    def setup(it):
        it.remote, it.serialized = None, []

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        first = it.ctx.known(('local',))
        v = deref(out.value)
        failed = v.variant == 'Err'
        if (it.remote is not None) != (first == 'missing' and it.online):
            return 'remote', f'the event is{"" if it.remote else " not"} asked for, with the local file {first}, {"on" if it.online else "off"}line'
        if it.remote is not None and [x.strip('"') for x in it.remote] != ['o', 'p', 'the-event']:
            return 'remote key', f'the event asked for is {it.remote}'
        what = it.what
        usable = what in ('minidump', 'native') or what == 'js' and it.online
        calls = [k for k, _ in it.calls]
        want = []
        if usable:
            want = [f'request {what}'] if what != 'minidump' else []
            if what == 'minidump' or it.ctx.known(('usable',)):
                want.append(f'symbolicate {what}')
        if calls != want:
            return 'calls', f'the event, {what}, {"on" if it.online else "off"}line, is handled by {calls}, not {want}'
        done = bool(want) and want[-1].startswith('symbolicate') and (what == 'js' or bool(it.ctx.known(('symbolicated',))))
        if failed != (not done):
            return 'result', f'the program {"fails" if failed else "succeeds"} with {calls}, {what}'
        if done != (len(it.printed) == 1):
            return 'printed', f'{len(it.printed)} results are printed'
        if done and (it.printed[0][0] != it.format or f'response({what!r})'.replace("'", '') not in it.printed[0][1].replace("'", '').replace('"', '')):
            return 'format', f'{it.printed} is printed for the format {it.format}'
        for k, xs in it.calls:
            if what == 'js' and k == 'request js' and ('project' in xs[0] or True):
                t = ' '.join(xs)
                if 'projects/o/p/artifact-lookup/' not in t or 'token' not in t or 'Scoped' not in xs[0] or 'scraping' not in xs[-1]:
                    return 'js request', f'the request is made from {xs}'
            if k in ('request native', 'symbolicate minidump'):
                if ('Scoped' in xs[0]) != it.online or ('Global' in xs[0]) == it.online:
                    return 'scope', f'files are looked for in {xs[0]}, {"on" if it.online else "off"}line'
                if 'the sources' not in ' '.join(xs):
                    return 'sources', f'the sources are {xs}'
        return None
    c.product('program', MAIN + 'main', spec, given=given, setup=setup, floor=30,
              opaque={'Settings::get': settings, 'Payload::parse': parse, 'Payload::get_remote': get_remote, 'create_js_symbolication_request': request('request js'), 'create_native_symbolication_request': request('request native'),
                      'prepare_dsym_sources': lambda it, a: Term('the sources', (), Ty('Sources')), 
                      'SourceMapService::new': lambda it, a: Native('js service'), 'SymbolicationActor::new': lambda it, a: Native('native service'),
                      'SharedServices::new': lambda it, a: ok(struct_of(c, it, 'symbolicator_service::services::SharedServices')), 'print_compact': printer('Compact'), 'print_pretty': printer('Pretty')},
              models={'println!': line, 'serde_json::to_string': to_string, 'HeaderValue::from_str': lambda it, a: ok(Native('header')), },
              mmodels={'build': lambda it, r, a: ok(Native('http client'))})
    c.assumptions.append('symbolicli: the token is usable as a header and the HTTP client can be built')


def a04(c):
    c.section('requests for events', lambda: requests(c))
    c.section('frames of events', lambda: frame_fields(c))
    c.section('frames shown', lambda: shown(c))
    c.section('sources for events', lambda: sources(c))
    c.section('local files', lambda: payload(c))
    c.section('remote events', lambda: remote(c))
    c.section('program', lambda: program(c))
