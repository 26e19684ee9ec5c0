"""N01 - N05: native symbolication."""
from .util import *
from .keys import struct_of, key_hooks, T_CERR, T_ENTRY, SVC, OBJ
from engine.std import m as method, EXT_ENUMS

NAT = 'symbolicator_native::'
IF = NAT + 'interface::'
TY = SVC + 'types::'
RAWOBJ, HEX = TY + 'RawObjectInfo', SVC + 'utils::hex::HexValue'
CAND = OBJ + 'candidates::'
KINDS = ('NotFound', 'PermissionDenied', 'Timeout', 'DownloadError', 'Malformed', 'Unsupported', 'InternalError')
STATUS = {'Ok': 'Found', 'NotFound': 'Missing', 'PermissionDenied': 'FetchingFailed', 'DownloadError': 'FetchingFailed', 'Timeout': 'Timeout', 'Malformed': 'Malformed', 'Unsupported': 'Unsupported', 'InternalError': 'Other'}
# start and size of two modules
LAYOUTS = [((0x1000, 0x1000), (0x3000, 0x1000)), ((0x3000, 0x1000), (0x1000, 0x1000)), ((0x1000, None), (0x3000, None)), ((0x3000, 0), (0x1000, 0)), ((0, 0x1000), (0x3000, None)), ((0x3000, 0x1000), (0, 0x1000))]
PLACES = [('abs', a) for a in (0x800, 0x1000, 0x1800, 0x2800, 0x3000, 0x3800, 0x9000)] + [('rel', n) for n in (0, 1, 2)]
REL = 0x42


def text(it, v):
    return show(it.freeze(it.ctx.sstr(deref(v)))).strip('"')


def hexv(v):
    return Struct(HEX, {'0': v})


def oval(it, v):
    o = it.force(v)
    return o.fields[0] if o.variant == 'Some' else None


def cache_err(it, k, i=0):
    arg = {'Timeout': [Term('duration', (i,), Ty('Duration'))]}.get(k, [S('reason ', Str((Term('reason', (i,), T_STR),)))] if k not in ('NotFound', 'InternalError') else [])
    return Enum('Result', 'Err', [Enum(T_CERR.name, k, arg)])


def candidate(c, it, where):
    return Struct(CAND + 'ObjectCandidate', {'source': Struct('symbolicator_sources::sources::SourceId', {'0': Str('src')}), 'location': Struct('symbolicator_sources::remotefile::RemoteFileUri', {'0': Str(where)}),
                                             'download': Enum(CAND + 'ObjectDownloadInfo', 'NotFound', []), 'unwind': Enum(CAND + 'ObjectUseInfo', 'None', []), 'debug': Enum(CAND + 'ObjectUseInfo', 'None', [])})


def candidates(c, it, *where):
    return Struct(CAND + 'AllObjectCandidates', {'0': Vec([candidate(c, it, w) for w in where])})


def features(it, **kw):
    return Struct(CAND + 'ObjectFeatures', {n: kw.get(n, False) for n in ('has_debug_info', 'has_unwind_info', 'has_symbols', 'has_sources')})


def module(c, it, i, addr, size, ty):
    T = lambda n, t=T_STR: Term(f'module {n}', (i,), t)
    raw = Struct(RAWOBJ, {'ty': Enum('symbolicator_sources::types::ObjectType', ty, []), 'code_id': none(), 'code_file': some(Str(f'code{i}')), 'debug_id': none(), 'debug_file': some(Str(f'debug{i}')),
                          'debug_checksum': none(), 'image_addr': hexv(addr), 'image_size': none() if size is None else some(size)})
    return Struct(IF + 'CompleteObjectInfo', {'debug_status': Enum(TY + 'ObjectFileStatus', 'Other', []), 'unwind_status': none(), 'features': features(it, has_unwind_info=i == 0), 'arch': Term('initial arch', (i,), Ty('Arch')),
                                              'raw': raw, 'candidates': candidates(c, it, f'old{i}')})


def raw_frame(c, it, i, place, **given):
    kind, at = place
    f = dict(addr_mode=Enum(IF + 'AddrMode', 'Abs', []) if kind == 'abs' else Enum(IF + 'AddrMode', 'Rel', [at]), instruction_addr=hexv(at if kind == 'abs' else REL), adjust_instruction_addr=none(),
             function=none(), symbol=none(), trust=Enum(IF + 'FrameTrust', 'None', []), abs_path=none(), lineno=none(), filename=none(), package=none(), function_id=none(), lang=none(), in_app=none(),
             pre_context=Vec([]), context_line=none(), post_context=Vec([]), source_link=none(), sym_addr=none(), platform=some(Term('platform', (i,), Ty(TY + 'Platform'))))
    f.update(given)
    return Struct(IF + 'RawFrame', f)


def owner(it, place):
    """The module a frame lies in, by the definition of the images."""
    kind, at = place
    mods = it.layout
    if kind == 'rel':
        return at if at < len(mods) else None
    order = sorted(range(len(mods)), key=lambda i: mods[i][0])
    best = [i for i in order if mods[i][0] <= at]
    if not best:
        return None
    i = best[-1]
    nxt = [mods[j][0] for j in order if mods[j][0] > mods[i][0]]
    size = mods[i][1] or (nxt[0] - mods[i][0] if nxt else 0)
    return i if not size or at <= mods[i][0] + size else None


# ------------------------------------------------------------------ debug files
@method('symcache', 'arch')
def _(c):
    return Term('arch', (c.v.n,), Ty('Arch'))


@method('symcache', 'lookup')
def _(c):
    it, addr = c.it, c.it.freeze(deref(c.args[0]))
    it.lookups.append((c.v.n, addr))
    k = it.ctx.choose(('functions found', c.v.n, addr), it.found)
    return it.method(it.std.temp_ref(Vec([Native('location', n=c.v.n, addr=addr, i=i) for i in range(k)])), 'into_iter', [])


def lt(c, what, ty=T_STR):
    return Term(what, (c.v.n, c.v.addr, c.v.i), ty)


@method('location', 'file')
def _(c):
    if not c.it.plain and c.it.ctx.choose(('the file is known', c.v.n, c.v.addr, c.v.i), [True, False]):
        return some(Native('sourcefile', n=c.v.n, addr=c.v.addr, i=c.v.i))
    c.it.nofile = True
    return none()


def no_path(it, recv, args):
    v = it.force(deref(recv))
    if not getattr(it, 'nofile', False) or v.variant != 'None':
        return NotImplemented
    it.nofile = False
    return Str('')


MM = {'Option.unwrap_or_default': no_path}


method('sourcefile', 'full_path')(lambda c: S('/', Str((lt(c, 'dir'),)), '/', Str((Term('plain', ('file', c.v.n, c.v.i), T_STR),))))
method('location', 'line')(lambda c: lt(c, 'line', Ty('u32')))
method('location', 'function')(lambda c: Native('func', n=c.v.n, addr=c.v.addr, i=c.v.i))
method('func', 'entry_pc')(lambda c: 0x20 + c.v.i if c.it.plain else lt(c, 'entry', Ty('u32')))
method('func', 'language')(lambda c: Enum('Language', c.it.ctx.choose(('language', c.v.n, c.v.addr, c.v.i), ['Cpp', 'Unknown']) if not c.it.plain else 'Cpp', []))
method('func', 'name')(lambda c: Str((lt(c, 'mangled'),)))
EXT_ENUMS.setdefault('Language', ['Unknown', 'C', 'Cpp', 'D', 'Go', 'ObjC', 'ObjCpp', 'Rust', 'Swift'])


method('selfcell', 'get')(lambda c: Native(c.v.what, n=c.v.n))


@method('ppdb', 'lookup')
def _(c):
    it, key = c.it, tuple(c.it.freeze(deref(x)) for x in c.args)
    it.lookups.append((c.v.n, key))
    return some(Struct('LineInfo', {'file_name': S('/', Str((Term('dir', (key,), T_STR),)), '/', Str((Term('plain', ('file', key), T_STR),))), 'line': Term('line', (key,), Ty('u32')), 'file_lang': Enum('Language', 'C', []), 'size': 1})) if it.ctx.choose(('line found', c.v.n, key), [True, False]) else none()


# instruction addresses
@method('insn', 'is_crashing_frame', 'signal', 'ip_register_value')
def _(c):
    c.v.conf[c.name] = c.it.freeze(c.it.force(deref(c.args[0])) if c.name != 'is_crashing_frame' else deref(c.args[0]))
    return c.recv


def insn(kind):
    def f(c):
        c.it.adjusted.append((kind, dict(c.v.conf)))
        return Term(kind, (c.v.arch, c.v.addr), Ty('u64'))
    return f


for _k in ('previous_address', 'aligned_address', 'caller_address'):
    method('insn', _k)(insn(_k))

MODELS = {'InstructionInfo::new': lambda it, a: Native('insn', arch=it.freeze(deref(a[0])), addr=it.freeze(deref(a[1])), conf={}),
          'Name::from': lambda it, a: Native('name', s=it.freeze(it.ctx.sstr(deref(a[0]))))}


@method('name', 'demangle')
def _(c):
    return some(Str((Term('demangled', (c.v.s,), T_STR),))) if c.it.ctx.choose(('can be demangled', c.v.s), [True, False]) else none()


def outcome_of(it, i):
    if it.bad is not None:
        return it.bad if i == 1 else 'Ok'
    return it.ctx.choose(('debug file of module', i), list(it.outcomes))


def hooks(c):
    def which(it, a):
        req = it.force(deref(a[1]))
        s = oval(it, it.field(it.force(it.field(req, 'identifier')), 'code_file'))
        i = int(text(it, s)[4:])
        it.requests.append((i, show(it.freeze(it.field(req, 'scope'))), show(it.freeze(it.field(req, 'sources'))), text(it, oval(it, it.field(it.force(it.field(req, 'identifier')), 'debug_file')))))
        return i

    def fetch(kind):
        def f(it, a):
            i = which(it, a)
            it.fetched.append((kind, i))
            k = outcome_of(it, i)
            cache = ok(Native('selfcell', what=kind, n=i)) if k == 'Ok' else cache_err(it, k, i)
            return Future(lambda: Struct(NAT + 'caches::derived::DerivedCache', {'cache': cache, 'candidates': candidates(c, it, f'debug{i}'), 'features': features(it, has_debug_info=True, has_symbols=i == 0)}))
        return f
    return {**key_hooks(), 'SymCacheActor::fetch': fetch('symcache'), 'PortablePdbCacheActor::fetch': fetch('ppdb'),
            'demangle_symbol': lambda it, a: Tup([Str((Term('mangled', fid(it, a[1]), T_STR),)), Str((Term('pretty', fid(it, a[1]), T_STR),))]),
            'record_symbolication_metrics': lambda it, a: UNIT, 'is_likely_base_frame': lambda it, a: False}


def fid(it, v):
    v = deref(v)
    return (v.n, v.addr, v.i)


def setup(it):
    it.lookups, it.adjusted, it.requests, it.fetched, it.plain, it.found, it.outcomes, it.layout, it.bad = [], [], [], [], True, [1], ['Ok'], LAYOUTS[0], None


def request(c, it, threads, types=('Elf', 'Elf'), **given):
    it.types = types
    f = {'signal': none(), 'stacktraces': Vec([Struct(IF + 'RawStacktrace', t) for t in threads]), 'modules': Vec([module(c, it, i, *x, types[i]) for i, x in enumerate(it.layout)]), 'apply_source_context': False,
         'rewrite_first_module': Struct(IF + 'RewriteRules', {'0': Vec([])}), 'platform': none()}
    f.update(given)
    return struct_of(c, it, IF + 'SymbolicateStacktraces', **f)


def thread(it, i, frames, **kw):
    T = lambda n, t: Term(f'thread {n}', (i,), t)
    return {'thread_id': T('id', Ty('Option', Ty('u64'))), 'thread_name': T('name', Ty('Option', T_STR)), 'is_requesting': T('requesting', Ty('Option', Ty('bool'))), 'registers': T('registers', Ty('BTreeMap', T_STR, Ty(HEX))), 'frames': Vec(list(frames)), **kw}


def actor(c, it):
    return struct_of(c, it, NAT + 'symbolication::symbolicate::SymbolicationActor')


SYM = NAT + 'symbolication::symbolicate::SymbolicationActor::symbolicate'


def response(it, out):
    """None if the request fails."""
    r = it.force(out.value)
    return it.force(r.fields[0]) if r.variant == 'Ok' else None


def traces(it, resp):
    return [it.force(s) for s in items(it, it.field(resp, 'stacktraces'))]


def frames_of(it, st):
    return [it.force(f) for f in items(it, it.field(st, 'frames'))]


def raw(it, f):
    return it.force(it.field(f, 'raw'))


def differs(it, got, want, skip=()):
    """The first field in which two raw frames differ."""
    for k in it.force(want).fields:
        if k in skip:
            continue
        a, b = it.freeze(it.field(got, k)), it.freeze(it.field(want, k))
        if repr(a) != repr(b) and not it.ctx.truth(it.eq(it.force(it.field(got, k)), it.force(it.field(want, k)))):
            return k
    return None


# ------------------------------------------------------------------ N01, N02: what becomes of frames
FATES = ('found', 'start', 'unknown image', 'no symbol', 'malformed', 'missing')


def sequence(c, tags, shapes, trusts=('None', 'Scan'), fates=FATES, name='frames'):
    """Stack traces of frames of any fate; module 0 has debug information, module 1 has none."""
    def given(it):
        setup(it)
        it.frames = []
        n, ths = 0, []
        shape = it.ctx.choose(('frames per thread',), shapes)
        for t, k in enumerate(shape):
            fs = []
            for j in range(k):
                fate, trust = it.ctx.choose(('fate of frame', n), list(fates)), it.ctx.choose(('trust of frame', n), list(trusts))
                place = {'unknown image': ('rel', 7), 'malformed': ('rel', 1), 'missing': ('rel', 1)}.get(fate, ('rel', 0))
                r = raw_frame(c, it, n, place, instruction_addr=hexv(0x10 + n), trust=Enum(IF + 'FrameTrust', trust, []))
                it.frames.append((t, j, fate, trust, r))
                fs.append(r)
                n += 1
            ths.append(thread(it, t, fs))
        it.shape = shape
        return {'self': actor(c, it), 'request': request(c, it, ths)}

    def native(it, a):
        f = it.force(deref(a[4]))
        n = it.force(it.field(f, 'instruction_addr')).fields['0'] - 0x10
        t, j, fate, trust, r = it.frames[n]
        it.seen.append((n, deref(a[5])))
        if fate == 'no symbol':
            return Enum('Result', 'Err', [Enum(IF + 'FrameStatus', 'MissingSymbol', [])])
        res = []
        for i in range(1 if fate == 'start' else it.ctx.choose(('functions of frame', n), [1, 2])):
            g = Struct(IF + 'RawFrame', dict(f.fields, function=some(Str('_start') if fate == 'start' else S('f', Str((Term('plain', (n, i), T_STR),))))))
            res.append(Struct(IF + 'SymbolicatedFrame', {'status': Enum(IF + 'FrameStatus', 'Symbolicated', []), 'original_index': some(deref(a[5])), 'raw': g}))
        return ok(Vec(res))

    def spec(it, a, out):
        return [m for m in compare(it, out) if m[0].split(':')[0] in tags]

    def compare(it, out):
        if out.panic:
            return [('frames: panic', out.panic)]
        resp = response(it, out)
        if resp is None:
            return [('frames: failure', 'the request fails')]
        sts, msgs = traces(it, resp), []
        if len(sts) != len(it.shape):
            return [('frames: threads', f'{len(it.shape)} threads are answered with {len(sts)}')]
        for t, st in enumerate(sts):
            for k in ('thread_id', 'thread_name', 'is_requesting', 'registers'):
                if repr(it.freeze(it.field(st, k))) != repr(it.freeze(thread(it, t, [])[k])):
                    msgs.append(('frames: thread', f'{k} of a thread is {show(it.field(st, k))}'))
            got = frames_of(it, st)
            mine = [x for x in it.frames if x[0] == t]
            want = []
            for x in mine:
                t_, j, fate, trust, r = x
                if fate in ('found', 'start'):
                    n = it.frames.index(x)
                    for i in range(1 if fate == 'start' else it.ctx.choose(('functions of frame', n), [1, 2])):
                        want.append(('Symbolicated', j, r, '_start' if fate == 'start' else i))
                    continue
                status = {'unknown image': 'UnknownImage', 'no symbol': 'MissingSymbol', 'malformed': 'Malformed', 'missing': 'Missing'}[fate]
                if trust == 'Scan' and fate in ('unknown image', 'no symbol'):
                    continue
                if fate == 'unknown image' and j == len(mine) - 1 and want and want[-1][3] == '_start':
                    continue
                want.append((status, j, r, None))
            key = lambda f: (it.force(it.field(f, 'status')).variant, oval(it, it.field(f, 'original_index')))
            have = [key(f) for f in got]
            if [h[1] for h in have] != [w[1] for w in want]:
                msgs.append(('frames: kept', f'frames {[w[1] for w in want]} of a thread of {[x[2:4] for x in mine]} must be answered, but {[h[1] for h in have]} are'))
                continue
            for f, (status, j, r, fn) in zip(got, want):
                if key(f)[0] != status:
                    msgs.append(('status: frame', f'a frame whose fate is {status} is reported as {key(f)[0]}'))
                d = differs(it, raw(it, f), r, ('package', 'function', 'symbol'))
                if d:
                    msgs.append(('frames: fields', f'{d} of a frame changes from {show(it.field(r, d))} to {show(it.field(raw(it, f), d))}'))
        return msgs
    h = hooks(c)
    kinds = {'malformed': 'Malformed', 'missing': 'NotFound'}

    def given2(it):
        g = given(it)
        it.seen = []
        bad = {x[2] for x in it.frames if x[2] in ('malformed', 'missing')}
        if len(bad) > 1:
            raise Infeasible()
        it.bad = kinds[bad.pop()] if bad else 'Ok'
        return g
    c.product(name, SYM, spec, given=given2, models=MODELS, mmodels=MM, floor=20, opaque={**h, 'symbolicate_native_frame': native, 'get_relative_caller_addr': lambda it, a: ok(0x10)})


TRUSTS = ('None', 'Scan', 'CfiScan', 'Fp', 'Cfi', 'PreWalked', 'Context')


def names(c):
    """A frame that cannot be symbolicated keeps its names; a mangled one is made readable."""
    def given(it):
        setup(it)
        it.found = [0]
        give = lambda n: some(Str((Term(n, (), T_STR),))) if it.ctx.choose((n + ' given',), [False, True]) else none()
        it.names = {'function': give('function'), 'symbol': give('symbol')}
        it.f = raw_frame(c, it, 0, ('rel', 0), **it.names)
        return {'self': actor(c, it), 'request': request(c, it, [thread(it, 0, [it.f])])}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        fs = frames_of(it, traces(it, response(it, out))[0])
        if len(fs) != 1:
            return 'frames', f'one frame is answered with {len(fs)}'
        f, s = (oval(it, it.names[n]) for n in ('function', 'symbol'))
        want = dict(it.names)
        if (f is None) != (s is None):
            k = it.freeze(it.ctx.sstr(s if f is None else f))
            if it.ctx.choose(('can be demangled', k), [True, False]):
                want['function'] = some(Str((Term('demangled', (k,), T_STR),)))
                if f is not None:
                    want['symbol'] = it.names['function']
        for n in want:
            if repr(it.freeze(it.field(raw(it, fs[0]), n))) != repr(it.freeze(want[n])):
                return n, f'the {n} of a frame without symbol is {show(it.field(raw(it, fs[0]), n))} instead of {show(want[n])}'
        if status_of(it, fs[0], 'status') != 'MissingSymbol':
            return 'status', f'a frame whose address is in no function is reported as {show(it.field(fs[0], "status"))}'
    c.product('names', SYM, spec, given=given, models=MODELS, mmodels=MM, floor=6, opaque=hooks(c))


def n01(c):
    sequence(c, ('frames',), [(1,)], trusts=TRUSTS, name='single frames')
    sequence(c, ('frames',), [(), (0,), (2,), (1, 1)], trusts=('CfiScan', 'Scan'))
    sequence(c, ('frames',), [(3,)], trusts=('None',), fates=('start', 'unknown image', 'found'), name='ends of threads')
    names(c)


def modules_of(it, resp):
    return [it.force(m) for m in items(it, it.field(resp, 'modules'))]


def status_of(it, m, k='debug_status'):
    return it.force(it.field(m, k)).variant


def n02(c):
    sequence(c, ('status',), [(1,)], trusts=TRUSTS, name='single frames')
    sequence(c, ('status',), [(2,)], trusts=('CfiScan', 'Scan'))

    def given(it):
        setup(it)
        it.outcomes = ['Ok', *KINDS]
        it.found = [0, 1]
        it.layout = LAYOUTS[it.ctx.choose(('layout',), [0, 1])]
        types = it.ctx.choose(('types',), [('Elf', 'Elf'), ('PeDotnet', 'Elf')])
        it.used = it.ctx.choose(('modules in use',), [(), (0,), (1, 0)])
        it.fs = [raw_frame(c, it, n, ('rel', n), function_id=some(hexv(5))) for n in it.used]
        return {'self': actor(c, it), 'request': request(c, it, [thread(it, 0, it.fs)], types)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        resp = response(it, out)
        if resp is None:
            return 'failure', 'the request fails'
        ms, msgs = modules_of(it, resp), []
        if len(ms) != 2:
            return 'modules', f'two modules are answered with {len(ms)}'
        for i, m in enumerate(ms):
            k = it.ctx.known(('debug file of module', i))
            want = STATUS[k] if i in it.used and k else 'Unused'
            if (k is None) == (i in it.used):
                msgs.append(('fetching', f'the debug file of a module that {"is" if i in it.used else "is not"} referenced is {"not " if k is None else ""}fetched'))
            elif status_of(it, m) != want:
                msgs.append(('module', f'a debug file that is {k or "not needed"} is reported as {status_of(it, m)} instead of {want}'))
        kinds = dict((i, k) for k, i in it.fetched)
        for i in kinds:
            if (kinds[i] == 'ppdb') != (it.types[i] == 'PeDotnet'):
                msgs.append(('kind', f'a {it.types[i]} module is looked up as {kinds[i]}'))
        fs = frames_of(it, traces(it, resp)[0])
        if len(fs) != len(it.used):
            return msgs + [('frames', f'{len(it.used)} frames are answered with {len(fs)}')]
        for n, f in zip(it.used, fs):
            k = it.ctx.known(('debug file of module', n))
            asked = [q for m, q in it.lookups if m == n]
            if k == 'Ok':
                hit = asked and any(it.ctx.known((w, n, asked[0])) for w in ('functions found', 'line found'))
                want = 'Symbolicated' if hit else 'MissingSymbol'
            else:
                want = 'Malformed' if k == 'Malformed' else 'Missing'
            if status_of(it, f, 'status') != want:
                msgs.append(('frame', f'a frame of a module whose debug file is {k} is reported as {status_of(it, f, "status")} instead of {want}'))
        return msgs
    c.product('outcomes', SYM, spec, given=given, models=MODELS, mmodels=MM, floor=100, opaque={**hooks(c), 'get_relative_caller_addr': lambda it, a: ok(REL)})


# ------------------------------------------------------------------ N03, N05: sources
def source_hooks(c):
    def which(it, req):
        return int(text(it, oval(it, it.field(it.force(it.field(req, 'identifier')), 'code_file')))[4:])

    def find(it, a):
        req = it.force(deref(a[1]))
        i = which(it, req)
        it.kinds.add(frozenset(it.force(x).variant for x in items(it, it.field(req, 'filetypes'))))
        it.found_sources.append((i, it.force(it.field(req, 'purpose')).variant, show(it.freeze(it.field(req, 'scope'))), show(it.freeze(it.field(req, 'sources')))))
        k = it.ctx.choose(('source object of module', i), it.source_outcomes)
        meta = none()
        if k != 'nothing':
            meta = some(Struct(OBJ + 'FoundMeta', {'file_source': Term('source file', (i,), Ty('symbolicator_sources::remotefile::RemoteFile')),
                                                   'handle': cache_err(it, 'Malformed', i) if k == 'broken' else ok(Term('meta', (i,), Ty('Arc', Ty(OBJ + 'meta_cache::ObjectMetaHandle'))))}))
        return Future(lambda: Struct(OBJ + 'FindResult', {'meta': meta, 'candidates': candidates(c, it, f'source{i}')}))

    def fetch(it, a):
        i = it.force(deref(a[1])).args[0]
        if it.ctx.known(('source object of module', i)) == 'unfetchable':
            return Future(lambda: cache_err(it, 'DownloadError', i))
        return Future(lambda: ok(Struct(OBJ + 'data_cache::ObjectHandle', {'object_id': Term('id', (i,), Ty('ObjectId')), 'object': Native('sourceobject', n=i), 'scope': Term('object scope', (i,), Ty(TY + 'Scope')), 'cache_key': Term('key', (), Ty('CacheKey'))})))

    def remote(it, a):
        f = it.force(deref(a[2]))
        cfg = it.force(deref(f.fields[0])) if isinstance(f, Enum) else f
        n = len(it.remotes)
        it.remotes.append((deref(a[1]), cfg, it.force(a[3]), it.freeze(it.field(it.force(deref(it.field(cfg, 'source'))), 'url'))))
        it.linked.append((it.remotes[-1][0], link_of(it, f)))
        k = it.ctx.choose(('remote source', n), ['Ok', 'NotFound', 'Malformed'])
        r = ok(Str((Term('remote text', (n,), T_STR),))) if k == 'Ok' else cache_err(it, k, n)
        return Future(lambda: Struct(T_ENTRY.name, {'metadata': none(), 'contents': r}))
    return {**hooks(c), 'ObjectsActor::find': find, 'ObjectsActor::fetch': fetch, 'ObjectHandle::object': lambda it, a: it.field(it.force(deref(a[0])), 'object'), 'SourceFilesCache::fetch_file': remote,
            'get_context_lines': context, 'is_valid_origin': lambda it, a: it.ctx.choose(('allowed origin', show(it.freeze(deref(a[0])))), [True, False]),
            'get_relative_caller_addr': lambda it, a: ok(REL),
            'RemoteFile::uri': lambda it, a: uri(it, a[0]), 'HttpRemoteFile::uri': lambda it, a: uri(it, a[0])}


def link_of(it, v):
    f = it.force(deref(v))
    cfg = it.force(deref(f.fields[0])) if isinstance(f, Enum) else f
    return show(it.freeze(it.field(it.force(deref(it.field(cfg, 'source'))), 'url')))


def uri(it, v):
    return Struct('symbolicator_sources::remotefile::RemoteFileUri', {'0': S('uri of ', link_of(it, v))})


def context(it, a):
    src, line = it.freeze(it.ctx.sstr(deref(a[0]))), show(it.freeze(deref(a[1])))
    it.contexts.append((src, line, show(it.freeze(deref(a[2]))), it.force(a[3]).variant))
    if not it.ctx.choose(('has line', src, line), [True, False]):
        return none()
    T = lambda w: Str((Term(w, (src, line), T_STR),))
    return some(Tup([Vec([T('before')]), T('line'), Vec([T('after')])]))


@method('sourceobject', 'debug_session')
def _(c):
    if c.it.ctx.choose(('session of object', c.v.n), c.it.sessions):
        return ok(Native('srcsession', n=c.v.n))
    return Enum('Result', 'Err', [Term('object error', (), Ty('ObjectError'))])


@method('srcsession', 'source_by_path')
def _(c):
    p = c.it.freeze(c.it.ctx.sstr(deref(c.args[0])))
    k = c.it.ctx.choose(('source in object', c.v.n, p), c.it.descriptors)
    c.it.asked.append((c.v.n, p))
    if k == 'error':
        return Enum('Result', 'Err', [Term('object error', (), Ty('ObjectError'))])
    return ok(none() if k == 'nothing' else some(Native('srcdesc', n=c.v.n, p=p, what=k)))


@method('srcdesc', 'url')
def _(c):
    k = c.v.what
    return some({'http': S('http://host/', atom(c.v)), 'link': S('https://host/', atom(c.v)), 'both': S('https://host/', atom(c.v)), 'file link': S('file:///', atom(c.v))}[k]) if k in ('http', 'link', 'both', 'file link') else none()


@method('srcdesc', 'contents')
def _(c):
    return some(Str((Term('text', (c.v.n, c.v.p), T_STR),))) if c.v.what in ('contents', 'both') else none()


def atom(v):
    return Str((Term('plain', ('path', v.n, v.p), T_STR),))


def source_setup(it):
    setup(it)
    it.found_sources, it.remotes, it.contexts, it.asked, it.linked = [], [], [], [], []
    it.kinds = set()
    it.source_outcomes, it.sessions, it.descriptors = ['object', 'nothing'], [True], ['contents', 'nothing']


def where(it, m):
    return [text(it, it.field(it.force(it.field(x, 'location')), '0')) for x in map(it.force, items(it, it.field(it.force(it.field(m, 'candidates')), '0')))]


def n03(c):
    def given(it, sources):
        source_setup(it)
        it.layout = LAYOUTS[it.ctx.choose(('layout',), [0, 1] if sources else [0, 1, 2, 3])]
        it.source_outcomes = ['object', 'nothing', 'broken', 'unfetchable'] if sources else ['nothing']
        it.descriptors = ['link']
        it.outcomes = ['NotFound'] if sources else ['Ok', 'NotFound']
        it.apply = sources
        it.rewrite = not sources and it.ctx.choose(('the first module is renamed',), [True, False])
        it.used = it.ctx.choose(('modules in use',), [(0,), (1,), (1, 0)])
        fs = [raw_frame(c, it, n, ('rel', n), abs_path=some(Str(f'/src/{n}')), lineno=some(3)) for n in it.used]
        rules = [Struct(IF + 'RewriteRule', {'from': Native('regex'), 'to': Str('renamed')})] if it.rewrite else []
        return {'self': actor(c, it), 'request': request(c, it, [thread(it, 0, fs)], apply_source_context=it.apply, rewrite_first_module=Struct(IF + 'RewriteRules', {'0': Vec(rules)}),
                                                         scraping=scraping(c, it, False))}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        resp = response(it, out)
        if resp is None:
            return 'failure', 'the request fails'
        ms, msgs = modules_of(it, resp), []
        codes = [text(it, oval(it, it.field(it.field(m, 'raw'), 'code_file'))) for m in ms]
        if codes != ['code0', 'code1']:
            return 'order', f'the modules are answered as {codes}'
        first = min(range(2), key=lambda i: it.layout[i][0])
        links = [l for sc, l in it.linked]
        for i, m in enumerate(ms):
            r = it.field(m, 'raw')
            if text(it, oval(it, it.field(r, 'debug_file'))) != f'debug{i}':
                msgs.append(('debug file', f'the name of a module becomes {show(it.field(r, "debug_file"))}'))
            if it.field(it.force(it.field(r, 'image_addr')), '0') != it.layout[i][0]:
                msgs.append(('address', 'the address of a module changes'))
            nxt = [x[0] for x in it.layout if x[0] > it.layout[i][0]]
            size = it.layout[i][1] or (min(nxt) - it.layout[i][0] if nxt else it.layout[i][1])
            if oval(it, it.field(r, 'image_size')) != size:
                msgs.append(('size', f'the size {it.layout[i][1]} of a module in {it.layout} becomes {show(it.field(r, "image_size"))}'))
            used = i in it.used
            want = [f'old{i}'] + ([f'debug{i}'] if used else []) + ([f'source{i}'] if used and it.apply else [])
            mine = [l for l in links if f'/src/{i}' in l]
            known = it.ctx.known(('source object of module', i))
            if used and it.apply and known == 'object' and not mine and not any(f'/src/{i}' in repr(x) and 'Url::parse' in repr(x) for x in it.ctx.path):
                msgs.append(('links', f'the source link of a frame of module {i} is not followed'))
            if mine and not (used and it.apply and known == 'object'):
                msgs.append(('links', f'{mine} is fetched for a module without sources'))
            got = where(it, m)
            rest = [w for w in got if w not in want]
            if [w for w in want if w not in got] or len(set(got)) != len(got):
                msgs.append(('candidates', f'a module that is {"" if used else "not "}in use lists {got} instead of {want}'))
            elif sorted(rest) != sorted('uri of ' + l for l in mine):
                msgs.append(('source links', f'{rest} are listed for a module with the remote sources {mine}'))
            feat = {n: it.field(it.force(it.field(m, 'features')), n) for n in ('has_debug_info', 'has_symbols', 'has_sources', 'has_unwind_info')}
            ok_ = it.ctx.known(('debug file of module', i)) == 'Ok'
            wantf = {'has_debug_info': used, 'has_symbols': used and i == 0, 'has_sources': used and known == 'object', 'has_unwind_info': i == 0}
            if feat != wantf:
                msgs.append(('features', f'{feat} instead of {wantf}'))
            if used and ok_ and show(it.freeze(it.field(m, 'arch'))) != f'arch({i})':
                msgs.append(('architecture', f'{show(it.field(m, "arch"))} is reported for module {i}'))
        for i, scope, sources, name in it.requests:
            if name != ('renamed' if it.rewrite and i == first else f'debug{i}'):
                msgs.append(('identifier', f'module {i} is looked up as {name}'))
            if (scope, sources) != ('scope', 'sources'):
                msgs.append(('parameters', f'debug files are looked up with {scope}, {sources}'))
        for kinds in it.kinds:
            if not {'SourceBundle', 'PortablePdb', 'ElfDebug', 'WasmDebug'} <= kinds:
                msgs.append(('file types', f'sources are only looked for in {sorted(kinds)}'))
        for i, purpose, scope, sources in it.found_sources:
            if (purpose, scope, sources) != ('Source', 'scope', 'sources'):
                msgs.append(('parameters', f'sources are looked up with {purpose}, {scope}, {sources}'))
        return msgs
    for name, sources in (('modules', False), ('sources', True)):
        c.product(name, SYM, spec, given=lambda it: given(it, sources), models={**MODELS, **URLS}, mmodels=MM, floor=20, opaque=source_hooks(c))


@method('regex', 'replace')
def _(c):
    return Enum('Cow', 'Owned', [c.it.ctx.sstr(deref(c.args[1]))])


def scraping(c, it, enabled):
    return struct_of(c, it, TY + 'ScrapingConfig', enabled=enabled)


URLS = {}


# ------------------------------------------------------------------ N05: source context
def n05(c):
    def given(it, many):
        source_setup(it)
        it.layout = LAYOUTS[0]
        it.outcomes, it.source_outcomes = ['NotFound'], ['object']
        it.sessions = [True] if many else [True, False]
        it.descriptors = ['link'] if many else ['contents', 'nothing', 'error', 'http', 'link', 'both', 'file link']
        it.headers = not many and it.ctx.choose(('the request has headers',), [False, True])
        it.enabled = not many and it.ctx.choose(('scraping is enabled',), [True, False])
        if many:
            it.spots = [(it.ctx.choose(('path of frame', n), ['/src/0', '/src/1']), it.ctx.choose(('line of frame', n), [3, 7]), it.ctx.choose(('module of frame', n), [0, 1])) if n else ('/src/0', 3, 0) for n in (0, 1)]
        else:
            it.spots = [it.ctx.choose(('frame',), [('/src/0', 3, 0), (None, 3, 0), ('/src/0', None, 0), ('/src/0', 3, 2)])]
        fs = [raw_frame(c, it, n, ('rel', m), abs_path=some(Str(p)) if p else none(), lineno=some(l) if l else none(), filename=some(Str('kept'))) for n, (p, l, m) in enumerate(it.spots)]
        it.scrape = struct_of(c, it, TY + 'ScrapingConfig', enabled=it.enabled, headers=Map([[Str('auth'), Str('secret')]] if it.headers else []))
        return {'self': actor(c, it), 'request': request(c, it, [thread(it, 0, fs)], apply_source_context=True, scraping=it.scrape)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        resp = response(it, out)
        if resp is None:
            return 'failure', 'the request fails'
        msgs, frames, fetches = [], [f for st in traces(it, resp) for f in frames_of(it, st)], {}
        if len(frames) != len(it.spots):
            return 'frames', f'{len(frames)} frames are answered'
        for f, (p, l, m) in zip(frames, it.spots):
            r = raw(it, f)
            g = lambda n: show(it.freeze(it.force(it.field(r, n))))
            k = it.ctx.known(('source in object', m, it.freeze(it.ctx.sstr(Str(p))))) if p and l and m < 2 and it.ctx.known(('session of object', m)) is not False else None
            url = {'http': f'http://host/', 'link': 'https://host/', 'both': 'https://host/'}.get(k)
            if url:
                link = S(url, Str((Term('plain', ('path', m, it.freeze(it.ctx.sstr(Str(p)))), T_STR),)))
                res = it.force(Term('Url::parse', (it.freeze(link),), Ty('Result', Ty('Url'), Ty('url::ParseError'))))
                url = res.fields[0] if res.variant == 'Ok' else None
            want = None
            if url and f'url_str' not in g('source_link') and 'Url::parse' not in g('source_link') or not url and g('source_link') != 'None':
                msgs.append(('source link', f'the source link of a frame with {k} is {g("source_link")}'))
            if k in ('contents', 'both'):
                want = (it.freeze(Str((Term('text', (m, it.freeze(it.ctx.sstr(Str(p)))), T_STR),))), l)
            elif url:
                sc = it.force(Term('object scope', (m,), Ty(TY + 'Scope')))
                allowed = it.enabled and it.ctx.known(('allowed origin', show(it.freeze(url))))
                own = Term('scope', (), Ty(TY + 'Scope')) if allowed and it.headers else sc
                cands = [i for i, x in enumerate(it.remotes) if it.ctx.truth(it.eq(x[3], url)) and it.ctx.truth(it.eq(x[0], own))]
                if len(cands) != 1:
                    msgs.append(('remote', f'{show(url)} is fetched {len(cands)} times in the scope {show(sc)}, not once, among {it.linked}'))
                    continue
                i = cands[0]
                fetches[i] = 1
                cfg, shared = it.remotes[i][1:3]
                if shared is not True:
                    msgs.append(('shared cache', 'the shared cache is not used'))
                heads = show(it.freeze(it.field(cfg, 'headers')))
                if ('secret' in heads) != bool(allowed and it.headers):
                    msgs.append(('headers', f'{heads} are sent to {"an" if allowed else "no"} allowed origin while scraping is {it.enabled}'))
                ssl = it.field(it.force(deref(it.field(cfg, 'source'))), 'accept_invalid_certs')
                if it.ctx.truth(ssl) == it.ctx.truth(it.field(it.scrape, 'verify_ssl')):
                    msgs.append(('certificates', 'certificates are not verified as requested'))
                if it.ctx.known(('remote source', i)) == 'Ok':
                    want = (it.freeze(Str((Term('remote text', (i,), T_STR),))), l)
            if want:
                src, line = want[0], show(want[1])
                called = [x for x in it.contexts if repr(x[0]) == repr(src) and x[1] == line]
                if not called:
                    msgs.append(('context', f'line {l} of {show(src)} is not looked up but {it.contexts}'))
                    continue
                if called[0][2:] != ('0', 'None'):
                    msgs.append(('context', f'the context is cut by {called[0][2:]}'))
                has = it.ctx.known(('has line', called[0][0], line))
                T = lambda w: show(it.freeze(Str((Term(w, (called[0][0], line), T_STR),))))
                exp = [[T('before')], f'Some({T("line")})', [T('after')]] if has else None
            else:
                exp = None
            lines = lambda n: [show(it.freeze(x)) for x in items(it, it.field(r, n))]
            got = [lines('pre_context'), g('context_line'), lines('post_context')]
            if got != (exp or [[], 'None', []]):
                msgs.append(('context', f'a frame gets {got} instead of {exp}'))
            if text(it, oval(it, it.field(r, 'filename'))) != 'kept':
                msgs.append(('file name', f'{g("filename")}'))
        if len(it.remotes) != len(fetches):
            msgs.append(('remote', f'{len(it.remotes)} remote files are fetched instead of {len(fetches)}'))
        return msgs
    for name, many in (('single frames', False), ('frames', True)):
        c.product(name, SYM, spec, given=lambda it: given(it, many), models={**MODELS, **URLS}, mmodels=MM, floor=20, opaque=source_hooks(c))


# ------------------------------------------------------------------ N04: addresses
@method('family', 'ip_register_name')
def _(c):
    return some(Str('pc')) if c.it.ctx.choose(('named register', c.v.i), [True, False]) else none()


def n04(c):
    u64 = Ty('u64')

    def arith(it, a, op, b):
        return oval(it, it.method(it.std.temp_ref(a), op, [b]))

    def given(it, mode):
        setup(it)
        it.plain, it.signal = mode != 'functions', none()
        flags = (None,)
        it.regs = Map()
        if mode == 'modules':
            it.layout = LAYOUTS[it.ctx.choose(('layout',), [0, 1, 2, 3, 4, 5])]
            it.places = [it.ctx.choose(('address',), PLACES)]
            it.found = [0, 1]
        elif mode == 'adjustment':
            it.layout, it.places, flags = LAYOUTS[0], [('rel', 0), ('abs', 0x3010)], (None, True, False)
            if it.ctx.choose(('a signal was raised and registers are known',), [False, True]):
                it.signal = some(Struct(IF + 'Signal', {'0': Term('signal', (), Ty('u32'))}))
            if it.signal.variant == 'Some':
                it.regs = Map([[Str('pc'), hexv(0x77)]])
        else:
            it.layout = LAYOUTS[it.ctx.choose(('layout',), [0, 4])]
            it.places, it.found = [('rel', 0)], [0, 1, 2]
        it.flags = [it.ctx.choose(('adjust frame', n), flags) for n in range(len(it.places))]
        T = lambda n: some(Str((Term(n, (), T_STR),)))
        it.raws = [raw_frame(c, it, n, p, adjust_instruction_addr=none() if f is None else some(f), package=T('package'), filename=T('own filename'), abs_path=T('own path'), lineno=some(1), trust=Enum(IF + 'FrameTrust', 'Cfi', []), function_id=some(hexv(9)), in_app=some(True))
                   for n, (p, f) in enumerate(zip(it.places, it.flags))]
        return {'self': actor(c, it), 'request': request(c, it, [thread(it, 0, it.raws, registers=it.regs)], signal=it.signal)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        resp = response(it, out)
        if resp is None:
            return 'failure', 'the request fails'
        got = frames_of(it, traces(it, resp)[0])
        msgs, k, wanted = [], 0, []
        mine = lambda n: [f for f in got if oval(it, it.field(f, 'original_index')) == n]
        lookups, adjusted = list(it.lookups), list(it.adjusted)
        for n, place in enumerate(it.places):
            i = owner(it, place)
            fs = mine(n)
            if i is None:
                if [status_of(it, f, 'status') for f in fs] != ['UnknownImage']:
                    msgs.append(('module', f'a frame at {place} in no module of {it.layout} is answered with {[status_of(it, f, "status") for f in fs]}'))
                elif show(it.freeze(it.field(raw(it, fs[0]), 'package'))) != show(it.freeze(it.field(it.raws[n], 'package'))):
                    msgs.append(('package', 'the package of a frame in no module changes'))
                continue
            start = it.layout[i][0]
            if start:
                ab = start + REL if place[0] == 'rel' else place[1]
                flag = it.flags[n]
                kind = 'previous_address' if flag or flag is None and any(f is not None for f in it.flags) else 'aligned_address' if flag is False else 'caller_address'
                t = Term(kind, (it.freeze(Term('arch', (i,), Ty('Arch'))), ab), u64)
                if not adjusted:
                    msgs.append(('adjustment', f'the address of a frame at {place} is not adjusted'))
                    continue
                have, conf = adjusted.pop(0)
                if have != kind:
                    msgs.append(('adjustment', f'frame {n} of a thread with the adjustments {it.flags} gets its {have} instead of its {kind}'))
                    continue
                ip = conf.pop('ip_register_value')
                if [show(x) for x in (conf.get('is_crashing_frame'), conf.get('signal'))] != [show(n == 0), show(it.freeze(some(Term('signal', (), Ty('u32'))) if it.signal.variant == 'Some' else none()))]:
                    msgs.append(('adjustment', f'frame {n} is adjusted with {conf}'))
                if n and show(ip) != 'None':
                    msgs.append(('adjustment', f'a frame that did not crash is adjusted with the instruction pointer {show(ip)}'))
                if not n and show(ip) != (show(it.freeze(some(0x77))) if it.regs.items and it.ctx.choose(('named register', i), [True, False]) else 'None'):
                    msgs.append(('adjustment', f'the crashing frame is adjusted with the instruction pointer {show(ip)}'))
                rel = arith(it, t, 'checked_sub', start)
            elif place[0] == 'rel':
                rel = REL
            else:
                rel = None
            if rel is None:
                if [status_of(it, f, 'status') for f in fs] != ['MissingSymbol']:
                    msgs.append(('underflow', f'a frame before its module is answered with {[status_of(it, f, "status") for f in fs]}'))
                continue
            key = (i, it.freeze(rel))
            if not lookups or repr(lookups[0]) != repr(key):
                msgs.append(('lookup', f'frame {n} at {place} in {it.layout} is looked up at {lookups[:1]} instead of {key}'))
                continue
            lookups.pop(0)
            found = it.ctx.choose(('functions found', *key), it.found)
            if len(fs) != max(1, found) or any(status_of(it, f, 'status') != ('Symbolicated' if found else 'MissingSymbol') for f in fs):
                msgs.append(('functions', f'{found} functions are answered with {[status_of(it, f, "status") for f in fs]}'))
                continue
            expose = (lambda x: arith(it, start, 'checked_add', x)) if start else lambda x: x
            for m, f in enumerate(fs):
                r = raw(it, f)
                g = lambda x: show(it.freeze(it.force(it.field(r, x))))
                same = lambda x, v: g(x) == show(it.freeze(v))
                if not same('package', some(Str(f'code{i}'))):
                    msgs.append(('package', f'a frame of module {i} gets the package {g("package")}'))
                d = differs(it, r, it.raws[n], ('package', 'addr_mode', 'instruction_addr', 'symbol', 'function', 'abs_path', 'filename', 'lineno', 'lang', 'sym_addr', 'in_app') if found else ('package',))
                if d:
                    msgs.append(('fields', f'{d} of a frame changes to {g(d)}'))
                if not found:
                    continue
                T = lambda w, ty=T_STR: Term(w, (i, key[1], m), ty)
                F = lambda w: some(Str((Term(w, (i, key[1], m), T_STR),)))
                mode = Enum(IF + 'AddrMode', 'Abs', []) if start else Enum(IF + 'AddrMode', 'Rel', [i])
                num = lambda x: 0 if x is None else x
                want = {'addr_mode': mode, 'instruction_addr': hexv(num(expose(rel))), 'function': F('pretty'), 'symbol': F('mangled'), 'lineno': some(T('line', Ty('u32')))}
                want['sym_addr'] = some(hexv(num(expose(it.std.cast(it, 0x20 + m if it.plain else T('entry', Ty('u32')), Ty('u64')))))) if m == len(fs) - 1 else none()
                for x, v in want.items():
                    if not same(x, v):
                        msgs.append((x, f'{x} of function {m} of {len(fs)} is {g(x)} instead of {show(it.freeze(v))}'))
                if not it.plain:
                    file = it.ctx.choose(('the file is known', i, key[1], m), [True, False])
                    lang = it.ctx.choose(('language', i, key[1], m), ['Cpp', 'Unknown'])
                    path = S('/', Str((T('dir'),)), '/', Str((Term('plain', ('file', i, m), T_STR),)))
                    want = {'abs_path': some(path) if file else it.field(it.raws[n], 'abs_path'), 'lang': none() if lang == 'Unknown' else some(Enum('Language', lang, []))}
                    for x, v in want.items():
                        if not same(x, v):
                            msgs.append((x, f'{x} is {g(x)} instead of {show(it.freeze(v))}'))
                    base = it.ext_call(('common', 'split_path'), [path]).items[1]
                    fn = some(base) if file and not it.ctx.truth(it.method(it.std.temp_ref(base), 'is_empty', [])) else it.field(it.raws[n], 'filename')
                    if not same('filename', fn):
                        msgs.append(('filename', f'filename is {g("filename")} instead of {show(it.freeze(fn))}'))
        if lookups:
            msgs.append(('lookup', f'{lookups} are looked up as well'))
        return msgs

    for name in ('modules', 'adjustment', 'functions'):
        c.product(name, SYM, spec, given=lambda it, n=name: given(it, n), models=MODELS, mmodels={**MM, 'Arch.cpu_family': lambda it, r, a: Native('family', i=it.freeze(deref(r)).args[0])}, floor=20, opaque=hooks(c))

    # .NET frames are looked up by function and offset
    def dotnet(it):
        setup(it)
        it.func = it.ctx.choose(('function of the frame',), [None, 7])
        it.raws = [raw_frame(c, it, 0, ('rel', 0), function_id=none() if it.func is None else some(hexv(it.func)), lineno=some(1), filename=some(Str('own')), function=some(Str('f')))]
        return {'self': actor(c, it), 'request': request(c, it, [thread(it, 0, it.raws)], types=('PeDotnet', 'Elf'))}

    def spec2(it, a, out):
        if out.panic:
            return 'panic', out.panic
        fs, msgs = frames_of(it, traces(it, response(it, out))[0]), []
        key = (it.func, REL)
        if it.func is not None and [repr(x) for x in it.lookups] != [repr((0, key))]:
            return 'lookup', f'function {it.func} at {REL} is looked up as {it.lookups}'
        found = it.func is not None and it.ctx.known(('line found', 0, key))
        if [status_of(it, f, 'status') for f in fs] != ['Symbolicated' if found else 'MissingSymbol']:
            return 'status', f'a frame whose line is {"" if found else "not "}found is answered as {[status_of(it, f, "status") for f in fs]}'
        r = raw(it, fs[0])
        d = differs(it, r, it.raws[0], ('package', 'filename', 'abs_path', 'lineno', 'lang') if found else ('package',))
        if d:
            msgs.append(('fields', f'{d} of a frame changes to {show(it.freeze(it.field(r, d)))}'))
        if found:
            path = S('/', Str((Term('dir', (key,), T_STR),)), '/', Str((Term('plain', ('file', key), T_STR),)))
            want = {'abs_path': some(path), 'filename': some(it.ext_call(('common', 'split_path'), [path]).items[1]), 'lineno': some(Term('line', (key,), Ty('u32'))), 'lang': some(Enum('Language', 'C', []))}
            for x, v in want.items():
                if show(it.freeze(it.force(it.field(r, x)))) != show(it.freeze(v)):
                    msgs.append((x, f'{x} is {show(it.freeze(it.field(r, x)))} instead of {show(it.freeze(v))}'))
        return msgs
    c.product('dotnet frames', SYM, spec2, given=dotnet, models=MODELS, mmodels=MM, floor=3, opaque=hooks(c))


# ------------------------------------------------------------------ T01: lines of source context
def t01(c):
    def given(it):
        n = it.ctx.choose(('lines of the file',), list(range(0, 15)))
        it.n, it.ending = n, it.ctx.choose(('line ending',), ['\n', '\r\n'])
        it.last = n and it.ctx.choose(('last line ends',), [True, False])
        it.lines = [Str((Term('plain', ('line', i), T_STR),)) for i in range(n)]
        parts = []
        for i, l in enumerate(it.lines):
            parts += [l] + ([Str(it.ending)] if i < n - 1 or it.last else [])
        it.at = it.ctx.choose(('line',), list(range(1, 17)))
        it.around = it.ctx.choose(('lines around',), [None, 0, 1, 2])
        return {'source': S(*parts) if parts else Str(''), 'lineno': it.at, 'trim_to_column': Term('column', (), Ty('usize')), 'context_lines': none() if it.around is None else some(it.around)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = it.force(out.value)
        k = 5 if it.around is None else it.around
        cut = lambda l: show(it.freeze(trimmed(it, [l])))
        want = None if it.at > it.n else ([cut(l) for l in it.lines[max(0, it.at - 1 - k):it.at - 1]], cut(it.lines[it.at - 1]), [cut(l) for l in it.lines[it.at:it.at + k]])
        if r.variant == 'None':
            return ('missing', f'line {it.at} of {it.n} is not found') if want else None
        if want is None:
            return 'found', f'line {it.at} of {it.n} is found'
        t = it.force(r.fields[0]).items
        got = ([show(it.freeze(x)) for x in items(it, t[0])], show(it.freeze(t[1])), [show(it.freeze(x)) for x in items(it, t[2])])
        for what, x, y in zip(('before', 'line', 'after'), got, want):
            if x != y:
                return what, f'line {it.at} of {it.n} with {k} lines around gets {x} {what} instead of {y}'

    def trimmed(it, a):
        at = it.freeze(deref(a[1])) if len(a) > 1 else Term('column', (), Ty('usize'))
        return Str((Term('trimmed', (it.freeze(it.ctx.sstr(deref(a[0]))), at), T_STR),))
    c.product('lines', SVC + 'source_context::get_context_lines', spec, given=given, floor=1000, opaque={'trim_context_line': trimmed})
    c.section('long lines', lambda: long_lines(c))


def lead(it, i, n):
    """Whether a character starts at byte i of a text of n bytes."""
    if i in (0, n):
        return True
    if not it.wide or all(it.ctx.known(('byte', j)) == 'inner' for j in (i - 1, i - 2, i - 3)):
        return True
    if all(it.ctx.known(('byte', j)) == 'inner' for j in (i + 1, i + 2, i + 3)):
        return True
    if it.ctx.known(('byte', i + 1)) == 'inner' and it.ctx.known(('byte', i + 2)) == 'inner' and it.ctx.known(('byte', i - 1)) == 'inner':
        return True
    if it.ctx.known(('byte', i - 1)) == 'inner' and it.ctx.known(('byte', i - 2)) == 'inner' and it.ctx.known(('byte', i + 1)) == 'inner':
        return True
    return it.ctx.choose(('byte', i), ['start', 'inner']) == 'start'


def long_line(it, n):
    piece = lambda lo, hi: Str((Term('piece', (lo, hi), T_STR),))

    def part(lo, hi):
        hi = n if hi is None else hi
        if not (isinstance(lo, int) and isinstance(hi, int)) or lo > hi or hi > n or not lead(it, lo, n) or not lead(it, hi, n):
            return None
        return piece(lo, hi)

    def some_bytes(lo, hi):
        hi = n if hi is None else hi
        return Vec([(0xC3 if it.ctx.known(('byte', i + 1)) == 'inner' else 0x20) if lead(it, i, n) else 0x80 for i in range(lo, hi)]) if 0 <= lo <= hi <= n else None
    v = Native('long line', n=n, slice=part, whole=piece(0, n))
    v.bytes = Native('line bytes', slice=some_bytes, n=n)
    return v


method('long line', 'len')(lambda c: c.v.n)
method('line bytes', 'len')(lambda c: c.v.n)
method('long line', 'as_bytes')(lambda c: c.v.bytes)
method('long line', 'to_string', 'to_owned', 'into', 'clone')(lambda c: c.v.whole)
method('long line', 'as_str', 'as_ref')(lambda c: c.v)
method('long line', 'is_char_boundary')(lambda c: c.args[0] <= c.v.n and lead(c.it, c.args[0], c.v.n))
method('long line', 'is_empty')(lambda c: c.v.n == 0)


@method('long line', 'get')
def _(c):
    r = deref(c.args[0])
    p = c.v.slice(0 if r.lo is None else r.lo, r.hi + 1 if r.incl else r.hi)
    return none() if p is None else some(p)


def long_lines(c):
    """trim_context_line: long lines are cut to a piece around the column."""
    def given(it):
        it.wide = it.ctx.choose(('wide characters',), [False, True])
        it.n = it.ctx.choose(('length',), [151, 203, 400] if it.wide else [0, 1, 140, 149, 150, 151, 152, 160, 199, 203, 204, 205, 206, 400])
        cols = [0, 60, 64, 65, 66, 100, it.n - 80, it.n - 1, it.n, it.n + 1, it.n + 1000]
        it.col = it.ctx.choose(('column',), sorted({x for x in ([0, 65, 70, it.n - 85, it.n - 70, it.n + 1] if it.wide else cols) if x >= 0}))
        return {'line': long_line(it, it.n), 'column': it.col}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'a line of {it.n} bytes is cut around column {it.col}: {out.panic}'
        s = it.ctx.norm(it.ctx.sstr(out.value))
        parts = list(s.parts)
        at = [i for i, p in enumerate(parts) if isinstance(p, Term) and p.op == 'piece']
        if len(at) != 1:
            return 'text', f'a line of {it.n} bytes gives {show(s)}'
        lo, hi = parts[at[0]].args
        before, after = ''.join(str(p) for p in parts[:at[0]]), ''.join(str(p) for p in parts[at[0] + 1:])
        if it.n <= 150:
            return ('short', f'a line of {it.n} bytes is cut to {show(s)}') if (lo, hi, before, after) != (0, it.n, '', '') else None
        what = f'of a line of {it.n} bytes, {lo} to {hi} are shown around column {it.col}'
        bad = []
        if hi - lo > 146:
            bad.append(('length', what))
        if hi - lo < 134:
            bad.append(('too short', what))
        if not lo <= min(it.col, it.n) <= hi:
            bad.append(('column', what))
        if (before, after) != ('{snip} ' if lo else '', ' {snip}' if hi < it.n else ''):
            bad.append(('marks', f'{what}, marked by {before!r} and {after!r}'))
        return bad or None
    c.product('long lines', SVC + 'source_context::trim_context_line', spec, given=given, floor=200, limit=200000)
