"""N06, N07: minidumps and Apple crash reports."""
from .util import *
from .keys import struct_of, SVC, T_CERR
from .download import kind_of, failure
from .native import IF, TY, NAT, RAWOBJ, CAND, hexv, features, candidates, candidate, module as native_module, text, oval, raw_frame, status_of, cache_err, STATUS
from engine.std import m as method, fn, EXT_ENUMS
from engine.dom import Future

SYM = NAT + 'symbolication::'
PM = SYM + 'process_minidump::'
AP = SYM + 'apple::'
A = lambda n: Term('plain', (n,), T_STR)
X = lambda v: '' if v is None else show(v).strip('"')
CPUS = {'X86': 'X86', 'X86_64': 'Amd64', 'Ppc': 'Ppc', 'Ppc64': 'Ppc64', 'Arm': 'Arm', 'Arm64': 'Arm64', 'Mips': 'Mips', 'Mips64': 'Mips64', 'Sparc': 'Unknown', 'Unknown': 'Unknown'}
OSES = {'Windows': ('Windows', 'Pe'), 'MacOs': ('macOS', 'Macho'), 'Ios': ('iOS', 'Macho'), 'Linux': ('Linux', 'Elf'), 'Solaris': ('Solaris', 'Elf'), 'Android': ('Android', 'Elf'),
        'Ps3': ('PS3', 'Unknown'), 'NaCl': ('NaCl', 'Unknown'), 'Unknown': ('', 'Unknown')}
TRUST = {'None': 'None', 'Scan': 'Scan', 'CfiScan': 'CfiScan', 'FramePointer': 'Fp', 'CallFrameInfo': 'Cfi', 'PreWalked': 'PreWalked', 'Context': 'Context'}
EXT_ENUMS.setdefault('Cpu', ['X86', 'X86_64', 'Ppc', 'Ppc64', 'Sparc', 'Arm', 'Arm64', 'Mips', 'Mips64', 'Unknown'])
EXT_ENUMS.setdefault('Os', list(OSES))
EXT_ENUMS.setdefault('FrameTrust', list(TRUST))
EXT_ENUMS.setdefault('Arch', ['Unknown', 'X86', 'Amd64', 'Arm', 'Arm64', 'Ppc', 'Ppc64', 'Mips', 'Mips64'])

fn('Arch::default')(lambda it, args, targs, expect: Enum('Arch', 'Unknown', []))


def txt(it, v):
    return X(it.freeze(it.ctx.sstr(deref(v))))


def otxt(it, v):
    v = oval(it, v)
    return None if v is None else txt(it, v)


def arch(it, v):
    v = deref(v)
    if isinstance(v, Term) and v.op == 'default':       # the default of a type which nothing here names
        return 'Unknown'
    v = it.force(v)
    return v.variant if isinstance(v, Enum) else show(v).split('::')[-1]


IDS = {}


def an_id(what, text, nil=False):
    """Identifiers with the same text are the same."""
    return IDS.setdefault((what, text, nil), Native('md id', what=what, text=text, nil=nil))


def n06(c):
    c.section('state', lambda: state(c))
    c.section('unwind information', lambda: unwind(c))
    c.section('stackwalk', lambda: stackwalk(c))
    c.section('minidump', lambda: minidump(c))
    c.section('clientside', lambda: clientside(c))


# ------------------------------------------------------------------ what is said about the crash
def opt_str(it, key, text):
    return some(Str(text)) if it.ctx.choose((key,), ['given', 'missing']) == 'given' else none()


def process_state(it, **kw):
    ch = it.ctx.choose
    os_ = ch(('os',), list(OSES))
    f = dict(system_info=Native('md system', os=Enum('Os', os_, [] if os_ != 'Unknown' else [7]), cpu=Enum('Cpu', ch(('cpu',), list(CPUS)), []),
                                os_version=opt_str(it, 'os version', '10.1'), os_build=opt_str(it, 'os build', 'b77')),
             time=Native('md time', n=1), exception_info=none(), assertion=opt_str(it, 'assertion', 'x > 0'))
    if ch(('exception',), [True, False]):
        f['exception_info'] = some(Native('md exception', reason=Str('SIGSEGV'), address=Tup([0xbeef])))
    f.update(kw)
    return Native('md state', **f)


method('md state', 'crashed')(lambda c: c.it.ctx.choose(('crashed',), [True, False]))
method('md time', 'into', 'clone')(lambda c: c.v)


def state(c):
    def given(it):
        return {'process_state': it.std.temp_ref(process_state(it))}

    def spec(it, a, out):
        if out.panic:
            return ('reading the state panics', out.panic)
        s, k, out_ = it.force(deref(out.value)), it.ctx.known, []
        info = it.force(deref(it.field(s, 'system_info')))
        F = lambda n: txt(it, it.field(info, n))
        want = {'os_name': OSES[k(('os',))][0], 'os_version': '10.1' if k(('os version',)) == 'given' else '', 'os_build': 'b77' if k(('os build',)) == 'given' else '', 'device_model': ''}
        for n, w in want.items():
            if F(n) != w:
                out_.append((f'the {n} is not the one of the minidump', f'{k(("os",))}: {F(n)!r}, not {w!r}'))
        if arch(it, it.field(info, 'cpu_arch')) != CPUS[k(('cpu',))]:
            out_.append(('the processor is another one', f'{k(("cpu",))}: {arch(it, it.field(info, "cpu_arch"))}'))
        if getattr(deref(it.field(s, 'timestamp')), 'n', None) != 1:
            out_.append(('the time is not the one of the minidump', show(it.field(s, 'timestamp'))))
        if it.force(it.field(s, 'crashed')) != k(('crashed',)):
            out_.append(('the minidump says otherwise whether it crashed', ''))
        w = 'SIGSEGV / 0xbeef' if k(('exception',)) else ''
        if txt(it, it.field(s, 'crash_reason')) != w:
            out_.append(('the reason of the crash is another one', f'{txt(it, it.field(s, "crash_reason"))!r}, not {w!r}'))
        w = 'x > 0' if k(('assertion',)) == 'given' else ''
        if txt(it, it.field(s, 'assertion')) != w:
            out_.append(('the assertion is another one', f'{txt(it, it.field(s, "assertion"))!r}, not {w!r}'))
        return out_

    c.product('what a minidump says about the process', PM + 'MinidumpState::from_process_state', spec, given=given, floor=100, limit=60000, mmodels={'into': keep})
    merge(c, PM + 'MinidumpState', 'minidump')


def keep(it, recv, args):
    v = deref(recv)
    return v if isinstance(v, Native) and v.kind.startswith('md ') else NotImplemented


def merge(c, ty, what):
    """The meta data of a crash goes into the response; the processor is completed from the modules."""
    APPLE = what == 'apple'
    FIELDS = ['timestamp', 'crash_reason', 'crash_details'] if APPLE else ['timestamp', 'crashed', 'crash_reason', 'assertion']

    def given(it):
        ch = it.ctx.choose
        it.archs = [ch(('module arch', i), ['Unknown', 'X86', 'Arm64']) for i in range(ch(('modules',), [0, 1, 2]))]
        it.own = ch(('own arch',), ['Unknown', 'Ppc'])
        info = struct_of(c, it, IF + 'SystemInfo', cpu_arch=Enum('Arch', it.own, []), os_name=Str('OS'), os_version=Str('v'), os_build=Str('b'), device_model=Str('d'))
        opt = lambda n: some(Str(n + '!')) if ch((n,), [True, False]) else none()
        it.given = {n: (opt(n) if APPLE else ch(('crashed',), [True, False]) if n == 'crashed' else Str(n + '!')) for n in FIELDS}
        st = Struct(ty, dict(it.given, system_info=info))
        mods = [struct_of(c, it, IF + 'CompleteObjectInfo', arch=Enum('Arch', a_, [])) for a_ in it.archs]
        it.resp = struct_of(c, it, IF + 'CompletedSymbolicationResponse', modules=Vec(mods), timestamp=none(), system_info=none(), crashed=none(), crash_reason=none(), crash_details=none(),
                            assertion=none())
        return {'self': st, 'response': it.std.temp_ref(it.resp)}

    def spec(it, a, out):
        if out.panic:
            return ('merging panics', out.panic)
        r, o = it.resp, []
        w = it.own if it.own != 'Unknown' else next((x for x in it.archs if x != 'Unknown'), 'Unknown')
        info = oval(it, it.field(r, 'system_info'))
        if info is None:
            return ('the response does not have the system information', '')
        info = it.force(deref(info))
        if arch(it, it.field(info, 'cpu_arch')) != w:
            o.append(('the processor is not the one of the crash, or of the first module which knows it', f'{arch(it, it.field(info, "cpu_arch"))}, not {w}'))
        for n, x in (('os_name', 'OS'), ('os_version', 'v'), ('os_build', 'b'), ('device_model', 'd')):
            if txt(it, it.field(info, n)) != x:
                o.append((f'the {n} gets lost', txt(it, it.field(info, n))))
        for n in FIELDS:
            got, w = oval(it, it.field(r, n)), oval(it, it.given[n]) if APPLE else it.given[n]
            if (got is None) != (w is None) or got is not None and not it.same(it.freeze(deref(got)), it.freeze(w)):
                o.append((f'the response does not have the {n}', f'{show(got)}, not {show(w)}'))
        if APPLE and it.force(oval(it, it.field(r, 'crashed'))) is not True:
            o.append(('a crash report does not count as a crash', show(it.field(r, 'crashed'))))
        return o

    c.product(f'merging the state of {"an Apple crash report" if APPLE else "a minidump"} into the response', ty + '::merge_into', spec, given=given, floor=20, limit=60000)


# ------------------------------------------------------------------ the unwind information of a module
class Mod:
    """What a module of the minidump says about itself."""
    def __init__(self, i, base=0x1000, size=0x100, code='c', debug='d', code_id='cid', debug_id='did', nil=False):
        self.i, self.base, self.size, self.code, self.debug, self.code_id, self.debug_id, self.nil = i, base, size, code, debug, code_id, debug_id, nil


def md(it, mod):
    return Native('md module', m=mod)


method('md module', 'base_address')(lambda c: c.v.m.base)
method('md module', 'size')(lambda c: c.v.m.size)
method('md module', 'code_file')(lambda c: Str(c.v.m.code))
method('md module', 'debug_file')(lambda c: none() if c.v.m.debug is None else some(Str(c.v.m.debug)))
method('md module', 'code_identifier')(lambda c: none() if c.v.m.code_id is None else some(an_id('code', c.v.m.code_id, c.v.m.nil)))
method('md module', 'debug_identifier')(lambda c: none() if c.v.m.debug_id is None else some(an_id('debug', c.v.m.debug_id)))
method('md id', 'is_nil')(lambda c: c.v.nil)
method('md id', 'breakpad')(lambda c: an_id('debug', 'breakpad ' + c.v.text))
method('md id', 'to_string')(lambda c: Str(c.v.text))
method('md id', 'clone')(lambda c: c.v)
method('md id', 'eq')(lambda c: deref(c.args[0]).text == c.v.text)
method('md notify', 'clone')(lambda c: c.v)


@method('md notify', 'notify_waiters', 'notify_one')
def _(c):
    it = c.it
    it.told.append((c.v.n, c.name, it.entry_state()))
    return UNIT


@method('md notify', 'notified')
def _(c):
    return Native('md wait', await_=lambda: c.it.arrive())


def fetched_cfi(c, it, i, kind, info=True, **kw):
    if kind == 'cfi':
        inf = some(Struct(NAT + 'caches::cficaches::CfiModuleInfo', {'debug_id': an_id('debug', 'cfi did'), 'debug_file': Str('cfi file')})) if info else none()
        v = ok(some(Tup([Native('md symfile', n=i), inf])))
    elif kind == 'empty':
        v = ok(none())
    else:
        v = cache_err(it, kind)
    return Struct(NAT + 'caches::derived::DerivedCache', {'cache': v, 'candidates': candidates(c, it, f'cand{i}'), 'features': features(it, has_symbols=True)})


def cfi_hooks(c):
    def fetch(it, a):
        r = deref(a[1])
        o = it.force(deref(it.field(r, 'identifier')))
        opt = lambda n: oval(it, it.field(o, n))
        idt = lambda n: getattr(deref(opt(n)), 'text', '?') if opt(n) is not None else None
        it.asked.append(dict(scope=show(it.freeze(it.field(r, 'scope'))), sources=[show(x) for x in items(it, it.field(r, 'sources'))], ty=it.force(it.field(r, 'object_type')).variant,
                             oty=it.force(it.field(o, 'object_type')).variant, code_id=idt('code_id'), debug_id=idt('debug_id'), code_file=None if opt('code_file') is None else txt(it, opt('code_file')),
                             debug_file=None if opt('debug_file') is None else txt(it, opt('debug_file')), sum=opt('debug_checksum'), state=it.entry_state()))
        return Future(lambda: it.answer(), 'fetch')
    return {'CfiCacheActor::fetch': fetch, 'RewriteRules::rewrite': lambda it, a: some(S('new ', deref(a[1]))) if it.ctx.choose(('rewritten', txt(it, a[1])), [True, False]) else none()}


def into_inner(it, a):
    """Only what nobody else holds can be taken out."""
    v = deref(a[0])
    p = getattr(it, 'given_provider', None)
    held = [] if p is None else [e for _, e in it.field(p, 'cficaches').v.items if isinstance(e, Enum) and e.fields and it.same(it.freeze(deref(e.fields[0])), it.freeze(v))]
    return none() if held else some(v)


MODELS = {'Notify::new': lambda it, a: fresh(it), 'Hub::current': lambda it, a: Native('md hub'), 'Hub::new_from_top': lambda it, a: Native('md hub'),
          'Arc::into_inner': into_inner, 'sentry::capture_message': lambda it, a: UNIT}


def fresh(it):
    it.made = getattr(it, 'made', 0) + 1
    return Native('md notify', n=f'new{it.made}')


def bind_hub(it, recv, args):
    return deref(recv)


def provider(c, it, first, entries):
    """The provider of one stackwalk, with what it remembers of modules: [(base, size), entry]."""
    key = lambda b, z: Struct(PM + 'LookupKey', {'base_addr': b, 'size': z})
    it.cache = Native('cell', v=Map([[key(*k), v] for k, v in entries]))
    return struct_of(c, it, PM + 'SymbolicatorSymbolProvider', scope=Enum(TY + 'Scope', 'Scoped', [Str('project')]), sources=Vec([Str('source 1'), Str('source 2')]),
                     object_type=Enum('symbolicator_sources::types::ObjectType', 'Pe', []), cficache_actor=struct_of(c, it, NAT + 'caches::cficaches::CfiCacheActor'),
                     first_module_debug_id=none() if first is None else some(an_id('debug', first)), rewrite_first_module=struct_of(c, it, IF + 'RewriteRules'),
                     cficaches=it.cache)


def lookup_entry(it, base, size):
    for k, v in it.cache.v.items:
        if (it.field(deref(k), 'base_addr'), it.field(deref(k), 'size')) == (base, size):
            return it.force(deref(v))


def fetched_entry(v):
    return Enum(PM + 'LazyCfiCache', 'Fetched', [v])


def unwind(c):
    def given(it):
        ch = it.ctx.choose
        it.asked, it.told, it.waits = [], [], 0
        before = ch(('before',), ['nothing', 'fetched', 'fetching', 'same base', 'same size'])
        plain = before != 'nothing'
        m = Mod(0, code=ch(('code file',), ['c', ''] if not plain else ['c']), debug=ch(('debug file',), ['d', '', None] if not plain else ['d']),
                code_id=ch(('code id',), ['cid', None] if not plain else ['cid']), debug_id=ch(('debug id',), ['did', None] if not plain else ['did']))
        it.mod = m
        first = ch(('first',), ['did', 'other', None] if not plain else ['other'])
        it.first = first
        it.old, it.new = Native('md cfi', n='old'), fetched_cfi(c, it, 1, 'cfi')
        it.entry_state = lambda: getattr(lookup_entry(it, m.base, m.size), 'variant', None)
        waiting = Enum(PM + 'LazyCfiCache', 'Fetching', [Native('md notify', n='other')])

        def arrive():
            it.waits += 1
            if it.waits > 3:
                raise Infeasible()
            if it.waits > 1 or ch(('woken early',), [False, True]) is False:
                for e in it.cache.v.items:
                    e[1] = fetched_entry(it.old)
            return UNIT
        it.arrive = arrive
        it.answer = lambda: it.new
        entries = {'nothing': [], 'fetched': [[(m.base, m.size), fetched_entry(it.old)]], 'fetching': [[(m.base, m.size), waiting]],
                   'same base': [[(m.base, m.size + 1), fetched_entry(it.old)]], 'same size': [[(m.base + 1, m.size), fetched_entry(it.old)]]}[before]
        return {'self': it.std.temp_ref(provider(c, it, first, entries)), 'module': it.std.temp_ref(md(it, m))}

    def spec(it, a, out):
        if out.panic:
            return ('loading the unwind information panics', out.panic)
        k, m, o, v = it.ctx.known, it.mod, [], deref(out.value)
        before = k(('before',))
        if before in ('fetched', 'fetching'):
            if it.asked:
                o.append(('unwind information which is there or being fetched is fetched again', before))
            if v is not it.old:
                o.append(('the unwind information which was fetched for the module is not used', show(v)[:80]))
            return o
        if not it.same(it.freeze(v), it.freeze(it.new)):
            o.append(('the module gets unwind information which was not fetched for it', f'{before}: {show(v)[:80]}'))
        if len(it.asked) != 1:
            return o + [('the unwind information is not fetched exactly once', f'{len(it.asked)} times')]
        q = it.asked[0]
        if 'project' not in q['scope'] or q['sources'] != ['"source 1"', '"source 2"'] or (q['ty'], q['oty']) != ('Pe', 'Pe'):
            o.append(('unwind information is asked for in another scope, other sources or of another type', str({n: q[n] for n in ('scope', 'sources', 'ty', 'oty')})))
        file = m.debug or None
        if file and it.first == m.debug_id and m.debug_id is not None and k(('rewritten', 'd')) is not False:
            file = 'new d'
        if (m.debug_id, it.first) == (None, None):
            file = q['debug_file'] if q['debug_file'] in (file, 'new d') else file
        want = dict(code_id=m.code_id, debug_id=m.debug_id, code_file=m.code or None, debug_file=file, sum=None)
        for n, w in want.items():
            if q[n] != w:
                o.append((f'the {n} asked for is not the one of the module', f'{q[n]!r}, not {w!r}'))
        if q['state'] != 'Fetching':
            o.append(('nobody sees that the module is being fetched', str(q['state'])))
        e = lookup_entry(it, m.base, m.size)
        if e is None or e.variant != 'Fetched' or not it.same(it.freeze(deref(e.fields[0])), it.freeze(it.new)):
            o.append(('the unwind information is not kept for the next frame', show(e)[:80]))
        if not [x for x in it.told if x[0] == 'new1' and x[1] == 'notify_waiters' and x[2] == 'Fetched']:
            o.append(('who waits for the module is not woken once it is there', str(it.told)))
        return o

    P = PM + 'SymbolicatorSymbolProvider::'
    c.product('loading the unwind information of a module', P + 'load_cfi_module', spec, given=given, floor=30, limit=60000, opaque=cfi_hooks(c), models=MODELS, mmodels={'bind_hub': bind_hub})
    frames(c)


method('md cfi', 'clone')(lambda c: c.v)
method('md frame', 'get_instruction')(lambda c: c.v.at)
method('md stack', 'is_empty')(lambda c: c.v.n == 'empty')


@method('md stack', 'get')
def _(c):
    c.it.looked = deref(c.args[0])
    return some(Native('md rules')) if c.it.ctx.choose(('covered',), [True, False]) else none()


@method('md symfile', 'walk_frame')
def _(c):
    c.it.walked = [getattr(deref(x), 'kind', '') for x in c.args] + [c.v.n]
    return some(UNIT) if c.it.ctx.choose(('walks',), [True, False]) else none()


def frames(c):
    KINDS = ['cfi', 'empty', 'NotFound', 'Malformed', 'Timeout']

    def given(what):
        def f(it):
            ch = it.ctx.choose
            it.walked = it.looked = None
            it.kind = ch(('cfi',), KINDS)
            it.cfi = fetched_cfi(c, it, 1, it.kind)
            it.stack = ch(('stack info',), ['some', 'empty'])
            if it.kind == 'cfi':
                v = oval(it, it.force(it.field(it.cfi, 'cache')).fields[0])
                v.items[0].cfi_stack_info = Native('md stack', n=it.stack)
            it.mod = Mod(0)
            d = {'self': it.std.temp_ref(provider(c, it, 'did', [])), 'module': it.std.temp_ref(md(it, it.mod))}
            d['frame' if what == 'fill' else 'walker'] = it.std.temp_ref(Native('md frame', at=0x1020) if what == 'fill' else Native('md walker'))
            return d
        return f

    hook = {'SymbolicatorSymbolProvider::load_cfi_module': lambda it, a: Future(lambda: it.cfi, 'load')}

    def fill(it, a, out):
        if out.panic:
            return ('a frame makes it panic', out.panic)
        v, o = it.force(deref(out.value)), []
        covered = it.ctx.known(('covered',))
        skip = it.kind == 'cfi' and it.stack == 'some' and covered is False
        if (v.variant == 'Ok') != skip:
            o.append(('an address outside of every function of the module counts as a frame' if skip else 'a possible frame is left out of the stack trace', f'{it.kind}, {it.stack}, covered {covered}'))
        if it.looked is not None and it.looked != 0x20:
            o.append(('the address is not looked up relative to the module', show(it.looked)))
        return o

    def walk(it, a, out):
        if out.panic:
            return ('a frame makes it panic', out.panic)
        v = it.force(deref(out.value))
        if it.kind != 'cfi':
            return None if v.variant == 'None' and not it.walked else ('a frame is unwound without unwind information', it.kind)
        if it.walked != ['md module', 'md walker', 1]:
            return ('a frame is not unwound with the unwind information of its module', str(it.walked))
        return None if (v.variant == 'Some') == it.ctx.known(('walks',)) else ('the outcome of unwinding is turned around', v.variant)

    P = PM + 'SymbolicatorSymbolProvider::'
    c.product('whether an address can be a frame', P + 'fill_symbol', fill, given=given('fill'), floor=7, limit=60000, opaque=hook)
    c.product('unwinding one frame', P + 'walk_frame', walk, given=given('walk'), floor=6, limit=60000, opaque=hook)


# ------------------------------------------------------------------ threads, frames and modules
method('md dump', 'get_stream')(lambda c: c.v.stream(c.targs[0] if c.targs else None))
method('md modules', 'by_addr')(lambda c: c.it.method(c.it.std.temp_ref(Vec([md(c.it, m) for m in sorted(c.v.mods, key=lambda m: m.base)])), 'into_iter', []))
method('md context', 'valid_registers')(lambda c: c.it.method(c.it.std.temp_ref(Vec([Tup([Str(n), v]) for n, v in c.v.regs])), 'into_iter', []))
method('md frame module', 'code_file')(lambda c: Str(c.v.file))
NAMES = ['mod', '', None]


def a_frame(i, n, trust, file):
    return Native('md stackframe', resume_address=0x100 * i + n, instruction=0x100 * i + n - 1, trust=Enum('FrameTrust', trust, []),
                  module=none() if file is None else some(Native('md frame module', file=file)), context=Native('md context', regs=[('rip', 0x100 * i + n), ('rsp', 8)]))


def stackwalk(c):
    ST = 'symbolicator_sources::types::ObjectType'

    def process(it, a):
        it.given_provider = deref(a[1])
        def run():
            if it.ctx.choose(('walking',), ['works', 'fails']) == 'fails':
                return err(Term('md error', (), Ty('ProcessError')))
            for m, v in it.loaded:
                cell_ = it.field(it.given_provider, 'cficaches')
                cell_.v.items.append([Struct(PM + 'LookupKey', {'base_addr': m.base, 'size': m.size}), v])
            return ok(Native('md state', **it.state))
        return Future(run, 'process')

    def system(it, os_):
        def stream(t):
            n = str(t)
            if 'ModuleList' in n:
                return ok(Native('md modules', mods=it.mods)) if it.ctx.choose(('module list',), ['there', 'missing']) == 'there' else err(Term('md error', (), Ty('MdError')))
            if it.ctx.choose(('system info',), ['there', 'missing']) == 'missing':
                return err(Term('md error', (), Ty('MdError')))
            return ok(Native('md system', os=Enum('Os', os_, [] if os_ != 'Unknown' else [7])))
        return Native('md dump', stream=stream)

    def base(it, os_):
        it.asked, it.told, it.loaded, it.mods = [], [], [], []
        it.entry_state = lambda: None
        it.state = dict(system_info=Native('md system'), requesting_thread=none(), threads=Vec([]))
        cfis = struct_of(c, it, NAT + 'caches::cficaches::CfiCacheActor')
        it.in_ = dict(scope=Enum(TY + 'Scope', 'Scoped', [Str('project')]), sources=Vec([Str('source 1')]), rules=struct_of(c, it, IF + 'RewriteRules', n=5))
        return {'cficaches': cfis, 'minidump': it.std.temp_ref(system(it, os_)), 'scope': it.in_['scope'], 'sources': it.in_['sources'], 'rewrite_first_module': it.in_['rules']}

    def threads(it):
        d = base(it, it.ctx.choose(('os',), ['Windows', 'Unknown']))
        ch = it.ctx.choose
        n = ch(('threads',), [0, 1, 2])
        many = n == 1 and ch(('long',), [False, True])
        it.spec = []
        for i in range(n):
            k = 300 if many else ch(('frames', i), [0, 1, 2])
            fr = []
            for j in range(k):
                trust = ch(('trust',), list(TRUST)) if (i, j, n) == (0, 0, 1) and not many else 'Context'
                fr.append((j, trust, NAMES[(i + j) % 3]))
            it.spec.append((fr, 'name' if i == 0 else None))
        it.state['threads'] = Vec([Native('md thread', frames=Vec([a_frame(i, j, t, f) for j, t, f in fr]), thread_name=none() if nm is None else some(Str(nm)), thread_id=40 + i)
                                   for i, (fr, nm) in enumerate(it.spec)])
        it.req = ch(('requesting',), [None] + list(range(n)))
        it.state['requesting_thread'] = none() if it.req is None else some(it.req)
        it.state['modules'] = Native('md modules', mods=[])
        return d

    def failed(it, out):
        k, v = it.ctx.known, it.force(deref(out.value))
        bad = 'missing' in (k(('system info',)),) or k(('walking',)) == 'fails'
        if (v.variant == 'Err') != bad:
            return None, ('a minidump which cannot be unwound does not fail' if bad else 'a minidump which can be unwound fails', v.variant)
        return (None, None) if bad else (deref(v.fields[0]), None)

    def tspec(it, a, out):
        if out.panic:
            return ('unwinding panics', out.panic)
        r, msg = failed(it, out)
        if r is None:
            return msg
        o, sts = [], [it.force(deref(x)) for x in items(it, it.field(r, 'stacktraces'))]
        if len(sts) != len(it.spec):
            return ('threads are lost or made up', f'{len(sts)} of {len(it.spec)}')
        for i, (st, (fr, nm)) in enumerate(zip(sts, it.spec)):
            if oval(it, it.field(st, 'thread_id')) != 40 + i:
                o.append(('a thread has another number', f'thread {i}: {show(it.field(st, "thread_id"))}'))
            if otxt(it, it.field(st, 'thread_name')) != nm:
                o.append(('a thread has another name', f'thread {i}: {otxt(it, it.field(st, "thread_name"))!r}'))
            w = None if it.req is None else it.req == i
            if oval(it, it.field(st, 'is_requesting')) is not w:
                o.append(('another thread counts as the one which crashed', f'thread {i} of {it.req}: {show(it.field(st, "is_requesting"))}'))
            regs = it.force(deref(it.field(st, 'registers')))
            got = {txt(it, k): it.field(deref(v), '0') for k, v in regs.items}
            if got != ({'rip': 0x100 * i + fr[0][0], 'rsp': 8} if fr else {}):
                o.append(('the registers are not those of the topmost frame', f'thread {i}: {got}'))
            got = []
            for f in items(it, it.field(st, 'frames')):
                f = it.force(deref(f))
                got.append((it.field(deref(it.field(f, 'instruction_addr')), '0'), it.force(it.field(f, 'trust')).variant, otxt(it, it.field(f, 'package'))))
            want = [(0x100 * i + j, TRUST[t], nm_ or None) for j, t, nm_ in fr][:256]
            if got != want:
                d = next((n for n, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
                o.append(('the frames of a thread are not those which were unwound', f'thread {i}: {len(got)} frames, not {len(want)}; {got[d:d + 1]}, not {want[d:d + 1]}'))
        return o

    hook = dict(cfi_hooks(c), **{'MinidumpState::from_process_state': lambda it, a: Native('md made state', of=deref(a[0]))})
    models = dict(MODELS, **{'minidump_processor::process_minidump': process, 'Instant::now': lambda it, a: Native('md clock')})
    mm = {'bind_hub': bind_hub, 'parse': lambda it, recv, args: ok(Native('md parsed', of=txt(it, recv)))}
    c.product('the threads of a minidump', PM + 'stackwalk', tspec, given=threads, floor=30, limit=60000, opaque=hook, models=models, mmodels=mm, boundloop=400)

    # which modules there are, and what is said about them
    def modules(it):
        ch = it.ctx.choose
        d = base(it, ch(('os',), list(OSES)))
        full = ch(('os',), list(OSES)) == 'Linux'
        m0 = Mod(0, base=0x3000, code='', debug='', code_id=None, debug_id=None, size=0)
        m1 = Mod(1, base=0x1000)
        if full:
            m0.code_id, m0.debug_id, m0.nil = ch(('code id',), ['CID', None]), ch(('debug id',), ['DID', None]), ch(('nil',), [False, True])
            m0.code, m0.debug, m0.size = ch(('code',), ['code', '']), ch(('debug',), ['debug', None]), ch(('size',), [0, 0x80])
            if m0.nil and m0.code_id is None:
                raise Infeasible()
            it.loading = ch(('loaded',), ['no', 'waiting', 'cfi', 'cfi without module', 'empty', 'NotFound', 'Timeout'])
            if it.loading == 'waiting':
                it.loaded.append((m0, Enum(PM + 'LazyCfiCache', 'Fetching', [Native('md notify', n='x')])))
            elif it.loading != 'no':
                it.loaded.append((m0, fetched_entry(fetched_cfi(c, it, 9, it.loading.split()[0], info=it.loading == 'cfi'))))
        else:
            it.loading = 'no'
        it.mods = [m0, m1]
        it.state['modules'] = Native('md modules', mods=it.mods)
        return d

    def mspec(it, a, out):
        if out.panic:
            return ('listing the modules panics', out.panic)
        r, msg = failed(it, out)
        if r is None:
            return msg
        m0, m1 = it.mods
        o, keep0 = [], it.loading != 'no' or m0.code_id is not None or m0.debug_id is not None
        st = deref(it.field(r, 'minidump_state'))
        if getattr(st, 'kind', '') != 'md made state' or getattr(st.of, 'kind', '') != 'md state':
            o.append(('what the minidump says about the process gets lost', show(st)[:80]))
        p, k = it.given_provider, it.ctx.known
        fid = oval(it, it.field(p, 'first_module_debug_id'))
        w = 'did' if k(('module list',)) != 'missing' else None
        if (fid.text if fid is not None else None) != w:
            o.append(('the first module is another one', f'{show(fid)}, not {w}'))
        ty = OSES[k(('os',))][1]
        same = lambda n, v: it.same(it.freeze(it.field(p, n)), it.freeze(it.in_[v]))
        if it.force(it.field(p, 'object_type')).variant != ty or not same('scope', 'scope') or not same('sources', 'sources') or not same('rewrite_first_module', 'rules'):
            o.append(('the unwind information is looked for in other places or under other names', f'{k(("os",))}: {it.force(it.field(p, "object_type")).variant}'))
        mods = [it.force(deref(x)) for x in items(it, it.field(r, 'modules'))]
        want = [m1] + ([m0] if keep0 else [])
        if len(mods) != len(want):
            return o + [('modules which are used or known are lost, or others are kept', f'{len(mods)}, not {len(want)}: {it.loading}, {m0.code_id}, {m0.debug_id}')]
        for x, m in zip(mods, want):
            raw = it.field(x, 'raw')
            F = lambda n: otxt2(it, it.field(raw, n))
            filled = m is m0 and it.loading == 'cfi'
            exp = dict(code_id=None if m.code_id is None or m.nil else m.code_id.lower(), code_file=m.code or None, debug_file=(m.debug or None) or ('cfi file' if filled else None),
                       debug_id='breakpad ' + m.debug_id if m.debug_id else 'cfi did' if filled else None, debug_checksum=None)
            for n, w in exp.items():
                if F(n) != w:
                    o.append((f'a module has another {n}', f'{it.loading}: {F(n)!r}, not {w!r}'))
            if it.field(deref(it.field(raw, 'image_addr')), '0') != m.base or oval(it, it.field(raw, 'image_size')) != (m.size or None):
                o.append(('a module lies elsewhere', f'{show(it.field(raw, "image_addr"))}, {show(it.field(raw, "image_size"))}'))
            if it.force(it.field(raw, 'ty')).variant != ty:
                o.append(('a module is of another type', f'{it.force(it.field(raw, "ty")).variant}, not {ty}'))
            l = it.loading if m is m0 else 'no'
            w = 'Unused' if l in ('no', 'waiting') else STATUS['Ok'] if l.startswith('cfi') or l == 'empty' else STATUS[l]
            u = oval(it, it.field(x, 'unwind_status'))
            if u is None or it.force(u).variant != w:
                o.append(('the unwind status of a module is another one', f'{l}: {show(u)}, not {w}'))
            got = [show(it.field(deref(y), 'location')) for y in items(it, it.field(it.field(x, 'candidates'), '0'))]
            there = l not in ('no', 'waiting')
            if (len(got) == 1 and 'cand9' in got[0]) != there or len(got) > 1:
                o.append(('the candidates tried for a module get lost', f'{l}: {got}'))
            if (it.force(it.field(it.field(x, 'features'), 'has_symbols')) is True) != there:
                o.append(('the features found for a module get lost', f'{l}'))
        return o

    c.product('the modules of a minidump', PM + 'stackwalk', mspec, given=modules, floor=100, limit=90000, opaque=hook, models=models, mmodels=mm)


def otxt2(it, v):
    v = oval(it, v)
    return None if v is None else parsed(it, v)


def parsed(it, v):
    v = deref(v)
    return v.of if isinstance(v, Native) and v.kind == 'md parsed' else txt(it, v)


method('md parsed', 'to_string')(lambda c: Str(c.v.of))
method('md clock', 'elapsed')(lambda c: Native('md duration'))


# ------------------------------------------------------------------ a request
@method('md file', 'metadata')
def _(c):
    return ok(Native('md meta')) if c.it.ctx.choose(('metadata',), ['there', 'missing']) == 'there' else err(Term('io error', (), Ty('E_IO')))


method('md meta', 'len')(lambda c: 77)
method('md file', 'to_path_buf')(lambda c: Native('md path', n='minidump'))
method('md file', 'file_name')(lambda c: some(Native('md name')) if c.it.ctx.choose(('file name',), ['there', 'missing']) == 'there' else none())
method('md dir', 'join')(lambda c: Native('md path', n=f'dir/{getattr(deref(c.args[0]), "kind", "?")}'))
method('md path', 'as_ref', 'clone', 'as_path')(lambda c: c.v)
method('md path', 'to_string_lossy', 'display')(lambda c: Str('path'))


@method('md file', 'persist')
def _(c):
    c.it.saved.append(getattr(deref(c.args[0]), 'n', '?'))
    return ok(Native('md path', n='saved')) if c.it.ctx.choose(('saving',), ['works', 'fails']) == 'works' else err(Term('io error', (), Ty('E_IO')))


def minidump(c):
    def given(it):
        it.saved, it.read, it.walked, it.sym = [], [], [], []
        it.ctx.choose(('diagnostics',), ['kept', 'off'])
        it.ctx.choose(('file name',), ['there', 'missing'])
        n = lambda x: Native('md in', n=x)
        it.parts = {x: n(x) for x in ('platform', 'scope', 'sources', 'scraping', 'rewrite_first_module')}
        req = Struct(IF + 'ProcessMinidump', dict(it.parts, minidump_file=Native('md file')))
        it.threads = [Struct(IF + 'RawStacktrace', {'thread_id': some(i), 'thread_name': none(), 'is_requesting': none(), 'registers': Map([]), 'frames': Vec([f'server {i}'])}) for i in (1, 2)]
        a = struct_of(c, it, SYM + 'symbolicate::SymbolicationActor', cficaches=n('cficaches'), diagnostics_cache=Native('md cache'))
        return {'self': it.std.temp_ref(a), 'request': req}

    def read(it, a):
        it.read.append(getattr(deref(a[0]), 'n', '?'))
        return ok(Native('md dump', stream=None)) if it.ctx.choose(('reading',), ['works', 'fails']) == 'works' else err(Term('read error', (), Ty('E_ANY')))

    def walk(it, a):
        it.walked.append([getattr(deref(x), 'n', getattr(deref(x), 'kind', '?')) for x in a])
        if it.ctx.choose(('walking',), ['works', 'fails']) == 'fails':
            return Future(lambda: err(Term('walk error', (), Ty('E_ANY'))), 'walk')
        return Future(lambda: ok(Struct(PM + 'StackWalkMinidumpResult', {'modules': Native('md in', n='modules'), 'stacktraces': Vec(list(it.threads)), 'minidump_state': Native('md in', n='state'),
                                                                         'duration': 5})), 'walk')

    def client(it, a):
        k = it.ctx.choose(('client traces',), ['none', 'some', 'invalid'])
        if k == 'invalid':
            return err(Term('client error', (), Ty('E_ANY')))
        return ok(some(Native('md in', n='client')) if k == 'some' else none())

    def joined(it, a):
        it.merged.append((items(it, a[0]), getattr(deref(a[1]), 'n', '?')))
        return UNIT

    def setup(it):
        it.merged = []

    method('md cache', 'cache_dir')(lambda c: some(Native('md dir')) if c.it.ctx.choose(('diagnostics',), ['kept', 'off']) == 'kept' else none())
    hook = {'read_minidump': read, 'stackwalk': walk, 'parse_stacktraces_from_minidump': client, 'merge_clientside_with_processed_stacktraces': joined, 'Cache::cache_dir': None}
    hook.pop('Cache::cache_dir')

    def spec(it, a, out):
        if out.panic:
            return ('a minidump makes it panic', out.panic)
        k, v, o = it.ctx.known, it.force(deref(out.value)), []
        bad = k(('metadata',)) == 'missing' or k(('reading',)) == 'fails' or k(('walking',)) == 'fails'
        if (v.variant == 'Err') != bad:
            return ('a minidump which cannot be processed does not fail' if bad else 'a minidump which can be processed fails', show(v)[:80])
        broken = k(('reading',)) == 'fails' or k(('walking',)) == 'fails'
        want = ['dir/md name'] if broken and k(('diagnostics',)) == 'kept' and k(('file name',)) == 'there' else []
        if it.saved != want:
            o.append(('a minidump which cannot be processed is not kept for diagnosis, or another one is', f'{it.saved}, not {want}'))
        if it.read and it.read != ['minidump'] or it.walked and it.walked != [['cficaches', 'md dump', 'scope', 'sources', 'rewrite_first_module']]:
            o.append(('something else than the minidump is unwound', f'{it.read}, {it.walked}'))
        if bad:
            return o
        req, st = (deref(x) for x in deref(v.fields[0]).items)
        if getattr(st, 'n', None) != 'state':
            o.append(('what the minidump says about the process gets lost', show(st)[:60]))
        for n in ('platform', 'scope', 'sources', 'scraping', 'rewrite_first_module', 'modules'):
            if getattr(deref(it.field(req, n)), 'n', None) != n:
                o.append((f'the {n} of the request gets lost', show(it.field(req, n))[:60]))
        if it.force(it.field(req, 'origin')).variant != 'Minidump' or it.force(it.field(req, 'signal')).variant != 'None':
            o.append(('the frames count as those of another kind of crash', show(it.field(req, 'origin'))))
        if it.field(req, 'apply_source_context') is not True:
            o.append(('frames do not get source context', ''))
        if [it.field(deref(x), 'thread_id').fields[0] for x in items(it, it.field(req, 'stacktraces'))] != [1, 2]:
            o.append(('threads are lost', ''))
        some_ = k(('client traces',)) == 'some'
        if (len(it.merged) == 1 and it.merged[0][1] == 'client' and len(it.merged[0][0]) == 2) != some_ or len(it.merged) > 1:
            o.append(('stack traces which the client captured are not taken, or others are', str([m[1] for m in it.merged])))
        return o

    c.product('preparing the request of a minidump', SYM + 'symbolicate::SymbolicationActor::stackwalk_minidump', spec, given=given, setup=setup, floor=9, limit=60000, opaque=hook)

    def whole(it):
        it.sym, it.done = [], []
        return {'self': it.std.temp_ref(struct_of(c, it, SYM + 'symbolicate::SymbolicationActor')), 'request': Native('md in', n='request')}

    def first(it, a):
        good = it.ctx.choose(('walk',), ['works', 'fails']) == 'works' and deref(a[1]).n == 'request'
        return Future(lambda: ok(Tup([Native('md in', n='prepared'), Native('md in', n='state')])) if good else err(Term('walk error', (), Ty('E_ANY'))), 'walk')

    wspec, whook = symbolicated(c)
    whook['SymbolicationActor::stackwalk_minidump'] = first
    c.product('processing a minidump', SYM + 'symbolicate::SymbolicationActor::process_minidump', wspec, given=whole, floor=3, limit=60000, opaque=whook, mmodels={'merge_into': merging})


def merging(it, recv, args):
    v = deref(recv)
    if not (isinstance(v, Native) and v.kind == 'md in'):
        return NotImplemented
    it.done.append((v.n, getattr(deref(args[0]), 'n', '?')))
    return UNIT


def symbolicated(c):
    """The prepared request is symbolicated, the state goes into that very response."""
    def sym(it, a):
        it.sym.append(getattr(deref(a[1]), 'n', '?'))
        good = it.ctx.choose(('symbolicate',), ['works', 'fails']) == 'works'
        return Future(lambda: ok(Native('md in', n='response')) if good else err(Term('symbolicate error', (), Ty('E_ANY'))), 'symbolicate')

    def spec(it, a, out):
        if out.panic:
            return ('processing panics', out.panic)
        k, v, o = it.ctx.known, it.force(deref(out.value)), []
        bad = k(('walk',)) == 'fails' or k(('symbolicate',)) == 'fails'
        if (v.variant == 'Err') != bad:
            return ('a failure counts as a result' if bad else 'a result counts as a failure', show(v)[:60])
        if bad:
            return None
        if it.sym != ['prepared'] or getattr(deref(v.fields[0]), 'n', None) != 'response' or it.done != [('state', 'response')]:
            o.append(('the response is not the symbolicated request with what is known about the crash', f'{it.sym}, {it.done}'))
        return o
    return spec, {'SymbolicationActor::symbolicate': sym}


# ------------------------------------------------------------------ stack traces of the client
def clientside(c):
    def st(it, tid, frames, who):
        return Struct(IF + 'RawStacktrace', {'thread_id': none() if tid is None else some(tid), 'thread_name': some(Str(who)), 'is_requesting': some(who == 'server'), 'registers': Map([]),
                                             'frames': Vec([Str(f'{who} {tid} {i}') for i in range(frames)])})

    def given(it):
        ch = it.ctx.choose
        it.server = [(ch(('server thread', i), [None, 1, 2]), ch(('server frames', i), [0, 2])) for i in range(ch(('server',), [0, 1, 2]))]
        it.client = [(ch(('client thread', i), [None, 1, 2]), ch(('client frames', i), [0, 1])) for i in range(ch(('client',), [0, 1, 2]))]
        for l in (it.server, it.client):
            ids = [t for t, _ in l if t is not None]
            if len(set(ids)) != len(ids):
                raise Infeasible()
        it.list = Vec([st(it, t, n, 'server') for t, n in it.server])
        return {'processed_stacktraces': it.std.temp_ref(it.list), 'clientside_stacktraces': Vec([st(it, t, n, 'client') for t, n in it.client])}

    def spec(it, a, out):
        if out.panic:
            return ('merging panics', out.panic)
        o, got = [], [it.force(deref(x)) for x in items(it, it.list)]
        if len(got) != len(it.server):
            return ('threads are lost or made up', f'{len(got)} of {len(it.server)}')
        for x, (t, n) in zip(got, it.server):
            cl = dict(it.client).get(t) if t is not None else None
            who, k = ('client', cl) if cl else ('server', n)
            fr = [txt(it, f) for f in items(it, it.field(x, 'frames'))]
            if fr != [f'{who} {t} {i}' for i in range(k)]:
                o.append(('the frames of a thread are not those of the client, or of the unwinder where the client has none', f'thread {t}: {fr}, client {it.client}'))
            if oval(it, it.field(x, 'thread_id')) != t or otxt(it, it.field(x, 'thread_name')) != 'server' or oval(it, it.field(x, 'is_requesting')) is not True:
                o.append(('more than the frames is taken from the client', f'thread {t}'))
        return o

    c.product('stack traces captured by the client', PM + 'merge_clientside_with_processed_stacktraces', spec, given=given, floor=100, limit=60000)


# ------------------------------------------------------------------ N07: Apple crash reports
IMAGES = [(0, 0), (0x1000, 0x200)]
METAS = ('OS Version', 'Hardware Model', 'Exception Type', 'Exception Message', 'Exception Subtype', 'Exception Codes')
MACOS = {'Mac OS X 10.14.0 (18A391)': ('macOS', '10.14.0', '18A391'), 'Mac OS X 10.14.0': ('macOS', '10.14.0', ''), 'iPhone OS 12.0 (16A366)': ('iPhone OS 12.0 (16A366)', '', ''),
         'Mac OS X 10.14': ('Mac OS X 10.14', '', ''), None: ('', '', '')}
CODES = {None: 'Unknown', 'X86-64 (Native)': 'X86-64', 'ARM-64': 'ARM-64', '': ''}
method('md captures', 'name')(lambda c: none() if not c.v.g.get(X(deref(c.args[0]))) else some(Native('md match', text=c.v.g[X(deref(c.args[0]))])))
method('md match', 'as_str')(lambda c: Str(c.v.text))
method('md regex', 'captures')(lambda c: captures(c.it, c.v.text, c.args[0]))
method('md uuid', 'as_bytes')(lambda c: Vec([c.v]))
method('md uuid', 'clone')(lambda c: c.v)
method('md apple id', 'to_string')(lambda c: Str(f'{c.v.what} {c.v.n}'))


def captures(it, pat, v):
    import re
    m = re.search(pat.encode().decode('unicode_escape') if '\\\\' in pat else pat, txt(it, v))
    return none() if m is None else some(Native('md captures', g=m.groupdict()))


def n07(c):
    c.section('crash report', lambda: report(c))
    c.section('process', lambda: apple(c))
    merge(c, AP + 'AppleCrashReportState', 'apple')


def report(c):
    def given(it):
        ch = it.ctx.choose
        focus = ch(('focus',), ['threads', 'details', 'system'])
        n = lambda x: Native('md in', n=x)
        it.parts = {x: n(x) for x in ('platform', 'scope', 'sources', 'scraping')}
        it.meta = {}
        if focus == 'details':
            it.meta = {k: k + '!' for k in METAS[2:] if ch((k,), [True, False])}
        if focus == 'system':
            os_ = ch(('os',), list(MACOS))
            if os_ is not None:
                it.meta['OS Version'] = os_
            if ch(('hardware',), [True, False]):
                it.meta['Hardware Model'] = 'MacBook'
        it.code = ch(('code type',), list(CODES)) if focus == 'system' else None
        it.info = focus == 'details' and ch(('specific information',), [True, False])
        it.threads = []
        for i in range(ch(('threads',), [0, 1, 2]) if focus == 'threads' else 1):
            k = ch(('frames', i), [0, 2]) if focus == 'threads' else 1
            regs = ch(('registers', i), [None, 0, 2]) if focus == 'threads' else None
            it.threads.append((i, k, regs, ch(('crashed', i), [True, False]) if focus == 'threads' else True))
        it.noregs = none()
        F = lambda i, j: Native('md apple frame', instruction_addr=Tup([0x100 * i + j]), module=none() if j else some(Str(f'module {i}')))
        th = [Native('md apple thread', id=60 + i, name=some(Str(f'name {i}')) if i else none(), crashed=cr, frames=Vec([F(i, j) for j in range(k)]),
                     registers=it.noregs if regs is None else some(Map([[Str(f'r{j}'), Tup([0x10 * i + j])] for j in range(regs)]))) for i, k, regs, cr in it.threads]
        imgs = [Native('md apple image', uuid=Native('md uuid', n=i), path=Str(f'path {i}'), addr=Tup([a]), size=z) for i, (a, z) in enumerate(IMAGES)]
        it.report = Native('md apple report', metadata=Map([[Str(k), Str(v)] for k, v in it.meta.items()]), code_type=none() if it.code is None else some(Str(it.code)),
                           binary_images=Vec(imgs), threads=Vec(th), timestamp=some(n('timestamp')), application_specific_information=some(Str('specific')) if it.info else none())
        it.read = []
        a = dict(it.parts, self=it.std.temp_ref(struct_of(c, it, SYM + 'symbolicate::SymbolicationActor')), report=n('report'))
        return a

    def read(it, a):
        it.read.append(getattr(deref(a[0]), 'n', '?'))
        return ok(it.report) if it.ctx.choose(('reading',), ['works', 'fails']) == 'works' else err(Term('read error', (), Ty('E_ANY')))

    models = {'AppleCrashReport::from_reader': read, 'CodeId::from_binary': lambda it, a: Native('md apple id', what='code', n=uuid_of(it, a[0])),
              'DebugId::from_uuid': lambda it, a: Native('md apple id', what='debug', n=uuid_of(it, a[0])), 'Regex::new': lambda it, a: ok(Native('md regex', text=txt(it, a[0])))}

    def spec(it, a, out):
        if out.panic:
            return ('a crash report makes it panic', out.panic)
        k, v, o = it.ctx.known, it.force(deref(out.value)), []
        bad = k(('reading',)) == 'fails'
        if (v.variant == 'Err') != bad or it.read != ['report']:
            return ('a crash report which cannot be read does not fail' if bad else 'a crash report which can be read fails', show(v)[:80])
        if bad:
            return None
        req, st = (deref(x) for x in deref(v.fields[0]).items)
        for n in ('platform', 'scope', 'sources', 'scraping'):
            if getattr(deref(it.field(req, n)), 'n', None) != n:
                o.append((f'the {n} of the request gets lost', show(it.field(req, n))[:60]))
        if it.force(it.field(req, 'origin')).variant != 'AppleCrashReport' or it.force(it.field(req, 'signal')).variant != 'None' or it.field(req, 'apply_source_context') is not True:
            o.append(('the frames count as those of another kind of crash', show(it.field(req, 'origin'))))
        sts = [it.force(deref(x)) for x in items(it, it.field(req, 'stacktraces'))]
        if len(sts) != len(it.threads):
            return o + [('threads are lost or made up', f'{len(sts)} of {len(it.threads)}')]
        for s, (i, n, regs, cr) in zip(sts, it.threads):
            got = (oval(it, it.field(s, 'thread_id')), otxt(it, it.field(s, 'thread_name')), oval(it, it.field(s, 'is_requesting')))
            if got != (60 + i, f'name {i}' if i else None, cr):
                o.append(('a thread has another number or name, or another one counts as crashed', f'{got}: {i}, {cr}'))
            got = {txt(it, x): it.field(deref(y), '0') for x, y in (deref(e).items for e in items(it, it.field(s, 'registers')))}
            if got != {f'r{j}': 0x10 * i + j for j in range(regs or 0)}:
                o.append(('the registers of a thread are others', f'{got}'))
            got = [(it.field(deref(it.field(deref(f), 'instruction_addr')), '0'), otxt(it, it.field(deref(f), 'package'))) for f in items(it, it.field(s, 'frames'))]
            if got != [(0x100 * i + j, None if j else f'module {i}') for j in range(n)]:
                o.append(('the frames of a thread are others', f'{got}'))
        mods = [it.force(deref(x)) for x in items(it, it.field(req, 'modules'))]
        if len(mods) != len(IMAGES):
            return o + [('images are lost', f'{len(mods)}')]
        for i, (x, (base, size)) in enumerate(zip(mods, IMAGES)):
            raw = it.field(x, 'raw')
            F = lambda n: otxt2(it, it.field(raw, n))
            got = (F('code_id'), F('code_file'), F('debug_id'), F('debug_file'), F('debug_checksum'), it.force(it.field(raw, 'ty')).variant)
            if got != (f'code {i}', f'path {i}', f'debug {i}', f'path {i}', None, 'Macho'):
                o.append(('an image has other identifiers or files', str(got)))
            if it.field(deref(it.field(raw, 'image_addr')), '0') != base or deref(oval(it, it.field(raw, 'image_size'))) != (size or None):
                o.append(('an image lies elsewhere', f'{show(it.field(raw, "image_addr"))}, {show(it.field(raw, "image_size"))}'))
        info = it.force(deref(it.field(st, 'system_info')))
        name, version, build = MACOS[it.meta.get('OS Version')]
        got = tuple(txt(it, it.field(info, n)) for n in ('os_name', 'os_version', 'os_build', 'device_model'))
        if got != (name, version, build, it.meta.get('Hardware Model', '')):
            o.append(('the system is another one', f'{got}, not {(name, version, build)}'))
        if it.code and not it.tried or any(t != CODES[it.code] for t in it.tried) or arch(it, it.field(info, 'cpu_arch')) != ('Arm64' if it.tried and k(('arch', it.tried[0])) == 'known' else 'Unknown'):
            o.append(('the processor is not the one of the report', f'{it.code}: {it.tried}, {show(it.field(info, "cpu_arch"))}'))
        if otxt(it, it.field(st, 'crash_reason')) != it.meta.get('Exception Type', None) :
            o.append(('the reason of the crash is another one', str(otxt(it, it.field(st, 'crash_reason')))))
        w = 'specific' if it.info else next((it.meta[n] for n in METAS[3:] if n in it.meta), None)
        if otxt(it, it.field(st, 'crash_details')) != w:
            o.append(('the details of the crash are others', f'{otxt(it, it.field(st, "crash_details"))!r}, not {w!r}'))
        t = oval(it, it.field(st, 'timestamp'))
        if getattr(deref(t), 'n', None) != 'timestamp':
            o.append(('the time of the crash gets lost', show(t)))
        return o

    def parse(it, recv, args):
        s = txt(it, recv)
        if not s.startswith(('code ', 'debug ')):
            it.tried.append(s)
            return ok(Enum('Arch', 'Arm64', [])) if it.ctx.choose(('arch', s), ['known', 'unknown']) == 'known' else err(Term('arch error', (), Ty('E_ANY')))
        return ok(Native('md parsed', of=s))

    def setup(it):
        it.tried = []

    def nothing(it, recv, args):
        return Map([]) if deref(recv) is it.noregs else NotImplemented

    c.product('reading an Apple crash report', SYM + 'symbolicate::SymbolicationActor::parse_apple_crash_report', spec, given=given, setup=setup, floor=40, limit=60000, models=models,
              mmodels={'parse': parse, 'Option.unwrap_or_default': nothing, 'context': lambda it, recv, args: deref(recv)})


def uuid_of(it, v):
    v = deref(v)
    if isinstance(v, Vec):
        v = deref(v.items[0])
    return v.n


def apple(c):
    def whole(it):
        it.sym, it.done = [], []
        n = lambda x: Native('md in', n=x)
        it.order = ['platform', 'scope', 'report', 'sources', 'scraping']
        return dict({x: n(x) for x in it.order}, self=it.std.temp_ref(struct_of(c, it, SYM + 'symbolicate::SymbolicationActor')))

    def first(it, a):
        good = it.ctx.choose(('walk',), ['works', 'fails']) == 'works' and [deref(x).n for x in a[1:]] == it.order
        return ok(Tup([Native('md in', n='prepared'), Native('md in', n='state')])) if good else err(Term('walk error', (), Ty('E_ANY')))

    spec, hook = symbolicated(c)
    hook['SymbolicationActor::parse_apple_crash_report'] = first
    c.product('processing an Apple crash report', SYM + 'symbolicate::SymbolicationActor::process_apple_crash_report', spec, given=whole, floor=3, limit=60000, opaque=hook, mmodels={'merge_into': merging})


# ------------------------------------------------------------------ N08: the stack traces a client adds to a minidump
MST = SYM + 'minidump_stacktraces::'
SIZES = {'u8': 1, 'u16': 2, 'u32': 4, 'u64': 8, 'usize': 8, 'i32': 4, 'i64': 8}
BIG = 2 ** 32 - 1
EXT_ENUMS.setdefault('Error', ['FileNotFound', 'MissingHeader', 'HeaderMismatch', 'VersionMismatch', 'MissingDirectory', 'StreamReadFailure', 'StreamSizeMismatch', 'StreamNotFound'])


def layout(it, name):
    """Offsets, size and alignment of a `repr(C)` struct, from its declaration."""
    d = it.w.typedefs[MST + 'format::' + name]
    if not any('repr' in a and 'C' in a.replace('repr', '') and 'packed' not in a for a in d.node['attrs']):
        it.unsound.append((f'the layout of {name} is not fixed by repr(C)', ''))
    off, align, at = 0, 1, {}
    for f in d.node['fields']:
        ty = f['ty']['p']['segs'][-1][0]
        n = SIZES[ty]
        off += -off % n
        at[f['name']] = (off, n)
        off += n
        align = max(align, n)
    return at, off + -off % align, align


@fn('mem::size_of', 'size_of')
def _(it, args, targs, expect):
    n = targs[0][0]
    return SIZES[n] if n in SIZES else layout(it, n.split('::')[-1])[1]


@fn('mem::align_of', 'align_of')
def _(it, args, targs, expect):
    n = targs[0][0]
    return SIZES[n] if n in SIZES else layout(it, n.split('::')[-1])[2]


class Pointer(Native):
    """A raw pointer into the stream: an offset, and the type it points to."""
    def __init__(self, it, off, ty='u8'):
        super().__init__('md ptr', it=it, off=off, ty=ty)

    def cast_to(self, t):
        if t[0] in ('usize', 'u64'):
            return self.it.base + self.off
        return Pointer(self.it, self.off, t[0].split('::')[-1])

    def on_deref(self):
        return part(self.it, self.off, self.ty, 1)


def part(it, off, ty, n):
    """Whether `n` values of a type lie within the stream, and are aligned."""
    at, size, align = (None, SIZES[ty], SIZES[ty]) if ty in SIZES else layout(it, ty)
    if off < 0 or off + n * size > it.length:
        it.unsound.append(('memory outside of the stream is accessed', f'{n} {ty} at {off}, of {it.length}'))
    if (it.base + off) % align:
        it.unsound.append((f'{ty} is accessed at an unaligned address', f'stream at {it.base} mod 8, offset {off}') if not it.base else
                          (f'{ty} is accessed in a stream which is not aligned', f'stream at {it.base} mod 8, offset {off}'))
    return Native('md raw', it=it, off=off, ty=ty, get_field=lambda name: it.memory(off + at[name][0], at[name][1]))


method('md ptr', 'add')(lambda c: Pointer(c.it, c.v.off + c.args[0] * (SIZES[c.v.ty] if c.v.ty in SIZES else layout(c.it, c.v.ty)[1]), c.v.ty))
method('md ptr', 'cast')(lambda c: c.v.cast_to(c.targs[0]))
method('md ptr', 'align_offset')(lambda c: -(c.it.base + c.v.off) % c.args[0])
method('md ptr', 'is_aligned')(lambda c: (c.it.base + c.v.off) % (SIZES[c.v.ty] if c.v.ty in SIZES else layout(c.it, c.v.ty)[2]) == 0)
method('md stream', 'len')(lambda c: c.it.length)
method('md stream', 'is_empty')(lambda c: c.it.length == 0)
method('md stream', 'as_ptr')(lambda c: Pointer(c.it, 0))


class Slice(Native):
    def __init__(self, it, off, ty, n):
        super().__init__('md slice', it=it, off=off, ty=ty, n=n)

    def on_deref(self):
        part(self.it, self.off, self.ty, self.n)
        return self


def size_of(it, ty):
    return SIZES[ty] if ty in SIZES else layout(it, ty)[1]


def raw_slice(it, a):
    p = deref(a[0])
    return Slice(it, p.off, p.ty, a[1])


method('md slice', 'len')(lambda c: c.v.n)


@method('md slice', 'iter', 'into_iter')
def _(c):
    if c.v.n > 8:
        raise Infeasible()
    v = Vec([part(c.it, c.v.off + i * size_of(c.it, c.v.ty), c.v.ty, 1) for i in range(c.v.n)])
    return c.it.method(c.it.std.temp_ref(v), 'into_iter', [])


@method('md slice', 'get')
def _(c):
    it, i = c.it, deref(c.args[0])
    if isinstance(i, Native) and i.kind == 'range':
        lo, hi = 0 if i.lo is None else i.lo, c.v.n if i.hi is None else i.hi + bool(i.incl)
        return some(Slice(it, c.v.off + lo * size_of(it, c.v.ty), c.v.ty, hi - lo)) if lo <= hi <= c.v.n else none()
    return some(part(it, c.v.off + i * size_of(it, c.v.ty), c.v.ty, 1)) if 0 <= i < c.v.n else none()


RAW = {'u32::from_be_bytes': lambda it, a: int.from_bytes(bytes(ord(x.c) if isinstance(x, Chr) else x for x in items(it, a[0])), 'big'), 'ptr::slice_from_raw_parts': raw_slice, 'slice::from_raw_parts': lambda it, a: raw_slice(it, a).on_deref(), 'slice_from_raw_parts': raw_slice,
       'String::from_utf8_lossy': lambda it, a: Str(f'text {deref(a[0]).off}+{deref(a[0]).n}')}


def n08(c):
    def header(it, big):
        ch = it.ctx.choose
        it.unsound = []
        it.base = ch(('base',), [0, 4])
        it.version = ch(('version',), [1, 0, 2, 0x01000000]) if big else 1
        v = it.version == 1
        it.t = ch(('threads',), [0, 1, 2, 3] + ([BIG] if big else [])) if v else 1
        it.f = ch(('frames',), [0, 1, 2] + ([BIG] if big else [])) if v else 0
        it.s = ch(('symbols',), [0, 1, 5] + ([BIG] if big else [])) if v else 0
        it.at = 16, 16 + 12 * it.t + -(12 * it.t) % 8, 16 + 12 * it.t + -(12 * it.t) % 8 + 16 * it.f
        exact = it.at[2] + it.s
        it.length = {'exact': exact, 'longer': exact + 1, 'shorter': exact - 1, 'none': 0, 'header cut': 15, 'header only': 16}[ch(('length',), ['exact', 'longer', 'shorter', 'none', 'header cut', 'header only'])
                                                                                                                     if big else 'exact']
        it.right = it.length == exact
        head = {0: it.version, 4: it.t, 8: it.f, 12: it.s}

        def memory(off, n):
            if off + n > it.length:
                return 0
            if off in head:
                return head[off] if n == 4 else Term('odd read', (off, n), Ty('u64'))
            return it.contents(off, n)
        it.memory = memory
        it.contents = lambda off, n: Term('mem', (off, n), Ty('u64' if n == 8 else 'u32'))
        return Native('md stream')

    def given(it):
        return {'buf': header(it, True)}

    def unsound(it):
        return [x for x in dict(it.unsound).items()]

    def spec(it, a, out):
        if out.panic:
            return ('reading the stream panics', out.panic)
        v, o = it.force(deref(out.value)), unsound(it)
        why = 'HeaderTooSmall' if it.length < 16 else 'WrongVersion' if it.version != 1 else None if it.right else 'BadFormatLength'
        got = None if v.variant == 'Ok' else it.force(deref(v.fields[0])).variant
        if got != why:
            return o + [('a stream of the wrong version or length is not rejected' if why else 'a proper stream is rejected', f'{got}, not {why}: version {it.version}, {it.t}, {it.f}, {it.s}, {it.length}')]
        if why is None:
            f = it.force(deref(v.fields[0]))
            for n, at, cnt, ty in (('threads', it.at[0], it.t, 'RawThread'), ('frames', it.at[1], it.f, 'RawFrame'), ('symbol_bytes', it.at[2], it.s, 'u8')):
                x = deref(it.field(f, n))
                if (x.off, x.n, x.ty) != (at, cnt, ty):
                    o.append((f'the {n} of the stream are read from elsewhere', f'{x.n} {x.ty} at {x.off}, not {cnt} {ty} at {at}'))
        return o

    c.product('the parts of a client stack trace stream', MST + 'format::Format::parse', spec, given=given, floor=400, limit=60000, models=RAW)

    # the whole extraction
    def whole(it):
        ch = it.ctx.choose
        it.stream = ch(('stream',), ['there', 'StreamNotFound', 'StreamReadFailure'])
        st = header(it, False)
        it.base = 0
        if it.t > 2 or it.f and it.t == 2 and it.f == 2:
            raise Infeasible()

        def contents(off, n):
            if it.at[0] <= off < it.at[1]:
                i, f = divmod(off - it.at[0], 12)
                if f == 4:
                    return ch(('first frame', i), [0, 1, BIG] if i == 0 else [0, 1])
                if f == 8:
                    return ch(('frames of', i), [0, 1, 2, BIG] if i == 0 else [1])
                return 0x70 + i if (f, n) == (0, 4) else -1
            if it.at[1] <= off < it.at[2]:
                i, f = divmod(off - it.at[1], 16)
                if f == 8:
                    return ch(('symbol at', i), [0, 1, BIG] if i == 0 else [0])
                if f == 12:
                    return ch(('symbol length', i), [0, 5, BIG] if i == 0 else [1])
                return 0xabc0 + i if (f, n) == (0, 8) else -1
            return -1
        it.contents = contents
        it.asked = []

        def get(k):
            it.asked.append(k)
            return ok(st) if it.stream == 'there' else err(Enum('Error', it.stream, []))
        return {'dump': it.std.temp_ref(Native('md raw dump', get=get))}

    method('md raw dump', 'get_raw_stream')(lambda c: c.v.get(c.args[0]))

    def wspec(it, a, out):
        if out.panic:
            return ('reading client stack traces panics', out.panic)
        v, o, k = it.force(deref(out.value)), unsound(it), it.ctx.known
        if it.asked != [0x53790001]:
            o.append(('another stream is read', str(it.asked)))
        if it.stream != 'there':
            if (v.variant, it.stream != 'StreamNotFound' or it.force(deref(v.fields[0])).variant) != (('Ok', 'None') if it.stream == 'StreamNotFound' else ('Err', True)):
                o.append(('a minidump without client stack traces is an error, or an unreadable one is not', f'{it.stream}: {v.variant}'))
            return o
        want, bad = [], False
        for i in range(it.t):
            s, n = k(('first frame', i)), k(('frames of', i))
            n = 1 if i and n is None else n
            if s is None or n is None:
                bad = True
                break
            if s + n > it.f:
                bad = True
                break
            fr = []
            for j in range(s, s + n):
                p, l = k(('symbol at', j)), k(('symbol length', j))
                p, l = (0 if j and p is None else p), (1 if j and l is None else l)
                if p is None or l is None or p + l > it.s:
                    bad = True
                    break
                fr.append((0xabc0 + j, f'text {it.at[2] + p}+{l}', 'PreWalked'))
            if bad:
                break
            want.append((0x70 + i, fr))
        if (v.variant == 'Err') != bad:
            return o + [('frames or symbols outside of the stream are not an error' if bad else 'a proper stream is an error', f'{it.t}, {it.f}, {it.s}')]
        if bad:
            return o
        got = []
        for st in items(it, oval(it, v.fields[0])):
            st = it.force(deref(st))
            fr = []
            for f in items(it, it.field(st, 'frames')):
                f = it.force(deref(f))
                fr.append((it.field(deref(it.field(f, 'instruction_addr')), '0'), otxt(it, it.field(f, 'function')), it.force(it.field(f, 'trust')).variant))
            got.append((oval(it, it.field(st, 'thread_id')), fr))
        if got != want:
            o.append(('the client stack traces are others', f'{got}, not {want}'))
        return o

    c.product('the client stack traces of a minidump', MST + 'parse_stacktraces_from_minidump', wspec, given=whole, floor=50, limit=60000, models=RAW)
