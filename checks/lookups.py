"""N09, N10: which files are looked up for which purpose, and what is reported of the file that was used."""
from .util import *
from .keys import struct_of, key_hooks, setup_keys, req_scope, a_file, public, oid, handle, T_CERR, T_ENTRY, T_OID, SVC, NAT, OBJ, T_FILE
from .js import cerr

T_CANDS = Ty(SVC + 'objects::candidates::AllObjectCandidates')
CACHES = {  # purpose, status of the candidate, file types (None: those of the kind of module)
    'symcaches::SymCacheActor': ('symcaches::FetchSymCache', 'Debug', None),
    'cficaches::CfiCacheActor': ('cficaches::FetchCfiCache', 'Unwind', None),
    'ppdb_caches::PortablePdbCacheActor': ('ppdb_caches::FetchPortablePdbCache', 'Debug', {'PortablePdb', 'Pdb'}),
}
OBJECT_TYPES = ['Elf', 'Macho', 'Pdb', 'Pe', 'SourceBundle', 'Wasm', 'PortablePdb', 'Unknown']
ERRORS = ['NotFound', 'PermissionDenied', 'Malformed', 'Timeout', 'DownloadError', 'InternalError', 'Unsupported']


def an_error(it, k, tag):
    arg = {'Timeout': [Term('duration', (tag,), Ty('Duration'))], 'NotFound': [], 'InternalError': []}.get(k, [Str(f'reason {tag}')])
    return cerr(it, k, *arg)


def names(it, v):
    return [it.force(deref(x)).variant for x in items(it, v)]


def only_debug_id(it, v, debug_id):
    o = it.force(deref(v))
    if isinstance(o, Term):
        return f'the object is looked for by {show(o)}'
    msgs = [n for n, x in o.fields.items() if n not in ('debug_id', 'object_type') and variant(it, x) != 'None']
    if msgs:
        return f'the {msgs} of the object are set'
    d = oval(it, o.fields['debug_id'])
    if d is None or not it.same(deref(d), debug_id):
        return f'the object is looked for by the debug id {show(o.fields["debug_id"])}'


def oval(it, v):
    e = it.force(deref(v))
    return e.fields[0] if e.variant == 'Some' else None


def listing(it, a):
    """download::list_files: notes sources, types and object."""
    it.listed.append((a[2], names(it, a[3]), it.force(deref(a[4]))))
    k = len(it.listed)
    n = it.ctx.choose(('files of listing', k), it.counts)
    return Future(lambda: Vec([a_file(k, i) for i in range(n)]))


def memo(make):
    """Cacher::compute_memoized, whose outcome is chosen."""
    def go(it, a):
        req = it.force(deref(a[1]))
        f = it.freeze(deref(it.field(req, 'file' if 'file' in req.fields else 'file_source')))
        it.asked.append((req, f))
        k = it.ctx.choose(('outcome of', repr(f)), ['Ok', 'NotFound', 'Malformed'])
        r = ok(make(it, req, f)) if k == 'Ok' else an_error(it, k, 'file')
        return Future(lambda: Struct(T_ENTRY.name, {'metadata': none(), 'contents': r}))
    return go


def setup(it):
    setup_keys()(it)
    it.listed, it.used, it.status, it.derivedn = [], [], [], 0
    it.counts = [0, 1, 2]


def n09(c):
    c.section('objects', lambda: objects(c))
    c.section('bundles', lambda: bundles(c))
    c.section('mapping files', lambda: mapping_files(c))
    c.section('symbol maps', lambda: symbol_maps(c))
    c.section('proxy', lambda: proxy(c))


def finder(it, a):
    """ObjectsActor::find"""
    it.finds.append(it.force(deref(a[1])))
    k = it.ctx.choose(('found',), ['object', 'nothing', 'error'])
    meta = none() if k == 'nothing' else some(Struct(OBJ + 'FoundMeta', {'file_source': a_file('object'), 'handle': ok(handle(it)) if k == 'object' else an_error(it, 'Malformed', 'found')}))
    return Future(lambda: Struct(OBJ + 'FindResult', {'meta': meta, 'candidates': Term('candidates', (), T_CANDS)}))


def getter(it, a):
    """ObjectsActor::fetch"""
    it.used.append(it.force(deref(a[1])))
    k = it.ctx.choose(('fetched',), ['Ok', 'DownloadError'])
    return Future(lambda: ok(Term('object file', (), Ty('Arc', Ty(OBJ + 'data_cache::ObjectHandle')))) if k == 'Ok' else an_error(it, k, 'fetched'))


def looked_for(it, f, purpose, types, scope, sources):
    msgs = []
    if it.force(f.fields['purpose']).variant != purpose:
        msgs.append(('purpose', f'the object is looked for as {it.force(f.fields["purpose"]).variant} instead of {purpose}'))
    got = names(it, f.fields['filetypes'])
    if (sorted(got) if isinstance(types, set) else got) != (sorted(types) if isinstance(types, set) else types):
        msgs.append(('file types', f'files of the types {got} are looked for instead of {sorted(types)}'))
    for n, w in (('scope', scope), ('sources', sources)):
        if not it.same(deref(f.fields[n]), deref(w)):
            msgs.append((n, f'the object is looked for with the {n} {show(f.fields[n])}'))
    return msgs


def objects(c):
    for fn, (ty, purpose, types) in CACHES.items():
        short = fn.split('::')[-1]

        def given(it, ty=ty):
            g = {'scope': req_scope(), 'identifier': Term('requested_id', (), T_OID)}
            if any(f['name'] == 'object_type' for f in c.w.type(NAT + ty).node['fields']):
                g['object_type'] = Enum('ObjectType', it.ctx.choose(('object type',), OBJECT_TYPES), [])
            return {'self': struct_of(c, it, NAT + fn), 'request': struct_of(c, it, NAT + ty, **g)}

        def spec(it, a, out, purpose=purpose, types=types):
            if out.panic:
                return 'panic', out.panic
            if len(it.finds) != 1:
                return 'anchor', f'the object is searched for {len(it.finds)} times'
            req = it.force(a[1])
            want = types
            if types is None:
                ot = it.force(req.fields['object_type'])
                want = names(it, it.call_def(c.w.fn('symbolicator_sources::filetype::FileType::from_object_type'), [ot]))
            msgs = looked_for(it, it.finds[0], purpose, want, req.fields['scope'], req.fields['sources'])
            if not it.same(deref(it.finds[0].fields['identifier']), req.fields['identifier']):
                msgs.append(('object', f'the object {show(it.finds[0].fields["identifier"])} is looked for'))
            if it.ctx.known(('found',)) == 'object':
                h = it.force(handle(it))
                did = it.force(it.field(h.fields['object_id'], 'debug_id'))
                roles = [r for r, _ in it.secondary]
                if purpose == 'Debug' and types is None:
                    if (did.variant == 'Some') != (sorted(roles) == ['bcsymbolmap', 'il2cpp']):
                        msgs.append(('further files', f'the files {roles} are looked for, for an object {"with" if did.variant == "Some" else "without"} debug id'))
                    for r, args in it.secondary:
                        if did.variant == 'Some' and not any(it.same(x, it.freeze(did.fields[0])) for x in args):
                            msgs.append(('further files', f'the {r} of {showl(args)[:200]} is looked for'))
                        if not any(it.same(x, it.freeze(deref(req.fields['sources']))) for x in args):
                            msgs.append(('further files', f'the {r} is looked for in other sources'))
                        if r == 'il2cpp' and not any(it.same(x, it.freeze(h.fields['object_id'])) for x in args):
                            msgs.append(('further files', 'the line mapping is looked for with another object'))
                if it.asked and repr(a_file('object')) not in repr(it.freeze(deref(it.asked[0][0]))):
                    msgs.append(('object', 'the derived file is made from another object'))
            return msgs

        def second(role):
            def go(it, a):
                it.secondary.append((role, [it.freeze(deref(x)) for x in a[1:]]))
                return Future(lambda: none())
            return go
        c.product(short, NAT + fn + '::fetch', spec, given=given, setup=setup, floor=3 if types else 20, opaque={
            **key_hooks(), 'ObjectsActor::find': finder, 'AllObjectCandidates::set_status': lambda it, a: UNIT,
            'BitcodeService::fetch_bcsymbolmap': second('bcsymbolmap'), 'Il2cppService::fetch_line_mapping': second('il2cpp')})


def bundles(c):
    PRO = 'symbolicator_proguard::service::ProguardService::download_source_bundle'
    did, srcs = Term('debug_id', (), Ty('DebugId')), Term('sources', (), Ty('Arc', Ty('Slice', Ty('symbolicator_sources::sources::SourceConfig'))))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if len(it.finds) != 1:
            return 'anchor', f'the bundle is searched for {len(it.finds)} times'
        msgs = looked_for(it, it.finds[0], 'Source', ['SourceBundle'], req_scope(), srcs)
        m = only_debug_id(it, it.finds[0].fields['identifier'], did)
        if m:
            msgs.append(('object', m))
        return msgs + outcome(it, out)
    c.product('source bundles', PRO, spec, given=lambda it: {'self': struct_of(c, it, 'symbolicator_proguard::service::ProguardService'), 'sources': srcs, 'scope': req_scope(), 'debug_id': did},
              setup=setup, floor=4, opaque={**key_hooks(), 'ObjectsActor::find': finder, 'ObjectsActor::fetch': getter})


def outcome(it, out):
    """The file that was found, or why there is none."""
    k = it.ctx.known(('found',))
    r = it.force(out.value)
    if k == 'object':
        if len(it.used) != 1 or repr(a_file('object')) not in repr(it.freeze(it.used[0])):
            return [('fetched', 'the object that was found is not fetched')]
        k = it.ctx.known(('fetched',))
    want = {'Ok': ok(Term('object file', (), Ty('Arc', Ty(OBJ + 'data_cache::ObjectHandle')))), 'nothing': an_error(it, 'NotFound', ''), 'error': an_error(it, 'Malformed', 'found'),
            'DownloadError': an_error(it, 'DownloadError', 'fetched')}[k]
    if not it.same(it.freeze(r), it.freeze(want)):
        return [('outcome', f'the answer is {show(r)} when the outcome is {k}')]
    return []


def mapping_files(c):
    PRO = 'symbolicator_proguard::service::'
    did, srcs = Term('debug_id', (), Ty('DebugId')), Term('sources', (), Ty('Slice', Ty('symbolicator_sources::sources::SourceConfig')))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if len(it.listed) != 1:
            return 'anchor', f'files are listed {len(it.listed)} times'
        s, types, o = it.listed[0]
        msgs = []
        if types != ['Proguard']:
            msgs.append(('file types', f'files of the types {types} are listed'))
        if not it.same(deref(s), srcs):
            msgs.append(('sources', f'files are listed from {show(s)}'))
        m = only_debug_id(it, o, did)
        if m:
            msgs.append(('object', m))
        n = it.ctx.known(('files of listing', 1))
        r = it.force(out.value)
        want = an_error(it, 'NotFound', '')
        if n:
            f = a_file(1, 0)
            if not it.asked or it.asked[0][1] != f:
                return msgs + [('first file', 'the first file is not used')]
            k = it.ctx.known(('outcome of', repr(f)))
            want = ok(Term('mapping', (f,), Ty(PRO + 'OwnedProguardCache'))) if k == 'Ok' else an_error(it, k, 'file')
        if not it.same(it.freeze(r), it.freeze(want)):
            msgs.append(('outcome', f'the answer is {show(r)} instead of {show(want)}'))
        return msgs
    c.product('mapping files', PRO + 'ProguardService::download_proguard_file', spec,
              given=lambda it: {'self': struct_of(c, it, PRO + 'ProguardService'), 'sources': srcs, 'scope': req_scope(), 'debug_id': did}, setup=setup, floor=5,
              opaque={**key_hooks(), 'list_files': listing, 'Cacher::compute_memoized': memo(lambda it, req, f: Term('mapping', (f,), Ty(PRO + 'OwnedProguardCache')))})


def first_ok(it, k):
    n = it.ctx.known(('files of listing', k)) or 0
    return next((a_file(k, i) for i in range(n) if it.ctx.known(('outcome of', repr(a_file(k, i)))) == 'Ok'), None)


def symbol_maps(c):
    did, srcs = Term('debug_id', (), Ty('DebugId')), Term('sources', (), Ty('Arc', Ty('Slice', Ty('symbolicator_sources::sources::SourceConfig'))))
    BIT, IL = NAT + 'bitcode::', NAT + 'il2cpp::'
    orig = lambda it, u: Term('original_uuid', (it.freeze(deref(u)),), Ty('DebugId'))

    def check_listing(it, i, types, uuid, msgs):
        s, t, o = it.listed[i]
        if t != types:
            msgs.append(('file types', f'files of the types {t} are listed instead of {types}'))
        if not it.same(deref(s), deref(srcs)):
            msgs.append(('sources', f'files are listed from {show(s)}'))
        if uuid is not None:
            m = only_debug_id(it, o, uuid)
            if m:
                msgs.append(('object', m))

    def first_of(it, k):
        """Every listed file may be asked for; the first usable one counts."""
        n = it.ctx.known(('files of listing', k)) or 0
        for i in range(n):
            o = it.ctx.known(('outcome of', repr(a_file(k, i))))
            if o in (None, 'Ok'):
                return a_file(k, i) if o == 'Ok' else None
        return None

    def file_of(it, v):
        return it.freeze(deref(it.field(it.force(deref(v)), 'file')))

    def map_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if not it.listed:
            return 'anchor', 'no files are listed'
        msgs = []
        check_listing(it, 0, ['UuidMap'], did, msgs)
        plist = first_of(it, 1)
        r = it.force(out.value)
        parsed = plist is not None and it.ctx.known(('plist',)) == 'Ok'
        if plist is None or not parsed:
            if r.variant != 'None' or len(it.listed) > 1:
                msgs.append(('missing', 'a symbol map is answered without a mapping of uuids'))
            return msgs
        if it.plists != [(repr(did), repr(Term('data of', (plist,), Ty('ByteView'))))]:
            msgs.append(('mapping', f'the mapping is read from {it.plists}'))
        if len(it.listed) < 2:
            return msgs + [('symbol map', 'the symbol map is not looked for')]
        o = orig(it, did)
        check_listing(it, 1, ['BcSymbolMap'], o, msgs)
        f = first_of(it, 2)
        if (r.variant == 'Some') != (f is not None):
            return msgs + [('symbol map', f'the answer is {r.variant} when the symbol map is {f}')]
        if f is not None:
            h = it.force(deref(r.fields[0]))
            for n, w in (('file', f), ('uuid', o), ('data', Term('data of', (f,), Ty('ByteView')))):
                if not it.same(it.freeze(deref(it.field(h, n))), w):
                    msgs.append(('symbol map', f'the {n} of the symbol map is {show(h.fields[n])}'))
        for rq, f in it.asked:
            w = did if f.args[0] == 1 else o
            if not it.same(it.freeze(rq.fields['uuid']), it.freeze(w)):
                msgs.append(('checked uuid', f'the file is checked against {show(rq.fields["uuid"])}'))
            kind = it.force(rq.fields['kind']).variant
            if kind != ('UuidMap' if f.args[0] == 1 else 'BcSymbolMap'):
                msgs.append(('checked kind', f'the file is checked as a {kind}'))
        return msgs

    def plist(it, a):
        it.plists.append((repr(it.freeze(deref(a[0]))), repr(it.freeze(deref(a[1])))))
        if it.ctx.choose(('plist',), ['Ok', 'broken']) == 'Ok':
            return ok(Native('uuid mapping', uuid=it.freeze(deref(a[0]))))
        return Enum('Result', 'Err', [Term('plist error', (), Ty('UuidMappingError'))])

    def msetup(it):
        setup(it)
        it.plists = []

    def aux(it, req, f):
        return Struct(BIT + 'CacheHandle', {'file': f, 'uuid': req.fields['uuid'], 'data': Term('data of', (f,), Ty('ByteView'))})
    c.product('symbol maps', BIT + 'BitcodeService::fetch_bcsymbolmap', map_spec,
              given=lambda it: {'self': struct_of(c, it, BIT + 'BitcodeService'), 'uuid': did, 'scope': req_scope(), 'sources': srcs}, setup=msetup, floor=10,
              models={'UuidMapping::parse_plist': plist}, mmodels={'original_uuid': lambda it, recv, args: orig(it, deref(recv.get() if isinstance(recv, Ref) else recv).uuid)},
              opaque={**key_hooks(), 'list_files': listing, 'Cacher::compute_memoized': memo(aux)})

    def line_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if len(it.listed) != 1:
            return 'anchor', f'files are listed {len(it.listed)} times'
        msgs = []
        check_listing(it, 0, ['Il2cpp'], None, msgs)
        if not it.same(it.freeze(it.listed[0][2]), T_OBJ):
            msgs.append(('object', f'files of {show(it.listed[0][2])} are listed'))
        f, r = first_of(it, 1), it.force(out.value)
        if (r.variant == 'Some') != (f is not None) or f is not None and not it.same(file_of(it, r.fields[0]), f):
            msgs.append(('outcome', f'the answer is {show(r)} instead of {f}'))
        return msgs
    T_OBJ = Term('object_id', (), T_OID)
    c.product('line mappings', IL + 'Il2cppService::fetch_line_mapping', line_spec,
              given=lambda it: {'self': struct_of(c, it, IL + 'Il2cppService'), 'object_id': T_OBJ, 'debug_id': did, 'scope': req_scope(), 'sources': srcs}, setup=setup, floor=8,
              opaque={**key_hooks(), 'list_files': listing, 'Cacher::compute_memoized': memo(lambda it, req, f: Struct(IL + 'Il2cppHandle', {'file': f, 'data': Term('data of', (f,), Ty('ByteView'))}))})


def proxy(c):
    APP = 'symbolicator::'
    fn = APP + 'endpoints::proxy::load_object'
    ident, types = Term('parsed id', (), T_OID), ['Pe', 'ElfCode']
    defaults = Term('default sources', (), Ty('Arc', Ty('Slice', Ty('symbolicator_sources::sources::SourceConfig'))))
    FT = 'symbolicator_sources::filetype::FileType'

    def parsed(it, a):
        it.paths.append(show(it.freeze(it.ctx.sstr(deref(a[0])))))
        return some(Tup([Vec([Enum(FT, t, []) for t in types]), ident])) if it.ctx.choose(('known path',), [True, False]) else none()

    def psetup(it):
        setup(it)
        it.paths = []

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if not it.ctx.known(('proxy enabled',)) or not it.ctx.known(('known path',)):
            r = it.force(out.value)
            if it.finds or not it.same(it.freeze(r), it.freeze(an_error(it, 'NotFound', ''))):
                return 'refused', f'the answer is {show(r)} when the proxy is {"on" if it.ctx.known(("proxy enabled",)) else "off"}'
            return None
        if len(it.finds) != 1:
            return 'anchor', f'the object is searched for {len(it.finds)} times'
        msgs = looked_for(it, it.finds[0], 'Debug', types, Enum('symbolicator_service::types::Scope', 'Global', []), defaults)
        if not it.same(it.freeze(it.finds[0].fields['identifier']), ident):
            msgs.append(('object', f'the object {show(it.finds[0].fields["identifier"])} is looked for'))
        if len(it.paths) != 1 or it.paths[0] != show(it.freeze(it.ctx.sstr(deref(a[1])))):
            msgs.append(('path', f'the path {it.paths} is read'))
        return msgs + outcome(it, out)

    def config(it, a):
        return it.std.temp_ref(Struct(CFG, {'symstore_proxy': it.ctx.choose(('proxy enabled',), [True, False]), 'sources': defaults}))
    CFG = SVC + 'config::Config'
    c.product('proxy', fn, spec, given=lambda it: {'service': Native('request service'), 'path': Str((Term('path', (), T_STR),))}, setup=psetup, floor=6,
              mmodels={'config': lambda it, recv, args: config(it, args), 'find_object': lambda it, recv, args: finder(it, [recv, *args]), 'fetch_object': lambda it, recv, args: getter(it, [recv, *args]),
                       'default_sources': lambda it, recv, args: defaults}, opaque={**key_hooks(), 'parse_symstore_path': parsed, 'Config::default_sources': lambda it, a: defaults})


# ------------------------------------------------------------------ N10
def n10(c):
    FEAT = Struct(SVC + 'objects::candidates::ObjectFeatures', {f: True for f in ('has_debug_info', 'has_unwind_info', 'has_symbols', 'has_sources')})
    T_V = Ty('T')

    def given(it):
        k = it.ctx.choose(('found',), ['nothing', 'object', *('error ' + e for e in ERRORS)])
        st = it.ctx.choose(('status',), ['Debug', 'Unwind'])
        h = struct_of(c, it, OBJ + 'meta_cache::ObjectMetaHandle', features=FEAT, scope=req_scope())
        meta = none()
        if k != 'nothing':
            meta = some(Struct(OBJ + 'FoundMeta', {'file_source': a_file('object'), 'handle': ok(h) if k == 'object' else an_error(it, k[6:], 'found')}))
        it.handle_ = h

        def derive(args):
            it.derived_from.append(it.freeze(deref(args[0])))
            o = it.ctx.choose(('derived',), ['Ok', *ERRORS])
            return Future(lambda: ok(Term('value', (), T_V)) if o == 'Ok' else an_error(it, o, 'derived'))
        return {
            'found': Struct(OBJ + 'FindResult', {'meta': meta, 'candidates': Term('candidates', (), T_CANDS)}), 'status': Enum(SVC + 'objects::candidates::CandidateStatus', st, []), 'derive': Native('derive', call=derive)}

    def nsetup(it):
        setup(it)
        it.derived_from = []

    def note(it, a):
        it.status.append((it.force(deref(a[1])).variant, it.freeze(deref(a[2])), it.freeze(deref(a[3])), it.force(deref(a[4]))))
        return UNIT

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        d = it.force(out.value)
        k = it.ctx.known(('found',))
        cache, msgs = it.force(d.fields['cache']), []
        feats = it.force(d.fields['features'])
        has = [n for n in FEAT.fields if it.field(feats, n) is True]
        info = None
        if k == 'nothing':
            want = an_error(it, 'NotFound', '')
        elif k == 'object':
            if len(it.derived_from) != 1 or not it.same(it.derived_from[0], it.freeze(it.handle_)):
                return 'anchor', f'the file is made from {showl(it.derived_from)}'
            o = it.ctx.known(('derived',))
            want = ok(Term('value', (), T_V)) if o == 'Ok' else an_error(it, o, 'derived')
            info = {'Ok': 'Ok', 'Malformed': 'Malformed'}.get(o, 'Error')
        else:
            want = an_error(it, k[6:], 'found')
            info = 'None' if k[6:] in ('NotFound', 'PermissionDenied', 'Timeout', 'DownloadError') else 'Malformed'
        if not it.same(it.freeze(cache), it.freeze(want)):
            msgs.append(('value', f'the answer is {show(cache)} instead of {show(want)}'))
        if has != (list(FEAT.fields) if k == 'object' else []):
            msgs.append(('features', f'the features {has} are reported when the lookup found {k}'))
        if len(it.status) != (1 if info else 0):
            return msgs + [('report', f'{len(it.status)} statuses are set when the lookup found {k}')]
        if info:
            st, source, where, got = it.status[0]
            if st != it.ctx.known(('status',)):
                msgs.append(('report', f'the use for {it.ctx.known(("status",))} is reported as {st}'))
            if source != Term('source_id', (a_file('object'),), source.ty) or where != Term('uri', (a_file('object'),), where.ty):
                msgs.append(('report', f'the use of another file is reported: {show(source)} {show(where)}'))
            if got.variant != info:
                msgs.append(('report', f'{got.variant} is reported instead of {info} when the lookup found {k} and the outcome was {it.ctx.known(("derived",))}'))
            if got.variant == 'Error' and it.ctx.known(('derived',)) not in ('NotFound', 'InternalError', None):
                t = show(it.freeze(it.ctx.sstr(got.fields['details'] if isinstance(got.fields, dict) else got.fields[0])))
                if 'derived' not in t:
                    msgs.append(('report', f'the details {t} do not tell the reason'))
        return msgs
    c.product('reports', NAT + 'derived::derive_from_object_handle', spec, given=None, run=lambda it, f, a: it.call_def(f, list(given(it).values())), setup=nsetup, floor=15,
              opaque={**key_hooks(), 'AllObjectCandidates::set_status': note, 'ObjectMetaHandle::features': lambda it, a: it.field(deref(a[0]), 'features')})
