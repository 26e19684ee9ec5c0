"""W01 - W05: wasm-split."""
from .util import *
from engine import fmt
from engine.ext import E_IO
from engine.fsmodel import Fs, FS_MODELS
from engine.std import EXT_ENUMS

EXT_ENUMS['CustomSection'] = ['Name', 'Producers', 'ExternalDebugInfo', 'SourceMappingUrl', 'BuildId', 'Other']
EXT_ENUMS['Section'] = ['Custom', 'Type', 'Import', 'Function', 'Table', 'Memory', 'Global', 'Export', 'Start', 'Element', 'DataCount', 'Code', 'Data']
KINDS = ('code', 'broken', 'name', 'producers', 'reference', 'id', 'other')
NAMES = {'Name': 'name', 'Producers': 'producers', 'ExternalDebugInfo': 'external_debug_info', 'SourceMappingUrl': 'sourceMappingURL', 'BuildId': 'build_id'}
T_ID = Ty('Bytes')


def custom(contents):
    return Enum('Section', 'Custom', [Struct('Blob', {'contents': contents})])


def section(it, i, kind):
    if kind == 'code':
        return Enum('Section', 'Code', [Struct('Blob', {'contents': ok(Term('code', (i,), T_ID))})])
    if kind == 'broken':
        return custom(err(Term('undecodable', (i,), Ty('DecodeError'))))
    t = Term('content', (i,), T_ID if kind == 'id' else Ty('Payload'))
    v = {'name': 'Name', 'producers': 'Producers', 'reference': 'ExternalDebugInfo', 'id': 'BuildId', 'other': 'Other'}[kind]
    if v == 'Other':
        t = Struct('RawCustomSection', {'name': Str((Term('section name', (i,), T_STR),)), 'data': t})
    return custom(ok(Enum('CustomSection', v, [t])))


def try_as(it, r, a):
    s = it.force(r)
    return some(s.fields[0]) if s.variant == 'Custom' else none()


def name_of(it, r, a):
    s = it.force(r)
    if s.variant == 'Other':
        return it.field(s.fields[0], 'name')
    return Str(NAMES[s.variant])


def into(it, r, a):
    return custom(ok(deref(r)))


def into_section(it, a):
    v = deref(a[0])
    return custom(ok(v)) if isinstance(v, Enum) and v.ty == 'CustomSection' else custom(it.field(v, 'contents')) if isinstance(v, Struct) else v


def encode(it, r, a):
    w = deref(a[0])
    snap = [it.freeze(x) for x in deref(it.field(deref(r), 'sections')).items]
    res = w.put(Term('module', tuple(snap), Ty('Bytes')))
    return ok(a[0]) if res.variant == 'Ok' else res


def decode(it, a):
    if not it.ctx.choose(('the module is valid',), [True, False]):
        return err(Term('invalid module', (), Ty('DecodeError')))
    it.decoded = True
    ks = [it.ctx.choose(('section', i), list(it.kinds)) for i in range(it.ctx.choose(('number of sections',), list(range(it.maxn + 1))))]
    return ok(Struct('Module', {'magic_and_version': UNIT, 'sections': Vec([section(it, i, k) for i, k in enumerate(ks)])}))


def opened(it, a):
    p = it.fs.path(a[0])
    if not it.fs.errors or it.ctx.choose(('the input opens',), [True, False]):
        it.opens.append(p)
        return ok(Term('input file', (p,), Ty('File')))
    return err(Term('cannot open', (p,), E_IO))


def hexed(it, a):
    return Str((Term('hex of', (it.freeze(deref(a[0])),), T_STR),))


def println(it, e, env):
    it.printed.append(it.ctx.norm(fmt.format_args(it, e, e['args'], env)) if e['args'] else Str(''))
    return UNIT


INPUT, OUT = Str('/w/in.wasm'), Str('/w/out.wasm')


def run(c, tags, n, kinds=KINDS, name='splitting a module', errors=False, **fixed):
    def option(it, key, v):
        x = fixed[key] if key in fixed else it.ctx.choose((key,), [False, True])
        return some(v) if x else none()

    def flag(it, key):
        return fixed[key] if key in fixed else it.ctx.choose((key,), [False, True])

    def given(it):
        it.__dict__.update(kinds=kinds, maxn=n, printed=[], decoded=False, opens=[])
        it.cli = Struct('wasm_split::Cli', {
            'input': INPUT, 'out': option(it, 'out', OUT), 'debug_out': option(it, 'debug_out', S('/w/', Str((Term('plain', ('debug',), T_STR),)), '.wasm')),
            'strip': flag(it, 'strip'), 'strip_names': flag(it, 'strip_names'), 'quiet': flag(it, 'quiet'), 'build_id': option(it, 'build_id', Term('given id', (), Ty('Uuid'))),
            'external_dwarf_url': option(it, 'url', Str((Term('url', (), T_STR),)))})
        return []

    def spec(it, a, out):
        return [m for m in compare(it, out) if m[0].split(':')[0] in tags]

    def compare(it, out):
        if out.panic:
            return [('errors: panic', f'it panics: {out.panic}')]
        res, cli, bad = it.force(out.value), it.cli, []
        ops = it.fs.ops
        if res.variant == 'Err':
            if not any(p.ok is False for p in ops) and it.decoded:
                bad.append(('errors: failure', f'it fails with {show(res.fields[0])} although nothing failed'))
            return bad
        if not it.decoded:
            return [('errors: input', 'it succeeds although the input cannot be opened or decoded')]
        if any(p.ok is False for p in ops):
            bad.append(('errors: lost', f'{next(p for p in ops if p.ok is False)}, but it succeeds'))
            return bad
        for p in ops:
            if p.h is not None and p.h.buffered and not p.h.flushed:
                bad.append(('errors: flush', f'{show(p.path)} is not flushed: a failure to write its end is lost'))
                break
        if [it.ctx.norm(x) for x in it.opens] != [it.ctx.norm(INPUT)]:
            bad.append(('errors: read', f'the files {it.opens} are read'))
        k = [it.ctx.choose(('section', i), list(kinds)) for i in range(it.ctx.choose(('number of sections',), list(range(n + 1))))]
        orig = [section(it, i, x) for i, x in enumerate(k)]
        o, d, u, b = (fopt(it, cli, x) for x in ('out', 'debug_out', 'external_dwarf_url', 'build_id'))
        outp = it.ctx.norm(o if o is not None else INPUT)
        files = {}
        for p in ops:
            if p.kind == 'data' or p.kind == 'write' and p.data is not None:
                files.setdefault(it.ctx.norm(p.path), []).append(p.data)
            elif p.kind not in ('create', 'create_new', 'flush', 'open', 'sync_all', 'sync_data', 'data'):
                bad.append(('place: other', f'it also does {p}'))
        dpath = it.ctx.norm(d) if d is not None else None
        main, debug = files.pop(outp, None), files.pop(dpath, None) if dpath is not None else None
        for p in ops:
            if p.path is not None and it.ctx.norm(p.path) not in (outp, dpath) or p.kind == 'create' and (it.ctx.norm(p.path) == outp and main is None):
                bad.append(('place: unwanted', f'it also does {p}'))

        def secs(data):
            return list(data[0].args) if len(data) == 1 and isinstance(data[0], Term) and data[0].op == 'module' else None
        fr = [it.freeze(x) for x in orig]
        ids = [i for i, x in enumerate(k) if x == 'id']
        # the build id
        if ids:
            ident, idsec = it.freeze(Term('content', (ids[0],), T_ID)), None
        else:
            def find(data):
                return [x for x in (secs(data) or []) if x not in fr and 'CustomSection::BuildId' in repr(x)]
            new = find(main or []) or find(debug or [])
            idsec = new[0] if new else None
            ident = None
            if idsec is not None:
                ident = payload(idsec)
                if b is not None:
                    want = it.freeze(it.method(it.std.temp_ref(b), 'as_bytes', []))
                    if it.ctx.norm(ident) != it.ctx.norm(want):
                        bad.append(('id: value', f'the added build id is {show(ident)}, requested was {show(want)}'))
                elif 'new_v4' not in show(ident):
                    bad.append(('id: value', f'the added build id is {show(ident)}, which is not random'))
            if main is None and debug is None or idsec is None:
                bad.append(('id: missing', 'a module without build id gets none'))
        # what is printed
        if (not cli.fields['quiet']) != (len(it.printed) == 1) or len(it.printed) > 1:
            bad.append(('id: printed', f'{"quiet: " if cli.fields["quiet"] else ""}{it.printed} is printed'))
        elif it.printed and ident is not None:
            want = it.ctx.norm(hexed(it, [ident]))
            if it.ctx.norm(it.printed[0]) != want:
                bad.append(('id: printed', f'{it.printed[0]!r} is printed, the build id is {show(want)}'))
        full = list(fr) if ids or idsec is None else fr + [idsec]
        # the debug file
        if d is not None:
            got = secs(debug) if debug else None
            if got is None:
                bad.append(('debug: missing', f'the debug file is written as {debug}'))
            else:
                if any('BuildId' in repr(x) for x in got if x not in full):
                    bad.append(('id: twice', f'the debug file gets the build id {showl([x for x in got if x not in full])}'))
                if sorted(map(repr, got)) != sorted(map(repr, full)) or [x for x in got if x in fr] != fr:
                    bad.append(('debug: sections', f'the debug file of a module with the sections {showl(full)} has {showl(got)}'))
        # the main file
        ref = u if u is not None else S(Term('plain', ('debug',), T_STR), '.wasm') if d is not None else None

        def stripped(i):
            if not cli.fields['strip']:
                return False
            if k[i] == 'name':
                return bool(cli.fields['strip_names'])
            return k[i] == 'other' and it.ctx.starts_with(Str((Term('section name', (i,), T_STR),)), '.debug_')
        rest = [x for i, x in enumerate(fr) if not stripped(i)]
        changed = not ids or ref is not None or len(rest) != len(fr)
        if main is None:
            if changed or o is not None:
                bad.append(('place: missing', f'the main module is not written to {show(outp)}' + (' although an output was requested' if o is not None else '')))
            return bad
        if not (changed or o is not None or cli.fields['strip']):
            bad.append(('place: unwanted', f'an unchanged module is written to {show(outp)} without request'))
        got = secs(main)
        if got is None:
            bad.append(('place: twice', f'the main module is written as {main}'))
            return bad
        refs = [x for x in got if x not in fr and 'CustomSection::ExternalDebugInfo' in repr(x)]
        mine = [x for x in got if x not in refs and x != idsec]
        if mine != rest:
            bad.append(('strip: sections', f'of the sections {showl(fr)} the main file keeps {showl(mine)}, expected {showl(rest)}'))
        n_id = sum(1 for x in got if x == idsec) if idsec is not None else 0
        if idsec is not None and n_id != 1:
            bad.append(('id: twice' if n_id else 'id: missing', f'the main file contains the added build id {n_id} times'))
        if any('CustomSection::BuildId' in repr(x) for x in mine if x not in rest):
            bad.append(('id: twice', f'the main file also gets the build id {showl([x for x in mine if x not in rest])}'))
        if len(refs) != (ref is not None):
            bad.append(('place: reference', f'the main file gets the references {showl(refs)}, expected {show(ref)}'))
        elif refs and it.ctx.norm(it.ctx.sstr(payload(refs[0]))) != it.ctx.norm(it.ctx.sstr(ref)):
            bad.append(('place: reference', f'the main file refers to {show(payload(refs[0]))}, expected {show(ref)}'))
        return bad

    def payload(t):
        """The content of a custom section."""
        while isinstance(t, Term) and not t.op.startswith('CustomSection'):
            t = next(x for x in (y[1] if isinstance(y, tuple) else y for y in t.args) if isinstance(x, Term))
        return t.args[0]
    c.product(name, 'wasm_split::main', spec, given=given, setup=lambda it: Fs(it, errors), floor=16,
              models={**FS_MODELS, 'Cli::parse': lambda it, a: it.cli, 'parse': lambda it, a: it.cli, 'Module::decode_from': decode, 'File::open': opened, 'println!': println, 'hex::encode': hexed,
                      'Section::from': into_section, 'Blob::from': lambda it, a: Struct('Blob', {'contents': ok(deref(a[0]))})},
              mmodels={'Section.try_as': try_as, 'Blob.try_contents': lambda it, r, a: it.field(deref(r), 'contents'), 'CustomSection.name': name_of, 'CustomSection.into': into,
                       'Blob.into': lambda it, r, a: custom(it.field(deref(r), 'contents')), 'Module.encode_into': encode}, k=n + 2)


def splitting(c, tags):
    run(c, tags, 2 if c.tier == 'quick' else 3, quiet=False, name='splitting a module')
    run(c, tags, 1, name='options of a split', kinds=('id', 'other'))


def w01(c):
    splitting(c, ('id',))


def w02(c):
    splitting(c, ('strip',))


def w03(c):
    splitting(c, ('debug',))


def w04(c):
    splitting(c, ('place',))


def w05(c):
    run(c, ('errors',), 1, kinds=('id', 'code', 'broken'), errors=True, name='failures')
