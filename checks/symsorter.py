"""Y01 - Y07: symsorter."""
from .util import *
from engine.fsmodel import Fs, FS_MODELS, FileSink
from engine.ext import E_IO

A, U = 'symsorter::app::', 'symsorter::utils::'
T_PATH = Ty('Path')
SORTED = ('Executable', 'Library', 'Debug', 'Sources')
KINDS = ('None', 'Relocatable', 'Executable', 'Library', 'Dump', 'Debug', 'Sources', 'Other')
LEVELS = {0: None, 1: 3, 2: 10, 3: 19}


def cfg(it, a=None):
    return Struct('symsorter::config::RunConfig', {'output': Term('output', (), T_STR), 'ignore_errors': Term('ignore_errors', (), T_BOOL), 'quiet': True})


def target(it, a):
    """The target path of an object, or no identifier or kind for one."""
    o = it.freeze(a[0])
    if has_target(it, o):
        return ok(target_path(o))
    return err(Term('no target', (o,), Ty('anyhow')))


def unflushed(it):
    """Buffered files that were written to and dropped without flushing."""
    hs = {id(p.h): p.h for p in it.fs.ops if p.h is not None}
    return [h for h in hs.values() if h.buffered and h.parts and not h.flushed]


def has_target(it, o):
    """Objects without an identifier have no target either (Y01 decides that for get_target_filename)."""
    return it.force(Term('uid', (o,), Ty('Result', T_STR, Ty('anyhow')))).variant == 'Ok' and it.ctx.choose(('has a target', o), [True, False])


def target_path(o):
    return S(Term('dir', (o,), T_STR), '/debuginfo')


def uid(it, a):
    return Term('uid', (it.freeze(a[0]),), Ty('Result', T_STR, Ty('anyhow')))


def json_of(it, a):
    return ok(Term('json', (it.freeze(deref(a[0])),), Ty('Bytes')))


def objects_of(it, archive):
    return items(it, Term('.objects', (archive,), Ty('Iter', Ty('Result', Ty('Object')))))


def homeless(it, ops):
    """Files created before their folder."""
    for i, o in enumerate(ops):
        if o.kind not in ('create', 'create_new', 'write'):
            continue
        cur = it.ctx.norm(o.path)
        text = show(cur).strip('"')
        parent = text.rsplit('/', 1)[0]
        if '/' in text and not any(p.kind == 'mkdir' and p.ok and (show(it.ctx.norm(p.path)).strip('"') + '/').startswith(parent + '/') for p in ops[:i]):
            return o
    return None


def process_file(c, tags, kinds=('Debug', 'Sources', 'Other'), k=2, levels=(0, 2), name='sorting a file', floor=50):
    """Every way of sorting one input file; reports what concerns the given tags."""
    def okind(it, r, a):
        return Enum('ObjectKind', it.ctx.choose(('kind of', it.freeze(r)), list(kinds)))

    def given(it):
        sc = Ty('symsorter::config::SortConfig')
        lv = it.ctx.choose(('compression flags',), list(levels))
        return {'sort_config': Struct(sc[0], {'bundle_id': Term('bundle_id', (), Ty('Option', T_STR)), 'with_sources': Term('with_sources', (), T_BOOL), 'compression_level': lv}),
                'filename': Str((Term('filename', (), T_STR),))}

    def spec(it, a, out):
        return [m for m in compare(it, a, out) if m[0].split(':')[0] in tags]

    def compare(it, a, out):
        sort, bv, filename = a
        ops = it.fs.ops
        if out.panic:
            return [('errors: panic', f'sorting a file panics: {out.panic}')]
        res = it.force(out.value)
        level = it.field(sort, 'compression_level')
        bundle = fopt(it, sort, 'bundle_id')
        ar = it.force(Term('Archive::parse', (it.freeze(bv),), Ty('Result', Ty('Archive'))))
        bad = []
        want, broken = [], ar.variant == 'Err'
        failed = next((i for i, o in enumerate(ops) if o.ok is False), None)
        used = set()
        if not broken:
            for r in objects_of(it, it.freeze(ar.fields[0])):
                r = it.force(r)
                if r.variant == 'Err':
                    broken = True
                    break
                o = it.freeze(r.fields[0])
                kind = it.ctx.choose(('kind of', o), list(kinds))
                if kind not in SORTED:
                    continue
                if not has_target(it, o):
                    broken = True
                    break
                d = Term('dir', (o,), T_STR)
                root = it.freeze(it.ctx.sstr(it.field(cfg(it), 'output')))
                path = it.ctx.norm(S(root, '/', target_path(o)))
                meta = it.ctx.norm(S(root, '/', d, '/debuginfo.meta'))
                mine = [(i, p) for i, p in enumerate(ops) if it.ctx.norm(p.path) == path and p.kind != 'mkdir']
                used |= {i for i, _ in mine}
                metas = [(i, p) for i, p in enumerate(ops) if it.ctx.norm(p.path) == meta]
                used |= {i for i, _ in metas}
                refs = [(i, p) for i, p in enumerate(ops) if bundle is not None and it.ctx.norm(p.path) == it.ctx.norm(S(root, '/', d, '/refs/', it.freeze(it.ctx.sstr(bundle)))) and p.kind in ('write', 'create', 'create_new')]
                used |= {i for i, _ in refs}
                create = [p for _, p in mine if p.kind != 'data' and p.kind != 'flush']
                if any(p.kind != 'create_new' for p in create):
                    bad.append(('overwrite: ' + 'open', f'the destination of an object is opened by {create[0].kind}, which replaces an existing file'))
                if failed is not None and not any(p.ok for p in create):
                    break       # stopped before this object
                if len(create) != 1:
                    bad.append(('place: create', f'the destination {show(path)} of an object is created {len(create)} times; the operations are {ops}'))
                    break
                created = create[0].ok
                at = ops.index(create[0])
                early = [p for i, p in metas if i < at]
                if created == 'exists':
                    if metas:
                        bad.append(('overwrite: metadata', f'the metadata of an existing file is written: {metas[0][1]}'))
                    if any(p.kind == 'data' for _, p in mine):
                        bad.append(('overwrite: contents', f'an existing file is written: {[p for _, p in mine]}'))
                    continue
                if early:
                    bad.append(('overwrite: metadata', f'the metadata {show(meta)} is written before it is known that no such file exists'))
                data = [p for _, p in mine if p.kind == 'data']
                stop = failed is not None and (failed < at or any(i == failed for i, _ in mine + metas + refs) or failed > at)
                content = Term('.data', (o,), Ty('Bytes'))
                wantd = content if level == 0 else Term('zstd', (content, LEVELS.get(level, 22)), Ty('Bytes'))
                if data and (len(data) != 1 or it.ctx.norm(data[0].data) != it.ctx.norm(wantd)):
                    bad.append(('contents: data', f'{show(data[0].data)} is stored for an object with {level} compression flags, expected {show(wantd)}'))
                if failed is not None and not later_objects(it, ops, failed, o, root):
                    break
                if not data:
                    bad.append(('contents: missing', f'nothing is stored at {show(path)}'))
                if len(metas) != 1 or not is_meta(it, metas[0][1].data, filename, o):
                    bad.append(('manifest: metadata', f'the metadata of a sorted object is written as {[p for _, p in metas]}'))
                if bundle is not None and not refs:
                    bad.append(('manifest: reference', f'a sorted object of a bundle gets no reference: {ops}'))
                u = it.force(Term('uid', (o,), Ty('Result', T_STR, Ty('anyhow'))))
                if u.variant == 'Err':
                    broken = True
                    break
                want.append((u.fields[0], kind))
        h = homeless(it, ops)
        if h:
            bad.append(('place: folder', f'the folder of {show(h.path)} is not created before the file'))
        lazy = unflushed(it)
        if lazy and res.variant == 'Ok':
            bad.append(('errors: unflushed', f'{show(lazy[0].path)} is written through a buffer that is never flushed, which hides write errors'))
        extra = [p for i, p in enumerate(ops) if i not in used and p.kind not in ('mkdir', 'flush') and not (bundle is not None and '/refs/' in show(p.path))]
        if extra and not bad:
            bad.append(('place: extra', f'sorting a file also does {extra}'))
        if failed is not None:
            if res.variant != 'Err':
                bad.append(('errors: write', f'{ops[failed]}, but sorting the file succeeds'))
            if failed != len(ops) - 1:
                bad.append(('errors: continue', f'after {ops[failed]} the file is sorted on: {ops[failed + 1:]}'))
            return bad
        ign = it.ctx.truth(it.field(cfg(it), 'ignore_errors')) if broken else None
        if broken and not ign:
            if res.variant != 'Err':
                bad.append(('errors: broken', 'a broken object or archive does not fail the run'))
            return bad
        if res.variant != 'Ok':
            if True:
                bad.append(('errors: ignored', f'sorting fails with {show(res.fields[0])} ' + ('although errors are ignored' if broken else 'although nothing failed')))
            return bad
        got = []
        for x in items(it, res.fields[0]):
            got.append((it.field(x, '0'), variant(it, it.field(x, '1'))))
        if len(got) != len(want) or any(not it.eq(x, y) or kx != ky for (x, kx), (y, ky) in zip(got, want)):
            bad.append(('manifest: ids', f'the sorted objects are {want}, the reported ones {got}'))
        return bad

    def later_objects(it, ops, failed, o, root):
        """Whether the failure concerns an object after o."""
        s = show(ops[failed].path)
        return show(o) not in s

    def is_meta(it, data, filename, o):
        if not isinstance(data, Term) or data.op != 'json':
            return False
        v = it.materialize(data.args[0])
        n, ar, ff = fopt(it, v, 'name'), fopt(it, v, 'arch'), fopt(it, v, 'file_format')
        return n is not None and it.eq(n, filename) and ar is not None and '.arch' in show(ar) and show(o) in show(ar) and ff is not None and '.file_format' in show(ff) and show(o) in show(ff)

    c.product(name, A + 'process_file', spec, given=given, k=k, floor=floor, setup=lambda it: Fs(it), models={**FS_MODELS, 'serde_json::to_vec': json_of}, mmodels={'Object.kind': okind},
              opaque={'get_target_filename': target, 'get_unified_id': uid, 'RunConfig::get': cfg})


def y02(c):
    process_file(c, ('overwrite',))
    process_file(c, ('overwrite',), k=1, kinds=SORTED, levels=(0, 1, 2, 3, 4, 5, 200), name='sorting with any compression')


def y06(c):
    process_file(c, ('contents',), k=1, kinds=('Debug', 'Executable'), levels=(0, 1, 2, 3, 4, 5, 200), name='compression')


def y01(c):
    FF = Ty('FileFormat')
    o = Term('obj', (), Ty('Object'))

    def ff(it):
        return it.force(Term('.file_format', (o,), FF)).variant

    def code(it):
        r = it.force(Term('.code_id', (o,), Ty('Option', Ty('CodeId'))))
        return r.fields[0] if r.variant == 'Some' else None

    def debug():
        return Term('.debug_id', (o,), Ty('DebugId'))

    def want_id(it):
        """The identifier of an object, or None if it has none."""
        cid = code(it)
        if ff(it) == 'Pe' or cid is None:
            if it.ctx.truth(Term('is_nil', (debug(),), T_BOOL)):
                return None
            return lower(it.ctx.sstr(Term('breakpad', (debug(),), T_STR)))
        return it.ctx.sstr(Term('code_id_str', (it.freeze(cid),), T_STR))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r, w = it.force(out.value), want_id(it)
        if (r.variant == 'Ok') != (w is not None):
            return 'exists', f'an object with ' + ('an identifier is given none' if w is not None else f'no identifier is given {show(out.value)}')
        if w is not None and not it.eq(it.ctx.sstr(r.fields[0]), w):
            return 'value', f'the identifier of a {ff(it)} object is {show(r.fields[0])}, expected {show(w)}'
    c.product('identifiers', U + 'get_unified_id', spec, given={'obj': o}, floor=18)

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        r, w = it.force(out.value), want_id(it)
        kind = it.force(Term('.kind', (o,), Ty('ObjectKind'))).variant if w is not None else None
        suffix = 'debuginfo' if kind == 'Debug' else 'executable' if kind in ('Library', 'Executable') else 'sourcebundle' if kind == 'Sources' and ff(it) == 'SourceBundle' else None
        if w is not None and suffix and not (it.ctx.le(2, it.ctx.str_len(w)) and it.ctx.boundary(w, 2)):
            suffix = None
        if w is None or suffix is None:
            return None if r.variant == 'Err' else ('refused', f'a {kind} object that cannot be placed is placed at {show(r.fields[0])}')
        a1, a2 = it.ctx.split_at(w, 2)
        p = S(a1, '/', a2, '/', suffix)
        if r.variant != 'Ok' or not it.eq(it.ctx.sstr(r.fields[0]), p):
            return kind, f'a {kind} object of format {ff(it)} is placed at {show(out.value)}, expected {show(p)}'
    c.product('destinations', U + 'get_target_filename', spec, given={'obj': o}, floor=60)
    process_file(c, ('place',), k=1, kinds=KINDS, levels=(0,), name='sorting a file')
    agreement(c, o, ff, code, debug)
    output_root(c)


def agreement(c, o, ff, code, debug):
    """The writer's path for an object is the reader's path for the same object."""
    TY = {'Elf': ('Elf', 'Elf'), 'MachO': ('Macho', 'Mach'), 'Wasm': ('Wasm', 'Wasm'), 'Pe': ('Pe', 'Pe'), 'Pdb': ('Pe', 'Pdb'), 'PortablePdb': ('PeDotnet', 'PortablePdb'),
          'Breakpad': (None, None), 'SourceBundle': (None, 'SourceBundle')}
    OT, FT = 'symbolicator_sources::types::ObjectType', 'symbolicator_sources::types::FileType'

    def run(it, f, a):
        r = it.force(it.call_def(c.w.fn(U + 'get_target_filename'), [a[0]]))
        if r.variant == 'Err':
            return Tup([r, none()])
        form, has = ff(it), code(it) is not None
        kind = it.force(Term('.kind', (o,), Ty('ObjectKind'))).variant
        ty, ft = TY.get(form, (None, None))
        if ty is None and form == 'SourceBundle':
            ty = it.ctx.choose(('object of the bundle',), ['Elf', 'Macho', 'Wasm'] if has else ['Pe', 'PeDotnet'])
        if ty is None or (form in ('Elf', 'MachO', 'Wasm')) and not has or form in ('Pdb', 'PortablePdb') and has:
            return Tup([r, none()])
        if form in ('Elf', 'MachO', 'Wasm'):
            ft += 'Debug' if kind == 'Debug' else 'Code'
        if kind != {'Pe': 'Executable', 'Pdb': 'Debug', 'PortablePdb': 'Debug', 'Breakpad': 'Debug', 'SourceBundle': 'Sources'}.get(form, kind):
            return Tup([r, none()])
        oid = Struct('symbolicator_sources::types::ObjectId', {
            'code_id': Term('.code_id', (o,), Ty('Option', Ty('CodeId'))), 'code_file': none(), 'debug_id': some(debug()), 'debug_file': none(), 'debug_checksum': none(),
            'object_type': Enum(OT, ty)})
        want = it.call_def(c.w.fn('symbolicator_sources::paths::get_unified_path'), [Enum(FT, ft), oid])
        return Tup([r, want])

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r, w = it.force(it.field(out.value, '0')), it.force(it.field(out.value, '1'))
        if r.variant == 'Err' or w.variant == 'None':
            return None
        if not it.eq(it.ctx.sstr(r.fields[0]), it.ctx.sstr(w.fields[0])):
            return f'{ff(it)}', f'an object of format {ff(it)} is placed at {show(r.fields[0])}, but looked up at {show(w.fields[0])}'
    c.product('agreement with the lookup paths', None, spec, given=[o], run=run, floor=60)


STYLE = {n: (lambda it, r, a: r) for n in ('red', 'bold', 'dim', 'yellow', 'cyan', 'green', 'blue', 'italic', 'underlined')}


def cli(**kw):
    d = {'output': Str((Term('output', (), T_STR),)), 'prefix': Term('prefix', (), Ty('Option', T_STR)), 'bundle_id': Term('bundle_id', (), Ty('Option', T_STR)),
         'multiple_bundles': Term('multiple_bundles', (), T_BOOL), 'with_sources': Term('with_sources', (), T_BOOL), 'compression_level': Term('compression_level', (), Ty('u8')),
         'ignore_errors': Term('ignore_errors', (), T_BOOL), 'quiet': True, 'input': Vec([])}
    d.update(kw)
    return Struct(A + 'Cli', d)


def execute(c, name, spec, inputs=1, setup=None, models=None, mmodels=None, **kw):
    """The command line, with sorting replaced by an opaque call; the calls are it.sorted."""
    def given(it):
        it.sorted = []
        return {'cli': cli(input=Vec([Str((Term(f'input{i}', (), T_STR),)) for i in range(inputs)]), **kw)}

    def sort(it, a):
        conf, paths = it.materialize(it.freeze(a[0])), items(it, a[1])
        n = len(it.sorted)
        good = it.ctx.choose(('sorting succeeds', n), [True, False])
        it.sorted.append((conf, paths, it.freeze(it.call_def(c.w.fn('symsorter::config::RunConfig::get'), [])), good))
        if not good:
            return err(Term('sorting failed', (n,), Ty('anyhow')))
        return ok(Tup([Term('files', (n,), T_USIZE), Term('bundles', (n,), T_USIZE)]))
    c.product(name, A + 'execute', spec, given=given, opaque={'sort_files': sort}, k=inputs + 1, setup=setup, models={'style': lambda it, a: a[0], 'console::style': lambda it, a: a[0], **(models or {})}, mmodels={**STYLE, **(mmodels or {})})


def output_root(c):
    def spec(it, a, out):
        if out.panic or not it.sorted:
            return None
        p = fopt(it, a[0], 'prefix')
        want = it.field(a[0], 'output') if p is None else path_join(it, it.field(a[0], 'output'), p)
        got = it.field(it.sorted[0][2], 'output')
        if not it.eq(it.ctx.sstr(got), it.ctx.sstr(want)):
            return 'value', f'files are sorted into {show(got)}, expected {show(want)}'
    execute(c, 'output folder', spec, multiple_bundles=False, with_sources=False, ignore_errors=False, bundle_id=none(), compression_level=2)


def y04(c):
    process_file(c, ('errors',))
    all_inputs(c, ('errors',))
    exits(c)


INPUTS = ('walk error', 'no metadata', 'folder', 'unreadable', 'other', 'object', 'zip')
RESULTS = {'broken': None, 'nothing': (), 'debug': (('ida', 'Debug'),), 'sources': (('ida', 'Sources'),), 'both': (('idb', 'Debug'), ('ida', 'Executable'))}
T_BV, T_DIR = Ty('ByteView'), Ty('DirEntry')


class Inputs:
    """The files below the input folders, as partitions."""

    def __init__(self, it, n, kinds, members=2, results=tuple(RESULTS)):
        self.it, self.n, self.kinds, self.members, self.results = it, n, kinds, members, results
        self.calls, self.generated = [], []
        it.inputs = self

    def kind(self, i):
        return self.it.ctx.choose(('input', i), list(self.kinds))

    def name(self, i):
        return S('f', Term('plain', (i,), T_STR), '.ext')

    def path(self, i):
        return S('/in/', self.name(i))

    def entry(self, p):
        p = self.it.ctx.norm(self.it.ctx.sstr(deref(p)))
        return next((i for i in range(self.n) if self.it.ctx.norm(self.path(i)) == p), None)

    def walk(self, it, a):
        n = it.ctx.choose(('number of files',), list(range(self.n + 1)))
        return Iter(iter([err(Term('walk error', (i,), Ty('walkdir::Error'))) if self.kind(i) == 'walk error' else ok(Term('entry', (i,), T_DIR)) for i in range(n)]))

    def metadata(self, it, r, a):
        i = it.freeze(r).args[0]
        if self.kind(i) == 'no metadata':
            return err(Term('no metadata', (i,), Ty('walkdir::Error')))
        return ok(Term('metadata', (i,), Ty('Metadata')))

    def is_file(self, it, r, a):
        return self.kind(it.freeze(r).args[0]) not in ('folder', 'walk error', 'no metadata')

    def open(self, it, a):
        i = self.entry(a[0])
        if i is None:
            raise Unsupported(f'opening {show(a[0])}')
        if self.kind(i) == 'unreadable':
            return err(Term('unreadable', (i,), E_IO))
        return ok(Term('bytes', (i,), T_BV))

    def prefix(self, v):
        v = self.it.freeze(v)
        if v.op == 'bytes':
            k = self.kind(v.args[0])
            return {'zip': 'PK', 'object': '\x7fE'}.get(k) or self.it.ctx.choose(('first bytes', v), ['xx', 'P'])
        return self.it.ctx.choose(('first bytes', v), ['\x7fE', 'xx'])

    def get(self, it, r, a):
        lo, hi = deref(a[0]).lo, deref(a[0]).hi
        p = self.prefix(r)
        if lo in (None, 0) and hi == 2 and not getattr(deref(a[0]), 'incl', False):
            return some(Str(p)) if len(p) >= 2 else none()
        return NotImplemented

    def starts_with(self, it, r, a):
        want = it.ctx.sstr(deref(a[0])).lit()
        if want is None or len(want) > 2:
            raise Unsupported('prefix of a file')
        return self.prefix(r).startswith(want)

    def format(self, v):
        v = self.it.freeze(v)
        if v.op == 'bytes' and self.kind(v.args[0]) in ('other', 'zip'):
            return 'Unknown'
        if v.op == 'bytes' and len(self.kinds) > 2:
            return 'Elf'
        from engine.ext import EXT_ENUMS
        fs = [f for f in EXT_ENUMS['FileFormat'] if f != 'Unknown' or v.op != 'bytes']
        return self.it.ctx.choose(('format of', v), fs if len(self.kinds) == 2 and self.n == 1 else ['Elf'] + (['Unknown'] if v.op != 'bytes' else []))

    def peek(self, it, a):
        return Enum('FileFormat', self.format(a[0]))

    # archives
    def zip(self, it, a):
        v = it.freeze(deref(a[0]))
        while isinstance(v, Term) and v.op != 'bytes':
            v = v.args[0]
        if not it.ctx.choose(('zip opens', v), [True, False]):
            return err(Term('bad zip', (v,), Ty('ZipError')))
        return ok(Term('zip', (v.args[0],), Ty('ZipArchive')))

    def count(self, i):
        return self.it.ctx.choose(('members', i), list(range(self.members + 1)))

    def member(self, it, r, a):
        i, j = it.freeze(r).args[0], deref(a[0])
        if not isinstance(j, int):
            raise Unsupported(f'zip member {show(j)}')
        if j >= self.count(i):
            return err(Term('no member', (i, j), Ty('ZipError')))
        if not it.ctx.choose(('member opens', i, j), [True, False]):
            return err(Term('bad member', (i, j), Ty('ZipError')))
        return ok(Term('member', (i, j), Ty('ZipFile')))

    def member_name(self, i, j):
        return S('f', Term('plain', (i, j), T_STR), '.ext')

    def read(self, it, a):
        v = it.freeze(deref(a[0]))
        if not it.ctx.choose(('member can be read', v), [True, False]):
            return err(Term('bad data', (v,), E_IO))
        return ok(Term('data', v.args, T_BV))

    # sorting
    def process(self, it, a):
        bv, name = it.freeze(deref(a[1])), it.ctx.norm(it.ctx.sstr(deref(a[2])))
        rs = self.results if bv.op != 'generated' else ('broken', 'nothing', 'sources')
        if bv.op == 'data':
            rs = ('broken', 'nothing', 'debug')
        o = it.ctx.choose(('sorting', bv), list(rs))
        self.calls.append((bv, name, o, it.freeze(a[0])))
        if o == 'broken':
            return err(Term('broken', (bv,), Ty('anyhow')))
        return ok(Vec([Tup([Str(i), Enum('ObjectKind', k)]) for i, k in RESULTS[o]]))

    def generate(self, it, a):
        i, uid = self.entry(a[0]), it.ctx.sstr(deref(a[1])).lit()
        o = it.ctx.choose(('source bundle', i, uid), ['bundle', 'no sources', 'failure'])
        self.generated.append((i, uid, o))
        if o == 'failure':
            return err(Term('cannot create', (i, uid), Ty('anyhow')))
        return ok(some(Term('generated', (i, uid), T_BV)) if o == 'bundle' else none())


def member_path(it, r, a):
    i, j = it.freeze(r).args
    return S('d/' if j == 0 else '', it.inputs.member_name(i, j))


def report(it, e, env):
    it.ctx.effect('print', e['name'])
    return UNIT


def via(name):
    return lambda it, *a: getattr(it.inputs, name)(it, *a)


def sort_files(c, tags, n, kinds, name, errors=True, **kw):
    def given(it):
        Inputs(it, n, kinds, **kw)
        b = it.ctx.choose(('bundle requested',), [True, False])
        sc = Struct('symsorter::config::SortConfig', {'bundle_id': some(S('b', Term('plain', ('bundle',), T_STR))) if b else none(), 'with_sources': it.ctx.choose(('with sources',), [True, False]),
                                                      'compression_level': Term('level', (), Ty('u8'))})
        return {'sort_config': sc, 'paths': Vec([Str('/in')])}

    def spec(it, a, out):
        return [m for m in compare(it, a, out) if m[0].split(':')[0] in tags]

    def compare(it, a, out):
        if out.panic:
            return [('errors: panic', f'sorting panics: {out.panic}')]
        x, sc, res = it.inputs, a[0], it.force(out.value)
        if res.variant not in ('Ok', 'Err'): raise Unsupported(f'result {out!r} {it.ctx.trace} {it.ctx.path} {it.fs.ops}')
        bad, must, fail, ignored = [], [], [], False
        ignore = it.ctx.truth(it.field(cfg(it), 'ignore_errors'))
        nfiles = it.ctx.choose(('number of files',), list(range(x.n + 1)))
        debug, sources = {}, set()
        done = {c_[0]: c_[2] for c_ in x.calls}
        may = []
        for i in range(nfiles):
            k = x.kind(i)
            if k == 'object':
                bv = Term('bytes', (i,), T_BV)
                must.append((bv, it.ctx.norm(x.name(i))))
                r = it.ctx.choose(('sorting', bv), list(x.results))
                if r == 'broken':
                    fail.append(bv)
                else:
                    for u, kd in RESULTS[r]:
                        if kd == 'Debug':
                            debug.setdefault(u, []).append(i)
                        elif kd == 'Sources':
                            sources.add(u)
            elif k == 'zip':
                bv = Term('bytes', (i,), T_BV)
                zok, stop = it.ctx.choose(('zip opens', bv), [True, False]), False
                if not zok:
                    stop = True
                for j in range(x.count(i) if zok else 0):
                    mem = Term('member', (i, j), Ty('ZipFile'))
                    d = Term('data', (i, j), T_BV)
                    call = (d, it.ctx.norm(x.member_name(i, j)))
                    if stop:
                        may.append(call)
                        continue
                    if not it.ctx.choose(('member opens', i, j), [True, False]) or not it.ctx.choose(('member can be read', mem), [True, False]):
                        stop = True
                        continue
                    if x.format(d) == 'Unknown':
                        continue
                    must.append(call)
                    if it.ctx.choose(('sorting', d), ['broken', 'nothing', 'debug']) == 'broken':
                        stop = True
                if stop and not ignore:
                    fail.append(bv)
                ignored = ignored or stop
        gen = [g for g in x.generated]
        with_sources = it.field(sc, 'with_sources')
        wantgen = {u: d for u, d in debug.items() if u not in sources} if with_sources else {}
        for i, u, o in gen:
            if u not in wantgen:
                bad.append(('bundles: unwanted', f'a source bundle is generated for {u}, although ' + ('that was not requested' if not with_sources else 'the sources are among the inputs' if u in sources else 'no debug file of a plain input has that identifier')))
            elif i not in wantgen[u]:
                bad.append(('bundles: file', f'the source bundle of {u} is generated from file {i}, which does not contain it'))
        if len({(u) for _, u, _ in gen}) != len(gen):
            bad.append(('bundles: twice', f'a source bundle is generated more than once: {gen}'))
        for i, u, o in gen:
            if o == 'failure':
                fail.append((i, u))
            elif o == 'bundle':
                g = Term('generated', (i, u), T_BV)
                must.append((g, it.ctx.norm(x.name(i))))
                if it.ctx.choose(('sorting', g), ['broken', 'nothing', 'sources']) == 'broken':
                    fail.append(g)
        failed_ops = [p for p in it.fs.ops if p.ok is False]
        calls = [(b, nm) for b, nm, _, _ in x.calls]
        for b, nm, o, conf in x.calls:
            if not it.eq(it.materialize(conf), sc):
                bad.append(('errors: options', f'{show(b)} is sorted with other options than requested: {show(conf)}'))
        if len(set(calls)) != len(calls):
            bad.append(('errors: twice', f'a file is sorted twice: {calls}'))
        extra = [q for q in calls if q not in must and q not in may]
        if extra:
            bad.append(('errors: extra', f'{extra[0]} is sorted, which is none of the objects {must}'))
        if fail or failed_ops:
            if res.variant != 'Err':
                bad.append(('errors: lost', f'{fail or failed_ops} fails, but the run succeeds'))
            return bad
        if res.variant != 'Ok':
            bad.append(('errors: run', f'the run fails with {show(res.fields[0])} although ' + ('errors are ignored' if ignored else 'nothing failed')))
            return bad
        missing = [q for q in must if q not in calls]
        if missing:
            bad.append(('errors: skipped', f'{missing[0]} is not sorted'))
        if ignored and not any(t[0] == 'print' or 'print' in str(t[0]) for t in it.ctx.trace):
            bad.append(('errors: silent', 'an error is ignored without being reported'))
        for u in wantgen:
            if not any(g[1] == u for g in gen):
                bad.append(('bundles: missing', f'no source bundle is generated for {u}'))
        ids = [u for _, _, o, _ in x.calls for u, _ in (RESULTS[o] or ())]
        created = sum(len(RESULTS[o] or ()) for b, _, o, _ in x.calls if b.op == 'generated')
        got = it.field(res.fields[0], '0'), it.field(res.fields[0], '1')
        if not it.eq(got[0], len(ids)):
            bad.append(('manifest: total', f'{show(got[0])} debug files are reported, but {len(ids)} were sorted'))
        if not it.eq(got[1], created):
            bad.append(('manifest: bundles', f'{show(got[1])} source bundles are reported, but {created} were created'))
        wr = [p for p in it.fs.ops if p.kind not in ('mkdir', 'flush')]
        h = homeless(it, it.fs.ops)
        if h:
            bad.append(('manifest: folder', f'the folder of {show(h.path)} is not created before the file'))
        lazy = unflushed(it)
        if lazy:
            bad.append(('errors: unflushed', f'{show(lazy[0].path)} is written through a buffer that is never flushed, which hides write errors'))
        b = fopt(it, sc, 'bundle_id')
        if b is None:
            if wr:
                bad.append(('manifest: unwanted', f'without a bundle, {wr} is written'))
            return bad
        dest = it.ctx.norm(S(it.freeze(it.ctx.sstr(it.field(cfg(it), 'output'))), '/bundles/', it.freeze(it.ctx.sstr(b))))
        data = [p for p in wr if p.data is not None]
        if len(data) != 1 or it.ctx.norm(data[0].path) != dest or not isinstance(data[0].data, Term) or data[0].data.op != 'json':
            bad.append(('manifest: file', f'the manifest {show(dest)} is written as {wr}'))
            return bad
        v = it.materialize(data[0].data.args[0])
        listed = [it.ctx.sstr(y).lit() for y in items(it, it.field(v, 'debug_ids'))]
        if sorted(listed, key=str) != sorted(ids) or not it.eq(it.field(v, 'name'), b):
            bad.append(('manifest: ids', f'the manifest of {show(b)} lists {listed} under the name {show(it.field(v, "name"))}; sorted were {ids}'))
        return bad
    c.product(name, A + 'sort_files', spec, given=given, setup=lambda it: Fs(it, errors), floor=50, k=2,
              models={**FS_MODELS, 'serde_json::to_vec': json_of, 'WalkDir::new': via('walk'), 'ByteView::open': via('open'), 'Archive::peek': via('peek'), 'FileFormat::peek': via('peek'),
                      'ZipArchive::new': via('zip'), 'ByteView::read': via('read'), 'eprintln!': report, 'eprint!': report},
              mmodels={'DirEntry.metadata': via('metadata'), 'Metadata.is_file': via('is_file'), 'DirEntry.file_type': lambda it, r, a: Term('metadata', (it.freeze(r).args[0],), Ty('Metadata')),
                       'DirEntry.path': lambda it, r, a: it.inputs.path(it.freeze(r).args[0]), 'DirEntry.into_path': lambda it, r, a: it.inputs.path(it.freeze(r).args[0]),
                       'DirEntry.file_name': lambda it, r, a: it.inputs.name(it.freeze(r).args[0]),
                       'ByteView.get': via('get'), 'ByteView.starts_with': via('starts_with'), 'ZipArchive.len': lambda it, r, a: it.inputs.count(it.freeze(r).args[0]),
                       'ZipArchive.is_empty': lambda it, r, a: it.inputs.count(it.freeze(r).args[0]) == 0,
                       'ZipArchive.by_index': via('member'), 'ZipFile.name': member_path},
              opaque={'process_file': via('process'), 'create_source_bundle': via('generate'), 'RunConfig::get': cfg})


def all_inputs(c, tags):
    sort_files(c, tags, 1, INPUTS, 'one file of any kind')
    sort_files(c, tags, 1, ('object', 'other'), 'one object of any format', results=('debug', 'broken'))
    sort_files(c, tags, 1, ('zip', 'other'), 'one zip member of any format', results=('debug', 'broken'), members=1)
    sort_files(c, tags, 2, ('object', 'zip') if c.tier == 'thorough' else ('object', 'unreadable'), 'two files', errors=False, members=1)


def y03(c):
    process_file(c, ('manifest',), k=1, levels=(0,))
    all_inputs(c, ('manifest',))
    totals(c)


def printing(it):
    it.printed = []


def println(it, e, env):
    from engine import fmt
    it.printed.append(it.ctx.norm(fmt.format_args(it, e, e['args'], env)) if e['args'] else Str(''))
    return UNIT


def totals(c):
    """What the whole run prints."""
    def spec(it, a, out):
        if out.panic or it.force(out.value).variant != 'Ok':
            return None
        n = len(it.sorted)
        for label, noun, shown in (('files', ' debug files', True), ('bundles', ' source bundles', it.ctx.truth(it.field(a[0], 'with_sources')))):
            total = 0
            for i in range(n):
                total = add(total, Term(label, (i,), T_USIZE))
            want = it.ctx.norm(S(display(it, total), noun))
            lines = [x for x in it.printed if noun in show(x)]
            if shown and (not lines or show(want).strip('"') not in show(lines[-1])):
                return label, f'after sorting {n} inputs the run prints {showl(lines)}, the total is {show(total)}'
            if not shown and lines:
                return label, f'without source bundles the run prints {showl(lines)}'
    for name, kw in (('totals of several bundles', dict(multiple_bundles=True, inputs=2)), ('totals', dict(multiple_bundles=False, inputs=1))):
        execute(c, name, spec, quiet=False, ignore_errors=False, bundle_id=none(), prefix=none(), compression_level=2, setup=printing, models={'println!': println}, **kw)


def exits(c):
    """Failures reach the exit status, whatever the options are; every input is sorted once."""
    def spec(it, a, out):
        if out.panic:
            return None if 'unwrap' in out.panic else ('panic', out.panic)
        res = it.force(out.value)
        if any(not good for *_, good in it.sorted):
            return None if res.variant == 'Err' else ('lost', 'sorting an input fails, but the run succeeds')
        paths = [p for _, ps, _, _ in it.sorted for p in ps]
        b = fopt(it, a[0], 'bundle_id')
        if res.variant == 'Err':
            return None if b is not None and not it.sorted else ('error', f'the run fails with {show(res.fields[0])} although nothing failed')
        want = [Str((Term(f'input{i}', (), T_STR),)) for i in range(2)]
        if not same_list(it, paths, want):
            return 'inputs', f'the inputs {showl(want)} are sorted as {showl(paths)}'
        for conf, _, rc, _ in it.sorted:
            for f in ('with_sources', 'compression_level'):
                if not it.eq(it.field(conf, f), it.field(a[0], f)):
                    return f, f'{f} is passed on as {show(it.field(conf, f))}'
            if not it.eq(it.field(rc, 'ignore_errors'), it.field(a[0], 'ignore_errors')):
                return 'ignore_errors', f'ignore_errors is configured as {show(it.field(rc, "ignore_errors"))}'
    execute(c, 'errors of the run', spec, inputs=2, prefix=none())

    class Exit(Exception):
        pass

    def leave(it, a):
        it.status.append(it.freeze(deref(a[0])))
        raise RustPanic('exit')

    def run(it, a):
        good = it.ctx.choose(('the run succeeds',), [True, False])
        it.good = good
        return ok(UNIT) if good else err(Term('run failed', (), Ty('anyhow')))

    def spec(it, a, out):
        st = it.status[0] if it.status else None
        if out.panic != 'exit' and not (out.panic or '').startswith('exit'):
            return 'main', f'the program ends with {out!r}'
        if (st == 0) != it.good:
            return 'status', f'the exit status is {st} when the run ' + ('succeeds' if it.good else 'fails')
    c.product('exit status', A + 'main', spec, setup=lambda it: it.__dict__.update(status=[]), opaque={'execute': run}, floor=2,
              models={'process::exit': leave, 'Cli::parse': lambda it, a: cli(), 'parse': lambda it, a: cli()}, mmodels={**STYLE, 'chain': lambda it, r, a: Iter(iter([])), 'skip': lambda it, r, a: Iter(iter([]))})


def char_class(it, r, a):
    """Replacing runs of characters outside of a class."""
    import re
    pat = r if isinstance(r, Term) else it.freeze(r)
    while isinstance(pat, Term):
        pat = pat.args[0]
    pat = pat if isinstance(pat, str) else pat.lit()
    if not re.fullmatch(r'\[\^[^\]]*\]\+', pat):
        raise Unsupported(f'the pattern {pat}')
    ok_ = ''.join(ch for ch in map(chr, list(range(0x250)) + [0x3b1, 0x663, 0x4e2d, 0x1f389]) if not re.search(pat, ch))
    return Str((Term('clean', (it.freeze(it.ctx.sstr(deref(a[0]))), ok_, it.freeze(deref(a[1]))), T_STR),))


ALLOWED = ''.join(sorted('.,-0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ'))


def clean(it, x):
    return it.ctx.sstr(it.method(it.std.temp_ref(Str((Term('clean', (it.freeze(it.ctx.sstr(x)), ALLOWED, Str('_')), T_STR),))), 'trim_matches', [Chr('_')]))


def y05(c):
    mm = {'Regex.replace_all': char_class}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if not it.eq(it.ctx.sstr(out.value), clean(it, a[0])):
            return 'value', f'the bundle id made of {show(a[0])} is {show(out.value)}, expected {show(clean(it, a[0]))}'
    c.product('cleaned ids', U + 'make_bundle_id', spec, mmodels=mm)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if it.ctx.truth(out.value) != it.eq(clean(it, a[0]), it.ctx.sstr(a[0])):
            return 'value', f'{show(a[0])} is a bundle id: {show(out.value)}'
    c.product('accepted ids', U + 'is_bundle_id', spec, mmodels=mm, floor=2)

    def spec(it, a, out):
        if out.panic:
            return None if 'unwrap' in out.panic else ('panic', out.panic)
        res, multi = it.force(out.value), it.ctx.truth(it.field(a[0], 'multiple_bundles'))
        b = fopt(it, a[0], 'bundle_id')
        if not multi and b is not None and not it.eq(clean(it, b), it.ctx.sstr(b)):
            return None if res.variant == 'Err' and not it.sorted else ('rejected', f'a bundle id that is not clean is not rejected before sorting')
        for conf, paths, _, _ in it.sorted:
            got = fopt(it, conf, 'bundle_id')
            if multi:
                fn = it.force(it.method(it.std.temp_ref(paths[0]), 'file_name', []))
                want = clean(it, fn.fields[0]) if fn.variant == 'Some' else None
            else:
                want = b
            if (want is None) != (got is None) or got is not None and not it.eq(it.ctx.sstr(got), it.ctx.sstr(want)):
                return 'used', f'files are sorted into the bundle {show(got)}, expected {show(want)}'
    execute(c, 'ids of a run', spec, inputs=2, prefix=none(), with_sources=False, ignore_errors=False, compression_level=2, mmodels=mm)


def sources_of_object(c):
    """create_source_bundle: the object with the requested id, and the filter of its sources."""
    T_OBJ, LIMIT = Ty('Object'), 10 * 1024 * 1024
    PATH, ID = Str('/in/app.bin'), Str((Term('uid', (), T_STR),))

    def start(it, a):
        cur = deref(a[0])
        if not it.ctx.choose(('bundle starts', len(it.written)), [True, False]):
            return err(Term('cannot start', (), Ty('SourceBundleError')))
        return ok(Native('bundle writer', target=cur.target))

    def write(it, r, a):
        w, o = deref(r), it.freeze(deref(a[0]))
        res = it.ctx.choose(('writing the bundle', o), ['sources', 'nothing', 'failure'])
        n = it.force(it.method(it.std.temp_ref(deref(a[1])), 'to_string', [])) if False else it.ctx.sstr(deref(a[1]))
        it.written.append((o, n, a[2], res))
        if res == 'failure':
            return err(Term('cannot write', (o,), Ty('SourceBundleError')))
        w.target.set(Str((Term('bundle of', (o,), T_STR),)))
        return ok(res == 'sources')

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        res = it.force(out.value)
        bv = it.force(Term('open', (), Ty('Result', T_BV)))
        want, steps = 'none', []
        if bv.variant == 'Err':
            want = 'error'
        else:
            ar = it.force(Term('parse', (it.freeze(bv.fields[0]),), Ty('Result', Ty('Archive'))))
            if ar.variant == 'Err':
                want = 'error'
            else:
                for r in objects_of(it, it.freeze(ar.fields[0])):
                    r = it.force(r)
                    if r.variant == 'Err':
                        want = 'error'
                        break
                    o = it.freeze(r.fields[0])
                    u = it.force(Term('uid', (o,), Ty('Result', T_STR, Ty('anyhow'))))
                    if u.variant == 'Err' or not it.eq(it.ctx.sstr(u.fields[0]), ID):
                        continue
                    if not it.ctx.choose(('bundle starts', len(steps)), [True, False]):
                        want = 'error'
                        break
                    how = it.ctx.choose(('writing the bundle', o), ['sources', 'nothing', 'failure'])
                    steps.append(o)
                    if how != 'nothing':
                        want = o if how == 'sources' else 'error'
                        break
        got = [o for o, *_ in it.written]
        if got != steps:
            return 'object', f'the sources of {got} are collected, those of {steps} were requested'
        if any(not it.eq(n, Str('app.bin')) for _, n, _, _ in it.written):
            return 'name', f'the object is named {show(it.written[0][1])}'
        if want == 'error':
            return None if res.variant == 'Err' else ('error', f'a failure is reported as {show(out.value)}')
        if res.variant != 'Ok':
            return 'failure', f'it fails with {show(out.value)}'
        v = it.force(res.fields[0])
        if want == 'none':
            return None if v.variant == 'None' else ('unwanted', f'an object without sources yields {show(v)}')
        w = Term('view', (Term('bundle of', (want,), T_STR),), T_BV)
        if v.variant != 'Some' or it.freeze(v.fields[0]) != w:
            return 'value', f'the bundle of {want} is {show(v)}'

    def cursor(it, a):
        return Native('cursor', target=a[0])
    models = {'ByteView::open': lambda it, a: Term('open', (), Ty('Result', T_BV)), 'Archive::parse': lambda it, a: Term('parse', (it.freeze(a[0]),), Ty('Result', Ty('Archive'))),
              'Cursor::new': cursor, 'SourceBundleWriter::start': start, 'ByteView::from_vec': lambda it, a: Term('view', (it.freeze(deref(a[0])),), T_BV)}
    setup = lambda it: it.__dict__.update(written=[])
    given = {'path': PATH, 'unified_id': ID}
    c.product('sources of an object', U + 'create_source_bundle', spec, given=given, setup=setup, floor=20, k=2, models=models, opaque={'get_unified_id': uid},
              mmodels={'bundle writer.write_object_with_filter': write, 'write_object_with_filter': write})

    # the filter, on any source file
    entry = Term('entry', (), Ty('FileEntry'))

    def write1(it, r, a):
        e = Term('embedded', (), Ty('Option', Ty('SourceFileDescriptor')))
        it.written.append((None, None, None, None))
        it.kept = it.ctx.truth(it.call_value(a[2], [entry, e]))
        return ok(True)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if not it.written:
            return None
        path = it.ctx.sstr(Term('.abs_path_str', (entry,), T_STR))
        pch = it.ctx.ends_with(path, '.pch')
        emb = it.force(Term('embedded', (), Ty('Option', Ty('SourceFileDescriptor')))).variant == 'Some'
        big = False
        if it.ctx.choose(('size known',), [True, False]):
            big = not it.ctx.le(Term('size', (), Ty('u64')), LIMIT)
        if it.kept != (not pch and not emb and not big):
            return 'filter', f'a source file is ' + ('kept' if it.kept else 'left out') + f' although ' + (f'it is ' + ' and '.join(n for n, x in (('a precompiled header', pch), ('embedded', emb), ('too large', big)) if x) if it.kept else 'nothing speaks against it')

    def meta(it, a):
        if not it.eq(it.ctx.sstr(deref(a[0])), it.ctx.sstr(Term('.abs_path_str', (entry,), T_STR))):
            raise Unsupported('size of another file')
        return ok(Term('filemeta', (), Ty('Metadata'))) if it.ctx.choose(('size known',), [True, False]) else err(Term('no size', (), E_IO))
    c.product('filter of sources', U + 'create_source_bundle', spec, given=given, setup=setup, floor=6, k=1, models={**models, 'SourceBundleWriter::start': lambda it, a: ok(Native('bundle writer', target=deref(a[0]).target)), 'fs::metadata': meta},
              opaque={'get_unified_id': lambda it, a: ok(ID), 'RunConfig::get': cfg}, mmodels={'write_object_with_filter': write1, 'FileEntry.abs_path_str': lambda it, r, a: it.ctx.sstr(Term('.abs_path_str', (entry,), T_STR)), 'Metadata.len': lambda it, r, a: Term('size', (), Ty('u64'))})


def y07(c):
    all_inputs(c, ('bundles',))
    sources_of_object(c)
