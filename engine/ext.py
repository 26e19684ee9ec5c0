"""Types of other crates: identifiers, urls, patterns, dates, files, streams."""
from .dom import *
from .std import *
from .std import m, fn
from . import std
from .fmt import display

E_IO = Ty('io::Error')


def res(t, e=None):
    return Ty('Result', t, e)


def ext_m(tys, *names):
    def deco(f):
        for t in tys.split('|'):
            for n in names:
                EXT_METHOD[(t, n)] = f
        return f
    return deco


def ext_disp(*tys):
    def deco(f):
        for t in tys:
            EXT_DISPLAY[t] = f
        return f
    return deco


def wrapsig(op, ty):
    return lambda c: c.it.lift(Term(op, (c.it.freeze(c.v),) + tuple(c.it.freeze(a) for a in c.args), ty))


# ------------------------------------------------------------------------ Uuid
@ext_disp('Uuid')
def _(it, v, spec):
    a = Term('uuid_hyph', (v,), T_STR)
    return Str((case_atom('upper', a) if spec.ty == 'X' else a,))


@ext_disp('UuidSimple')
def _(it, v, spec):
    a = Term('uuid_simple', (v.args[0],), T_STR)
    return Str((case_atom('upper', a) if spec.ty == 'X' else a,))


@ext_disp('UuidHyphenated')
def _(it, v, spec):
    a = Term('uuid_hyph', (v.args[0],), T_STR)
    return Str((case_atom('upper', a) if spec.ty == 'X' else a,))


EXT_METHOD[('Uuid', 'as_simple')] = EXT_METHOD[('Uuid', 'simple')] = lambda c: Term('simple', (c.v,), Ty('UuidSimple'))
EXT_METHOD[('Uuid', 'as_hyphenated')] = EXT_METHOD[('Uuid', 'hyphenated')] = lambda c: Term('hyphenated', (c.v,), Ty('UuidHyphenated'))


@ext_m('Uuid', 'as_bytes', 'into_bytes', 'to_bytes')
def _(c):
    b = Term('uuid_simple', (c.v,), T_STR)
    return Vec([Term('byteof', (b, i), Ty('u8')) for i in range(16)])


EXT_METHOD[('Uuid', 'is_nil')] = lambda c: Term('is_nil', (c.v,), T_BOOL)


@fn('Uuid::new_v4')
def _(it, args, targs, expect):
    it.ctx.effect('call', 'Uuid::new_v4')
    return it.ctx.fresh('Uuid::new_v4', (), Ty('Uuid'))


@fn('Uuid::parse_str', 'Uuid::from_str', 'Uuid::try_parse')
def _(it, args, targs, expect):
    return parse(it, args[0], Ty('Uuid'))


@fn('Uuid::from_slice')
def _(it, args, targs, expect):
    return it.force(Term('Uuid::from_slice', (it.freeze(args[0]),), res(Ty('Uuid'))))


@fn('Uuid::from_bytes')
def _(it, args, targs, expect):
    return Term('Uuid::from_bytes', (it.freeze(args[0]),), Ty('Uuid'))


@fn('Uuid::nil')
def _(it, args, targs, expect):
    return Term('Uuid::nil', (), Ty('Uuid'))


# --------------------------------------------------------------- CodeId, DebugId
@ext_m('CodeId', 'as_str', 'to_string', 'as_ref')
def _(c):
    v = c.v
    if v.op == 'CodeId::new':
        return it_code_str(c.it, v)
    return Str((Term('code_id_str', (v,), T_STR),))


def it_code_str(it, v):
    # CodeId::new keeps only hexadecimal digits, in lower case
    a = v.args[0]
    b = a
    while isinstance(b, Term) and b.op in ('lower', 'alower', 'upper', 'aupper'):
        b = b.args[0]
    cs = atom_charset(b) if isinstance(b, Term) else None
    if cs is not None and cs <= HEXM:
        return Str((case_atom('lower', b),))
    if isinstance(a, Str) and a.lit() is not None:
        return Str(''.join(x for x in a.lit().lower() if x in HEXL))
    return Str((Term('code_id_str', (v,), T_STR),))


@ext_disp('CodeId')
def _(it, v, spec):
    if v.op == 'CodeId::new':
        return it_code_str(it, v)
    return Str((Term('code_id_str', (v,), T_STR),))


@fn('CodeId::new', 'CodeId::from_str', 'CodeId::from')
def _(it, args, targs, expect):
    # letter case does not matter to a code id
    s = it.freeze(it.ctx.sstr(args[0]))
    if isinstance(s, Term) and s.op in ('lower', 'upper', 'alower', 'aupper'):
        s = s.args[0]
    return Term('CodeId::new', (s,), Ty('CodeId'))


@fn('CodeId::from_binary')
def _(it, args, targs, expect):
    return Term('CodeId::from_binary', (it.freeze(args[0]),), Ty('CodeId'))


EXT_METHOD[('CodeId', 'is_nil')] = wrapsig('is_nil', T_BOOL)


@ext_disp('DebugId')
def _(it, v, spec):
    return Str((Term('debug_id_str', (v,), T_STR),))


EXT_METHOD[('DebugId', 'uuid')] = lambda c: c.v.args[0] if c.v.op == 'debugid' else Term('uuid', (c.v,), Ty('Uuid'))
EXT_METHOD[('DebugId', 'appendix')] = lambda c: (c.v.args[1] if c.v.op == 'debugid' else Term('appendix', (c.v,), Ty('u32')))
EXT_METHOD[('DebugId', 'breakpad')] = lambda c: Term('breakpadid', (c.v,), Ty('BreakpadFormat'))
EXT_METHOD[('DebugId', 'is_nil')] = wrapsig('is_nil', T_BOOL)


@ext_disp('BreakpadFormat')
def _(it, v, spec):
    return Str((Term('breakpad', (v.args[0],), T_STR),))


@fn('DebugId::from_breakpad')
def _(it, args, targs, expect):
    return it.force(Term('DebugId::from_breakpad', (it.freeze(it.ctx.sstr(args[0])),), res(Ty('DebugId'))))


@fn('DebugId::from_uuid', 'DebugId::from')
def _(it, args, targs, expect):
    return Term('debugid', (it.freeze(args[0]), 0), Ty('DebugId'))


@fn('DebugId::from_parts')
def _(it, args, targs, expect):
    return Term('debugid', (it.freeze(args[0]), it.freeze(args[1])), Ty('DebugId'))


@fn('DebugId::nil', 'DebugId::default')
def _(it, args, targs, expect):
    return Term('DebugId::nil', (), Ty('DebugId'))


# ------------------------------------------------------------------------- Url
@ext_disp('Url')
def _(it, v, spec):
    return Str((Term('url_str', (v,), T_STR),))


@ext_m('Url', 'as_str', 'to_string', 'as_ref')
def _(c):
    return Str((Term('url_str', (c.v,), T_STR),))


@fn('Url::parse', 'Url::from_str')
def _(it, args, targs, expect):
    s = it.ctx.sstr(args[0])
    if len(s.parts) == 1 and isinstance(s.parts[0], Term) and s.parts[0].op == 'url_str':
        return ok(s.parts[0].args[0])
    return it.force(Term('Url::parse', (it.freeze(s),), res(Ty('Url'), Ty('url::ParseError'))))


EXT_METHOD[('Url', 'scheme')] = lambda c: Term('scheme', (c.v,), T_STR)
EXT_METHOD[('Url', 'path')] = lambda c: Term('urlpath', (c.v,), T_STR)
EXT_METHOD[('Url', 'host_str')] = lambda c: c.it.force(Term('host_str', (c.v,), Ty('Option', T_STR)))
EXT_METHOD[('Url', 'host')] = lambda c: c.it.force(Term('host', (c.v,), Ty('Option', Ty('Host'))))
EXT_METHOD[('Url', 'port')] = lambda c: c.it.force(Term('port', (c.v,), Ty('Option', Ty('u16'))))
EXT_METHOD[('Url', 'port_or_known_default')] = lambda c: c.it.force(Term('port_or_known_default', (c.v,), Ty('Option', Ty('u16'))))
EXT_METHOD[('Url', 'query')] = lambda c: c.it.force(Term('query', (c.v,), Ty('Option', T_STR)))
EXT_METHOD[('Url', 'fragment')] = lambda c: c.it.force(Term('fragment', (c.v,), Ty('Option', T_STR)))
EXT_METHOD[('Url', 'username')] = lambda c: Term('username', (c.v,), T_STR)
EXT_METHOD[('Url', 'password')] = lambda c: c.it.force(Term('password', (c.v,), Ty('Option', T_STR)))
EXT_METHOD[('Url', 'domain')] = lambda c: c.it.force(Term('domain', (c.v,), Ty('Option', T_STR)))


@ext_m('Url', 'join')
def _(c):
    return c.it.force(Term('urljoin', (c.v, c.it.freeze(c.it.ctx.sstr(c.a(0)))), res(Ty('Url'), Ty('url::ParseError'))))


@ext_m('Url', 'set_path', 'set_query', 'set_fragment', 'set_port', 'set_scheme', 'set_host', 'set_username', 'set_password')
def _(c):
    c.set(Term(c.name, (c.v, c.it.freeze(c.a(0))), Ty('Url')))
    return UNIT if c.name in ('set_path', 'set_query', 'set_fragment') else ok()


@ext_m('Url', 'query_pairs_mut')
def _(c):
    from .interp import inner
    r = inner(c.recv) if isinstance(c.recv, Ref) else temp_ref(c.v)
    return Native('querypairs', ref=r)


@m('querypairs', 'append_pair')
def _(c):
    u = c.v.ref.get()
    c.v.ref.set(Term('query+', (u, c.it.freeze(c.it.ctx.sstr(c.a(0))), c.it.freeze(display(c.it, c.a(1)))), Ty('Url')))
    return c.v


@m('querypairs', 'extend_pairs')
def _(c):
    for x in iterate(c.it, c.args[0]):
        x = c.it.force(x, Ty('tuple', None, None))
        u = c.v.ref.get()
        c.v.ref.set(Term('query+', (u, c.it.freeze(display(c.it, x.items[0])), c.it.freeze(display(c.it, x.items[1]))), Ty('Url')))
    return c.v


@m('querypairs', 'append_key_only')
def _(c):
    u = c.v.ref.get()
    c.v.ref.set(Term('query+', (u, c.it.freeze(c.it.ctx.sstr(c.a(0)))), Ty('Url')))
    return c.v


@m('querypairs', 'clear')
def _(c):
    c.v.ref.set(Term('query0', (c.v.ref.get(),), Ty('Url')))
    return c.v


@m('querypairs', 'finish')
def _(c):
    return c.v.ref.get()


def seg_state(u):
    """Url term -> (base, ops)"""
    if isinstance(u, Term) and u.op == 'segments':
        return u.args[0], list(u.args[1])
    return u, []


@ext_m('Url', 'path_segments_mut')
def _(c):
    from .interp import inner
    r = inner(c.recv) if isinstance(c.recv, Ref) else temp_ref(c.v)
    return c.it.force(Term('path_segments_mut', (c.v,), Ty('Result', Ty('PathSegs'), None))) if False else segs_result(c, r)


def segs_result(c, r):
    v = c.it.ctx.choose(('cannot_be_base', seg_state(r.get())[0]), [False, True])
    if v:
        return err(UNIT)
    return ok(Native('pathsegs', ref=r))


def seg_op(c, *ops):
    b, l = seg_state(c.v.ref.get())
    for o in ops:
        if o[0] == 'push' and isinstance(o[1], Str) and o[1].lit() in ('.', '..'):
            continue
        l.append(o)
    c.v.ref.set(Term('segments', (b, tuple(l)), Ty('Url')))
    return c.v


@m('pathsegs', 'push')
def _(c):
    return seg_op(c, ('push', c.it.ctx.sstr(c.a(0))))


@m('pathsegs', 'extend')
def _(c):
    out = []
    for x in iterate(c.it, c.args[0]):
        out.append(('push', c.it.ctx.sstr(x)))
    return seg_op(c, *out)


@m('pathsegs', 'pop_if_empty', 'pop', 'clear')
def _(c):
    return seg_op(c, (c.name,))


# -------------------------------------------------------------- glob and regex
@fn('Pattern::new')
def _(it, args, targs, expect):
    return it.force(Term('Pattern::new', (it.freeze(it.ctx.sstr(args[0])),), res(Ty('Pattern'))))


@ext_m('Pattern', 'as_str')
def _(c):
    return c.v.args[0] if c.v.op == 'Pattern::new' else Term('pattern_str', (c.v,), T_STR)


@ext_m('Pattern', 'matches_with')
def _(c):
    o = deref(c.args[1])
    s = c.it.ctx.sstr(c.a(0))
    fs = {}
    if isinstance(o, Struct):
        fs = o.fields
    opts = []
    for k in ('case_sensitive', 'require_literal_separator', 'require_literal_leading_dot'):
        x = fs.get(k) if fs else c.it.field(o, k)
        opts.append((k, c.it.ctx.truth(deref(x)) if isinstance(deref(x), (bool, Term)) else deref(x)))
    return Term('glob', (c.v, c.it.freeze(s), tuple(opts)), T_BOOL)


@ext_m('Pattern', 'matches')
def _(c):
    return Term('glob', (c.v, c.it.freeze(c.it.ctx.sstr(c.a(0))), (('case_sensitive', True), ('require_literal_separator', False), ('require_literal_leading_dot', False))), T_BOOL)


@fn('Regex::new', 'RegexBuilder::build')
def _(it, args, targs, expect):
    s = it.ctx.sstr(args[0])
    if s.lit() is not None:
        return ok(Term('Regex', (s.lit(),), Ty('Regex')))
    return it.force(Term('Regex::new', (it.freeze(s),), res(Ty('Regex'))))


@ext_m('Regex', 'is_match')
def _(c):
    return Term('is_match', (c.v, c.it.freeze(c.it.ctx.sstr(c.a(0)))), T_BOOL)


@ext_m('Regex', 'replace_all', 'replace')
def _(c):
    return Str((Term(c.name, (c.v, c.it.freeze(c.it.ctx.sstr(c.a(0))), c.it.freeze(c.a(1)) if not isinstance(c.a(1), Closure) else 'closure'), T_STR),))


@ext_m('Regex', 'captures')
def _(c):
    return c.it.force(Term('captures', (c.v, c.it.freeze(c.it.ctx.sstr(c.a(0)))), Ty('Option', Ty('Captures'))))


@ext_m('Regex', 'find')
def _(c):
    return c.it.force(Term('refind', (c.v, c.it.freeze(c.it.ctx.sstr(c.a(0)))), Ty('Option', Ty('Match'))))


EXT_METHOD[('Captures', 'get')] = lambda c: c.it.force(Term('capture', (c.v, c.it.freeze(c.a(0))), Ty('Option', Ty('Match'))))
EXT_METHOD[('Captures', 'name')] = lambda c: c.it.force(Term('capture', (c.v, c.it.freeze(c.it.ctx.sstr(c.a(0)))), Ty('Option', Ty('Match'))))
EXT_METHOD[('Match', 'as_str')] = lambda c: Term('matched', (c.v,), T_STR)

# ------------------------------------------------------------------------- io
std.EXT_CONST['SystemTime::UNIX_EPOCH'] = 0
std.EXT_CONST['time::UNIX_EPOCH'] = 0
EXT_SIG.update({
    'File::open': res(Ty('File'), E_IO), 'File::create': res(Ty('File'), E_IO), 'File::create_new': res(Ty('File'), E_IO),
    'File::metadata': res(Ty('Metadata'), E_IO), 'File.metadata': res(Ty('Metadata'), E_IO), 'DirEntry.metadata': res(Ty('Metadata'), E_IO),
    'DirEntry.path': Ty('Path'), 'DirEntry.file_name': T_STR, 'DirEntry.file_type': res(Ty('FileKind'), E_IO),
    'FileKind.is_dir': T_BOOL, 'FileKind.is_file': T_BOOL, 'FileKind.is_symlink': T_BOOL,
    'File.try_clone': res(Ty('File'), E_IO), 'File.sync_all': res(Ty('unit'), E_IO), 'File.sync_data': res(Ty('unit'), E_IO),
    'File.set_len': res(Ty('unit'), E_IO), 'File.seek': res(Ty('u64'), E_IO), 'File.rewind': res(Ty('unit'), E_IO), 'File.flush': res(Ty('unit'), E_IO),
    'File.set_times': res(Ty('unit'), E_IO), 'File.set_modified': res(Ty('unit'), E_IO),
    'Metadata.len': Ty('u64'), 'Metadata.is_file': T_BOOL, 'Metadata.is_dir': T_BOOL, 'Metadata.is_symlink': T_BOOL,
    'Metadata.modified': res(Ty('SystemTime'), E_IO), 'Metadata.accessed': res(Ty('SystemTime'), E_IO), 'Metadata.created': res(Ty('SystemTime'), E_IO),
    'io::Error.kind': Ty('ErrorKind'), '.elapsed': None, 'fs::create_dir_all': res(Ty('unit'), E_IO), 'fs::create_dir': res(Ty('unit'), E_IO),
    'fs::remove_file': res(Ty('unit'), E_IO), 'fs::remove_dir': res(Ty('unit'), E_IO), 'fs::remove_dir_all': res(Ty('unit'), E_IO),
    'fs::rename': res(Ty('unit'), E_IO), 'fs::write': res(Ty('unit'), E_IO), 'fs::read': res(Ty('Bytes'), E_IO), 'fs::read_to_string': res(T_STR, E_IO),
    'fs::copy': res(Ty('u64'), E_IO), 'fs::metadata': res(Ty('Metadata'), E_IO), 'fs::read_dir': res(Ty('ReadDir'), E_IO), 'fs::exists': res(T_BOOL, E_IO),
    'fs::hard_link': res(Ty('unit'), E_IO), 'fs::symlink_metadata': res(Ty('Metadata'), E_IO), 'fs::try_exists': res(T_BOOL, E_IO),
    'NamedTempFile::new': res(Ty('NamedTempFile'), E_IO), 'NamedTempFile::new_in': res(Ty('NamedTempFile'), E_IO), 'NamedTempFile.path': Ty('Path'),
    'tempfile::tempfile': res(Ty('File'), E_IO), 'tempfile::tempdir': res(Ty('TempDir'), E_IO), 'TempDir.path': Ty('Path'),
    'NamedTempFile.as_file': Ty('File'), 'NamedTempFile.as_file_mut': Ty('File'), 'NamedTempFile.persist': res(Ty('File'), Ty('PersistError')),
    'NamedTempFile.reopen': res(Ty('File'), E_IO), 'NamedTempFile.into_temp_path': Ty('Path'), 'NamedTempFile.into_file': Ty('File'),
    'ByteView::open': res(Ty('ByteView'), E_IO), 'ByteView::map_file': res(Ty('ByteView'), E_IO), 'ByteView::map_file_ref': res(Ty('ByteView'), E_IO),
    'ByteView::read': res(Ty('ByteView'), E_IO), 'ByteView::from_slice': Ty('ByteView'), 'ByteView::from_vec': Ty('ByteView'), 'ByteView.as_slice': Ty('Bytes'),
    'io::copy': res(Ty('u64'), E_IO), 'Archive::parse': res(Ty('Archive')), 'Archive::peek': Ty('FileFormat'), 'Archive.objects': Ty('Iter', res(Ty('Object'))),
    'Archive.object_count': T_USIZE, 'Archive.is_multi': T_BOOL, 'Archive.file_format': Ty('FileFormat'), 'Object::parse': res(Ty('Object')),
    'Object.debug_id': Ty('DebugId'), 'Object.code_id': Ty('Option', Ty('CodeId')), 'Object.kind': Ty('ObjectKind'), 'Object.arch': Ty('Arch'),
    'Object.file_format': Ty('FileFormat'), 'Object.data': Ty('Bytes'), 'Object.has_debug_info': T_BOOL, 'Object.has_unwind_info': T_BOOL,
    'Object.has_symbols': T_BOOL, 'Object.has_sources': T_BOOL, 'Object.is_malformed': T_BOOL, 'Object.debug_session': res(Ty('DebugSession')),
    'Sha256::digest': Ty('Digest'), 'Sha1::digest': Ty('Digest'), 'serde_json::to_string': res(T_STR), 'serde_json::to_vec': res(Ty('Bytes')), 'serde_json::to_writer': res(Ty('unit')),
    'serde_json::to_writer_pretty': res(Ty('unit')),
    '.sync_all': res(Ty('unit'), E_IO), '.read_to_end': res(T_USIZE, E_IO), '.read_to_string': res(T_USIZE, E_IO), '.write_all': res(Ty('unit'), E_IO),
    '.write': res(T_USIZE, E_IO), '.shutdown': res(Ty('unit'), E_IO), '.flush': res(Ty('unit'), E_IO), '.read_exact': res(Ty('unit'), E_IO),
})
EXT_ENUMS['FileFormat'] = ['Unknown', 'Breakpad', 'Elf', 'MachO', 'Pdb', 'Pe', 'SourceBundle', 'Wasm', 'PortablePdb']
EXT_ENUMS['ObjectKind'] = ['None', 'Relocatable', 'Executable', 'Library', 'Dump', 'Debug', 'Sources', 'Other']


def display_enum(names):
    def f(it, v, spec):
        v = it.force(v)
        if isinstance(v, Enum):
            return Str(names.get(v.variant, v.variant.lower()))
        return Str((Term('display', (v,), T_STR),))
    return f


EXT_DISPLAY['FileFormat'] = display_enum({'MachO': 'macho', 'SourceBundle': 'sourcebundle', 'PortablePdb': 'portablepdb'})
EXT_DISPLAY['ObjectKind'] = display_enum({'Relocatable': 'rel', 'Executable': 'exe', 'Library': 'lib', 'Debug': 'dbg', 'Sources': 'src'})
EXT_DISPLAY['Arch'] = lambda it, v, spec: Str((Term('arch_name', (v,), T_STR),))
EXT_METHOD[('Arch', 'name')] = lambda c: Term('arch_name', (c.v,), T_STR)

for _k in ('NotFound', 'AlreadyExists', 'PermissionDenied', 'UnexpectedEof', 'InvalidData', 'InvalidInput', 'TimedOut', 'Other', 'Interrupted', 'DirectoryNotEmpty',
           'WriteZero', 'WouldBlock', 'NotADirectory', 'IsADirectory', 'StorageFull', 'ConnectionRefused', 'ConnectionReset', 'BrokenPipe'):
    EXT_ENUMS.setdefault('ErrorKind', []).append(_k)


@fn('io::Error::new', 'Error::new')
def _(it, args, targs, expect):
    return Term('io::Error::new', tuple(it.freeze(a) for a in args), E_IO)


@fn('Error::other')
def _(it, args, targs, expect):
    return Term('io::Error::other', tuple(it.freeze(a) for a in args), E_IO)


@ext_m('io::Error', 'kind')
def _(c):
    if c.v.op == 'io::Error::new':
        k = c.v.args[0]
        if isinstance(k, Term) and k.op.startswith('ErrorKind::'):
            return Enum('ErrorKind', k.op.split('::')[1])
        return k
    if c.v.op == 'io::Error::other':
        return Enum('ErrorKind', 'Other')
    if c.v.op == 'into' and isinstance(c.v.args[0], Term) and c.v.args[0].op.startswith('ErrorKind::'):
        return Enum('ErrorKind', c.v.args[0].op.split('::')[1])
    return c.it.force(Term('kind', (c.v,), Ty('ErrorKind')))


# ------------------------------------------------------------------ containers
@fn('str::from_utf8', 'String::from_utf8')
def _(it, args, targs, expect):
    v = deref(args[0])
    if isinstance(v, Vec):
        v = Term('bytes', tuple(it.freeze(x) for x in v.items), T_STR)
    if isinstance(v, Str) and (v.lit() is not None or all(isinstance(p, str) or (p.ty is None or p.ty[0] == 'str') for p in v.parts)):
        return ok(v)
    key = it.freeze(v)
    if it.ctx.choose(('utf8', key), [True, False]):
        return ok(it.ctx.sstr(v))
    return err(Term('Utf8Error', (key,)))


@fn('String::from_utf8_lossy')
def _(it, args, targs, expect):
    return it.ctx.sstr(args[0])


@fn('Path::new', 'PathBuf::from', 'OsStr::new', 'OsString::from')
def _(it, args, targs, expect):
    v = pathstr(it, deref(args[0]))
    if isinstance(v, (Str, Term)):
        return it.ctx.sstr(v)
    return v


@fn('char::from')
def _(it, args, targs, expect):
    v = deref(args[0])
    return Chr(chr(v)) if isinstance(v, int) else v if isinstance(v, Chr) else Term('char', (v,), T_CHAR)


@fn('sync_data')
def _(it, args, targs, expect):
    raise Unsupported('sync_data')


@fn('common::split_path')
def _(it, args, targs, expect):
    p = it.freeze(it.ctx.sstr(args[0]))
    if isinstance(p, Str) and p.lit() is not None:
        t = p.lit().rstrip('/\\') or p.lit()
        i = max(t.rfind('/'), t.rfind('\\'))
        return Tup([some(Str(t[:max(i, 1)])) if i >= 0 else none(), Str(t[i + 1:])])
    d = Term('dirname', (p,), Ty('Option', T_STR))
    return Tup([d, Str((Term('basename', (p,), T_STR),))])


@fn('common::join_path')
def _(it, args, targs, expect):
    a, b = it.freeze(it.ctx.sstr(args[0])), it.freeze(it.ctx.sstr(args[1]))
    return Str((Term('join_path', (a, b), T_STR),))


@fn('common::clean_path', 'common::shorten_path', 'common::strip_extension')
def _(it, args, targs, expect):
    return Str((Term('clean_path', (it.freeze(it.ctx.sstr(args[0])),), T_STR),))


# ------------------------------------------------------------- fallible writer
class Sink(Native):
    """A destination of writes; every write may fail, decided once per write."""

    def __init__(self, it, name='destination', buffered=None):
        Native.__init__(self, 'sink')
        self.it = it
        self.name = name
        self.parts = []
        self.failed = False
        self.count = 0
        self.flushed = True
        self.buffered = False

    def step(self, what):
        self.count += 1
        r = self.it.force(Term(what, (self.name, self.count), Ty('Result', Ty('unit'), E_IO)))
        if r.variant == 'Err':
            self.failed = True
        return r

    def write_str(self, s):
        r = self.step('written')
        if r.variant == 'Ok':
            self.parts.append(s)
            self.flushed = False
        return r

    def text(self):
        return S(*self.parts)


@m('sink', 'write_all', 'write_str')
def _(c):
    return c.v.write_str(c.it.ctx.sstr(c.a(0)))


@m('sink', 'flush', 'sync_all', 'sync_data', 'shutdown')
def _(c):
    r = c.v.step('flushed')
    if r.variant == 'Ok':
        c.v.flushed = True
    return r


@m('sink', 'by_ref', 'get_mut', 'as_file_mut', 'as_file')
def _(c):
    return c.v


@fn('BufWriter::new', 'LineWriter::new', 'BufWriter::with_capacity')
def _(it, args, targs, expect):
    v = deref(args[-1])
    if isinstance(v, Sink):
        v.buffered = True
    return args[-1]
