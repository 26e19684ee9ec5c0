"""S03 - S07, S09 - S15: filters, patterns, indexes, remote files, configuration."""
from .util import *
from .paths import safe_name

SRC = 'symbolicator_sources::'
FT = Ty(SRC + 'filetype::FileType')
T_GLOB = Ty(SRC + 'types::Glob')


def rest_of(it, f, a, n=60):
    """Everything an iterator built by f yields, by its own `next`."""
    nx = it.w.fn(SRC + 'remotefile::SourceLocationIter::next')
    box = it.std.temp_ref(it.call_def(f, a))
    out = []
    while True:
        r = it.force(it.call_def(nx, [box]))
        if r.variant == 'None':
            return Vec(out)
        out.append(r.fields[0])
        if len(out) > n:
            raise Unsupported('location iterator does not end')


# ----------------------------------------------------------------------- S03
def s03(c):
    def given(it):
        return {'filetypes': Vec([Term('filetype1', (), FT), Term('filetype2', (), FT)])}

    def paths_of(ft):
        return Term('paths', (ft,), Ty('Vec', T_STR))

    def allowed(oid, ft):
        return Term('allowed', (oid, ft), T_BOOL)

    def spec(it, a, out):
        config, fts, index, oid = a
        if out.panic:
            return 'panic', f'enumerating locations panics: {out.panic}'
        got = [strval(it, it.field(x, '0')) for x in items(it, out.value)]
        want = []
        ix = it.force(index)
        for ft in fts.items:
            if not it.ctx.truth(allowed(oid, ft)):
                continue
            ps = [strval(it, p) for p in items(it, paths_of(ft))]
            if ix.variant == 'Some':
                ps = [p for p in ps if it.ctx.truth(Term('indexed', (it.freeze(p),), T_BOOL))]
            want += reversed(ps)
        if not same_list(it, got, want):
            return f'locations are tried as {showl(got)}, expected {showl(want)}'
    c.product('locations admitted by filters and index', SRC + 'remotefile::SourceLocationIter::new', spec, given=given, run=rest_of, floor=60, opaque={
        'SourceFilters::is_allowed': lambda it, a: allowed(it.freeze(a[1]), it.freeze(a[2])),
        'get_directory_paths': lambda it, a: paths_of(it.freeze(a[1])),
        'SourceIndex::contains': lambda it, a: Term('indexed', (it.freeze(it.ctx.sstr(a[1])),), T_BOOL),
    })

    def spec2(it, a, out):
        filters, oid, ft = a
        if out.panic:
            return 'panic', out.panic
        got = it.ctx.truth(out.value)
        types = items(it, it.field(filters, 'filetypes'))
        want = not types or any(it.eq(t, ft) for t in types)
        if want and items(it, it.field(filters, 'path_patterns')):
            want = it.ctx.truth(Term('matches', (it.freeze(oid),), T_BOOL))
        if want and it.ctx.truth(it.field(filters, 'requires_checksum')):
            want = fopt(it, oid, 'debug_checksum') is not None
        if got != want:
            return f'the filters {"admit" if got else "refuse"} an object they must {"admit" if want else "refuse"}'

    def matches(it, a):
        if not items(it, a[1]):
            return True
        return Term('matches', (it.freeze(a[0]),), T_BOOL)
    c.product('filters', SRC + 'sources::SourceFilters::is_allowed', spec2, floor=8, opaque={'matches_path_patterns': matches})


# ----------------------------------------------------------------------- S04
def glob_opts(it, o):
    return tuple(it.ctx.truth(it.field(o, n)) for n in ('case_sensitive', 'require_literal_separator', 'require_literal_leading_dot'))


def s04(c):
    def spec(it, a, out):
        oid, patterns = a
        if out.panic:
            return 'panic', out.panic
        got = it.ctx.truth(out.value)
        ps = items(it, patterns)
        want = not ps
        opts = Struct('glob::MatchOptions', {'case_sensitive': False, 'require_literal_separator': False, 'require_literal_leading_dot': False})
        for p in ps:
            for n in ('code_file', 'debug_file'):
                f = fopt(it, oid, n)
                if f is not None and not want:
                    s = it.method(it.std.temp_ref(strval(it, f)), 'replace', [Chr('\\'), Str('/')])
                    want = it.ctx.truth(it.method(it.std.temp_ref(it.field(p, '0')), 'matches_with', [s, opts]))
        if got != want:
            return f'an object that {"matches" if want else "matches none"} of the patterns is {"refused" if want else "admitted"}'
    c.product('path patterns', SRC + 'paths::matches_path_patterns', spec, floor=10)


# ----------------------------------------------------------------------- S05
def s05(c):
    from engine.strm import find_pat

    def ci_prefix(it, s, p):
        """What follows the prefix p, ignoring its case, or None."""
        low = it.ctx.sstr(lower(s))
        if it.ctx.starts_with(low, p) is None:
            return None
        return it.ctx.split_at(s, len(p))[1]

    def ci_suffix(it, s, p):
        return it.ctx.ends_with(it.ctx.sstr(lower(s)), p) is not None

    def expect(it, path):
        """None or (file type, object type, code id text, code file, debug id, debug file)"""
        parts = []
        s = it.ctx.sstr(path)
        for _ in range(2):
            r = it.ctx.find(s, '/')
            if r is None:
                return None
            parts.append(r[0])
            s = r[1]
        first, ident, last = parts[0], parts[1], s
        if not it.eq(lower(first), lower(last)):
            return None
        if ci_suffix(it, first, '.debug'):
            r = ci_prefix(it, ident, 'elf-buildid-sym-')
            if r is not None:
                return 'ElfDebug', 'Elf', r, first, None, None
        r = ci_prefix(it, ident, 'elf-buildid-')
        if r is not None:
            return 'ElfCode', 'Elf', r, first, None, None
        if ci_suffix(it, first, '.dwarf'):
            r = ci_prefix(it, ident, 'mach-uuid-sym-')
            if r is not None:
                return 'MachDebug', 'Macho', r, first, None, None
        r = ci_prefix(it, ident, 'mach-uuid-')
        if r is not None:
            return 'MachCode', 'Macho', r, first, None, None
        if ci_suffix(it, first, '.pdb'):
            from engine.std import parse
            d = it.force(it.ext_call(('DebugId', 'from_breakpad'), [ident]))
            if d.variant == 'Err':
                return None
            return 'Pdb', 'Pe', None, None, d.fields[0], first
        return 'Pe', 'Pe', ident, first, None, None

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'a request path panics: {out.panic}'
        want = expect(it, a[0])
        o = it.force(out.value)
        if (o.variant == 'Some') != (want is not None):
            return f'the path {show(it.ctx.sstr(a[0]))} resolves to {show(o)}, expected {want}'
        if want is None:
            return
        fts, oid = items(it, it.field(o.fields[0], '0')), it.field(o.fields[0], '1')
        ft, ot, cid, cf, did, df = want
        if [variant(it, x) for x in fts] != [ft]:
            return 'file type', f'the path {show(it.ctx.sstr(a[0]))} resolves to the file types {showl(fts)}, expected {ft}'
        if variant(it, it.field(oid, 'object_type')) != ot:
            return 'object type', f'a {ft} path resolves to object type {show(it.field(oid, "object_type"))}'
        got = fopt(it, oid, 'code_id')
        if (got is None) != (cid is None) or (cid is not None and not it.eq(got, it.ext_call(('CodeId', 'new'), [cid]))):
            return 'code id', f'a {ft} path resolves to code id {show(got)}, expected {show(cid)}'
        got = fopt(it, oid, 'debug_id')
        if (got is None) != (did is None) or (did is not None and not it.eq(got, did)):
            return 'debug id', f'a {ft} path resolves to debug id {show(got)}, expected {show(did)}'
        for n, w in (('code_file', cf), ('debug_file', df)):
            got = fopt(it, oid, n)
            if (got is None) != (w is None) or (w is not None and not it.eq(strval(it, got), w)):
                return n, f'a {ft} path resolves to {n} {show(got)}, expected {show(w)}'
        if fopt(it, oid, 'debug_checksum') is not None:
            return 'debug_checksum', 'a request path resolves to an object with a checksum'
    c.product('symbol proxy paths', SRC + 'paths::parse_symstore_path', spec, floor=10)


# ----------------------------------------------------------------------- S06
def index_files(it, v):
    return items(it, it.field(v, 'files'))


def no_dups(it, xs):
    out = []
    for x in xs:
        if not any(it.eq(x, y) for y in out):
            out.append(x)
    return out


def quoted_entry(it, line):
    """(known?, path): the path an index line stands for."""
    r = it.ctx.find(it.ctx.sstr(line), '"')
    if r is None:
        return True, None
    r2 = it.ctx.find(r[1], '"')
    if r2 is None:
        return False, None           # no closing quote: not a documented form
    e = it.ctx.find(r2[0], '\\')
    if e is None:
        return True, None
    return True, S(e[0], '/', e[1], '/', e[0])


def s06(c):
    IX = SRC + 'index::SymstoreIndex'
    line_ty = Ty('Result', T_STR, Ty('io::Error'))

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        known, want = quoted_entry(it, a[0])
        if not known:
            return
        o = it.force(out.value)
        if (o.variant == 'Some') != (want is not None) or (want is not None and not it.eq(strval(it, o.fields[0]), want)):
            return f'the line {show(it.ctx.sstr(a[0]))} is read as {show(o)}, expected {show(want)}'
    c.product('index lines', IX + '::parse_line', spec, floor=4)

    def lines(n):
        return [Term(f'line{i}', (), line_ty) for i in range(n)]

    for n in ((0, 1, 2) if c.tier == 'quick' else (0, 1, 2, 3)):
        ls = lines(n)

        def mm(it, recv, args, ls=ls):
            return Iter(list(ls))

        def spec(it, a, out, ls=ls):
            if out.panic:
                return 'panic', out.panic
            o = it.force(out.value)
            want = []
            for x in ls:
                r = it.force(x)
                if r.variant == 'Err':
                    if o.variant != 'Err':
                        return 'read errors', 'an error while reading an index file is not reported'
                    return
                p = it.force(Term('parsed', (it.freeze(it.ctx.sstr(r.fields[0])),), Ty('Option', T_STR)))
                if p.variant == 'Some':
                    want.append(strval(it, p.fields[0]))
            if o.variant != 'Ok':
                return 'errors', f'reading an index without read errors fails with {show(o)}'
            got = [strval(it, x) for x in index_files(it, o.fields[0])]
            want = no_dups(it, want)
            if not same_set(it, got, want):
                return f'the index contains {showl(got)}, its lines are {showl(want)}'
        c.product('index files', IX + '::parse_from_reader', spec, given=lambda it: {'reader': Native('reader')}, mmodels={'lines': mm}, opaque={
            'SymstoreIndex::parse_line': lambda it, a: Term('parsed', (it.freeze(it.ctx.sstr(a[0])),), Ty('Option', T_STR))})

        def spec2(it, a, out, ls=ls):
            if out.panic:
                return 'panic', out.panic
            o = it.force(out.value)
            want = []
            for x in ls:
                r = it.force(x)
                if r.variant == 'Err':
                    return ('read errors', 'an error while loading an index is not reported') if o.variant != 'Err' else None
                want.append(strval(it, r.fields[0]))
            if o.variant != 'Ok':
                return 'errors', f'loading an index without read errors fails with {show(o)}'
            got = [strval(it, x) for x in index_files(it, o.fields[0])]
            if not same_set(it, got, no_dups(it, want)):
                return f'the loaded index contains {showl(got)}, it was saved with {showl(want)}'
        c.product('loading an index', IX + '::load', spec2, given=lambda it: {'data': Native('reader')}, mmodels={'lines': mm})

    def file_terms(it, n='files'):
        return Term(n, (), Ty('Vec', T_STR))

    def ix(it, n='files'):
        fs = [strval(it, x) for x in items(it, file_terms(it, n))]
        for i, x in enumerate(fs):
            for y in fs[:i]:
                if it.eq(x, y):
                    raise Infeasible()
        return Struct(IX, {'files': Vec(fs, kind='Set')})

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        dest = deref(a[1])
        o = it.force(out.value)
        files = index_files(it, a[0])
        if o.variant == 'Err':
            return None if dest.failed else ('errors', 'saving an index fails without a write error')
        if dest.failed:
            return 'errors', 'a write error while saving an index is not reported'
        if dest.buffered and dest.parts and not dest.flushed:
            return 'errors', 'saving an index leaves a write buffer unflushed, which hides write errors'
        want = [S(strval(it, f), '\n') for f in files]
        got = dest.text()
        import itertools
        if not any(it.eq(got, S(*p)) for p in itertools.permutations(want)):
            return f'an index with {showl(files)} is saved as {show(got)}'
    c.product('saving an index', IX + '::write', spec, given=lambda it: {'self': ix(it), 'destination': writer(it)})

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        want = no_dups(it, a[0].old + more)
        got = index_files(it, a[0])
        if not same_set(it, got, want):
            return f'appending gives {showl(got)}, expected {showl(want)}'

    def given(it):
        x = Cell(ix(it, 'files'))
        r = Ref(lambda: x.v, lambda v: setattr(x, 'v', v))
        other = ix(it, 'more')
        more[:] = index_files(it, other)
        return {'self': OldRef(it, r), 'other': other}
    more = []
    c.product('appending an index', IX + '::append', spec, given=given)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        want = any(it.eq(it.ctx.sstr(a[1]), strval(it, x)) for x in index_files(it, it.force(a[0]).fields[0]))
        if it.ctx.truth(out.value) != want:
            return f'the index says {show(out.value)} for a path it {"contains" if want else "does not contain"}'
    c.product('asking an index', SRC + 'index::SourceIndex::contains', spec, given=lambda it: {'self': Enum(SRC + 'index::SourceIndex', 'Symstore', [ix(it)])})

    # the service that fetches indexes
    DL = 'symbolicator_service::download::index::'

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        o = it.force(out.value)
        d = it.ctx.known(('variant', Term('download', (), Ty('Result', Ty('unit'), None))))
        dl = it.force(Term('download', (), Ty('Result', Ty('unit'), Ty('symbolicator_service::caching::cache_error::CacheError'))))
        if dl.variant == 'Err':
            return ('download errors', f'an index segment that could not be downloaded is treated as {show(o)}') if o.variant != 'Err' else None
        p = it.force(Term('parsed', (), Ty('Result', Ty(IX), Ty('io::Error'))))
        if p.variant == 'Err':
            return ('read errors', f'an index segment that could not be read is treated as {show(o)}') if o.variant != 'Err' else None
        w = [x for x in it.ctx.trace if x[0] == 'saved']
        if o.variant == 'Ok' and len(w) != 1:
            return 'saved', 'a downloaded index segment is not saved'

    def dl(it, recv, args):
        return Term('download', (), Ty('Result', Ty('unit'), Ty('symbolicator_service::caching::cache_error::CacheError')))

    def save(it, a):
        it.ctx.effect('saved', it.freeze(a[0]))
        return Term('save', (), Ty('Result', Ty('unit'), Ty('io::Error')))
    c.product('index segments', DL + 'download_index_segment', spec, opaque={
        'DownloadService::download': lambda it, a: dl(it, None, a),
        'SymstoreIndex::parse_from_reader': lambda it, a: Term('parsed', (), Ty('Result', Ty(IX), Ty('io::Error'))),
        'SymstoreIndex::write': save})


    # the complete index is the union of its segments
    def seg(i):
        return Term(f'segment{i}', (), Ty('Result', Ty(IX), Ty('symbolicator_service::caching::cache_error::CacheError')))

    def memo(it, a):
        req, key = it.force(a[1]), a[2]
        i = deref(it.field(req, 'segment_id'))
        it.ctx.effect('segment', i, it.freeze(it.field(req, 'source')), it.freeze(key))
        return Native('entry', i=i)

    for last in (0, 1, 2):
        def spec(it, a, out, last=last):
            if out.panic:
                return 'panic', out.panic
            o = it.force(out.value)
            union = []
            for i in range(1, last + 1):
                r = it.force(seg(i))
                if r.variant == 'Err':
                    return ('segment errors', f'an index with a missing segment is treated as {show(o)}') if o.variant != 'Err' else None
                union += index_files(it, r.fields[0])
            w = [x for x in it.ctx.trace if x[0] == 'saved']
            asked = [x for x in it.ctx.trace if x[0] == 'segment']
            if any(x[2] != it.freeze(a[2]) for x in asked):
                return 'source', 'a segment of the index is fetched from another source'
            if o.variant == 'Err':
                return None if it.force(Term('save', (), Ty('Result', Ty('unit'), Ty('io::Error')))).variant == 'Err' else ('errors', 'combining an index without errors fails')
            if len(w) != 1:
                return 'saved', 'a complete index is not saved'
            got = w[0][1].items
            if not same_set(it, [strval(it, x) for x in got], no_dups(it, [strval(it, x) for x in union])):
                return 'union', f'the index consists of {showl(got)}, its segments of {showl(union)}'
            keys = [x[3] for x in asked]
            if len(set(map(repr, keys))) != len(keys):
                return 'keys', f'different segments of an index share the cache key {keys[0]}'

        def save2(it, a):
            it.ctx.effect('saved', Vec(index_files(it, a[0])))
            return Term('save', (), Ty('Result', Ty('unit'), Ty('io::Error')))
        c.product(f'combined index of {last} segments', DL + 'download_full_index', spec, given={'last_id': last}, k=1 if c.tier == 'quick' else 2, opaque={
            'Cacher::compute_memoized': memo, 'SymstoreIndex::write': save2}, mmodels={'into_contents': lambda it, recv, args: seg(deref(recv).i)})


class OldRef(Ref):
    """A mutable reference that remembers the value before the call."""
    __slots__ = ('old',)

    def __init__(self, it, r):
        Ref.__init__(self, r.get, r.set)
        self.old = list(index_files(it, r))


def writer(it):
    """A destination that may fail at every write."""
    from engine.ext import Sink
    return Sink(it)


# ----------------------------------------------------------------------- S07
RF = Ty(SRC + 'remotefile::RemoteFile')


def parts_of(it, rf):
    """(variant, source value, location or file id as template, file value)"""
    e = it.force(rf)
    f = e.fields[0]
    src = it.field(f, 'source')
    loc = it.field(it.field(f, 'file_id' if e.variant == 'Sentry' else 'location'), '0')
    return e.variant, src, strval(it, loc), f


def source_id(it, src):
    return strval(it, it.field(it.field(src, 'id'), '0'))


def trim_slashes(it, s):
    return it.ctx.sstr(it.method(it.std.temp_ref(s), 'trim_matches', [Chr('/')]))


def prefixed(it, prefix, loc):
    p = trim_slashes(it, prefix)
    if it.ctx.str_eq(p, Str('')):
        return loc
    return S(p, '/', loc)


def s07(c):
    seen = {}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        key = strval(it, out.value)
        sid = source_id(it, src)
        ps = list(key.parts)
        i, l = sid.parts[0], loc.parts[0]
        if ps[:1] != [i] or l not in ps:
            return f'{kind}', f'the cache key of a {kind} file is {show(key)}: it does not contain the source id {show(sid)} and the location {show(loc)} in full'
        j = ps.index(l)
        mid, tail = ps[1:j], ps[j + 1:]
        if len(mid) != 1 or not isinstance(mid[0], str) or not all(isinstance(x, str) for x in tail):
            return f'{kind}', f'the cache key of a {kind} file is {show(key)}: source id and location are not separated'
        seen[kind] = ''.join(tail)
    c.product('cache keys', SRC + 'remotefile::RemoteFile::cache_key', spec, given=lambda it: {'self': Term('file', (), RF)}, floor=5)
    c.rule('Sentry marker', len(seen) == 5 and seen.get('Sentry') and all(v == '' for k, v in seen.items() if k != 'Sentry'),
           f'cache keys of Sentry files are not told apart from other files: {seen}', 'RemoteFile::cache_key')

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        want = path_join(it, strval(it, it.field(it.field(a[0], 'source'), 'path')), strval(it, it.field(it.field(a[0], 'location'), '0')))
        if not it.eq(strval(it, out.value), it.ctx.sstr(want)):
            return f'a file of a filesystem source is read from {show(out.value)}, expected {show(want)}'
    c.product('path of filesystem files', SRC + 'sources::filesystem::FilesystemRemoteFile::path', spec)

    for m in ('gcs::GcsRemoteFile', 's3::S3RemoteFile'):
        def spec(it, a, out, m=m):
            if out.panic:
                return 'panic', out.panic
            want = prefixed(it, strval(it, it.field(it.field(a[0], 'source'), 'prefix')), strval(it, it.field(it.field(a[0], 'location'), '0')))
            if not it.eq(strval(it, out.value), want):
                return f'the object key of a {m} is {show(out.value)}, expected {show(want)}'
        c.product(f'key of {m}', SRC + f'sources::{m}::key', spec, floor=2)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        if not it.eq(strval(it, out.value), strval(it, it.field(it.field(a[0], 'source'), 'bucket'))):
            return f'the bucket of an S3 file is {show(out.value)}'
    c.product('bucket of S3 files', SRC + 'sources::s3::S3RemoteFile::bucket', spec)

    def segments(it, loc):
        """The non-empty pieces between slashes."""
        out = []
        for x in items(it, it.method(it.std.temp_ref(loc), 'split', [Chr('/')])):
            if not it.ctx.str_eq(it.ctx.sstr(x), Str('')):
                out.append(it.ctx.sstr(x))
        return out

    def url_spec(base, loc):
        def spec(it, a, out):
            if out.panic:
                return 'panic', out.panic
            b, l = base(it, a), loc(it, a)
            o = it.force(out.value)
            if it.ctx.choose(('cannot_be_base', it.freeze(b)), [False, True]):
                return ('base', 'an url without a base is extended') if o.variant == 'Ok' else None
            if o.variant != 'Ok':
                return 'errors', 'building a url fails'
            want = Term('segments', (it.freeze(b), (('pop_if_empty',),) + tuple(('push', s) for s in segments(it, l))), Ty('Url'))
            if it.ctx.norm(it.freeze(o.fields[0])) != it.ctx.norm(want):
                return f'the url is {show(o.fields[0])}, expected {show(want)}'
        return spec
    c.product('url of a location', SRC + 'remotefile::SourceLocation::to_url', url_spec(lambda it, a: a[1], lambda it, a: strval(it, it.field(a[0], '0'))), floor=8)
    c.product('url of HTTP files', SRC + 'sources::http::HttpRemoteFile::url',
              url_spec(lambda it, a: it.field(it.field(a[0], 'source'), 'url'), lambda it, a: strval(it, it.field(it.field(a[0], 'location'), '0'))), floor=8)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        v = out.value
        s = strval(it, it.field(v, '0')) if isinstance(v, (Struct,)) else strval(it, v.args[0]) if isinstance(v, Term) and v.op == 'into' else strval(it, it.field(v, '0'))

        def has(x, t):
            if isinstance(t, (Str, tuple)):
                return any(has(x, y) for y in (t.parts if isinstance(t, Str) else t))
            return t == x or isinstance(t, Term) and any(has(x, y) for y in t.args)
        need = [p for p in loc.parts if isinstance(p, Term)]
        if kind in ('S3', 'Gcs'):
            need += [p for p in strval(it, it.field(src, 'bucket')).parts if isinstance(p, Term)]
            need += [p for p in trim_slashes(it, strval(it, it.field(src, 'prefix'))).parts if isinstance(p, Term)]
        if kind == 'Filesystem':
            need += [p for p in strval(it, it.field(src, 'path')).parts if isinstance(p, Term)]
        if kind == 'Http':
            if it.ctx.known(('cannot_be_base', it.freeze(it.field(src, 'url')))):
                return
            need = [it.freeze(it.field(src, 'url'))] + [q for p in segments(it, loc) for q in p.parts if isinstance(q, Term)]
        miss = [x for x in need if not has(x, s)]
        if miss:
            return kind, f'the address {show(s)} of a {kind} file lacks {showl(miss)}'
    c.product('addresses', SRC + 'remotefile::RemoteFile::uri', spec, given=lambda it: {'self': Term('file', (), RF)}, floor=12)


# ----------------------------------------------------------------------- S09
def s09(c):
    def me(it):
        return {'self': Term('file', (), RF)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        want = False if kind == 'Sentry' else it.ctx.truth(it.field(it.field(src, 'files'), 'is_public'))
        if it.ctx.truth(out.value) != want:
            return kind, f'a {kind} file counts as {"private" if want else "public"}'
    c.product('visibility', SRC + 'remotefile::RemoteFile::is_public', spec, given=me, floor=9)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        want = not (kind == 'Gcs' and it.ctx.starts_with(source_id(it, src), 'sentry:') is not None)
        if it.ctx.truth(out.value) != want:
            return kind, f'a {kind} file of source {show(source_id(it, src))} is {"not " if want else ""}kept in the shared cache'
    c.product('shared cache', SRC + 'remotefile::RemoteFile::worth_using_shared_cache', spec, given=me, floor=6)
    d = c.w.type_named('CommonSourceConfig') if hasattr(c.w, 'type_named') else None

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = it.field(out.value, 'is_public')
        if it.ctx.truth(v):
            return 'a source is public by default'

    def run(it, f, a):
        return default_of(it, Ty(SRC + 'sources::CommonSourceConfig'))
    c.product('default visibility', None, spec, given={}, run=run)


# ----------------------------------------------------------------------- S12
SECRET = {'token', 'private_key', 'secret_key', 'access_key', 'headers', 'source_key'}


def leaks(t, roots):
    """Field chains in a template that carry credentials, or values that contain some as a whole."""
    out = []

    def chain(x):
        names = []
        while isinstance(x, Term) and x.op in ('field', 'pay', 'some', 'ok'):
            if x.op == 'field':
                names.insert(0, x.args[1])
            x = x.args[0]
        return x, names

    def rec(x):
        if isinstance(x, (Str, tuple, list)) and not isinstance(x, Ty):
            for y in (x.parts if isinstance(x, Str) else x):
                rec(y)
            return
        if not isinstance(x, Term):
            return
        r, names = chain(x)
        if r in roots:
            if any(n in SECRET for n in names) or not names or names[-1] in ('source', 'files'):
                out.append(x)
            return
        for y in x.args:
            rec(y)
    rec(t)
    return out


def s12(c):
    from engine.fmt import Spec
    root = Term('file', (), RF)

    def texts(v):
        v = deref(v)
        if isinstance(v, (Str, Term)):
            return [v]
        if isinstance(v, Struct):
            return [x for y in v.fields.values() for x in texts(y)]
        if isinstance(v, Enum):
            return [x for y in (v.fields.values() if isinstance(v.fields, dict) else v.fields) for x in texts(y)]
        return []

    def spec_for(what, roots):
        def spec(it, a, out):
            if out.panic:
                return 'panic', out.panic
            for t in texts(out.value):
                for x in leaks(t, roots):
                    return 'leak', f'the {what} {show(t)} reveals {show(x)}'
        return spec
    for m in ('cache_key', 'uri', 'host', 'source_metric_key'):
        c.product(m, SRC + 'remotefile::RemoteFile::' + m, spec_for(m, [root]), given=lambda it: {'self': root}, floor=5)

    def shown(ty, dbg):
        t = Term('file', (), ty)

        def run(it, f, a):
            return display(it, t, Spec('?') if dbg else None)
        return run
    c.product('display', None, spec_for('display text', [root]), given={}, run=shown(RF, False), floor=5)
    st = Ty(SRC + 'sources::sentry::SentryRemoteFile')
    c.product('debug', None, spec_for('debug text of a Sentry file', [Term('file', (), st)]), given={}, run=shown(st, True))


# ----------------------------------------------------------------------- S13
OBJECT_FTS = ['Pdb', 'MachDebug', 'ElfDebug', 'Pe', 'MachCode', 'ElfCode', 'WasmCode', 'WasmDebug', 'Breakpad', 'PortablePdb']


def s13(c):
    common = ['Breakpad', 'MachDebug', 'Pdb', 'ElfDebug']
    table = {'Macho': ['MachCode'] + common, 'Pe': ['Pe'] + common, 'Elf': ['ElfCode'] + common, 'Wasm': ['WasmCode', 'WasmDebug'], 'PeDotnet': ['PortablePdb']}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        k = variant(it, a[0])
        got = [variant(it, x) for x in items(it, out.value)]
        if len(set(got)) != len(got) or not got:
            return k, f'the file types for {k} are {got}'
        if k == 'Unknown':
            miss = [x for x in OBJECT_FTS if x not in got]
            return (k, f'an unknown object is not searched as {miss}') if miss else None
        if k not in table:
            return k, f'object type {k} is not specified'
        if got[0] != table[k][0] or set(got) != set(table[k]):
            return k, f'a {k} object is searched as {got}, expected {table[k]}'
    c.product('file types of objects', SRC + 'filetype::FileType::from_object_type', spec, floor=6)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        got = [variant(it, x) for x in items(it, out.value)]
        if sorted(got) != sorted(['SourceBundle', 'PortablePdb', 'ElfDebug', 'WasmDebug']):
            return f'sources are searched in {got}'
    c.product('file types of sources', SRC + 'filetype::FileType::sources', spec)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        got = [variant(it, x) for x in items(it, out.value)]
        if len(set(got)) != len(got) or [x for x in OBJECT_FTS if x not in got]:
            return f'the list of all file types is {got}'
    c.product('all file types', SRC + 'filetype::FileType::all', spec)


# ----------------------------------------------------------------------- S14
def s14(c):
    for name, fields in (('s3::S3SourceKey', ['region', 'aws_credentials_provider', 'access_key', 'secret_key']), ('s3::S3Region', ['region', 'endpoint']),
                         ('gcs::GcsSourceKey', ['private_key', 'client_email'])):
        ty = Ty(SRC + 'sources::' + name)
        d = c.w.type(ty[0])
        have = [f['name'] for f in d.node['fields']]
        c.rule(f'fields of {name}', all(f in have for f in fields), f'{name} has the fields {have}, expected {fields}', name)
        x, y = Term('a', (), ty), Term('b', (), ty)

        def run(it, f, a, x=x, y=y):
            return it.eq(it.materialize(x), it.materialize(y))

        def spec(it, a, out, x=x, y=y, name=name, fields=fields):
            if out.panic:
                return 'panic', out.panic
            diff = [f for f in fields if not it.eq(it.field(x, f), it.field(y, f))]
            if it.ctx.truth(out.value) != (not diff):
                return f'two {name} that {"differ in " + ", ".join(diff) if diff else "are equal"} are treated as {"equal" if diff else "different"}'
        c.product(f'equality of {name}', None, spec, given={}, run=run, floor=len(fields) + 1)
        # hashing reads nothing that equality ignores
        h = [d2 for im, d2 in c.w.methods.get((ty[0], 'hash'), []) if (im.trait or '').split('::')[-1] == 'Hash']
        if not h:
            c.rule(f'hash of {name}', derives(c.w, ty[0], 'Hash'), f'{name} has no hash', name)
            continue

        def mm(it, recv, args):
            it.ctx.effect('hash', it.freeze(deref(recv)))
            return UNIT

        def spec(it, a, out, x=x, name=name, fields=fields):
            if out.panic:
                return 'panic', out.panic
            todo = [e[1] for e in it.ctx.trace if e[0] == 'hash']
            while todo:
                t = todo.pop(0)
                if isinstance(t, Term) and t.op in ('tuple', 'ref'):
                    todo.extend(t.args)
                elif not (isinstance(t, Term) and t.op == 'field' and t.args[0] == it.freeze(a[0])):
                    return f'hashing {name} uses {show(t)}'
                elif t.args[1] not in fields:
                    return f'hashing {name} uses {show(t)}, which equality ignores'
        c.product(f'hash of {name}', h[0], spec, mmodels={'hash': mm})


def derives(w, tid, name):
    from engine.interp import Interp
    d = w.typedefs.get(tid)
    return Interp(w, Ctx()).derives(d, name)


# ----------------------------------------------------------------------- S15
def s15(c):
    SF = SRC + 'sources::sentry::SentryRemoteFile::'

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        src, cred, fid, url = a
        o = it.force(url)
        v = out.value
        got = it.call_def(it.w.fn(SF + 'url'), [v])
        if o.variant == 'Some':
            want = it.freeze(o.fields[0])
        else:
            want = Term('query+', (it.freeze(it.field(src, 'url')), Str('id'), it.freeze(strval(it, it.field(fid, '0')))), Ty('Url'))
        if it.ctx.norm(strip_str(it.freeze(got))) != it.ctx.norm(strip_str(want)):
            return 'url', f'a Sentry file is fetched from {show(got)}, expected {show(want)}'
        uc = it.call_def(it.w.fn(SF + 'use_credentials'), [v])
        if it.ctx.truth(uc) != it.ctx.truth(cred):
            return 'credentials', 'the credential flag of a Sentry file is not the requested one'
        if not it.eq(it.field(v, 'file_id'), fid) or not it.eq(it.field(v, 'source'), src):
            return 'identity', 'a Sentry file has another id or source than requested'
    c.product('Sentry files', SF + 'new', spec, floor=3)


def strip_str(t):
    if isinstance(t, Str):
        return t.parts[0] if len(t.parts) == 1 else t
    if isinstance(t, Term):
        return Term(t.op, tuple(strip_str(x) for x in t.args), t.ty)
    if isinstance(t, tuple) and not isinstance(t, Ty):
        return tuple(strip_str(x) for x in t)
    return t


# ----------------------------------------------------------------------- S10
COMMON = {'filters': None, 'layout': None, 'is_public': False, 'has_index': False}
SETTINGS = {
    'filesystem': ('filesystem::FilesystemSourceConfig', ['id', 'path'], dict(COMMON)),
    'http': ('http::HttpSourceConfig', ['id', 'url'], dict(COMMON, headers={}, accept_invalid_certs=False)),
    's3': ('s3::S3SourceConfig', ['id', 'bucket', 'region'], dict(COMMON, prefix='', aws_credentials_provider='Static', access_key='', secret_key='')),
    'gcs': ('gcs::GcsSourceConfig', ['id', 'bucket', 'private_key', 'client_email'], dict(COMMON, prefix='')),
    'sentry': ('sentry::SentrySourceConfig', ['id', 'url', 'token'], {}),
}
FILTERS = {'filetypes': [], 'path_patterns': [], 'requires_checksum': False}
LAYOUT = {'type': 'Native', 'casing': 'Default'}
LAYOUTS = {'Native': 'native', 'Symstore': 'symstore', 'SymstoreIndex2': 'symstore_index2', 'Ssqp': 'ssqp', 'Debuginfod': 'debuginfod', 'Unified': 'unified',
           'SlashSymbols': 'slashsymbols'}
FILETYPES = {'Pe': 'pe', 'Pdb': 'pdb', 'PortablePdb': 'portablepdb', 'MachDebug': 'mach_debug', 'MachCode': 'mach_code', 'ElfDebug': 'elf_debug', 'ElfCode': 'elf_code',
             'WasmDebug': 'wasm_debug', 'WasmCode': 'wasm_code', 'Breakpad': 'breakpad', 'SourceBundle': 'sourcebundle', 'UuidMap': 'uuidmap',
             'BcSymbolMap': 'bcsymbolmap', 'Il2cpp': 'il2cpp', 'Proguard': 'proguard'}
OBJTYPES = {'Elf': 'elf', 'Macho': 'macho', 'Pe': 'pe', 'PeDotnet': 'pe_dotnet', 'Wasm': 'wasm', 'Unknown': 'unknown'}


def plain(it, v):
    """A concrete value as Python data."""
    v = deref(v)
    if isinstance(v, Term):
        v = it.force(v)
    if isinstance(v, Enum):
        return v.variant
    if isinstance(v, Vec):
        return [plain(it, x) for x in v.items]
    if isinstance(v, Map):
        return {show(k): plain(it, x) for k, x in v.entries} if not callable(getattr(v, 'items', None)) else {}
    if isinstance(v, Str):
        return show(v).strip("'\"") if v.parts else ''
    return v


def is_default(it, v, want):
    v = deref(v)
    if isinstance(want, bool):
        return v is want or (isinstance(v, Term) and it.ctx.truth(v) == want)
    if want == '':
        return isinstance(v, Str) and not v.parts or v == Str('')
    if want == [] or want == {}:
        m = it.method(it.std.temp_ref(v), 'is_empty', [])
        return it.ctx.truth(m)
    if isinstance(want, str):
        return it.force(v).variant == want
    raise Unsupported(f'default {want!r}')


def s10(c):
    from engine.interp import Interp
    from engine.serde import struct_schema, enum_names, default_value, unwrap
    P = SRC + 'sources::'
    it = Interp(c.w, Ctx())

    def check_struct(label, tid, required, defaults):
        es = {}
        for e in struct_schema(it, Ty(tid)):
            for n in e.names:
                c.rule(f'{label}: {n} is one key', n not in es, f'the key {n} of a {label} stands for two settings', tid)
                es[n] = e
        for n in required:
            c.rule(f'{label}: {n} is required', n in es and es[n].required, f'the setting {n} of a {label} ' + ('may be left out' if n in es else 'does not exist'), tid)
        for n, want in defaults.items():
            if not c.rule(f'{label}: {n} is optional', n in es and not es[n].required, f'the setting {n} of a {label} ' + ('is required' if n in es else 'does not exist'), tid):
                continue
            v = default_value(it, es[n])
            if n == 'filters':
                for k, w2 in FILTERS.items():
                    c.rule(f'{label}: filters.{k} when omitted', is_default(it, it.field(v, k), w2), f'without filters, {k} of a {label} is {show(it.field(v, k))}, expected {w2}', tid)
            elif n == 'layout':
                for k, f in (('type', 'ty'), ('casing', 'casing')):
                    c.rule(f'{label}: layout.{k} when omitted', is_default(it, it.field(v, f), LAYOUT[k]), f'without a layout, its {k} for a {label} is {show(it.field(v, f))}, expected {LAYOUT[k]}', tid)
            else:
                c.rule(f'{label}: {n} when omitted', is_default(it, v, want), f'an omitted {n} of a {label} means {show(v)}, expected {want!r}', tid)
        for n, e in es.items():
            c.rule(f'{label}: no unexpected required setting', not e.required or n in required or set(e.names) & set(required), f'the setting {n} of a {label} became required', tid)

    def body():
        names, tag, pay = enum_names(it, P + 'SourceConfig')
        c.rule('source type key', tag == 'type', f'the kind of a source is read from {tag}', P + 'SourceConfig')
        seen = {}
        for v, ns in names.items():
            for n in ns:
                seen[n] = v
        for kind, (tid, req, dfl) in SETTINGS.items():
            if not c.rule(f'source type {kind}', kind in seen, f'no source type is named {kind}', P + 'SourceConfig'):
                continue
            p = unwrap(pay[seen[kind]][0])
            c.rule(f'source type {kind}', p is not None and p[0] == P + tid, f'a {kind} source is read as {p}', P + 'SourceConfig')
            c.section(kind, lambda: check_struct(f'{kind} source', P + tid, req, dfl))
        check_struct('filter', P + 'SourceFilters', [], FILTERS)
        check_struct('layout', P + 'DirectoryLayout', [], LAYOUT)
        for what, tid, want in (('layout', 'sources::DirectoryLayoutType', LAYOUTS), ('file type', 'filetype::FileType', FILETYPES),
                                ('casing', 'sources::FilenameCasing', {'Default': 'default', 'Uppercase': 'uppercase', 'Lowercase': 'lowercase'}),
                                ('credentials provider', 'sources::s3::AwsCredentialsProvider', {'Static': 'static', 'Container': 'container'})):
            ns, _, _ = enum_names(it, SRC + tid)
            acc = {}
            for v, l in ns.items():
                for n in l:
                    c.rule(f'{what} names differ', n not in acc, f'the {what} name {n} stands for {acc.get(n)} and {v}', tid)
                    acc[n] = v
            for v, n in want.items():
                c.rule(f'{what} {n}', acc.get(n) == v, f'the {what} name {n} is read as {acc.get(n)}, expected {v}', tid)
    c.section('settings', body)
    c.floor('settings checked', len(c.oblig), 70)
    c.assumptions.append('serde derives follow the documented meaning of their attributes')

    def spec(it, a, out):
        v = variant(it, a[0])
        if out.panic:
            return 'panic', out.panic
        want = {'Filesystem': 'filesystem', 'Gcs': 'gcs', 'Http': 'http', 'S3': 's3', 'Sentry': 'sentry'}.get(v)
        if want is not None and not it.eq(out.value, Str(want)):
            return v, f'the type name of a {v} source is {show(out.value)}'
    c.product('source type names', P + 'SourceConfig::type_name', spec, floor=5)

    def spec_l(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = out.value
        if not it.eq(it.field(it.field(v, 'layout'), 'ty'), a[0]) or variant(it, it.field(it.field(v, 'layout'), 'casing')) != 'Default':
            return 'layout', 'a configuration for a layout has another layout or casing'
        for k in ('is_public', 'has_index'):
            if not is_default(it, it.field(v, k), False):
                return k, f'a configuration for a layout sets {k}'
        for k, w2 in FILTERS.items():
            if not is_default(it, it.field(it.field(v, 'filters'), k), w2):
                return k, f'a configuration for a layout sets {k}'
    c.product('configuration for a layout', P + 'CommonSourceConfig::with_layout', spec_l)


# ----------------------------------------------------------------------- S11
def s11(c):
    from engine.interp import Interp
    from engine.serde import enum_names
    it0 = Interp(c.w, Ctx())
    OT, FTI = SRC + 'types::ObjectType', SRC + 'filetype::FileType'
    for what, tid, names in (('object type', OT, OBJTYPES), ('file type', FTI, FILETYPES)):
        def body(what=what, tid=tid, names=names):
            d = c.w.type(tid)
            have = [v['name'] for v in d.node['variants']]
            c.rule(f'{what} variants', set(names) <= set(have), f'{what}s {sorted(set(names) - set(have))} do not exist', tid)
            ser, _, _ = enum_names(it0, tid, 'ser')
            seen = {}
            for v in have:
                n = ser.get(v, [None])[0]
                c.rule(f'{what} {v} is written as', n is not None and n not in seen and (v not in names or names[v] == n),
                       f'the {what} {v} is written as {n}, expected {names.get(v)}' + (f', the name of {seen[n]}' if n in seen else ''), tid)
                seen[n] = v
            if what == 'file type':
                de, _, _ = enum_names(it0, tid, 'de')
                for v in have:
                    c.rule(f'file type {v} is read as written', ser[v][0] in de.get(v, []), f'the file type {v} is written as {ser[v][0]} and read as {de.get(v)}', tid)
            return ser
        c.section(f'names of {what}s', body)

    ser = {}
    c.section('names', lambda: ser.update({k: v[0] for k, v in enum_names(it0, FTI, 'ser')[0].items()}))
    oser = {}
    c.section('names', lambda: oser.update({k: v[0] for k, v in enum_names(it0, OT, 'ser')[0].items()}))

    def spec(it, a, out):
        v = variant(it, a[0])
        if out.panic:
            return 'panic', out.panic
        if not it.eq(out.value, Str(ser.get(v, '?'))):
            return v, f'the file type {v} is called {show(out.value)} in logs and {ser.get(v)} in configurations'
    c.product('names of file types in logs', FTI + '::as_ref', spec, floor=15)

    def spec_d(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v = variant(it, a[0])
        if not it.eq(out.value, Str(oser.get(v, '?'))):
            return v, f'the object type {v} is displayed as {show(out.value)} and written as {oser.get(v)}'
    c.product('displayed object types', None, spec_d, given=lambda it: [Term('type', (), Ty(OT))], run=lambda it, f, a: display(it, it.force(a[0])), floor=6)

    def spec_p(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = it.force(out.value)
        if r.variant != 'Ok':
            return 'rejected', f'the object type name {show(a[0])} is rejected'
        v = variant(it, r.fields[0])
        want = 'Unknown'
        for k, n in oser.items():
            if it.ctx.str_eq(strval(it, a[0]), Str(n)):
                want = k
        if v != want:
            return want, f'the object type name {show(a[0])} is read as {v}, expected {want}'
    c.product('parsed object type names', OT + '::from_str', spec_p, floor=6)

    def spec_s(it, a, out):
        if out.panic:
            return 'panic', out.panic
        r = it.force(out.value)
        if r.variant != 'Ok':
            e = it.freeze(r.fields[0])
            if 'not a string' in str(e):
                return
            return 'rejected', f'an object type is rejected with {show(e)}'
        v = variant(it, r.fields[0])
        want = 'Unknown'
        for k, n in oser.items():
            if it.ctx.str_eq(it.ctx.sstr(Term('text', (), T_STR)), Str(n)):
                want = k
        if v != want:
            return want, f'a request with the object type "{want}" is read as {v}'
    c.product('object types in requests', OT + '::deserialize', spec_s, floor=6, models={
        'Deserialize::deserialize': lambda it, a: deser(it), 'String::deserialize': lambda it, a: deser(it), 'Cow::deserialize': lambda it, a: deser(it)},
        given={'deserializer': Term('de', (), Ty('opaque'))})


def deser(it):
    if it.ctx.choose(('string', Term('de', (), T_STR)), [True, False]):
        return Enum('Result', 'Ok', [Term('text', (), T_STR)])
    return Enum('Result', 'Err', [Term('not a string', (), Ty('error'))])


# ----------------------------------------------------------------------- S16
KINDS = {'Filesystem': 'filesystem', 'Gcs': 'gcs', 'Http': 'http', 'S3': 's3', 'Sentry': 'sentry'}


def plain_uri(it, v):
    """The text of an address, with joining a path to a base read as appending it."""
    v = deref(v)
    if isinstance(v, Term) and v.op == 'into':
        v = v.args[0]
    elif isinstance(v, (Struct, Term)) and not (isinstance(v, Term) and v.ty == T_STR):
        v = it.field(v, '0')

    def flat(t):
        out = []
        for p in (it.ctx.sstr(t).parts if not isinstance(t, Term) or t.op != 'url_str' else (t,)):
            if isinstance(p, Term) and p.op == 'url_str' and isinstance(p.args[0], Term):
                u = p.args[0]
                while isinstance(u, Term) and u.op in ('pay', 'ok') and isinstance(u.args[0], Term):
                    u = u.args[0]
                if u.op == 'urljoin':
                    b = u.args[0]
                    while isinstance(b, Term) and b.op in ('pay', 'ok') and isinstance(b.args[0], Term):
                        b = b.args[0]
                    if b.op == 'Url::parse':
                        out += flat(b.args[0]) + flat(u.args[1])
                        continue
            out.append(p)
        return out
    return it.ctx.sstr(S(*flat(v)))


def s16(c):
    me = lambda it: {'self': Term('file', (), RF)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        if kind == 'Http':
            u = it.force(it.call_def(c.w.fn(SRC + 'sources::http::HttpRemoteFile::url'), [it.std.temp_ref(f)]))
            want = it.method(it.std.temp_ref(u.fields[0]), 'to_string', []) if u.variant == 'Ok' else Str('')
        elif kind == 'Sentry':
            want = S('sentry://project_debug_file/', loc)
        elif kind == 'Filesystem':
            want = S('file://', path_join(it, strval(it, it.field(src, 'path')), loc))
        else:
            want = S({'S3': 's3://', 'Gcs': 'gs://'}[kind], strval(it, it.field(src, 'bucket')), '/', prefixed(it, strval(it, it.field(src, 'prefix')), loc))
        got = plain_uri(it, out.value)
        if not it.ctx.str_eq(got, it.ctx.sstr(want)):
            return kind, f'the address of a {kind} file is {show(got)}, expected {show(want)}'
    c.product('addresses', SRC + 'remotefile::RemoteFile::uri', spec, given=me, floor=12)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        got = strval(it, out.value)
        if kind in ('S3', 'Gcs'):
            want = strval(it, it.field(src, 'bucket'))
        elif kind == 'Sentry':
            want = it.method(it.std.temp_ref(it.field(f, 'url')), 'to_string', [])
        elif kind == 'Http':
            o = it.force(it.method(it.std.temp_ref(it.field(src, 'url')), 'host_str', []))
            if o.variant == 'None':
                return
            want = o.fields[0]
        else:
            if not isinstance(got, Str) or got.lit() is None:
                return kind, f'the host of a local file is {show(got)}, expected a fixed placeholder'
            return
        if not it.ctx.str_eq(got, it.ctx.sstr(want)):
            return kind, f'the host of a {kind} file is {show(got)}, expected {show(want)}'
    c.product('hosts', SRC + 'remotefile::RemoteFile::host', spec, given=me, floor=5)

    def builtin(it, src):
        return it.ctx.starts_with(source_id(it, src), 'sentry:') is not None

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        want = source_id(it, src) if builtin(it, src) else Str((KINDS[kind],))
        if not it.ctx.str_eq(strval(it, out.value), it.ctx.sstr(want)):
            return kind, f'the source of a {kind} file is reported as {show(out.value)}, expected {show(want)}'
    c.product('kinds of sources', SRC + 'remotefile::RemoteFile::source_metric_key', spec, given=me, floor=10)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        if it.ctx.truth(out.value) != builtin(it, src):
            return kind, f'the source {show(source_id(it, src))} of a {kind} file counts as {"custom" if builtin(it, src) else "built in"}'
    c.product('built-in sources', SRC + 'remotefile::RemoteFile::is_builtin', spec, given=me, floor=10)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        kind, src, loc, f = parts_of(it, a[0])
        if not it.ctx.str_eq(strval(it, it.field(out.value, '0')), source_id(it, src)):
            return kind, f'a {kind} file belongs to the source {show(out.value)}, expected {show(source_id(it, src))}'
    c.product('ids of sources', SRC + 'remotefile::RemoteFile::source_id', spec, given=me, floor=5)

    SC = Ty(SRC + 'sources::SourceConfig')
    for fn_, what in (('id', 'id'), ('type_name', 'type')):
        def spec(it, a, out, fn_=fn_):
            if out.panic:
                return 'panic', out.panic
            e = it.force(a[0])
            want = source_id(it, e.fields[0]) if fn_ == 'id' else Str((KINDS[e.variant],))
            got = strval(it, it.field(out.value, '0')) if fn_ == 'id' else strval(it, out.value)
            if not it.ctx.str_eq(got, it.ctx.sstr(want)):
                return e.variant, f'the {fn_} of a {e.variant} source is {show(got)}, expected {show(want)}'
        c.product(f'{what} of a source', SRC + 'sources::SourceConfig::' + fn_, spec, given=lambda it: {'self': Term('source', (), SC)}, floor=5)

    def spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        v, (url, verify) = out.value, a
        src = it.field(v, 'source')
        bad = []
        if it.ctx.norm(it.freeze(it.field(src, 'url'))) != it.ctx.norm(it.freeze(url)):
            bad.append(('url', f'a file at {show(url)} is loaded from {show(it.field(src, "url"))}'))
        if not it.ctx.str_eq(strval(it, it.field(it.field(v, 'location'), '0')), Str('')):
            bad.append(('location', f'something is appended to the address of a file: {show(it.field(v, "location"))}'))
        if it.ctx.truth(it.field(src, 'accept_invalid_certs')) == it.ctx.truth(verify):
            bad.append(('certificates', f'with verify_ssl = {show(verify)}, invalid certificates are {"accepted" if it.ctx.truth(verify) else "rejected"}'))
        if it.ctx.truth(it.field(it.field(src, 'files'), 'is_public')):
            bad.append(('visibility', 'a file from the web is shared between projects'))
        if builtin(it, src):
            bad.append(('builtin', f'web scraping uses the id of a built-in source: {show(source_id(it, src))}'))
        for h in (it.field(v, 'headers'), it.field(src, 'headers')):
            if deref(h).items:
                bad.append(('headers', f'a file from the web is asked for with {show(h)}'))
        return bad
    c.product('files of an address', SRC + 'sources::http::HttpRemoteFile::from_url', spec, floor=2)
