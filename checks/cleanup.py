"""C09: cleanup of the cache directories, on an abstract directory tree whose operations may fail."""
from .util import *
from engine.ext import E_IO

SVC = 'symbolicator_service::'
CACHE = SVC + 'caching::fs::Cache'


def ok_(v=UNIT):
    return Enum('Result', 'Ok', [v])


def io(kind, what):
    return Enum('Result', 'Err', [Term('io::Error::new', (Term('ErrorKind::' + kind, (), Ty('ErrorKind')), Str(what)), E_IO)])


class Tree:
    """Directory tree; every operation is logged as (operation, path, outcome)."""

    def __init__(self, it, dirs=2, files=2, faults=1):
        self.it, self.log, self.nodes, self.faults, self.maxfaults = it, [], {}, 0, faults
        self.root = S('cache')
        self.nodes[show(self.root)] = self.grow(self.root, files, dirs)

    def grow(self, path, n, depth):
        kids = []
        for i in range(self.it.ctx.choose(('entries of', path), list(range(n + 1)))):
            kind = self.it.ctx.choose(('entry', path, i), ['file', 'metadata', 'dir', 'other', 'unreadable'] if depth > 1 else ['file', 'metadata', 'other', 'unreadable'])
            name = S(*path.parts, '/', Term('hexn', (Term('name', (path, i), Ty('u64')), 4), T_STR))
            if kind == 'file' and i == 1:
                name = S(*name.parts, '.pdb')
            if kind == 'metadata':
                name = S(*name.parts, '.metadata')
            kids.append((kind, name, i))
            self.nodes[show(name)] = kind if kind != 'dir' else self.grow(name, 1, depth - 1)
        return kids

    def outcome(self, op, path, gone=True):
        r = 'ok'
        if self.faults < self.maxfaults:
            r = self.it.ctx.choose((op, path, sum(1 for o in self.log if o[:2] == (op, show(path)))), ['ok', 'gone', 'fails'] if gone else ['ok', 'fails'])
            self.faults += r != 'ok'
        self.log.append((op, show(path), r))
        return r

    def do(self, op, path, val=UNIT, gone=True):
        r = self.outcome(op, path, gone)
        return ok_(val() if callable(val) else val) if r == 'ok' else io('NotFound' if r == 'gone' else 'PermissionDenied', op)

    def list(self, path):
        def entries():
            kids = self.nodes.get(show(path), [])
            return self.it.method(self.it.std.temp_ref(Vec([io('PermissionDenied', 'entry') if k == 'unreadable' else ok_(Native('dirent', path=n)) for k, n, i in kids])), 'into_iter', [])
        return self.do('list', path, entries)


def stem(p):
    for e in ('.metadata"', '.pdb"'):
        if p.endswith(e):
            return p[:-len(e)] + '"'
    return p


def pth(it, v):
    v = deref(v)
    return v.path if isinstance(v, Native) and v.kind == 'dirent' else it.ctx.norm(it.freeze(it.ctx.sstr(v)))


def metadata(it, r, a):
    v = deref(r)
    p = pth(it, v)
    return it.tree.do('stat', p, lambda: Native('fsmeta', path=p))


def kindof(it, p):
    return it.tree.nodes.get(show(p), 'metadata' if show(p).endswith('.metadata"') else None)


MM = {
    'metadata': metadata, 'symlink_metadata': metadata, 'file_type': metadata,
    'is_dir': lambda it, r, a: isinstance(kindof(it, r_path(it, r)), list),
    'is_file': lambda it, r, a: kindof(it, r_path(it, r)) in ('file', 'metadata'),
    'path': lambda it, r, a: deref(r).path if isinstance(deref(r), Native) and deref(r).kind == 'dirent' else NotImplemented,
    'len': lambda it, r, a: Term('len of', (deref(r).path,), Ty('u64')) if isinstance(deref(r), Native) and deref(r).kind == 'fsmeta' else NotImplemented,
    'modified': lambda it, r, a: it.tree.do('mtime', deref(r).path, Term('mtime', (deref(r).path,), Ty('SystemTime')), gone=False) if isinstance(deref(r), Native) else NotImplemented,
    'par_bridge': lambda it, r, a: Native('par', items=items(it, deref(r))),
    'into_par_iter': lambda it, r, a: it.method(r, 'into_iter', []), 'par_iter': lambda it, r, a: it.method(r, 'iter', []),
    'shuffle': lambda it, r, a: UNIT, 'display': lambda it, r, a: deref(r),
}


def r_path(it, r):
    v = deref(r)
    return v.path if isinstance(v, Native) else pth(it, v)


def par_fold(it, r, a, tried):
    """rayon: the items are split arbitrarily into runs, each folded from a fresh identity."""
    ident, f = a
    runs, cur = [], []
    for i, x in enumerate(deref(r).items):
        if cur and it.ctx.choose(('split before item', i), [False, True]):
            runs.append(cur)
            cur = []
        cur.append(x)
    if cur:
        runs.append(cur)
    out = []
    for run in runs:
        acc = it.call_value(ident, [])
        bad = None
        for x in run:
            v = it.call_value(f, [acc, x])
            if tried:
                v = it.force(v)
                if v.variant == 'Err':
                    bad = v
                    break
                v = v.fields[0]
            acc = v
        out.append(bad if bad is not None else ok_(acc) if tried else acc)
    return Native('par', items=out)


def par_reduce(it, r, a, tried):
    ident, f = a
    acc = it.call_value(ident, [])
    for x in deref(r).items:
        if tried:
            x = it.force(x)
            if x.variant == 'Err':
                return x
            v = it.force(it.call_value(f, [acc, x.fields[0]]))
            if v.variant == 'Err':
                return v
            acc = v.fields[0]
        else:
            acc = it.call_value(f, [acc, x])
    return ok_(acc) if tried else acc


def par(name, fn_, *flags):
    def f(it, r, a):
        v = deref(r)
        return fn_(it, r, a, *flags) if isinstance(v, Native) and v.kind == 'par' else NotImplemented
    MM[name] = f


par('try_fold', par_fold, True)
par('fold', par_fold, False)
par('try_reduce', par_reduce, True)
par('reduce', par_reduce, False)


def par_map(it, r, a, what):
    v = deref(r)
    return Native('par', items=[it.call_value(a[0], [x]) for x in v.items])


par('map', par_map, 'map')


def models():
    def t(op):
        return lambda it, a: it.tree.do(op, pth(it, a[0]))
    return {
        'fs::read_dir': lambda it, a: it.tree.list(pth(it, a[0])), 'fs::remove_file': t('remove'), 'fs::remove_dir_all': t('rmtree'), 'fs::remove_dir': t('rmdir'),
        'fs::create_dir_all': t('mkdir'), 'fs::create_dir': t('mkdir'), 'fs::rename': t('rename'), 'fs::write': t('write'), 'File::create': t('create'), 'fs::metadata': lambda it, a: metadata(it, a[0], []),
        'ByteView::open': lambda it, a: it.tree.do('open', pth(it, a[0]), lambda: Native('bytes', path=pth(it, a[0]))),
        'rand::thread_rng': lambda it, a: Native('rng'), 'thread_rng': lambda it, a: Native('rng'), 'rand::rng': lambda it, a: Native('rng'),
    }


def hooks():
    def read_md(it, a):
        p = pth(it, a[1])
        r = it.tree.outcome('read metadata', p, gone=False)
        if r == 'fails':
            return io('InvalidData', 'metadata')
        return ok_(none())

    def contents(it, a):
        v = deref(a[0])
        return ok_(Native('contents', path=v.path))

    def expiry(it, a):
        c = it.force(deref(a[1]))
        p = deref(c.fields[0]).path
        gone = it.ctx.choose(('expired', p), [False, True])
        it.tree.log.append(('expiry', show(p), gone))
        return io('NotFound', 'expired') if gone else ok_(Term('expires', (p,), Ty('ExpirationTime')))
    return {'Cache::read_metadata': read_md, 'cache_contents_from_bytes': contents, 'Cache::compute_expiration_time': expiry}


def judge(it, dry, res):
    """res: None if nothing is returned about emptiness, else the returned Result."""
    log, msgs = it.tree.log, []
    files = [p for p, k in it.tree.nodes.items() if k == 'file']
    stems = {stem(p) for p in files}
    gone, expired, broken, treegone = set(), set(), set(), set()
    for op, p, r in log:
        if op == 'expiry' and r:
            expired.add(p)
        if op == 'read metadata' and r == 'fails':
            broken.add(p)
        if r == 'gone' and it.tree.nodes.get(p) in ('file', 'other'):
            gone.add(p)
        if op == 'list' and r == 'gone':
            gone |= {q for q in it.tree.nodes if q.startswith(p[:-1])}
        if op in ('remove', 'rmtree', 'rmdir', 'mkdir', 'rename', 'write', 'create'):
            if dry:
                msgs.append(('simulation', f'{op} {p} although nothing may be changed'))
                continue
            k = it.tree.nodes.get(p)
            if op == 'remove' and k == 'file':
                if p not in expired | gone:
                    msgs.append(('removal', f'{p} is removed but is not known to be expired'))
                if r == 'ok':
                    gone.add(p)
            elif op == 'remove' and p.endswith('.metadata"'):
                if stem(p) in stems and stem(p) not in {stem(q) for q in gone | broken}:
                    msgs.append(('removal', f'the metadata of {stem(p)} is removed but not the file'))
            elif op == 'rmtree' and isinstance(k, list):
                left = [q for q in it.tree.nodes if q.startswith(p[:-1] + '/') and it.tree.nodes[q] in ('file', 'other') and q not in gone]
                if left:
                    msgs.append(('directories', f'{p} is removed together with {left[0]}, which is not known to be expired'))
                listed = [o for o in log if o[0] == 'list' and o[1] == p]
                if not listed:
                    msgs.append(('directories', f'{p} is removed without having been listed'))
                unread = [q for q, kk in it.tree.nodes.items() if q.startswith(p[:-1] + '/') and kk == 'unreadable' and q not in gone]
                if unread:
                    msgs.append(('directories', f'{p} is removed although an entry of it could not be read'))
                if r == 'ok':
                    treegone.add(p)
            elif op == 'rmdir' and isinstance(k, list):
                pass
            else:
                msgs.append(('removal', f'{op} {p}'))
    if it.tree.faults == 0 and res is not None and res.variant == 'Ok':
        for p in files:
            if p in expired and p not in gone and not dry:
                msgs.append(('expired files', f'{p} is expired but not removed'))
            if p in expired and not dry and not any(o[0] == 'remove' and o[1] == stem(p)[:-1] + '.metadata"' for o in log):
                msgs.append(('expired files', f'{p} is removed but not its metadata'))
            if not any(o[0] == 'expiry' and o[1] == p for o in log):
                msgs.append(('expired files', f'it is not checked whether {p} is expired'))
        if not dry:
            for p, k in it.tree.nodes.items():
                if isinstance(k, list) and p != show(it.tree.root) and p not in treegone and all(q in gone or kk in ('metadata',) or isinstance(kk, list) for q, kk in it.tree.nodes.items() if q.startswith(p[:-1] + '/')) \
                        and not any(o[0] == 'rmdir' and o[1] == p for o in log):
                    msgs.append(('directories', f'the empty directory {p} is left'))
    return msgs


def c09(c):
    def setup(it):
        it.tree = Tree(it, faults=2 if c.tier == 'thorough' else 1)

    def rec_spec(it, a, out):
        if out.panic:
            return 'panic', out.panic
        dry = it.ctx.truth(a[2])
        res = it.force(out.value)
        msgs = judge(it, dry, res)
        if res.variant == 'Ok' and it.ctx.truth(deref(res.fields[0]).items[0]):
            left = [o[1] for o in it.tree.log if o[0] == 'rmtree' and o[2] == 'fails'] + [p for p, k in it.tree.nodes.items() if k == 'other' or k == 'file' and not any(o[0] == 'expiry' and o[1] == p and o[2] or o[1] == p and o[2] == 'gone' for o in it.tree.log)]
            if left and not any(o[2] == 'gone' and o[0] == 'list' for o in it.tree.log) and not any(o[1] == left[0] and o[2] == 'gone' for o in it.tree.log):
                msgs.append(('directories', f'a directory is reported as empty but contains {left[0]}'))
        return msgs
    given = lambda it: {'directory': it.tree.root, 'dry_run': it.ctx.choose(('dry run',), [True, False])}
    c.assumptions.append('an entry that is reported as missing by the file system while it is processed has been removed by someone else')
    c.product('directories', CACHE + '::cleanup_directory_recursive', rec_spec, given=given, setup=setup, models=models(), mmodels=MM, opaque=hooks(), floor=1000)

    # the cleanup of one cache: its own directory, everything below it, as a simulation or not; a failure is reported
    def one(it, a, out):
        if out.panic:
            return 'panic', out.panic
        res = it.force(out.value)
        if it.force(it.field(a[0], 'cache_dir')).variant == 'None':
            return ('caches', f'{it.cleaned} is cleaned up without a cache directory') if it.cleaned else None
        want = [('cache dir', it.freeze(a[1]))]
        d = it.freeze(deref(it.force(it.field(a[0], 'cache_dir')).fields[0]))
        if [x[1:] for x in it.cleaned] != [(repr(it.freeze(a[1])),)] or repr(it.cleaned[0][0]) != repr(d):
            return 'caches', f'{it.cleaned} is cleaned up instead of the directory of the cache'
        if it.failed and res.variant == 'Ok':
            return 'errors', 'a failed cleanup is reported as a success'
        if not it.failed and res.variant != 'Ok':
            return 'errors', 'a successful cleanup is reported as a failure'

    def rec(it, a):
        it.cleaned.append((it.freeze(deref(a[1])), repr(it.freeze(deref(a[2])))))
        it.failed = it.ctx.choose(('cleanup fails',), [False, True])
        return io('PermissionDenied', 'cleanup') if it.failed else ok_(Tup([it.ctx.choose(('empty',), [False, True]), Term('stats', (), Ty(SVC + 'caching::cleanup::CleanupStats'))]))

    def setup1(it):
        it.cleaned, it.failed = [], False
    c.product('one cache', CACHE + '::cleanup', one, setup=setup1, given=lambda it: {'dry_run': it.ctx.choose(('dry run',), [True, False])}, opaque={'Cache::cleanup_directory_recursive': rec}, floor=6)

    # all caches are cleaned up, whatever happens to the others
    names = [f['name'] for f in c.w.type(SVC + 'caching::Caches').node['fields']]
    c.floor('caches', len(names), 12)

    def cleanup1(it, a):
        v = it.freeze(deref(a[0]))
        it.cleaned.append((v.args[0] if isinstance(v, Term) and v.op == 'cache' else show(v), deref(a[1])))
        return io('PermissionDenied', 'cleanup') if it.failing in (it.cleaned[-1][0], 'all') else ok_()

    def setup2(it):
        it.cleaned = []
        it.failing = it.ctx.choose(('failing cache',), [None, 'all'] + names)

    def every(it, a, out):
        if out.panic:
            return 'panic', out.panic
        res, dry = it.force(out.value), a[1]
        got = sorted(n for n, _ in it.cleaned)
        msgs = []
        if got != sorted(names):
            diff = sorted(set(names) ^ set(got)) or got
            msgs.append(('every cache', f'{diff[0]} is not cleaned up exactly once when {it.failing or "nothing"} fails'))
        if any(d is not dry for _, d in it.cleaned):
            msgs.append(('simulation', 'the caches are not cleaned up as a simulation when one was asked for, or the other way round'))
        if (res.variant == 'Err') != (it.failing is not None):
            msgs.append(('errors', f'the result is {res.variant} when {it.failing or "nothing"} fails'))
        return msgs
    caches = lambda it: Struct(SVC + 'caching::Caches', {n: Term('cache', (n,), Ty(CACHE)) for n in names})
    c.product('all caches', SVC + 'caching::Caches::cleanup', every, setup=setup2, given=lambda it: {'self': caches(it), 'dry_run': it.ctx.choose(('dry run',), [True, False])},
              models=models(), mmodels=MM, opaque={'Cache::cleanup': cleanup1}, floor=20)

    # the command passes its flag on, and cleans up the configured caches
    def command(it, a, out):
        if out.panic:
            return 'panic', out.panic
        res = it.force(out.value)
        if res.variant == 'Ok' and [x is a[1] for x in it.cleaned] != [True]:
            return 'simulation', f'the caches are cleaned up {len(it.cleaned)} times, or not as a simulation when one was asked for'

    def clean(it, a):
        it.cleaned.append(deref(a[1]))
        return ok_()
    c.product('command', SVC + 'caching::cleanup::cleanup', command, setup=setup1, given=lambda it: {'dry_run': it.ctx.choose(('dry run',), [True, False])},
              opaque={'Caches::cleanup': clean, 'Caches::from_config': lambda it, a: it.force(Term('caches', (), Ty('Result', Ty(SVC + 'caching::Caches'), E_IO)))}, floor=2)

    # on startup, only the directory for temporary files is emptied
    def tmp(it, a, out):
        if out.panic:
            return 'panic', out.panic
        dirs = {p for op, p, r in it.tree.log if op in ('rmtree', 'remove', 'rmdir', 'rename', 'create', 'write')}
        if dirs - {'"tmp dir"'}:
            return 'temporary files', f'{sorted(dirs - {chr(34) + "tmp dir" + chr(34)})[0]} is removed'

    def cache_dir(it, a):
        n = it.ctx.sstr(deref(a[1]))
        return it.force(some(S(n, ' dir'))) if it.ctx.choose(('caching',), [True, False]) else none()
    c.product('temporary files', SVC + 'caching::Caches::clear_tmp', tmp, setup=setup, models=models(), mmodels={**MM, 'exists': lambda it, r, a: it.ctx.choose(('exists', pth(it, r)), [True, False])},
              given=lambda it: {'self': caches(it)}, opaque={'Config::cache_dir': cache_dir}, floor=3)
