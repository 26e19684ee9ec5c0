"""C12: writes to the shared cache: first write wins, bounded, complete."""
from .util import *
from .keys import struct_of
from .download import STATUS, status, T_REQ
from engine.std import m as method
from engine.dom import Future, RustPanic
from engine.interp import Infeasible, Span
from engine.ext import E_IO

SC = 'symbolicator_service::caching::shared_cache::'
SCE = SC + 'CacheError'
RES = SC + 'SharedCacheStoreResult'
SEC = 10 ** 9
KEY = lambda: Str((Term('plain', ('key',), T_STR),))


def text(it, v):
    return show(it.freeze(it.ctx.sstr(deref(v)))).strip('"')


# ------------------------------------------------------------------ HTTP
for _n in ('get', 'post', 'put', 'head', 'delete'):
    method('gcs client', _n)(lambda c: Native('gcs request', method=c.name, url=deref(c.args[0]), auth=None, body=None))


@method('gcs request', 'bearer_auth')
def _(c):
    c.v.auth = text(c.it, c.args[0])
    return c.v


@method('gcs request', 'body')
def _(c):
    c.v.body = deref(c.args[0])
    return c.v


@method('gcs request', 'send')
def _(c):
    it, r = c.it, c.v

    def run():
        n = len(it.sent)
        it.sent.append(r)
        r.timers = list(it.ctx.timers)
        r.s = it.ctx.choose(('answer', r.method), ['error'] + list(STATUS))
        return err(Term('http error', (n,), T_REQ)) if r.s == 'error' else ok(Native('gcs response', s=r.s))
    return Future(run)


method('gcs response', 'status')(lambda c: status(c.v.s))
method('gcs response', 'bytes', 'text')(lambda c: Future(lambda: ok(Term('answer', (), Ty('Bytes')))))
method('gcs url', 'clone')(lambda c: Native('gcs url', kind_='x', base=c.v.base, segs=list(c.v.segs), query=list(c.v.query)))
method('gcs url', 'path_segments_mut')(lambda c: ok(Native('gcs segments', url=c.v)))
method('gcs url', 'query_pairs_mut')(lambda c: Native('gcs query', url=c.v))


@method('gcs segments', 'extend')
def _(c):
    c.v.url.segs += [text(c.it, x) for x in items(c.it, c.args[0])]
    return c.v


@method('gcs segments', 'push')
def _(c):
    c.v.url.segs.append(text(c.it, c.args[0]))
    return c.v


@method('gcs query', 'append_pair')
def _(c):
    c.v.url.query.append((text(c.it, c.args[0]), text(c.it, c.args[1])))
    return c.v


def parse_url(it, a):
    s = text(it, a[0])
    base, _, q = s.partition('?')
    return ok(Native('gcs url', base=base, segs=[], query=[tuple(x.split('=')) for x in q.split('&') if x]))


def wrap(it, r, a):
    """anyhow's context keeps the error it is put on."""
    v = it.force(deref(r))
    if getattr(v, 'variant', None) == 'Err':
        return err(Native('wrapped error', of=deref(v.fields[0])))
    if getattr(v, 'variant', None) == 'None':
        return err(Term('anyhow', (), Ty('anyhow')))
    return v


def downcast(it, r, a):
    v = deref(r)
    if isinstance(v, Native) and v.kind == 'wrapped error':
        x = it.force(v.of)
        if isinstance(x, Enum) and x.ty == SCE:
            return some(it.std.temp_ref(x))
    return none()


def outcome(it, v):
    """(result, error variant) of Result<_, CacheError>"""
    r = it.force(v)
    if r.variant == 'Ok':
        return it.force(deref(r.fields[0])), None
    e = it.force(deref(r.fields[0]))
    return None, e.variant if isinstance(e, Enum) else 'Other'


COMMON = dict(
    models={'Url::parse': parse_url, 'ReaderStream::new': lambda it, a: a[0], 'Cursor::new': lambda it, a: a[0], 'io::Cursor::new': lambda it, a: a[0],
            'Body::wrap_stream': lambda it, a: Native('upload body', of=deref(a[0])), 'Body::from': lambda it, a: Native('upload body', of=deref(a[0]))},
    mmodels={'context': wrap, 'with_context': wrap, 'downcast_ref': downcast, 'is_timeout': lambda it, r, a: it.ctx.choose(('reqwest timeout',), [True, False])})


def token(it, a):
    def run():
        it.token = it.ctx.choose(('token',), [True, False])
        return ok(Native('token')) if it.token else err(Term('anyhow', (), Ty('anyhow')))
    return Future(run)


method('token', 'as_str')(lambda c: Str('secret'))


def c12(c):
    c.section('exists', lambda: exists(c))
    c.section('store', lambda: store(c))
    c.section('file system', lambda: fs_store(c))
    c.section('worker', lambda: worker(c))
    c.section('queue', lambda: queue(c))
    c.section('start', lambda: start(c))


def state(c, it):
    cfg = Struct(SC + 'config::GcsSharedCacheConfig', {'bucket': Str((Term('plain', ('bucket',), T_STR),)), 'service_account_path': none()})
    return struct_of(c, it, SC + 'GcsState', config=cfg, client=Native('gcs client'))


def name_of(c, it):
    f = c.w.fn(SC + 'GcsState::store')
    return Enum(it.ty(f.node['params'][0]['ty'], it.impl_frame(f, None))[0], 'Symcaches', [])


def setup(it):
    it.sent, it.token, it.asked, it.timeouts = [], None, 0, []


OURL = lambda it, a: (ok(Native('gcs url', base='object', segs=[text(it, a[0]), text(it, a[1])], query=[])) if it.ctx.choose(('object url',), [True, False])
                      else err(Enum('symbolicator_service::utils::gcs::GcsError', 'InvalidUrl', [])))


def elapsed(it):
    return any(k[0] == 'elapsed' and v is True for k, v in it.ctx.path if isinstance(k, tuple))


def exists(c):
    def spec(it, a, out):
        if out.panic:
            return 'panic', f'asking for an item panics: {out.panic}'
        r, e = (None, None)
        v = it.force(out.value)
        r = deref(v.fields[0]) if v.variant == 'Ok' else None
        if it.token is False and (it.sent or v.variant == 'Ok'):
            return 'token', 'a request is made without a token'
        for q in it.sent:
            if q.method not in ('get', 'head') or q.auth != 'secret' or q.url.base != 'object' or q.url.query:
                return 'request', f'an item is looked for with {q.method} {q.url.base} {q.url.query}'
            if not q.timers or min(q.timers) > 500 * 10 ** 6:
                return 'time', f'looking for an item takes up to {q.timers}'
            if q.url.segs != [show(Term('plain', ('bucket',), T_STR)), show(Term('plain', ('key',), T_STR))] and q.url.segs != ['{plain(bucket)}', '{plain(key)}'] and not ('bucket' in q.url.segs[0] and 'key' in q.url.segs[1]):
                return 'request', f'looked for is {q.url.segs}'
        if len(it.sent) > 1:
            return 'request', 'an item is looked for twice'
        s = it.sent[0].s if it.sent and not elapsed(it) else None
        want = True if s == 'OK' else False if s == 'NOT_FOUND' else None
        if r is not want:
            return ('answer', f'the server answers {s}: {show(v)[:80]}')
        return None
    c.product('an item exists only if the server says so', SC + 'GcsState::exists', spec, floor=60, setup=setup,
              given=lambda it: {'self': state(c, it), 0: name_of(c, it), 1: KEY()}, opaque={'GcsState::get_token': token, 'object_url': OURL}, **COMMON)


def store(c):
    def found(it, a):
        def run():
            it.asked += 1
            it.there = it.ctx.choose(('exists',), ['yes', 'no', 'connect timeout', 'other'])
            it.key_asked = text(it, a[2])
            return ok(it.there == 'yes') if it.there in ('yes', 'no') else err(Enum(SCE, 'ConnectTimeout' if it.there == 'connect timeout' else 'Other', [] if it.there == 'connect timeout' else [Term('anyhow', (), Ty('anyhow'))]))
        return Future(run)

    def given(it):
        it.there = None
        it.reason = it.ctx.choose(('reason',), ['New', 'Refresh'])
        return {'self': state(c, it), 0: name_of(c, it), 1: KEY(), 2: Term('item', (), Ty('ByteView')), 3: Enum(SC + 'CacheStoreReason', it.reason, [])}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'storing an item panics: {out.panic}'
        r, e = outcome(it, out.value)
        if it.there == 'yes':
            return ('again', 'an item that is there already is uploaded again') if it.sent else None if r is not None and r.variant == 'Skipped' else ('result', f'{show(out.value)[:80]} for an item that is there already')
        if it.token is False:
            return ('token', 'an item is uploaded without a token') if it.sent or r is not None else None
        if it.token is None:
            return 'not tried', 'a new item is not uploaded'
        if not it.sent and elapsed(it):
            return ('result', f'an upload that takes too long is reported as {r.variant}') if r is not None else None
        if len(it.sent) != 1:
            return 'uploads', f'an item is uploaded {len(it.sent)} times'
        q = it.sent[0]
        u = q.url
        if q.auth != 'secret':
            return 'token', 'an item is uploaded without the token'
        if q.method != 'post' or u.base != 'https://storage.googleapis.com/upload/storage/v1/b' or u.segs[1:] != ['o'] or 'bucket' not in u.segs[0]:
            return 'location', f'an item is uploaded with {q.method} to {u.base} {u.segs}'
        qs = dict(u.query)
        if qs.get('uploadType') != 'media' or 'key' not in qs.get('name', ''):
            return 'location', f'an item is uploaded as {u.query}'
        if qs.get('ifGenerationMatch') != '0':
            return 'overwrite', 'an upload overwrites the item of another instance'
        if not (isinstance(q.body, Native) and q.body.kind == 'upload body' and 'item' in show(it.freeze(q.body.of))):
            return 'content', f'uploaded is {q.body}'
        if not q.timers or min(q.timers) > 60 * SEC:
            return 'time', f'an upload takes up to {q.timers}'
        if elapsed(it) or q.s == 'error':
            return ('result', f'an upload that failed is reported as {r.variant}') if r is not None else None
        want = 'Written' if STATUS[q.s] // 100 == 2 else 'Skipped' if q.s == 'PRECONDITION_FAILED' else None
        got = r.variant if r is not None else None
        if got != want:
            return 'result', f'the server answers {q.s} to an upload: {got}'
        if got == 'Written' and 'item' not in show(it.freeze(deref(r.fields[0]))):
            return 'size', f'{show(r)} bytes are reported as written'
        return None
    c.product('an upload never replaces an item and reports what happened', SC + 'GcsState::store', spec, floor=250, setup=setup, given=given,
              opaque={'GcsState::get_token': token, 'GcsState::exists': found, 'measure_download_time': lambda it, a: a[2]}, **COMMON)


# ------------------------------------------------------------------ the file system backend
def fs_store(c):
    E = lambda k: err(Term('io::Error::new', (Term('ErrorKind::PermissionDenied', (), Ty('ErrorKind')), Str(k)), E_IO))

    def step(it, k, v=UNIT):
        good = it.ctx.choose((k,), [True, False])
        it.fails += not good
        it.ops.append((k, good))
        return ok(v) if good else E(k)

    def su(it):
        it.ops, it.fails, it.paths = [], 0, []

    def there(it, *a):
        it.there = it.ctx.choose(('item is there',), [True, False])
        return it.there

    def mkdir(it, a):
        p = text(it, a[0])
        return Future(lambda: step(it, 'create_dir_all ' + ('.tmp' if '.tmp' in p else 'parent')))

    def temp(it, a):
        it.paths.append(text(it, a[0]))
        return step(it, 'tempfile', Native('shared tmp'))

    def copy(it, a):
        it.copied = (show(it.freeze(deref(a[0]))), getattr(deref(a[1]), 'kind', None))
        return Future(lambda: step(it, 'copy', Term('bytes copied', (), Ty('u64'))))

    method('shared tmp', 'reopen')(lambda c2: step(c2.it, 'reopen', Native('shared tmp handle')))
    method('shared tmp', 'as_file', 'as_file_mut')(lambda c2: Native('shared tmp handle'))
    for n in ('flush', 'sync_all', 'shutdown', 'sync_data'):
        method('shared tmp handle', n)(lambda c2, n=n: Future(lambda: step(c2.it, n)))

    def persist(c2):
        c2.it.paths.append(text(c2.it, c2.args[0]))
        c2.it.ops.append(('publish', True))
        r = step(c2.it, 'persist', UNIT)
        return r if r.variant == 'Ok' else err(Struct('PersistError', {'file': c2.v, 'error': deref(r.fields[0])}))
    method('shared tmp', 'persist', 'persist_noclobber')(persist)

    def given(it):
        it.there, it.copied = None, None
        slf = Struct(SC + 'config::FilesystemSharedCacheConfig', {'path': Str((Term('plain', ('base',), T_STR),))})
        return {'self': slf, 0: KEY(), 1: Term('item', (), Ty('ByteView'))}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'storing an item panics: {out.panic}'
        r, e = outcome(it, out.value)
        done = [k for k, _ in it.ops]
        if it.there:
            return ('overwrite', 'an item that is there is written again') if 'publish' in done else None if r is not None and r.variant == 'Skipped' else ('result', f'{show(out.value)[:60]} for an item that is there already')
        if (r is None) != bool(it.fails):
            return 'result', f'{it.ops} is reported as {show(out.value)[:60]}'
        if 'publish' in done:
            if it.there is None:
                return 'overwrite', 'an item is published without looking whether it is there'
            if ('copy', True) not in it.ops or done.index('copy') > done.index('publish') or any(not g for k, g in it.ops if k not in ('persist', 'publish')):
                return 'partial', f'published after {it.ops}'
            if 'item' not in it.copied[0] or it.copied[1] != 'shared tmp handle':
                return 'content', f'copied is {it.copied}'
            if not ('base' in it.paths[-1] and 'key' in it.paths[-1]) or '.tmp' in it.paths[-1]:
                return 'location', f'published is {it.paths[-1]}'
        if r is not None and (r.variant != 'Written' or 'publish' not in done or 'bytes copied' not in show(it.freeze(deref(r.fields[0])))):
            return 'result', f'{it.ops} is reported as {show(r)[:80]}'
        return None
    c.product('files are stored in one step, only if not there', SC + 'FilesystemSharedCacheConfig::store', spec, floor=8, setup=su, given=given,
              models={'fs::create_dir_all': mkdir, 'tokio::fs::create_dir_all': mkdir, 'create_dir_all': mkdir, 'NamedTempFile::new_in': temp, 'io::copy': copy,
                      'File::from_std': lambda it, a: a[0], 'fs::File::from_std': lambda it, a: a[0]},
              mmodels={'exists': there, 'context': wrap})


# ------------------------------------------------------------------ the worker
def worker(c):
    MAX = 2
    STEPS = 6 if c.tier == 'quick' else 8

    def su(it):
        it.started, it.flying, it.steps, it.msgs, it.over, it.idle = [], 0, 0, 0, False, []
        it.select_hook = lambda on: it.idle.append((tuple(on), it.flying))

    @method('work queue', 'recv')
    def _(c2):
        it = c2.it

        def run():
            it.steps += 1
            if it.closed:
                return none()
            m = it.ctx.choose(('work', it.steps), ['message', 'closed'] if it.steps <= STEPS else ['closed'])
            if m == 'closed':
                it.closed = True
                return none()
            it.msgs += 1
            return some(Native('message', n=it.msgs))
        return Future(run)

    @method('done queue', 'recv')
    def _(c2):
        it = c2.it

        def run():
            it.steps += 1
            if not it.flying:
                # nothing can be reported: the queue stays silent for as long as the worker owns a sender
                if not it.closed:
                    raise Infeasible()
                return none()
            it.flying -= 1
            return some(UNIT)
        return Future(run)

    method('done sender', 'clone')(lambda c2: c2.v)

    def upload(it, a):
        m = next((deref(x) for x in a if getattr(deref(x), 'kind', None) == 'message'), None)
        tx = any(getattr(deref(x), 'kind', None) == 'done sender' for x in a)
        be = any(getattr(deref(x), 'kind', None) == 'backend' for x in a)
        return Native('upload', m=m, ok_=tx and be, await_=lambda: UNIT)

    method('upload', 'bind_hub', 'boxed', 'instrument', 'in_current_span')(lambda c2: c2.v)

    def spawn(it, a):
        u = deref(a[0])
        if isinstance(u, Native) and u.kind == 'upload':
            it.flying += 1
            it.over |= it.flying > MAX
            it.started.append((u.m.n if u.m else None, u.ok_))
        return Native('join handle')

    def given(it):
        it.closed = False
        return {0: Native('work queue'), 1: Native('backend'), 2: MAX}

    method('backend', 'clone')(lambda c2: c2.v)

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'the worker panics: {out.panic}'
        if it.over:
            return 'too many', f'more than {MAX} uploads run at once'
        if [n for n, _ in it.started] != list(range(1, it.msgs + 1)):
            return 'lost', f'of {it.msgs} messages these are uploaded: {it.started}'
        if not all(k for _, k in it.started):
            return 'wiring', 'an upload is started without the channel of the worker or its backend'
        for on, flying in it.idle:
            if flying < MAX and not (len(on) == 2):
                return 'stuck', f'with {flying} of {MAX} uploads running the worker waits for none to start or to end'
        if not it.closed:
            return 'ended', 'the worker ends before the queue is closed'
        return None
    ch = lambda it, a: Tup([Native('done sender'), Native('done queue')])
    c.product('uploads are bounded and none is lost', SC + 'SharedCacheService::upload_worker', spec, floor=20, setup=su, given=given, boundloop=40, opaque={'SharedCacheService::single_uploader': upload},
              models={'mpsc::channel': ch, 'tokio::sync::mpsc::channel': ch, 'tokio::spawn': spawn, 'task::spawn': spawn, 'spawn': spawn})


# ------------------------------------------------------------------ the queue
def queue(c):
    f = c.w.fn(SC + 'SharedCacheService::store')
    rule_async = not f.node.get('async')
    c.rule('storing never waits', rule_async, 'SharedCacheService::store waits', f.id)

    def su(it):
        it.sends, it.done = [], []

    def try_send(it, r, a):
        it.sends.append(deref(a[0]))
        it.room = it.ctx.choose(('queue',), ['room', 'full', 'closed'])
        return ok(UNIT) if it.room == 'room' else err(Term('TrySendError', (), Ty('Error')))

    def blocking(it, r, a):
        it.done.append('waits')
        return ok(UNIT)

    def given(it):
        it.room = None
        it.reason = it.ctx.choose(('reason',), ['New', 'Refresh'])
        slf = struct_of(c, it, SC + 'SharedCacheService', upload_queue_tx=Native('upload queue'))
        return {'self': slf, 0: name_of(c, it), 1: KEY(), 2: Term('item', (), Ty('ByteView')), 3: Enum(SC + 'CacheStoreReason', it.reason, [])}

    method('completion sender', 'send')(lambda c2: c2.it.done.append('done') or ok(UNIT))
    method('upload queue', 'try_send')(lambda c2: try_send(c2.it, c2.v, c2.args))
    method('upload queue', 'blocking_send')(lambda c2: blocking(c2.it, c2.v, c2.args))
    method('upload queue', 'capacity', 'max_capacity')(lambda c2: Term('capacity', (), Ty('usize')))

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'storing panics when the queue is {it.room}: {out.panic}'
        if 'waits' in it.done:
            return 'waits', 'storing waits for room in the queue'
        if it.reason == 'New' and len(it.sends) != 1:
            return 'not queued', 'a new item is not queued'
        if len(it.sends) + it.done.count('done') != 1:
            return 'completion', f'queued {len(it.sends)} times, completion signalled {it.done.count("done")} times'
        if getattr(deref(out.value), 'kind', None) != 'completion receiver':
            return 'completion', 'the caller does not get the completion of its own item'
        for m in it.sends:
            if getattr(deref(it.field(m, 'done_tx')), 'kind', None) != 'completion sender':
                return 'completion', 'the completion of an item is not signalled to its submitter'
            if it.force(it.field(m, 'cache')).variant != 'Symcaches':
                return 'cache', 'the item of another cache'
        return None
    ch = lambda it, a: Tup([Native('completion sender'), Native('completion receiver')])
    c.product('storing never waits and ends its item', SC + 'SharedCacheService::store', spec, floor=5, setup=su, given=given,
              models={'oneshot::channel': ch, 'tokio::sync::oneshot::channel': ch, 'rand::random': lambda it, a: it.ctx.choose(('random',), [0.0, 1.0]), 'random': lambda it, a: it.ctx.choose(('random',), [0.0, 1.0])})

    # the end of an upload
    def su2(it):
        it.log = []

    def bstore(it, a):
        def run():
            it.log.append('stored')
            it.res = it.ctx.choose(('upload',), ['Written', 'Skipped', 'ConnectTimeout', 'Timeout', 'Other'])
            if it.res in ('Written', 'Skipped'):
                return ok(Enum(RES, it.res, [Term('bytes', (), Ty('u64'))] if it.res == 'Written' else []))
            return err(Enum(SCE, it.res, [Term('anyhow', (), Ty('anyhow'))] if it.res == 'Other' else []))
        return Future(run)

    def slot(c2):
        def run():
            c2.it.log.append('slot freed')
            return ok(UNIT) if c2.it.ctx.choose(('worker',), ['alive', 'gone']) == 'alive' else err(Term('SendError', (), Ty('Error')))
        return Future(run)
    method('slot sender', 'send')(slot)

    @method('item done', 'send')
    def _(c2):
        c2.it.log.append('done')
        return ok(UNIT) if c2.it.ctx.choose(('submitter',), ['waits', 'gone']) == 'waits' else err(UNIT)

    def given2(it):
        msg = struct_of(c, it, SC + 'UploadMessage', cache=name_of(c, it), key=KEY(), content=Term('item', (), Ty('ByteView')), done_tx=Native('item done'))
        return {'done_tx': Native('slot sender'), 'message': msg}

    def spec2(it, a, out):
        if out.panic:
            return 'panic', f'an upload panics: {out.panic}'
        if it.log.count('stored') != 1:
            return 'stored', f'an item is stored {it.log.count("stored")} times'
        if it.log.count('slot freed') != 1:
            return 'slot', f'an upload frees {it.log.count("slot freed")} slots'
        if it.log.count('done') != 1:
            return 'completion', f'completion is signalled {it.log.count("done")} times'
        return ('early', f'{it.log}') if it.log[0] != 'stored' else None
    c.product('an upload ends by freeing its slot and signalling', SC + 'SharedCacheService::single_uploader', spec2, floor=20, setup=su2, given=given2,
              opaque={'GcsState::store': bstore, 'FilesystemSharedCacheConfig::store': bstore})


# ------------------------------------------------------------------ starting
def start(c):
    def su(it):
        it.set, it.spawned, it.chan, it.inits = [], [], [], []

    def channel(it, a):
        it.chan.append(deref(a[0]))
        return Tup([Native('queue tx'), Native('queue rx')])

    def maybe(it, a):
        def run():
            it.back = it.ctx.choose(('backend',), [True, False])
            return some(Native('backend')) if it.back else none()
        return Future(run)

    def wk(it, a):
        return Native('worker', a=[deref(x) for x in a], await_=lambda: UNIT)
    method('worker', 'bind_hub', 'boxed', 'instrument', 'in_current_span')(lambda c2: c2.v)

    def spawn(it, a):
        it.spawned.append(deref(a[0]))
        return Native('join handle')
    method('cell', 'set')(lambda c2: c2.it.set.append(deref(c2.args[0])) or ok(UNIT))
    method('cell', 'clone')(lambda c2: c2.v)

    def conf(c, it):
        return struct_of(c, it, SC + 'config::SharedCacheConfig', max_concurrent_uploads=7, max_upload_queue_size=11)

    def given(it):
        it.back = None
        return {0: Native('runtime handle'), 1: Native('cell'), 2: conf(c, it)}

    def spec(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        if not it.back:
            return ('no backend', 'the shared cache is enabled without a backend') if it.set or it.spawned else None
        if len(it.set) != 1 or len(it.spawned) != 1:
            return 'enabled', f'{len(it.set)} services with {len(it.spawned)} workers'
        w = it.spawned[0].a
        if it.chan != [11]:
            return 'queue size', f'the queue has room for {it.chan}'
        if [getattr(x, 'kind', x) for x in w] != ['queue rx', 'backend', 7]:
            return 'worker', f'the worker gets {[getattr(x, "kind", x) for x in w]}'
        if getattr(deref(it.field(it.set[0], 'upload_queue_tx')), 'kind', None) != 'queue tx' or getattr(deref(it.field(it.set[0], 'backend')), 'kind', None) != 'backend':
            return 'service', 'the service does not use the queue or backend of the worker'
        return None
    c.product('the service starts with its limits', SC + 'SharedCacheService::init', spec, floor=2, setup=su, given=given,
              opaque={'SharedCacheBackend::maybe_new': maybe, 'SharedCacheService::upload_worker': wk},
              models={'mpsc::channel': channel, 'tokio::sync::mpsc::channel': channel, 'tokio::spawn': spawn, 'task::spawn': spawn, 'spawn': spawn})

    # only when configured
    def init(it, a):
        it.inits.append([deref(x) for x in a])
        return Future(lambda: UNIT)
    method('runtime handle', 'clone')(lambda c2: c2.v)
    method('runtime handle', 'spawn')(lambda c2: (c2.it.await_value(c2.args[0]), Native('join handle'))[1])

    def given2(it):
        it.on = it.ctx.choose(('configured',), [True, False])
        return {0: some(conf(c, it)) if it.on else none(), 1: Native('runtime handle')}
    c.product('the service is started exactly if configured', SC + 'SharedCacheService::new',
              lambda it, a, out: None if not out.panic and len(it.inits) == it.on else ('started', f'configured: {it.on}, started {len(it.inits)} times'),
              floor=2, setup=su, given=given2, opaque={'SharedCacheService::init': init}, models={'SharedCacheRef::default': lambda it, a: Native('cell')})

    # backends
    def try_new(it, a):
        it.cfg = deref(a[0])

        def run():
            return ok(Native('gcs state')) if it.ctx.choose(('gcs starts',), [True, False]) else err(Term('anyhow', (), Ty('anyhow')))
        return Future(run)

    def given3(it):
        it.cfg = None
        it.which = it.ctx.choose(('which',), ['Gcs', 'Filesystem'])
        it.inner = struct_of(c, it, SC + 'config::' + it.which + 'SharedCacheConfig')
        return {0: Enum(SC + 'config::SharedCacheBackendConfig', it.which, [it.inner])}

    def spec3(it, a, out):
        if out.panic:
            return 'panic', f'{out.panic}'
        r = it.force(out.value)
        if it.which == 'Gcs':
            good = it.ctx.known(('gcs starts',))
            b = deref(r.fields[0]) if r.variant == 'Some' else None
            return None if (b is not None) == good and (b is None or b.variant == 'Gcs') else ('backend', f'the GCS backend starts: {good}; {show(r)[:60]}')
        return None if r.variant == 'Some' and deref(r.fields[0]).variant == 'Fs' else ('backend', f'{show(r)[:60]} for files')
    c.product('the configured backend is used', SC + 'SharedCacheBackend::maybe_new', spec3, floor=3, setup=su, given=given3, opaque={'GcsState::try_new': try_new})

    # authentication
    def su4(it):
        it.now, it.tries, it.slept, it.late = 0, 0, 0, 0

    def clock(it):
        """Any time may pass between two looks at the clock."""
        n = it.ctx.counter['clock'] = it.ctx.counter.get('clock', 0) + 1
        if n > 6:
            raise Infeasible()          # three attempts show it
        it.now += it.ctx.choose(('time passes', n), [SEC, 61 * SEC])
        return Span(it.now)
    method('start', 'elapsed')(lambda c2: clock(c2.it))

    def provider(it, a):
        def run():
            it.tries += 1
            it.late += it.now > 60 * SEC
            if it.late > 1:
                raise RustPanic('it never gives up')
            it.res = it.ctx.choose(('provider', it.tries), [True, False])
            return ok(Native('token provider')) if it.res else err(Term('gcp error', (), Ty('gcp_auth::Error')))
        return Future(run)

    def from_file(it, a):
        it.res = it.ctx.choose(('account file',), [True, False])
        return ok(Native('token provider')) if it.res else err(Term('gcp error', (), Ty('gcp_auth::Error')))

    def sleep(it, a):
        it.slept += 1
        return Future(lambda: UNIT)

    def given4(it):
        it.res = None
        it.file = it.ctx.choose(('account',), [True, False])
        return {0: Struct(SC + 'config::GcsSharedCacheConfig', {'bucket': KEY(), 'service_account_path': some(Str('account.json')) if it.file else none()})}

    def spec4(it, a, out):
        if out.panic:
            return 'panic', f'starting the GCS backend panics: {out.panic}'
        r = it.force(out.value)
        late = elapsed(it)
        if r.variant == 'Ok':
            return None if it.res else ('token', 'the backend starts without credentials')
        if it.res and not late:
            return 'gives up', 'the backend does not start although there are credentials'
        if not it.file and it.now <= 60 * SEC:
            return 'gives up', f'the backend gives up after {it.now // SEC} s'
        return None
    c.product('credentials are awaited, for a limited time', SC + 'GcsState::try_new', spec4, floor=6, setup=su4, given=given4, boundloop=4,
              models={'Instant::now': lambda it, a: Native('start'), 'gcp_auth::provider': provider, 'provider': provider, 'CustomServiceAccount::from_file': from_file, 'tokio::time::sleep': sleep, 'time::sleep': sleep, 'sleep': sleep,
                      'Client::new': lambda it, a: Native('gcs client')},
              mmodels={'downcast_ref': lambda it, r, a: none(), 'context': wrap})
